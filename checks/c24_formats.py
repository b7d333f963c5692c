"""C24: format strings agree with their arguments, C16 link: error message templates."""
import re
from common import *
from ir import Function

PRINTF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'vprintf': None}
CONV = re.compile(r'%([-+ #0\']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|L|q|j|z|t)?(.)', re.S)


def conversions(s):
    """list of argument classes a template consumes; None if malformed"""
    out = []
    for fl, w, pr, ln, cv in CONV.findall(s):
        if cv == '%':
            continue
        if w == '*':
            out.append(('i32', '*'))
        if pr == '*':
            out.append(('i32', '.*'))
        if cv in 'diuxXoc':
            out.append(('i64' if ln in ('l', 'll', 'q', 'j', 'z', 't') else 'i32', '%' + ln + cv))
        elif cv in 'fFeEgGaA':
            out.append(('double', '%' + cv))
        elif cv in 'sp':
            out.append(('ptr', '%' + cv))
        elif cv == 'n':
            out.append(('ptr', '%n'))
        else:
            return None
    if s.replace('%%', '').endswith('%'):
        return None
    return out


def argtype(p, f, o):
    if isinstance(o, int):
        return f.args[o][1] if o < len(f.args) else f.insts[o].type
    if o[0] == 'i':
        return 'i%d' % o[2]
    if o[0] in ('g', 'n', 'f') and o[0] != 'f':
        return 'ptr'
    if o[0] == 'e':
        return 'ptr' if o[1] in ('getelementptr', 'inttoptr', 'bitcast') else 'i64'
    if o[0] == 'u':
        return 'any'
    return 'double'


def init_string(p, A, f, o):
    """the constant text a template operand denotes, or None"""
    s = p.string(o)
    if s is not None:
        return s
    d = f.defn(o)
    if d is not None and d.op == 'load':
        a = f.expr(d.ops[0])
        if a[0] == 'g' and a[1] in A.constglobals:
            it = p.globals[a[1]]['init']
            return p.string(tuple(it))
    if isinstance(o, tuple) and o and o[0] == 'e' and o[1] == 'getelementptr':
        return None
    return None


def phis(f, o, seen=None):
    """the alternatives a value can come from through phi and select"""
    seen = seen if seen is not None else set()
    d = f.defn(o)
    if d is not None and d.op in ('phi', 'select'):
        if o in seen:
            return
        seen.add(o)
        for x in (Function.operands(d) if d.op == 'phi' else d.ops[1:]):
            yield from phis(f, x, seen)
    else:
        yield o


def match(want, got):
    """first disagreement between a template and an argument list, or None"""
    for k, (t, c) in enumerate(want):
        if c == '%n':
            return 'uses %n'
        if k >= len(got):
            return 'needs %d arguments, %d given' % (len(want), len(got))
        if got[k] not in (t, 'any'):
            return 'argument %d for %s has type %s' % (k + 1, c, got[k])
    return None


def templates(c):
    """error code -> message template, from the message table"""
    p = c.prog
    g = next((g for g in p.globals if g == 'errorMess' or g.startswith('errorMess.')), None)
    if g is None:
        raise Broken('error message table errorMess not found')
    it = p.globals[g]['init']
    return [p.string(tuple(x)) for x in it[1]]


class Reach(flow.NullClient):
    """which of the given calls are reached, with the code each template was made for"""
    def __init__(self, hits, mess):
        self.hits = hits
        self.mess = mess

    def inst(self, R, st, env, i):
        if i.op == 'call' and i.callee == 'zerrorMessage':
            e = R.itv(env, i.ops[3])
            self.hits.setdefault(('mess', i.id), set()).add(e[0] if e[0] == e[1] else None)
        if i.op == 'call' and i.callee in PRINTF:
            self.hits.setdefault(i.id, set()).add(1)
        return None


def body(c):
    p, A = c.prog, c.A
    var = []
    for f in p.fns.values():
        for i in f.all():
            if i.op != 'call' or i.callee not in PRINTF:
                continue
            k = PRINTF[i.callee]
            if k is None:
                c.bad('%s:%s' % (f.name, i.callee), f.where(i), 'cannot be checked')
                continue
            for alt in phis(f, i.ops[k]):
                s = init_string(p, A, f, alt)
                if s is None:
                    var.append((f, i, alt))
                    continue
                w = conversions(s)
                got = [argtype(p, f, o) for o in i.ops[k + 1:]]
                c.ok('call with constant template', f.where(i))
                m = 'malformed conversion' if w is None else match(w, got)
                if m:
                    c.bad('%s:"%s"' % (f.name, s[:40]), f.where(i), '%s: template "%s" %s' % (i.callee, s[:80], m))
    # templates that come from the error message table
    T = templates(c)
    zp = c.fn('zerrorProcessing')
    c.fn('zerrorMessage')
    for f, i, alt in var:
        if f.name != 'zerrorProcessing':
            c.bad('%s:nonconstant' % f.name, f.where(i), 'the template of %s is not a constant' % i.callee)
    an = [k for k, a in enumerate(zp.args) if a[0] == 'errorNumber']
    an = an[0] if an else 2
    mine = [(i, alt) for f, i, alt in var if f.name == 'zerrorProcessing']
    if not mine:
        raise Broken('zerrorProcessing formats no message from the message table')
    for code in range(len(T)):
        if T[code] is None:
            c.bad('message:%d' % code, 'errorMess', 'error code %d has no message' % code)
            continue
        hits = {}
        env = flow.Env()
        env.v[an] = (code, code, code != 0)
        flow.Runner(A, zp, Reach(hits, T), maxenv=4).run(env)
        c.ok('error code', 'code %d' % code)
        for i, alt in mine:
            if i.id not in hits:
                continue
            d = zp.defn(zp.strip(alt))
            if d is None or d.op != 'call' or d.callee != 'zerrorMessage':
                c.bad('zerrorProcessing:nonconstant', zp.where(i), 'the template of %s comes neither from a constant nor from the message table' % i.callee)
                continue
            for m in hits.get(('mess', d.id), ()):
                if m is None or not 0 <= m < len(T):
                    c.bad('zerrorProcessing:code', zp.where(d), 'message number is not a single known code')
                    continue
                got = [argtype(p, zp, o) for o in i.ops[PRINTF[i.callee] + 1:]]
                w = conversions(T[m])
                c.ok('call with table template', '%s code %d' % (zp.where(i), m))
                x = 'malformed conversion' if w is None else match(w, got)
                if x:
                    c.bad('message:%d' % m, zp.where(i), 'message %d "%s" %s' % (m, T[m][:60], x))
    c.need('call with constant template', 400)
    c.need('error code', 60)
    c.need('call with table template', 20)
    return ('Every call of the printf family uses a template that is a constant (all alternatives of a phi), and every conversion has an argument of its type; templates taken from the error message table are checked per error code along the feasible paths of zerrorProcessing.', ['x86-64 argument classes: int and smaller are i32, long and long long i64'])


if __name__ == '__main__':
    main('C24', body)
