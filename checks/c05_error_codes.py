"""C05: error codes keep what they say: severity, function, error number, status."""
import re
from common import *
from codes7 import ERROR, SEVERITY, FUNCTION
from c24_formats import templates, phis
import linform
from linform import Form, Inexact, sym, Unsupported
from ir import Function

REPORT = {'zerrorProcessing': {'func': 1, 'err': 2, 'sev': 5}, 'zerrorUpdate': {'func': 2}}
I32 = (-(1 << 31), (1 << 31) - 1)


def norm(s):
    return re.sub(r'%[-+ #0-9.]*(?:ll|l|z)?[a-zA-Z]|\s+', ' ', s or '').strip()


def decode(p, code, R):
    m = {}
    cells = [('cell', k) for k in range(4)]
    r = []
    for r2, sev, mem in linform.run(p, 'zerrorDecode', [code] + cells, R):
        r.append((r2, [sev] + [mem.get(k) for k in cells]))
    return r


NAMES = ['severity', 'high function', 'low function', 'error number', 'status']


class V7(flow.NullClient):
    """zerrorProcessing on a version 7 handle"""
    def __init__(self, c):
        self.c = c
        self.n = 0

    def inst(self, R, st, env, i):
        if i.op == 'call' and i.callee == 'zgetVersion':
            R.exec(env, i)
            env.v[i.id] = (7, 7, True)
            env.c.clear()
            return [(st, env)]
        return None


def body(c):
    p, A = c.prog, c.A
    for n in ('zerrorEncode', 'zerrorDecode', 'zerrorEncodeHigh', 'zerrorSeverity', 'zisError', 'zerrorProcessing', 'zerrorUpdate', 'zgetFunctionName'):
        c.fn(n)
    R0 = {'sev': (1, 9), 'hi': (0, 99), 'lo': (0, 99), 'err': (0, 99), 'st': I32}
    want = [sym('sev'), sym('hi'), sym('lo'), sym('err'), sym('st')]

    def compare(what, R, code, want):
        for r2, got in decode(p, code, R):
            for k in range(5):
                w = want[k]
                if NAMES[k] == 'status' and w is not None and w.t and not (r2['st'][0] >= 0 and r2['st'][1] <= 99):
                    w = Form(0)
                c.ok('round trip of a code part', '%s: %s' % (what, NAMES[k]))
                if got[k] != w:
                    c.bad('%s:%s' % (what, NAMES[k]), 'zerrorDecode', 'the %s of a code made by %s comes back as %s (status in %s)' % (NAMES[k], what, got[k], r2['st']))
    try:
        encs = linform.run(p, 'zerrorEncode', want, R0)
        for R, code, _ in encs:
            lo, hi = code.rng(R)
            c.ok('code is negative', 'zerrorEncode')
            if hi >= 0:
                c.bad('zerrorEncode:sign', 'zerrorEncode', 'an error code is not negative')
            compare('zerrorEncode', R, code, want)
            for r2, s, _ in linform.run(p, 'zerrorSeverity', [code], R):
                c.ok('round trip of a code part', 'zerrorSeverity')
                if s != sym('sev'):
                    c.bad('zerrorSeverity', 'zerrorSeverity', 'severity of a code comes back as %s' % s)
            R3 = {**R, 'new': (1, 99)}
            for r2, code2, _ in linform.run(p, 'zerrorEncodeHigh', [code, sym('new')], R3):
                compare('zerrorEncodeHigh', r2, code2, [sym('sev'), sym('new'), sym('lo'), sym('err'), sym('st')])
            for sev in range(1, 10):
                for r2, e, _ in linform.run(p, 'zisError', [code], {**R, 'sev': (sev, sev)}):
                    c.ok('error class', 'severity %d' % sev)
                    if e != Form(1 if sev >= 3 else 0):
                        c.bad('zisError:severity%d' % sev, 'zisError', 'a code of severity %d is %s an error' % (sev, 'not' if sev >= 3 else 'taken for'))
        for lo, hi, w, t in ((0, I32[1], 0, 'a non-negative status'), (-1, -1, 0, 'record not found'), (-9, -2, 1, 'a raw failure status')):
            for r2, e, _ in linform.run(p, 'zisError', [sym('x')], {'x': (lo, hi)}):
                c.ok('error class', t)
                if e != Form(w):
                    c.bad('zisError:%s' % t, 'zisError', '%s is %s an error' % (t, 'not' if w else 'taken for'))
        for v in (0, -1):
            for r2, e, _ in linform.run(p, 'zerrorEncodeHigh', [Form(v), sym('new')], {'new': (1, 99)}):
                c.ok('error class', 'zerrorEncodeHigh(%d)' % v)
                if e != Form(v):
                    c.bad('zerrorEncodeHigh:%d' % v, 'zerrorEncodeHigh', 'status %d becomes %s' % (v, e))
    except Inexact as e:
        c.bad('code:overlap', 'zerrorEncode', 'the parts of an error code cannot be told apart: %s' % e)
    except Unsupported as e:
        raise Broken('code arithmetic outside the analysed class: %s' % e)

    # zerrorProcessing returns the code of what it was given
    zp = p['zerrorProcessing']
    R = flow.Runner(A, zp, V7(c), maxenv=4)
    env = flow.Env()
    env.v[5] = (1, 9, True)
    for st, it, ret, (key, e) in R.run(env):
        v, hops = R.rep(e, ret.ops[0]), 0
        while hops < 4:
            d = zp.defn(v)
            if d is not None and d.op == 'sub' and d.ops[0] == ('i', 0, 32):
                v, hops = R.rep(e, d.ops[1]), hops + 1
            else:
                break
        srcs = [zp.defn(x) for x in phis(zp, v)]
        c.ok('reported error', 'zerrorProcessing')
        for d in srcs:
            while d is not None and d.op == 'sub' and d.ops[0] == ('i', 0, 32):
                d = zp.defn(d.ops[1])
            good = d is not None and d.op == 'call' and d.callee == 'zerrorEncode' and d.ops[0] == 5 and 1 in (d.ops[1], d.ops[2]) and d.ops[3] == 2
            if not good:
                c.bad('zerrorProcessing:return', zp.where(ret), 'the code returned is not made from the severity, function and error number given', R.trace(key))
    # zerrorUpdate returns its code with the function added
    zu = p['zerrorUpdate']
    for r in zu.rets():
        for x in phis(zu, r.ops[0]):
            d = zu.defn(x)
            c.ok('reported error', 'zerrorUpdate')
            if not (x == 1 or d is not None and d.op == 'call' and d.callee == 'zerrorEncodeHigh' and d.ops[0] == 1 and d.ops[1] == 2):
                c.bad('zerrorUpdate:return', zu.where(r), 'the code returned is not the code given with the function added')
    # ... and never passes an error code on without it
    R = flow.Runner(A, zu, flow.NullClient(), maxenv=8)
    env = flow.Env()
    env.v[1] = (-999999999, -100000000, True)
    for st, it, ret, (key, e) in R.run(env):
        c.ok('reported error', 'zerrorUpdate with an error code')
        if R.rep(e, ret.ops[0]) == 1:
            c.bad('zerrorUpdate:dropped', zu.where(ret), 'an error code is passed on without the function added', R.trace(key))

    # what callers report
    T = templates(c)
    byno = {v[0]: k for k, v in ERROR.items()}

    def consts(f, o, seen):
        """constant values an int argument can have; None if unknown"""
        out = set()
        for x in phis(f, o):
            if isinstance(x, tuple):
                if x[0] != 'i':
                    return None
                out.add(x[1])
                continue
            d = f.defn(x)
            if d is None:
                if (f.name, x) in seen:
                    continue
                cs = p.callers.get(f.name, [])
                for cf, cid in cs:
                    r = consts(p[cf], p[cf].insts[cid].ops[x], seen | {(f.name, x)})
                    if r is None:
                        return None
                    out |= r
            elif d.op == 'load':
                k = A.const_load(f.expr(d.ops[0]))
                if k is None:
                    return None
                out.add(k)
            elif d.op in ('sext', 'zext', 'trunc'):
                r = consts(f, d.ops[0], seen)
                if r is None:
                    return None
                out |= r
            else:
                return None
        return out
    for n, pos in REPORT.items():
        for cf, cid in p.callers[n]:
            f = p[cf]
            i = f.insts[cid]
            if n == 'zerrorUpdate' and cf == 'zerrorUpdate':
                continue
            for what, k in pos.items():
                vs = consts(f, i.ops[k], set())
                if vs is None:
                    c.ok('argument not constant', f.where(i))
                    continue
                for v in vs:
                    c.ok('constant reported', '%s %s=%d' % (f.where(i), what, v))
                    good = (v in FUNCTION or (v == 0 and n == 'zerrorUpdate')) if what == 'func' else 1 <= v <= 9 if what == 'sev' else v in byno and v != 0
                    if not good:
                        c.bad('%s:%s:%s:%d' % (cf, n, what, v), f.where(i), 'reports an error with unknown %s %d' % ({'func': 'function id', 'sev': 'severity', 'err': 'error number'}[what], v))
    # published numbers and texts
    for g in p.globals:
        nm = g.split('.')[0]
        if nm not in ('zdssErrorCodes', 'zdssErrorSeverity'):
            continue
        d = p.globals[g]
        if 'init' not in d or d.get('decl'):
            continue
        vals = {a: b[1] for a, b in zip(d['fields'], d['init'][1])} if d['init'][0] == 'a' else {}
        spec = {k: v[0] for k, v in ERROR.items()} if nm == 'zdssErrorCodes' else SEVERITY
        for k, v in spec.items():
            c.ok('published number', '%s %s' % (nm, k))
            if vals.get(k) != v:
                c.bad('%s.%s' % (nm, k), '%s:%s' % (d.get('file', '').split('/repo/')[-1], d.get('line')), '%s has the number %s, published is %d' % (k, vals.get(k), v))
    for k, (v, text) in ERROR.items():
        c.ok('message text', k)
        if v >= len(T) or norm(T[v]) != norm(text):
            c.bad('message:%s' % k, 'errorMess', 'the message of error %s (number %d) is that of another error: "%s"' % (k, v, (T[v] if v < len(T) else '')[:60]))
    try:
        for k, name in FUNCTION.items():
            o = linform.run(p, 'zgetFunctionName', [Form(k)], {})
            s = p.string(o[0][1]) if len(o) == 1 else None
            c.ok('function name', '%d %s' % (k, s))
            if s != name:
                c.bad('function:%s' % name, 'zgetFunctionName', 'function number %d is named "%s", published is "%s"' % (k, s, name))
    except Unsupported as e:
        raise Broken('zgetFunctionName outside the analysed class: %s' % e)
    c.need('round trip of a code part', 25)
    c.need('constant reported', 900)
    c.need('published number', 3000)
    c.need('message text', 60)
    c.need('function name', 80)
    return ('Abstract interpretation over linear forms (mixed radix): encoding, adding the calling function, decoding, severity and error class of every code with severity 1-9, two-digit functions and error number, any status. '
            'Path-sensitive dataflow shows zerrorProcessing returns the code of its arguments. Every constant severity, error number and function id at a reporting call is known; numbers, texts and names equal the published tables.', [])


if __name__ == '__main__':
    main('C05', body)
