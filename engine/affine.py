"""Affine forms of SSA values along a path, and the net effect of a function on a memory word.

form(R, env, v) is  const + sum coef*atom.  An atom names what a value is: the
location it was loaded from, an argument, the result of a call, or L(form), the
number of 8-byte words that hold the given number of 4-byte words.
"""
from flow import NullClient, key_of, CASTS, mk, meet, BIG

WORDS = 'numberLongsInInts'


def const(k):
    return (k, ())


def atom(a):
    return (0, ((a, 1),))


def add(x, y, s=1):
    t = dict(x[1])
    for a, k in y[1]:
        t[a] = t.get(a, 0) + s * k
    return (x[0] + s * y[0], tuple(sorted(((a, k) for a, k in t.items() if k), key=repr)))


def scale(x, k):
    return (x[0] * k, tuple((a, c * k) for a, c in x[1]) if k else ())


def words(x):
    """8-byte words holding x 4-byte words"""
    if x[0] % 2 == 0 and all(k % 2 == 0 for _, k in x[1]):
        return (x[0] // 2, tuple((a, k // 2) for a, k in x[1]))
    if not x[1]:
        return const((x[0] + 1) // 2 if x[0] > 0 else 0)
    return atom(('L', x))


def name(a):
    """stable name of a canonical address"""
    if a[0] == 'gep':
        k = key_of(a)
        if k:
            if k[3] == ('c', 0):
                return '%s.%s' % (k[1], k[2])
            return '%s.%s+%s' % (k[1], k[2], render_tree(k[3]))
        s = a[2][-1]
        if s[0] == '.':
            base = name(a[1]) if a[1][0] == 'g' and len(a[2]) == 1 else None
            if base and base.endswith('Keys'):
                base = '#' + base       # the position of a word, not the word
            return '%s.%s' % (base or s[1].split('.')[-1], s[2])
        return None
    if a[0] == 'g':
        return a[1]
    return None


def render_tree(e):
    if e[0] == 'c':
        return str(e[1])
    return e[0]


def label(R, v):
    """name of an SSA value"""
    f = R.f
    if isinstance(v, tuple):
        return str(v[1]) if len(v) > 1 else str(v)
    if v < len(f.args):
        return 'arg%d' % v
    i = f.insts[v]
    if i.op == 'load':
        e = f.expr(v)
        if e[0] == 'key':
            return '%s.%s' % (e[1], e[2])
        n = name(f.expr(i.ops[0]))
        return n or 'load%d' % v
    if i.op == 'call':
        return (i.callee or '?') + '()'
    return '%s%d' % (i.op, v)


def form(R, env, v, d=0):
    v = R.rep(env, v)
    if isinstance(v, tuple):
        if v[0] == 'i':
            return const(v[1])
        if v[0] == 'n':
            return const(0)
        return atom(('?', repr(v)))
    it = R.itv(env, v)
    if it[0] == it[1] and not getattr(R, 'symbolic', False):
        return const(it[0])
    f = R.f
    i = f.defn(v)
    if i is None:
        return atom(('v', v, 'arg%d' % v))
    if v in env.fz or d > 40:
        return atom(('v', v, 'old ' + label(R, v)))
    op = i.op
    if op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'):
        if R.opw(i.ops[0]) != 1:
            return form(R, env, i.ops[0], d + 1)
    elif op in ('add', 'sub'):
        return add(form(R, env, i.ops[0], d + 1), form(R, env, i.ops[1], d + 1), 1 if op == 'add' else -1)
    elif op in ('mul', 'shl'):
        a, b = form(R, env, i.ops[0], d + 1), form(R, env, i.ops[1], d + 1)
        if op == 'shl':
            if not b[1] and 0 <= b[0] < 62:
                return scale(a, 1 << b[0])
        elif not b[1]:
            return scale(a, b[0])
        elif not a[1]:
            return scale(b, a[0])
    elif op in ('sdiv', 'ashr', 'lshr') and isinstance(i.ops[1], tuple) and i.ops[1][1] == (2 if op == 'sdiv' else 1):
        a = form(R, env, i.ops[0], d + 1)
        return words(add(a, const(-1)))
    elif op == 'call' and i.callee == WORDS:
        return words(form(R, env, i.ops[0], d + 1))
    elif op == 'call' and i.callee in ('numberLongsInBytes',):
        return atom((i.callee, form(R, env, i.ops[0], d + 1)))
    elif op == 'call' and i.callee == 'numberIntsInLongs':
        return scale(form(R, env, i.ops[0], d + 1), 2)
    return atom(('v', v, label(R, v)))


def render(x):
    def at(a):
        if a[0] == 'v':
            return a[2]
        if a[0] == '?':
            return a[1]
        return '%s(%s)' % (a[0], render(a[1]))
    parts = {}
    for a, k in x[1]:
        n = at(a)
        parts[n] = parts.get(n, 0) + k
    s = []
    for n in sorted(parts):
        k = parts[n]
        if k:
            s.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else '%d*' % abs(k)) + n)
    if x[0] or not s:
        s.append('%+d' % x[0])
    r = ''.join(s)
    return r


class Hyps(NullClient):
    """base client: hypotheses (name -> interval) refine the first value read from the named location.
    State: (payload, locations overwritten on this path)."""
    hyps = {}

    def start(self, R):
        for n, it in self.hyps.items():
            if n.startswith('arg') and n[3:].isdigit():
                pass
        return [(self.init(), frozenset())]

    def init(self):
        return None

    def step(self, R, p, env, i):
        """None, or list of (payload, env) (instruction executed by the caller otherwise)"""
        return None

    def inst(self, R, st, env, i):
        p, wr = st
        if i.op == 'load' and self.hyps:
            n = name(R.f.expr(i.ops[0]))
            h = self.hyps.get(n) if n not in wr else None
            h = self.hyps.get((n or '') + '!', h)
            if h is not None:
                r = self.step(R, p, env, i)
                if r is None:
                    R.exec(env, i)
                    r = [(p, env)]
                out = []
                for q, e in r:
                    if not R.refine(e, i.id, h):
                        continue
                    out.append(((q, wr), e))
                return out
        if i.op == 'store' and self.hyps:
            n = name(R.f.expr(i.ops[1]))
            if n in self.hyps and n not in wr:
                wr = wr | {n}
        r = self.step(R, p, env, i)
        if r is None:
            if wr is st[1]:
                return None
            R.exec(env, i)
            return [((p, wr), env)]
        return [((q, wr), e) for q, e in r]


class Net(Hyps):
    """net effect of a function on one memory word, named like 'zdssFileKeys.knumberRecords':
    payload ('d', form) change by form, or ('=', form) set to form"""
    ranges = True

    def __init__(self, target, hyps=None, summary=None):
        self.target = target
        self.hyps = hyps or {}
        self.summary = summary
        self.sites = {}

    def init(self):
        return ('d', const(0))

    def step(self, R, p, env, i):
        if i.op == 'store':
            a = R.f.expr(i.ops[1])
            if name(a) != self.target:
                return None
            v = form(R, env, i.ops[0])
            cur = env.mem.get(a)
            q = ('=', v)
            if cur is not None and cur[:1] != ('r',) if isinstance(cur, tuple) else cur is not None:
                cf = form(R, env, cur)
                if cf[1] and all(dict(v[1]).get(x) == k for x, k in cf[1]):
                    d = add(v, cf, -1)
                    q = (p[0], add(p[1], d))
            self.sites[q] = R.f.where(i)
            if len(q[1][1]) > 12 or abs(q[1][0]) > 6:
                q = (q[0], atom(('?', 'many')))
            R.exec(env, i)
            return [(q, env)]
        if i.op == 'call' and i.callee in R.prog.fns and self.summary:
            s = self.summary(R, env, i, self.target)
            if s:
                R.exec(env, i)
                out = []
                for k, x in s:
                    q = (p[0], add(p[1], x)) if k == 'd' else ('=', x)
                    if len(q[1][1]) > 12 or abs(q[1][0]) > 6:
                        q = (q[0], atom(('?', 'many')))
                    out.append((q, env.copy()))
                return out
        return None


def subst(x, args):
    """replace argument atoms of a callee form; None if other atoms remain"""
    r = const(x[0])
    for a, k in x[1]:
        if a[0] == 'v' and a[2].startswith('arg') and a[1] < len(args):
            r = add(r, scale(args[a[1]], k))
        elif a[0] in ('L',):
            y = subst(a[1], args)
            if y is None:
                return None
            r = add(r, scale(words(y), k))
        else:
            r = add(r, scale(atom(('?', a[2] if a[0] == 'v' else repr(a))), k))
    return r
