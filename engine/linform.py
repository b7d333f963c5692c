"""Abstract interpretation of integer code over linear forms; loops run while the
number of trips is decided by constants.

A value is  const + sum coef*symbol  where each symbol has an interval.  Division
and remainder by a constant are exact when the form splits into a multiple of the
constant and a remainder of one sign below it (mixed radix codes).  Comparisons
are decided by intervals; a comparison with a constant of a form with a single
symbol splits that symbol's interval.
"""


import re
import sys

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Inexact(Unsupported):
    pass


class Form:
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = {k: v for k, v in dict(t).items() if v}

    def __eq__(self, o):
        return isinstance(o, Form) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, tuple(sorted(self.t.items()))))

    def __repr__(self):
        return ' + '.join(['%d*%s' % (v, k) if v != 1 else k for k, v in self.t.items()] + ([str(self.c)] if self.c or not self.t else []))

    def add(self, o, s=1):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + s * v
        return Form(self.c + s * o.c, t)

    def scale(self, k):
        return Form(self.c * k, {a: v * k for a, v in self.t.items()})

    def rng(self, R):
        lo = hi = self.c
        for k, v in self.t.items():
            a, b = R[k]
            lo += v * (a if v > 0 else b)
            hi += v * (b if v > 0 else a)
        return lo, hi


def sym(n):
    return Form(0, {n: 1})


def split(F, D, R):
    """(quotient form, remainder form) of C division by D > 0"""
    if not F.t:
        q = abs(F.c) // D * (1 if F.c >= 0 else -1)
        return Form(q), Form(F.c - q * D)
    lo, hi = F.rng(R)
    if hi <= 0 and lo < 0:
        q, r = split(F.scale(-1), D, R)
        return q.scale(-1), r.scale(-1)
    if lo < 0:
        raise Inexact('division of a value of either sign: %r' % F)
    q = Form(F.c // D, {k: v // D for k, v in F.t.items() if v % D == 0})
    r = Form(F.c % D, {k: v for k, v in F.t.items() if v % D})
    a, b = r.rng(R)
    if a < 0 or b >= D:
        raise Inexact('the parts of %r overlap in a division by %d' % (F, D))
    return q, r


class Path:
    def __init__(self, R, mem):
        self.R, self.mem = R, mem


def run(prog, name, args, R, mem=None, depth=0):
    """all paths: list of (ranges, return value, memory written through pointer arguments)"""
    f = prog[name]
    outs = []
    if depth > 6:
        raise Unsupported('call depth')

    def val(v, e):
        if isinstance(v, tuple):
            if v[0] == 'i':
                return ('b', bool(v[1])) if v[2] == 1 else Form(v[1])
            if v[0] == 'e' and v[1] == 'getelementptr':
                return f.expr(v)
            return v
        return e[v]

    def go(b, pred, e, R, mem, vis):
        if vis.get(b, 0) >= LIMIT:
            raise Unsupported('%s has a loop whose end is not decided' % name)
        budget[0] -= 1
        if budget[0] < 0:
            raise Unsupported('%s has too many paths' % name)
        blk = f.blocks[b]
        ph = {}
        for i in blk:
            if i.op != 'phi':
                break
            for x, p in i.incoming:
                if p == pred:
                    ph[i.id] = val(x, e)
        e = {**e, **ph}
        steps(b, 0, e, R, mem, {**vis, b: vis.get(b, 0) + 1})

    def steps(b, pos, e, R, mem, vis):
        blk = f.blocks[b]
        while True:
            i = blk[pos]
            pos += 1
            if i.op == 'phi':
                continue
            if i.op == 'ret':
                outs.append((R, val(i.ops[0], e) if i.ops else None, mem))
                return
            if i.op in ('br', 'switch'):
                if i.op == 'br' and len(i.succ) == 1:
                    return go(i.succ[0], b, e, R, mem, vis)
                if i.op == 'br':
                    for r2, t in truth(val(i.ops[0], e), R):
                        go(i.succ[0] if t else i.succ[1], b, e, r2, mem, vis)
                    return
                v = val(i.ops[0], e)
                rest = [R]
                for k, to in i.cases:
                    nxt = []
                    for r1 in rest:
                        for r2, t in truth(('cmp', 'eq', v, Form(k)), r1):
                            if t:
                                go(to, b, e, r2, mem, vis)
                            else:
                                nxt.append(r2)
                    rest = nxt
                for r1 in rest:
                    go(i.default, b, e, r1, mem, vis)
                return
            if i.op == 'call' and i.callee in prog.fns and i.type != 'void':
                subs = run(prog, i.callee, [val(o, e) for o in i.ops], R, mem, depth + 1)
                for r2, rv, m2 in subs:
                    steps(b, pos, {**e, i.id: rv}, r2, m2, vis)
                return
            q = None
            if i.op in ('zext', 'sext') and isinstance(val(i.ops[0], e), tuple) and val(i.ops[0], e)[:1] in TRUTH:
                q = val(i.ops[0], e), Form(1 if i.op == 'zext' else -1), Form(0)
            elif i.op == 'select':
                q = val(i.ops[0], e), val(i.ops[1], e), val(i.ops[2], e)
            elif i.op == 'call' and i.callee in ('abs', 'labs', 'llabs') or i.op == 'call' and (i.callee or '').startswith('llvm.abs'):
                v = val(i.ops[0], e)
                q = ('cmp', 'slt', v, Form(0)), v.scale(-1), v
            elif i.op == 'call' and (i.callee or '').startswith(('llvm.smax', 'llvm.smin')):
                v, w = val(i.ops[0], e), val(i.ops[1], e)
                q = ('cmp', 'sgt' if 'smax' in i.callee else 'slt', v, w), v, w
            if q:
                for r2, t in truth(q[0], R):
                    steps(b, pos, {**e, i.id: q[1] if t else q[2]}, r2, mem, vis)
                return
            e = {**e, i.id: ev(i, e, R, mem)}
            if i.op == 'store':
                mem = {**mem, addr(i.ops[1], e): val(i.ops[0], e)}

    def addr(v, e):
        a = val(v, e)
        if isinstance(a, Form):
            raise Unsupported('address %r' % a)
        return a

    def neg(x):
        return ('not', x)

    def truth(c, R):
        """[(ranges, bool)]"""
        if isinstance(c, Form):
            raise Unsupported('number used as truth value')
        if c[0] == 'b':
            return [(R, c[1])]
        if c[0] == 'xor':
            return [(r2, t != u) for r, t in truth(c[1], R) for r2, u in truth(c[2], r)]
        if c[0] == 'not':
            return [(r, not t) for r, t in truth(c[1], R)]
        if c[0] in ('and', 'or'):
            out = []
            for r, t in truth(c[1], R):
                if t == (c[0] == 'or'):
                    out.append((r, t))
                else:
                    out.extend(truth(c[2], r))
            return out
        _, pred, a, b = c
        d = a.add(b, -1)
        lo, hi = d.rng(R)

        def holds(lo, hi):
            return {'eq': True if lo == hi == 0 else (False if lo > 0 or hi < 0 else None), 'ne': False if lo == hi == 0 else (True if lo > 0 or hi < 0 else None),
                    'slt': True if hi < 0 else (False if lo >= 0 else None), 'sle': True if hi <= 0 else (False if lo > 0 else None),
                    'sgt': True if lo > 0 else (False if hi <= 0 else None), 'sge': True if lo >= 0 else (False if hi < 0 else None)}[pred]
        h = holds(lo, hi)
        if h is not None:
            return [(R, h)]
        if len(d.t) != 1:
            raise Unsupported('comparison of %r undecided' % d)
        (k, v), = d.t.items()
        s, t = R[k]
        # split the symbol's interval where d changes sign: d = c + v*x
        cuts = sorted({s, t + 1} | {x for x in [(-d.c) // v - 1, (-d.c) // v, (-d.c) // v + 1, (-d.c) // v + 2] if s < x <= t})
        out = []
        for a0, b0 in zip(cuts, cuts[1:]):
            r2 = {**R, k: (a0, b0 - 1)}
            h = holds(*d.rng(r2))
            if h is None:
                raise Unsupported('comparison of %r' % d)
            if out and out[-1][1] == h and out[-1][0][k][1] == a0 - 1:
                out[-1] = ({**R, k: (out[-1][0][k][0], b0 - 1)}, h)
            else:
                out.append((r2, h))
        return out

    def ev(i, e, R, mem):
        op = i.op
        o = i.ops
        if op in ('sext', 'zext', 'bitcast', 'freeze', 'trunc'):
            v = val(o[0], e)
            if isinstance(v, tuple) and v[:1] in TRUTH and op not in ('bitcast', 'freeze'):
                raise Unsupported('truth value used as number')
            if op == 'trunc' and i.type == 'i1':
                lo, hi = v.rng(R)
                if lo < 0 or hi > 1:
                    raise Unsupported('truncation to a truth value')
                return ('cmp', 'ne', v, Form(0))
            return v
        if op in ('add', 'sub'):
            return val(o[0], e).add(val(o[1], e), 1 if op == 'add' else -1)
        if op == 'mul':
            a, b = val(o[0], e), val(o[1], e)
            if not b.t:
                return a.scale(b.c)
            if not a.t:
                return b.scale(a.c)
            raise Unsupported('product of variables')
        if op in ('sdiv', 'srem'):
            b = val(o[1], e)
            if b.t or b.c <= 0:
                raise Unsupported('division by %r' % b)
            return split(val(o[0], e), b.c, R)[0 if op == 'sdiv' else 1]
        if op == 'icmp':
            if o[0][0:1] == ('n',) if isinstance(o[0], tuple) else False:
                raise Unsupported('pointer comparison')
            a, b = val(o[0], e), val(o[1], e)
            if isinstance(a, tuple) and a[:1] in TRUTH and isinstance(b, tuple) and b[:1] in TRUTH and i.pred in ('eq', 'ne'):
                return ('xor', a, b) if i.pred == 'ne' else neg(('xor', a, b))
            if i.pred in UNSIGNED:
                R2 = {**R}
                if a.rng(R2)[0] < 0 or b.rng(R2)[0] < 0:
                    # x - lo <u n  with x - lo possibly negative: lo <= x < lo + n
                    if b.rng(R2)[0] >= 0 and i.pred in ('ult', 'ule'):
                        return ('and', ('cmp', 'sge', a, Form(0)), ('cmp', 's' + i.pred[1:], a, b))
                    if b.rng(R2)[0] >= 0 and i.pred in ('ugt', 'uge'):
                        return ('or', ('cmp', 'slt', a, Form(0)), ('cmp', 's' + i.pred[1:], a, b))
                    raise Unsupported('unsigned comparison')
                return ('cmp', 's' + i.pred[1:], a, b)
            if not isinstance(a, Form) or not isinstance(b, Form):
                if a == b:
                    return ('b', i.pred == 'eq')
                raise Unsupported('pointer comparison')
            return ('cmp', i.pred, a, b)
        if op == 'xor' and i.type == 'i1':
            return ('xor', val(o[0], e), val(o[1], e))
        if op in ('and', 'or') and i.type == 'i1':
            return (op, val(o[0], e), val(o[1], e))
        if op == 'alloca':
            return ('alloca', name, depth, i.id)
        if op == 'getelementptr':
            base = val(o[0], e)
            ops = []
            for x in o[1:]:
                w = val(x, e)
                if not isinstance(w, Form) or w.t:
                    raise Unsupported('address with a variable index')
                ops.append(('i', w.c, 64))
            a = f._gep(i.st, [base if isinstance(base, tuple) and base[0] == 'g' else ('n',)] + ops, 0)
            steps = tuple(x for x in a[2] if not (x[0] == '[]' and x[2] == ('c', 0))) if a[0] == 'gep' else ()
            if isinstance(base, tuple) and base[0] == 'gep':
                p, q = base[2], steps
                base = base[1]
                if p and q and p[-1][0] == q[0][0] == '[]' and p[-1][1] == q[0][1] and p[-1][2][0] == q[0][2][0] == 'c':
                    n = p[-1][2][1] + q[0][2][1]
                    p, q = p[:-1] + ((('[]', q[0][1], ('c', n)),) if n else ()), q[1:]
                steps = p + q
            return ('gep', base, steps) if steps else base
        if op == 'load':
            a = addr(o[0], e)
            if a in mem:
                return mem[a]
            x = f.expr(o[0])
            for y in (x, a):
                k = CONST(prog).const_load(y)
                if k is not None:
                    return Form(k)
            k = table(prog, a)
            if k is not None:
                return k
            raise Unsupported('load of %r' % (a,))
        if op == 'store':
            return None
        if op == 'call' and (i.callee or '').startswith('llvm.'):
            return None
        raise Unsupported('%s in %s' % (op, name))

    env = {k: a for k, a in enumerate(args)}
    budget = [20000]
    go(0, -1, env, R, dict(mem or {}), {})
    return outs


TRUTH = {(k,) for k in ('b', 'cmp', 'not', 'and', 'or', 'xor')}
UNSIGNED = ('ult', 'ule', 'ugt', 'uge')
LIMIT = 200


def elem(ty):
    return re.match(r'\[\d+ x (.*)\]$', ty).group(1)


def table(prog, a):
    """element of a constant table"""
    base, steps = (a[1], a[2]) if a[0] == 'gep' else (a, ())
    if base[0] != 'g':
        return None
    if base[1] not in CONST(prog).constglobals:
        return None
    g = prog.globals[base[1]]
    v, ty = g['init'], g['type']
    for s in steps:
        # an index of zero is not written in the address
        while v[0] == 'a' and ty[0] == '[' and (s[0] == '.' or elem(ty) != s[1]):
            v, ty = v[1][0], elem(ty)
        if v[0] != 'a':
            return None
        if s[0] == '.':
            st = prog.types.get(ty) or prog.types.get('%' + ty)
            k = next((k for k, x in enumerate(st['fields']) if x[0] == s[2]), None) if st else None
            if k is None:
                return None
            v, ty = v[1][k], st['fields'][k][2]
        else:
            if ty[0] != '[' or s[2][0] != 'c' or not 0 <= s[2][1] < len(v[1]):
                return None
            v, ty = v[1][s[2][1]], elem(ty)
    while v[0] == 'a' and v[1]:
        v = v[1][0]
    return Form(v[1]) if v[0] == 'i' else tuple(v) if v[0] == 'g' else None


_const = {}


def CONST(prog):
    import flow
    if id(prog) not in _const:
        _const[id(prog)] = flow.Analysis(prog)
    return _const[id(prog)]
