"""Paths through one round of a natural loop (inner loops skipped), or through a whole
function, with linear forms of the values and the linear facts of the branches taken.

A form is (constant, ((atom, coefficient), ...)) as in affine.  Facts are kept as intervals
of linear combinations; a path whose facts contradict each other is not followed.
Loads are named by canonical address and how often that class of memory was overwritten.
"""
from affine import add, scale, const, atom, name
from ir import CASTS
from math import gcd
BIG = 1 << 62


def loops(f):
    """natural loops: header -> set of blocks"""
    r = {}
    idom = f.dominators()

    def dom(a, b):
        while b != a and b in idom and b != 0:
            b = idom[b]
        return a == b
    for b, ss in enumerate(f.succ):
        for h in ss:
            if b in idom and dom(h, b):
                body = {h, b}
                work = [b] if b != h else []
                while work:
                    x = work.pop()
                    for p in f.pred[x]:
                        if p not in body:
                            body.add(p)
                            work.append(p)
                r.setdefault(h, set()).update(body)
    return r


def canon(x):
    """linear combination without constant, sign and common factor taken out -> (key, factor)"""
    t = x[1]
    if not t:
        return None, 1
    s = gcd(*[k for _, k in t]) * (1 if t[0][1] > 0 else -1)
    return tuple((a, k // s) for a, k in t), s


NONNEG = set()      # names of words that are never negative


def positive(a):
    if a[0] == 'ld' and NONNEG and name(a[1]) in NONNEG:
        return (0, BIG)
    if a[0] == 'sdiv' and not a[2][1] and a[2][0] > 0 and a[1][0] >= 0 and all(c > 0 and positive(z) for z, c in a[1][1]):
        return (0, BIG)
    return None


class Facts:
    __slots__ = ('iv', 'ne')

    def __init__(self, iv=None, ne=frozenset()):
        self.iv = iv if iv is not None else {}
        self.ne = ne

    def copy(self):
        return Facts(dict(self.iv), self.ne)

    def range(self, x):
        k, s = canon(x)
        if k is None:
            return (x[0], x[0])
        lo, hi = self.iv.get(k, (-BIG, BIG))
        if (lo, hi) == (-BIG, BIG) and len(k) >= 1:
            # sum of the parts
            l2 = h2 = 0
            for a, c in k:
                p = self.iv.get(((a, 1),)) or positive(a)
                if p is None:
                    l2 = h2 = None
                    break
                u, v = p[0] * c, p[1] * c
                l2 += min(u, v)
                h2 += max(u, v)
            if l2 is not None:
                lo, hi = max(lo, l2), min(hi, h2)
        lo, hi = lo * abs(s), hi * abs(s)
        if s < 0:
            lo, hi = -hi, -lo
        return (max(lo, -BIG) + x[0], min(hi, BIG) + x[0])

    def assume(self, x, lo, hi):
        """lo <= x <= hi; False on contradiction"""
        k, s = canon(x)
        if k is None:
            return lo <= x[0] <= hi
        lo, hi = max(lo - x[0], -BIG), min(hi - x[0], BIG)
        if s < 0:
            lo, hi = -hi, -lo
        if abs(s) > 1:
            lo, hi = -BIG if lo <= -BIG else -(-lo // abs(s)), BIG if hi >= BIG else hi // abs(s)
        c = self.iv.get(k, (-BIG, BIG))
        lo, hi = max(lo, c[0]), min(hi, c[1])
        while lo <= hi and (k, lo) in self.ne:
            lo += 1
        while lo <= hi and (k, hi) in self.ne:
            hi -= 1
        if lo > hi:
            return False
        r = self.range((0, k))
        if r[1] < lo or r[0] > hi:
            return False
        self.iv[k] = (lo, hi)
        return True

    def differ(self, x):
        """x != 0"""
        k, s = canon(x)
        if k is None:
            return x[0] != 0
        if x[0] % s:
            return True
        v = -x[0] // s
        self.ne = self.ne | {(k, v)}
        lo, hi = self.iv.get(k, (-BIG, BIG))
        return self.assume((0, k), lo, hi)

    def cmp(self, pred, d, truth):
        """assume (d pred 0) == truth"""
        neg = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}
        p = pred if pred in neg else pred[1:]
        if not truth:
            p = neg[p]
        if p == 'eq':
            return self.assume(d, 0, 0)
        if p == 'ne':
            return self.differ(d)
        if p == 'lt':
            return self.assume(d, -BIG, -1)
        if p == 'le':
            return self.assume(d, -BIG, 0)
        if p == 'gt':
            return self.assume(d, 1, BIG)
        return self.assume(d, 0, BIG)


class Path:
    __slots__ = ('val', 'facts', 'mem', 'ver', 'gen', 'events', 'blocks', 'exit', 'memo')

    def __init__(self):
        self.val = {}        # SSA value -> form (bound on this path)
        self.facts = Facts()
        self.mem = {}        # canonical address -> form
        self.ver = {}        # memory class -> version
        self.gen = 0         # bumped by calls with unknown effects
        self.events = ()     # (what, ...) appended by the client
        self.blocks = ()
        self.exit = None
        self.memo = {}

    def copy(self):
        p = Path()
        p.val, p.facts, p.mem, p.ver, p.gen = dict(self.val), self.facts.copy(), dict(self.mem), dict(self.ver), self.gen
        p.events, p.blocks, p.exit = self.events, self.blocks, self.exit
        return p


class Walker:
    """enumerates paths; client(path, inst, walker) may return None or a list of paths"""

    def __init__(self, A, f, client=None, limit=60000, hyps=()):
        self.A, self.f, self.prog = A, f, f.prog
        self.client = client
        self.limit = limit
        self.loops = loops(f)
        self.steps = 0
        self.base = []          # [(form, low, high)] what holds when the function is entered
        self.kept = {}          # loop header -> (variables replaced, bounds at the start of a round)

    # ---- values
    def form(self, p, v, d=0):
        if isinstance(v, tuple):
            if v[0] == 'i':
                return const(v[1])
            if v[0] == 'n':
                return const(0)
            return atom(('?', repr(v)))
        if v in p.val:
            return p.val[v]
        f = self.f
        i = f.defn(v)
        if i is None:
            return atom(('arg', v))
        if d > 60:
            return atom(('val', v))
        op = i.op
        r = None
        if op in CASTS:
            r = self.form(p, i.ops[0], d + 1)
        elif op in ('add', 'sub'):
            r = add(self.form(p, i.ops[0], d + 1), self.form(p, i.ops[1], d + 1), 1 if op == 'add' else -1)
        elif op in ('mul', 'shl'):
            a, b = self.form(p, i.ops[0], d + 1), self.form(p, i.ops[1], d + 1)
            if op == 'shl':
                if not b[1] and 0 <= b[0] < 62:
                    r = scale(a, 1 << b[0])
            elif not b[1]:
                r = scale(a, b[0])
            elif not a[1]:
                r = scale(b, a[0])
        elif op in ('sdiv', 'srem', 'ashr', 'and', 'udiv', 'urem', 'lshr'):
            a, b = self.form(p, i.ops[0], d + 1), self.form(p, i.ops[1], d + 1)
            if not a[1] and not b[1] and b[0] and op in ('sdiv', 'srem') and a[0] >= 0 and b[0] > 0:
                r = const(a[0] // b[0] if op == 'sdiv' else a[0] % b[0])
            else:
                r = atom((op, a, b))
        elif op == 'select':
            c = self.truth(p, i.ops[0])
            if c is not None:
                r = self.form(p, i.ops[1 if c else 2], d + 1)
        elif op == 'getelementptr':
            r = atom(('adr', f.expr(v)))
        elif op == 'load':
            k = self.A.const_load(f.expr(i.ops[0]))
            r = const(k) if k is not None else atom(('ld', f.expr(i.ops[0]), 'before', v))
        if r is None:
            r = atom(('val', v))
        return r

    def truth(self, p, v):
        if isinstance(v, tuple):
            return bool(v[1]) if v[0] == 'i' else None
        i = self.f.defn(v)
        if i is None:
            return None
        if i.op in CASTS:
            return self.truth(p, i.ops[0])
        if i.op == 'icmp' and not i.pred.startswith('u') or i.op == 'icmp' and i.pred in ('eq', 'ne'):
            d = add(self.form(p, i.ops[0]), self.form(p, i.ops[1]), -1)
            q = p.facts.copy()
            t = q.cmp(i.pred, d, True)
            q = p.facts.copy()
            n = q.cmp(i.pred, d, False)
            if t and not n:
                return True
            if n and not t:
                return False
        return None

    def assume(self, p, v, truth, d=0):
        """False if contradictory; records facts"""
        if isinstance(v, tuple):
            return bool(v[1]) == truth if v[0] == 'i' else True
        i = self.f.defn(v)
        if i is None or v in p.val and i.op == 'phi':
            x = self.form(p, v)
            if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1 and x[1][0][0][0] == 'val':
                k = self.f.insts.get(x[1][0][0][1])
                if k is not None and k.id != v and k.op == 'icmp' and d < 20:
                    return self.assume(p, k.id, truth, d + 1)
            return p.facts.cmp('ne', x, truth)
        if i.op == 'icmp':
            if self.f.insts.get(i.ops[0] if isinstance(i.ops[0], int) else -1) is not None and i.ops[1] in (('i', 0, 32), ('i', 0, 8)) and i.pred in ('ne', 'eq'):
                k = self.f.insts[i.ops[0]]
                if k.op in ('zext', 'sext') and isinstance(k.ops[0], int) and self.f.insts.get(k.ops[0]) is not None and self.f.insts[k.ops[0]].type == 'i1':
                    return self.assume(p, k.ops[0], truth == (i.pred == 'ne'), d + 1)
            a, b = self.form(p, i.ops[0]), self.form(p, i.ops[1])
            if i.pred[0] == 'u' and i.pred not in ('ule', 'ult', 'uge', 'ugt'):
                return True
            if i.pred[0] == 'u':
                # below a number that is not negative: not negative either, and ordered the same
                pred = i.pred if truth else {'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult'}[i.pred]
                x, y = (a, b) if pred[1] == 'l' else (b, a)
                if p.facts.range(y)[0] < 0:
                    return True
                return p.facts.cmp('sge', x, True) and p.facts.cmp('slt' if pred[2] == 't' else 'sle', add(x, y, -1), True)
            return p.facts.cmp(i.pred, add(a, b, -1), truth)
        if i.op == 'xor' and i.type == 'i1' and i.ops[1][0:1] == ('i',):
            return self.assume(p, i.ops[0], not truth, d + 1)
        if i.op == 'and' and i.type == 'i1' and truth or i.op == 'or' and i.type == 'i1' and not truth:
            return self.assume(p, i.ops[0], truth, d + 1) and self.assume(p, i.ops[1], truth, d + 1)
        if i.op in ('trunc', 'freeze'):
            return self.assume(p, i.ops[0], truth, d + 1)
        if i.op == 'select' and i.type == 'i1':
            a, b = i.ops[1], i.ops[2]
            if b == ('i', 0, 1) and truth:
                return self.assume(p, i.ops[0], True, d + 1) and self.assume(p, a, True, d + 1)
            if a == ('i', 1, 1) and not truth:
                return self.assume(p, i.ops[0], False, d + 1) and self.assume(p, b, False, d + 1)
            return True
        if i.type == 'i1' and i.op not in ('load', 'call'):
            return True
        return p.facts.cmp('ne', self.form(p, v), truth)

    # ---- memory
    def cls(self, a):
        return self.A.aclass(a)

    def load(self, p, i):
        a = self.f.expr(i.ops[0])
        k = self.A.const_load(a)
        if k is not None:
            return const(k)
        if a in p.mem:
            return p.mem[a]
        return atom(('ld', a, p.ver.get(self.cls(a), 0), p.gen))

    def clobber(self, p, classes):
        for c in classes:
            p.ver[c] = p.ver.get(c, 0) + 1
        for a in [a for a in p.mem if self.cls(a) in classes or any(x[0] in ('?', 'ext') for x in classes) and self.cls(a)[0] not in ('alloca',)]:
            del p.mem[a]

    def escape_args(self, p, i):
        """a call may write local arrays it is handed"""
        ws = self.A.argw(i.callee) if i.callee in self.prog.fns else None
        for k, o in enumerate(i.ops):
            if ws is not None and k not in ws and k < len(self.prog.fns[i.callee].args):
                continue
            e = self.f.expr(o)
            while e[0] == 'gep':
                e = e[1]
            if e[0] == 'alloca':
                for a in list(p.mem):
                    r = a
                    while r[0] == 'gep':
                        r = r[1]
                    if r == e:
                        del p.mem[a]
                c = self.cls(e)
                p.ver[c] = p.ver.get(c, 0) + 1

    def exec(self, p, i):
        if i.op == 'load':
            p.val[i.id] = self.load(p, i)
        elif i.op == 'store':
            a = self.f.expr(i.ops[1])
            c = self.cls(a)
            for k in [k for k in p.mem if k != a and self.cls(k) == c]:
                del p.mem[k]
            p.ver[c] = p.ver.get(c, 0) + 1
            p.mem[a] = self.form(p, i.ops[0])
        elif i.op == 'call':
            if i.callee in self.prog.fns:
                self.clobber(p, self.A.mod[i.callee])
            self.escape_args(p, i)
            p.val[i.id] = atom(('call', i.id, len(p.events)))
        elif i.id in p.val and i.op not in ('phi', 'br', 'ret', 'switch'):
            del p.val[i.id]

    # ---- enumeration
    def rounds(self, h, next=True):
        """paths through one round of the loop with header h, up to where the next round has passed
        the test in the header ('latch', ...) or the loop was left.  Loop variables that keep the constant
        they start with are replaced by it, and those that move in step with one that starts with a
        constant by their distance from it.  What holds before the loop and whenever a round ends is
        assumed where a round begins.  -> (paths, {phi: form})"""
        f = self.f
        body = self.loops[h]
        phis = [i for i in f.blocks[h] if i.op == 'phi']
        inv, first = {}, {}
        for i in phis:
            ins = [x for x, q in i.incoming if q not in body]
            if len(ins) == 1:
                first[i.id] = self.form(Path(), ins[0])
                if not first[i.id][1]:
                    inv[i.id] = first[i.id]

        def at(x, new):
            """form x with the variables of the loop replaced"""
            r = const(x[0])
            for a, k in x[1]:
                r = add(r, scale(new[a[1]] if a[0] == 'phi' and a[1] in new else atom(a), k))
            return r
        known = []
        stage = 0
        while True:
            self.steps = 0
            ps = self.paths(h, body, h, inv, next, known)
            latch = [(p, {i.id: self.incoming(p, i.id, p.exit[1]) for i in phis}) for p in ps if p.exit[0] == 'latch']
            drop = {k for k, x in inv.items() for p, nx in latch if nx[k] != at(x, nx)}
            for k in drop:
                del inv[k]
            if drop:
                continue
            if stage == 0:
                stage = 1
                fixed = {k: x for k, x in first.items() if not x[1] and k not in inv}
                for k in sorted(first):
                    if k in inv or not latch:
                        continue
                    for x in sorted(fixed):
                        if k in fixed and x >= k or x in inv:
                            continue
                        for c in (1, -1):
                            if k not in inv and all(add(add(nx[k], atom(('phi', k)), -1), scale(add(nx[x], atom(('phi', x)), -1), c)) == const(0) for p, nx in latch):
                                inv[k] = add(add(first[k], scale(first[x], c)), scale(atom(('phi', x)), -c))
                if any(x[1] for x in inv.values()):
                    continue
            if stage == 1:
                stage = 2
                known = self.bounds(h, body, phis, inv, first, latch)
                if known:
                    continue
            self.kept[h] = inv, known
            return ps, inv

    def bounds(self, h, body, phis, inv, first, latch):
        """[(form of one loop variable and what the loop does not change, low, high)] at the start of every round"""
        f = self.f
        ent = [q for q in f.pred[h] if q not in body]
        if len(ent) != 1 or not latch:
            return []
        e = Path()
        for x, lo, hi in self.base:
            e.facts.assume(x, lo, hi)
        idom = f.dominators()
        b, chain = ent[0], []
        while True:
            if b == 0 or b not in idom or idom[b] == b:
                break
            d = idom[b]
            t = f.blocks[d][-1]
            if t.op == 'br' and len(t.succ) == 2 and b in t.succ and t.succ[0] != t.succ[1] and len(f.pred[b]) == 1:
                chain.append((t.ops[0], t.succ[0] == b))
            b = d
        for v, k in reversed(chain):
            if not self.assume(e, v, k):
                return []
        r = []
        for x, lo, hi in self.ends(body, first, inv, latch):
            a, b = e.facts.range(self.begin(x, first))
            lo, hi = min(lo, a), max(hi, b)
            if lo > -BIG or hi < BIG:
                r.append((x, lo, hi))
        return r

    def begin(self, x, first):
        r = const(x[0])
        for a, c in x[1]:
            r = add(r, scale(first[a[1]] if a[0] == 'phi' and a[1] in first else atom(a), c))
        return r

    def moving(self, k, nx, first, inv, body):
        """how much combination k changes in this round, if it is one of a loop variable that moves by a
        constant and of what the loop does not change"""
        vs = [(a, c) for a, c in k if a[0] == 'phi']
        if len(vs) != 1 or vs[0][0][1] not in first or vs[0][0][1] in inv or abs(vs[0][1]) != 1:
            return None
        if any(a[0] != 'phi' and not self.outside(a, body) for a, c in k):
            return None
        a, c = vs[0]
        step = add(nx[a[1]], atom(a), -1)
        return None if step[1] else c * step[0]

    def ends(self, body, first, inv, latch):
        """[(combination, low, high)] what the facts of a round say about the next one"""
        got = []
        for p, nx in latch:
            mine = {}
            for k, (lo, hi) in p.facts.iv.items():
                m = self.moving(k, nx, first, inv, body)
                if m is not None:
                    # value of the same combination in the next round
                    mine[k] = (max(lo + m, -BIG) if lo > -BIG else -BIG, hi + m if hi < BIG else BIG)
            got.append((mine, {('phi', k) for k in first if nx[k] == atom(('phi', k))}))
        # a round that leaves the variable as it was keeps what held before
        keys = {k for m, same in got for k in m if all(k in n or any(a in kept for a, _ in k) for n, kept in got)}
        return [((0, k), min(m[k][0] for m, same in got if k in m), max(m[k][1] for m, same in got if k in m)) for k in sorted(keys, key=repr)]

    def outside(self, a, body):
        """the loop does not change what atom a stands for"""
        if a[0] == 'arg':
            return True
        if a[0] in ('ld',):
            return a[2] == 'before' and self.f.insts[a[3]].bb not in body
        if a[0] in ('val', 'call'):
            return self.f.insts[a[1]].bb not in body
        if a[0] in ('sdiv', 'srem'):
            return all(self.outside(z, body) for y in a[1:] for z, _ in y[1])
        return False

    def again(self, p, b, h, region):
        """the header once more with the values of the next round: paths that go on, paths that leave"""
        f = self.f
        q = p.copy()
        q.val = dict(p.val)
        new = [(i.id, self.incoming(p, i.id, b)) for i in f.blocks[h] if i.op == 'phi']
        for k, x in new:
            q.val[k] = x
        for i in f.blocks[h]:
            if i.op == 'call':
                return [p], []
            if i.op not in ('phi', 'br', 'switch', 'ret'):
                self.exec(q, i)
        t = f.blocks[h][-1]
        if t.op != 'br' or len(t.succ) != 2:
            return [p], []
        on, off = [], []
        for k, s in enumerate(t.succ):
            e = q.copy()
            if self.assume(e, t.ops[0], k == 0):
                if s in region:
                    r = p.copy()
                    r.facts = e.facts
                    r.exit = ('latch', b)
                    on.append(r)
                else:
                    e.exit = ('leave', s, h)
                    off.append(e)
        return on, off

    def paths(self, start, region=None, header=None, inv=None, next=False, known=()):
        """paths from block start; within region (None: whole function); back to header ends the path.
        Yields Path with exit = ('latch', pred block) / ('leave', block, pred) / ('ret', inst)."""
        f = self.f
        p0 = Path()
        for i in f.blocks[start]:
            if i.op == 'phi':
                p0.val[i.id] = (inv or {}).get(i.id) or atom(('phi', i.id))
        for x, lo, hi in list(self.base) + list(known):
            p0.facts.assume(x, lo, hi)
        out = []
        self._next = next
        stack = [(p0, start)]
        while stack:
            p, b = stack.pop()
            p.blocks += (b,)
            cur = [p]
            for i in f.blocks[b]:
                if i.op == 'phi':
                    continue
                nxt = []
                for q in cur:
                    self.steps += 1
                    if self.steps > self.limit:
                        raise RuntimeError('too many paths in ' + f.name)
                    r = self.client(q, i, self) if self.client else None
                    if r is None:
                        if i.op not in ('br', 'switch', 'ret'):
                            self.exec(q, i)
                        nxt.append(q)
                    else:
                        nxt.extend(r)
                cur = nxt
            t = f.blocks[b][-1]
            for q in cur:
                if t.op == 'ret':
                    q.exit = ('ret', t)
                    out.append(q)
                elif t.op == 'br':
                    if len(t.succ) == 1:
                        self.go(q, b, t.succ[0], region, header, stack, out)
                    else:
                        for k, s in enumerate(t.succ):
                            e = q.copy()
                            if self.assume(e, t.ops[0], k == 0):
                                self.go(e, b, s, region, header, stack, out)
                elif t.op == 'switch':
                    x = self.form(q, t.ops[0])
                    for cv, s in t.cases:
                        e = q.copy()
                        if e.facts.assume(add(x, const(-cv)), 0, 0):
                            self.go(e, b, s, region, header, stack, out)
                    e = q.copy()
                    if all(e.facts.differ(add(x, const(-cv))) for cv, _ in t.cases):
                        self.go(e, b, t.default, region, header, stack, out)
        return out

    def go(self, p, b, s, region, header, stack, out):
        f = self.f
        if s == header:
            if self._next:
                on, off = self.again(p, b, header, region)
                for q in on:
                    q.exit = ('latch', b)
                out.extend(on)
                out.extend(off)
                return
            p.exit = ('latch', b)
            out.append(p)
            return
        if region is not None and s not in region:
            p.exit = ('leave', s, b)
            out.append(p)
            return
        if s in self.loops and s not in p.blocks:
            # skip the inner loop: everything it defines or writes is unknown afterwards
            body = self.loops[s]
            p.events += (('loop', s),)
            cl = set()
            for x in body:
                for i in f.blocks[x]:
                    if i.op == 'store':
                        cl.add(self.cls(f.expr(i.ops[1])))
                    elif i.op == 'call' and i.callee in self.prog.fns:
                        cl |= self.A.mod[i.callee]
                    p.val.pop(i.id, None)
                    p.val[i.id] = atom(('val', i.id)) if i.op in ('phi', 'load', 'call') else None
                    if p.val[i.id] is None:
                        del p.val[i.id]
            self.clobber(p, cl)
            for x in sorted(body):
                for y in f.succ[x]:
                    if y not in body:
                        e = p.copy()
                        t = f.blocks[x][-1]
                        if t.op == 'br' and len(t.succ) == 2 and not self.assume(e, t.ops[0], t.succ[0] == y):
                            continue
                        e.blocks += tuple(sorted(body))
                        self.go2(e, x, y, region, header, stack, out)
            return
        self.go2(p, b, s, region, header, stack, out)

    def go2(self, p, b, s, region, header, stack, out):
        f = self.f
        if s == header:
            if self._next:
                on, off = self.again(p, b, header, region)
                for q in on:
                    q.exit = ('latch', b)
                out.extend(on)
                out.extend(off)
                return
            p.exit = ('latch', b)
            out.append(p)
            return
        if region is not None and s not in region:
            p.exit = ('leave', s, b)
            out.append(p)
            return
        ph = []
        for i in f.blocks[s]:
            if i.op != 'phi':
                break
            for x, q in i.incoming:
                if q == b:
                    ph.append((i.id, self.form(p, x)))
        for k, x in ph:
            p.val[k] = x
        stack.append((p, s))

    def incoming(self, p, phi, pred):
        """form of the value a header phi gets when the path comes round"""
        i = self.f.insts[phi]
        for x, q in i.incoming:
            if q == pred:
                return self.form(p, x)


class Through(Walker):
    """paths through a whole function that go through loops: one round with the loop variables of any
    round, bounded by what holds at the start of every round; a path ends where the round does"""

    learnt = None
    want = None             # follow paths only to these blocks

    def reach(self, targets):
        """blocks from which one of the target blocks is reached"""
        r = set(targets)
        work = list(r)
        while work:
            for q in self.f.pred[work.pop()]:
                if q not in r:
                    r.add(q)
                    work.append(q)
        return r

    def bounds(self, h, body, phis, inv, first, latch):
        """what a round says about the next, and what holds in the next round if it holds in this one:
        both are compared with the values at the entry of the loop when a path gets there"""
        self.learnt[h] = [], []
        if not latch:
            return []
        ends = self.ends(body, first, inv, latch)
        guess = []
        for p, nx in latch:
            for k, v in sorted(p.facts.ne, key=repr):
                m = self.moving(k, nx, first, inv, body)
                if m in (1, -1):
                    g = ((0, k), -BIG, v) if m > 0 else ((0, k), v, BIG)
                    if g not in guess:
                        guess.append(g)
        n = None
        while guess and n != len(guess):
            n = len(guess)
            self.steps = 0
            for p in self.paths(h, body, h, inv, False, guess):
                if p.exit[0] == 'latch':
                    nx = {i.id: self.incoming(p, i.id, p.exit[1]) for i in phis}
                    for g in list(guess):
                        m = self.moving(g[0][1], nx, first, inv, body)
                        lo, hi = p.facts.range(g[0])
                        if m is None or lo + m < g[1] and g[1] > -BIG or hi + m > g[2]:
                            guess.remove(g)
        self.learnt[h] = ends, guess
        return []

    def whole(self):
        self.learn()
        return self.paths(0)

    def learn(self):
        self.learnt = {}
        for h in sorted(self.loops):
            self.steps = 0
            c, self.client = self.client, None
            try:
                self.rounds(h, False)
            except RuntimeError:
                self.kept[h] = {}, []
                self.learnt[h] = [], []
            self.client = c
        self.steps = 0

    def here(self, p, x, body):
        """a form in terms of the values from before the loop, on path p"""
        r = const(x[0])
        for a, k in x[1]:
            if a[0] in ('val', 'phi', 'call') and isinstance(a[1], int) and self.f.insts[a[1]].bb not in body:
                r = add(r, scale(self.form(p, a[1]), k))
            elif a[0] == 'ld' and a[2] == 'before' and self.f.insts[a[3]].bb not in body:
                r = add(r, scale(self.form(p, a[3]), k))
            else:
                r = add(r, scale(atom(a), k))
        return r

    def go(self, p, b, s, region, header, stack, out):
        if region is None and self.want is not None and s not in self.want:
            return
        if region is not None or s not in self.loops:
            return Walker.go(self, p, b, s, region, header, stack, out)
        f, body = self.f, self.loops[s]
        if b in body:
            p.exit = ('latch', b)
            out.append(p)
            return
        first = {i.id: self.form(p, x) for i in f.blocks[s] if i.op == 'phi' for x, q in i.incoming if q == b}
        inv, known = self.kept.get(s, ({}, []))
        ends, guess = self.learnt.get(s, ([], []))
        known = []
        for x, lo, hi in ends:
            a, z = p.facts.range(self.here(p, self.begin(x, first), body))
            known.append((x, min(a, lo), max(z, hi)))
        for x, lo, hi in guess:
            a, z = p.facts.range(self.here(p, self.begin(x, first), body))
            if lo <= a and z <= hi:
                known.append((x, lo, hi))
        inv = {k: self.here(p, x, body) for k, x in inv.items()}
        known = [(self.here(p, x, body), lo, hi) for x, lo, hi in known]
        cl = set()
        for x in body:
            for i in f.blocks[x]:
                if i.op == 'store':
                    cl.add(self.cls(f.expr(i.ops[1])))
                elif i.op == 'call' and i.callee in self.prog.fns:
                    cl |= self.A.mod[i.callee]
        self.clobber(p, cl)
        for x in body:
            for i in f.blocks[x]:
                if i.op == 'call':
                    self.escape_args(p, i)
        for x in body:
            for i in f.blocks[x]:
                p.val.pop(i.id, None)
        for i in f.blocks[s]:
            if i.op == 'phi':
                p.val[i.id] = atom(('phi', i.id))
        for k, x in inv.items():
            p.val[k] = x
        for x, lo, hi in known:
            p.facts.assume(x, lo, hi)
        stack.append((p, s))
