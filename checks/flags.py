"""Who owns the members of a record structure: content of a pointer member against its flag in allocated[].

state (content, flag, flag of the member it was taken from, what was loaded of it while it was as at entry)
content  E        as at entry or as another function left it (in step with its flag)
         null, freed, foreign (an argument, a local array, what the structure does not own), mix (not known)
         ('fresh', value)    memory taken here
         mv       the pointer of a member of another structure
         out      the pointer was also stored elsewhere
         dead     the structure was freed
         no       the structure is not there yet
flag     0 1 ? ; s set here, c cleared here
"""
import re
from own import *

SF = re.compile(r'^(zstructFree|z\w*StructFree)$')


def owned(prog):
    """{structure: {member: flag position or None}} as the free routines have it"""
    out, order = {}, {}
    for n in sorted(prog.fns):
        f = prog.fns[n]
        if not SF.match(n) or n == 'zstructFree':
            continue
        dom = guards(f)
        for i in f.all():
            if i.op != 'call' or not i.callee or not (i.callee == 'free' or SF.match(i.callee)) or not i.ops:
                continue
            u = member(f, f.expr(i.ops[0])[1]) if f.expr(i.ops[0])[0] == 'ld' else None
            if u is None:
                continue
            ks = {k for b in dom.get(i.bb, ()) for (base, s, k) in [b] if s == u[1]}
            out.setdefault(u[1], {}).setdefault(u[2], []).append((n, f.where(i), tuple(sorted(ks)), i.callee))
    return out


def member(f, a):
    """(base, structure, member) of the address of a member"""
    if not isinstance(a, tuple) or a[0] != 'gep':
        return None
    st = a[2]
    if not st or st[-1][0] != '.':
        return None
    base = a[1] if len(st) == 1 else ('gep', a[1], st[:-1])
    return base, st[-1][1], st[-1][2]


def flagof(f, a):
    """(base, structure, k) of the address of one allocated[] flag"""
    if not isinstance(a, tuple) or a[0] != 'gep':
        return None
    st = a[2]
    k = 0
    if st and st[-1][0] == '[]' and st[-1][1] == 'i8':
        if st[-1][2][0] != 'c':
            return None
        k = st[-1][2][1]
        st = st[:-1]
    if not st or st[-1][:1] != ('.',) or st[-1][2] != 'allocated':
        return None
    base = a[1] if len(st) == 1 else ('gep', a[1], st[:-1])
    return base, st[-1][1], k


def test(f, v):
    """what a branch condition tests: ('member', base, S, F, set when true) or ('flag', base, S, k, set when true)"""
    neg = False
    v = f.strip(v) if isinstance(v, int) else v
    for _ in range(6):
        if not isinstance(v, int):
            return None
        d = f.defn(v)
        if d is None:
            return None
        if d.op == 'icmp' and d.pred in ('eq', 'ne', 'sgt', 'ugt') and d.ops[1] in ((('n',)),) or \
           (d is not None and d.op == 'icmp' and d.pred in ('eq', 'ne', 'sgt', 'ugt') and isinstance(d.ops[1], tuple) and d.ops[1][0] in ('i', 'n') and (d.ops[1][0] == 'n' or d.ops[1][1] == 0)):
            if d.pred == 'eq':
                neg = not neg
            v = f.strip(d.ops[0]) if isinstance(d.ops[0], int) else d.ops[0]
            continue
        if d.op == 'xor':
            neg = not neg
            v = f.strip(d.ops[0]) if isinstance(d.ops[0], int) else d.ops[0]
            continue
        if d.op == 'load':
            e = f.expr(v)
            a = e[1] if e[0] == 'ld' else None
            m = flagof(f, a)
            if m:
                return ('flag',) + m + (not neg,)
            m = member(f, a)
            if m:
                return ('member',) + m + (not neg,)
            return None
        return None
    return None


def guards(f):
    """block -> flags that are set on every way to it"""
    full = None
    inn = {0: frozenset()}
    order = f.rpo()
    chg = True
    while chg:
        chg = False
        for b in order:
            if b not in inn:
                continue
            t = f.blocks[b][-1]
            for k, s in enumerate(t.succ):
                g = inn[b]
                if t.op == 'br' and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
                    x = test(f, t.ops[0])
                    if x and x[0] == 'flag' and x[4] == (k == 0):
                        g = g | {x[1:4]}
                n = g if s not in inn else inn[s] & g
                if inn.get(s) != n:
                    inn[s] = n
                    chg = True
    return inn


def writes(prog, tab):
    """function -> members and flags it or what it calls may change"""
    own, calls = {}, {}
    for f in prog.fns.values():
        w, c = set(), set()
        for i in f.all():
            if i.op == 'store':
                a = f.expr(i.ops[1])
                m = flagof(f, a) or member(f, a)
                if m:
                    w.add(m[1:])
            elif i.op == 'call' and i.callee:
                c.add(i.callee)
        own[f.name], calls[f.name] = w, c
    chg = True
    while chg:
        chg = False
        for n in own:
            for c in calls[n]:
                if c in own and not own[c] <= own[n]:
                    own[n] |= own[c]
                    chg = True
    return own


class Bases:
    """base expressions that mean the same structure"""

    def __init__(self, f):
        self.f = f
        self.up = {}
        for i in f.all():
            if i.op in ('phi', 'select') and i.type == 'ptr':
                for x in ([x for x, _ in i.incoming] if i.op == 'phi' else i.ops[1:]):
                    x = f.strip(x)
                    if isinstance(x, int):
                        a, b = self.find(i.id), self.find(x)
                        if a != b:
                            self.up[max(a, b)] = min(a, b)

    def find(self, v):
        while v in self.up:
            v = self.up[v]
        return v

    def key(self, e):
        if isinstance(e, tuple) and e and e[0] in ('phi', 'call', 'arg', 'select') and isinstance(e[-1], int):
            return ('v', self.find(e[-1]))
        if isinstance(e, tuple) and e and e[0] == 'ld':
            return ('ld', self.norm(e[1]))
        return self.norm(e)

    def norm(self, e):
        if isinstance(e, tuple) and e and e[0] in ('phi', 'call', 'arg', 'select') and isinstance(e[-1], int):
            return ('v', self.find(e[-1]))
        if isinstance(e, tuple):
            return tuple(self.norm(x) for x in e)
        return e

    def of(self, v):
        v = self.f.strip(v)
        if not isinstance(v, int):
            return None
        d = self.f.defn(v)
        if d is None or d.op in ('phi', 'call', 'select'):
            return ('v', self.find(v))
        return self.key(self.f.expr(v))


def inside(k, e):
    """is the structure k reached through e?"""
    return k == e or (isinstance(e, tuple) and any(inside(k, x) for x in e))


class Flag(NullClient):
    def __init__(self, W, f, bs, unit, partner=None):
        self.W, self.f, self.bs = W, f, bs
        self.base, self.S, self.F = unit
        self.k = W['flag'][self.S].get(self.F)
        self.partner = partner
        if partner:
            self.pk = W['flag'][partner[1]].get(partner[2])
        self.bad = {}
        self.seen = 0
        # what decides more than one branch is remembered along a path
        seen, phis = {}, set()
        for b in f.blocks:
            t = b[-1]
            if t.op in ('br', 'switch') and len(t.succ) > 1 and isinstance(t.ops[0], int):
                work, mine = [t.ops[0]], set()
                while work:
                    v = work.pop()
                    if not isinstance(v, int) or v in mine:
                        continue
                    mine.add(v)
                    e = f.defn(v)
                    if e is not None and e.op == 'phi':
                        phis.add(v)
                    if e is not None and e.op not in ('call', 'load'):
                        work.extend(f.operands(e))
                for v in mine:
                    seen[v] = seen.get(v, 0) + 1
        self.keep = {v for v, n in seen.items() if n > 1} | phis | {i.id for i in f.all() if makes(f, i)}
        self.mine = {i.id for i in f.all() if i.op == 'call' and ('v', bs.find(i.id)) == self.base}
        self.local = bool(self.mine) and self.base[0] == 'v' and not any(('v', bs.find(n)) == self.base for n in range(len(f.args)))

        b = self.base
        while isinstance(b, tuple) and b[0] in ('ld', 'gep'):
            b = b[1]
        self.given = b == ('arg', 0) or isinstance(b, tuple) and b[0] == 'v' and any(bs.find(n) == b[1] for n in range(len(f.args)))
        self.stores = any(i.op == 'store' and self.is_member(f.expr(i.ops[1])) for i in f.all())
        # loads of the member whose value is stored to it again
        self.back = set()
        for i in f.all():
            if i.op == 'store' and self.is_member(f.expr(i.ops[1])) and isinstance(i.ops[0], int):
                for v in self.through(i.ops[0]):
                    d = f.defn(v)
                    if d is not None and d.op == 'load' and self.is_member(f.expr(v)[1]):
                        self.back.add(v)
        # is the member ever given to somebody else?
        self.taken = False
        work, seen = [i.id for i in f.all() if i.op == 'load' and self.is_member(f.expr(i.id)[1])], set()
        while work:
            v = work.pop()
            for u in f.users(v):
                if u.op == 'store' and isinstance(u.ops[0], int) and f.strip(u.ops[0]) == v or u.op in ('ret', 'insertvalue') or \
                        u.op == 'call' and u.callee in ('free', 'realloc'):
                    self.taken = True
                elif u.op in ('phi', 'select', 'bitcast') and u.id not in seen:
                    seen.add(u.id)
                    work.append(u.id)
        # what is given to free or realloc as it is
        self.freed = set()
        for i in f.all():
            if i.op == 'call' and i.callee in ('free', 'realloc') and i.ops:
                self.freed |= self.through(i.ops[0])

    def through(self, v):
        out, work = set(), [v]
        while work:
            v = work.pop()
            v = self.f.strip(v) if isinstance(v, int) else v
            if not isinstance(v, int) or v in out:
                continue
            out.add(v)
            d = self.f.defn(v)
            if d is not None and d.op == 'phi':
                work.extend(x for x, _ in d.incoming)
            elif d is not None and d.op == 'select':
                work.extend(d.ops[1:])
        return out

    def again(self, v, i):
        """may the store i and the call v be of different rounds of one loop?"""
        f = self.f
        d = f.defn(v)
        reach, work = set(), [i.bb]
        while work:
            for s in f.blocks[work.pop()][-1].succ:
                if s not in reach:
                    reach.add(s)
                    work.append(s)
        return d.bb in reach

    def took(self, c, fl, i):
        """the flag after what the member holds was freed by hand"""
        if c == 'E':
            if fl in ('0', 'c') and self.k is not None:
                self.note('borrowed', i, '%s is freed although its allocated[] flag says that the structure does not own it' % self.what())
            if fl == '?':
                if self.k is not None and self.given:
                    self.note('unchecked', i, '%s is freed without a look at its allocated[] flag' % self.what())
                return '1'
        return fl

    def start(self, R):
        p = None
        if self.partner:
            p = '?'
        return [('no', '0', p, ())] if self.local else [('E', '?', p, ())]

    def initial(self, d, S, F):
        """content and flag of a member of a structure just made by the call d"""
        if d.callee == 'calloc':
            return ('null', '0')
        if NEW.match(d.callee):
            return self.W['new'](d.callee, S, F)
        return ('E', '?')

    def is_member(self, a):
        m = member(self.f, a)
        return m is not None and m[1] == self.S and m[2] == self.F and self.bs.key(m[0]) == self.base

    def is_flag(self, a):
        if self.k is None:
            return False
        m = flagof(self.f, a)
        return m is not None and m[1] == self.S and m[2] == self.k and self.bs.key(m[0]) == self.base

    def is_p(self, a, flag):
        if not self.partner:
            return False
        m = flagof(self.f, a) if flag else member(self.f, a)
        return m is not None and m[1] == self.partner[1] and m[2] == (self.pk if flag else self.partner[2]) and self.bs.key(m[0]) == self.partner[0]

    def note(self, what, i, text):
        self.bad.setdefault(what, (i, text))

    def what(self):
        return "'%s' of %s" % (self.F, self.S.replace('struct.', ''))

    def settle(self, S, i, end):
        """the structure is given back (end) or handed to somebody else"""
        c, fl, p, old = S
        set_ = fl in ('1', 's') or self.k is None
        if c[0] == 'fresh':
            if not set_:
                self.note('unflagged', i, '%s holds memory taken here, but its allocated[] flag is not set%s' % (self.what(), ' when the structure is freed' if end else ' at the end'))
        elif c == 'foreign':
            if set_:
                self.note('foreign', i, '%s holds memory the structure does not own, but its allocated[] flag is set' % self.what())
        elif c == 'freed':
            if set_ or (fl == '?' and end):
                self.note('freed', i, '%s was freed, but its allocated[] flag is still set' % self.what())
        elif c == 'E':
            if fl == 's' and not end and not self.stores:
                self.note('claimed', i, 'the allocated[] flag of %s is set without memory for it' % self.what())
            if fl == 'c':
                self.note('dropped', i, 'the allocated[] flag of %s is cleared while it still holds memory' % self.what())
        elif c == 'mv':
            free = p == 'c' and self.pk is not None
            if set_ and p == '0':
                self.note('foreign', i, '%s holds memory the structure does not own, but its allocated[] flag is set' % self.what())
            elif set_ and not free:
                self.note('shared', i, '%s and the structure it was taken from would both free it' % self.what())
            elif not set_ and free:
                self.note('unflagged', i, '%s holds memory taken over from another structure, but its allocated[] flag is not set' % self.what())

    def inst(self, R, S, env, i):
        f, bs = self.f, self.bs
        c, fl, p, old = S
        if i.op == 'call' and i.id in self.mine:
            R.exec(env, i)
            a, b = self.initial(i, self.S, self.F)
            return [((a, b, p, ()), env)]
        if self.partner and i.op == 'call' and ('v', bs.find(i.id)) == self.partner[0]:
            R.exec(env, i)
            return [((c, fl, self.initial(i, self.partner[1], self.partner[2])[1], old), env)]
        if c in ('dead', 'no'):
            return None
        if i.op == 'load' and i.id in self.back and c == 'E':
            R.exec(env, i)
            return [((c, fl, p, tuple(sorted(set(old) | {i.id}))), env)]
        if i.op == 'store':
            a = f.expr(i.ops[1])
            if self.is_member(a):
                self.seen += 1
                n = self.classify(R, env, i.ops[0], S)
                if n is None:
                    R.exec(env, i)
                    return [(S, env)]
                if c[0] == 'fresh' and c[1] is not None and c[1] not in self.freed and R.itv(env, c[1])[:2] != (0, 0) and not self.again(c[1], i):
                    self.note('lost', i, '%s is overwritten while it holds memory taken here' % self.what())
                elif c == 'E' and (fl == '1' and self.local and not old or fl == 'c' and not self.taken):
                    self.note('lost', i, '%s is overwritten while it holds memory of the structure' % self.what())
                R.exec(env, i)
                return [((n, fl, p, old), env)]
            if self.is_flag(a):
                v = i.ops[0]
                d = f.strip(v) if isinstance(v, int) else v
                e = f.expr(d) if isinstance(d, int) else (None,)
                if e[0] == 'ld' and p is not None and self.is_p(e[1], True):
                    # the flag of the structure the member was taken from
                    R.exec(env, i)
                    return [((c, n, q, old), env.copy()) for n, q in (('s', '1'), ('0' if fl == '0' or c != 'E' else 'c', '0'))
                            if p == '?' or (p in ('1', 's')) == (q == '1')]
                it = R.itv(env, v)
                n = 's' if it[2] else ('?' if it[:2] != (0, 0) else None)
                if n is None:
                    n = '0' if fl == '0' or c != 'E' else 'c'
                if n == 's' and fl == '1':
                    n = '1'
                R.exec(env, i)
                return [((c, n, p, old), env)]
            if self.is_p(a, True):
                it = R.itv(env, i.ops[0])
                R.exec(env, i)
                return [((c, fl, 'c' if it[:2] == (0, 0) else ('1' if it[2] else '?'), old), env)]
            if self.is_p(a, False) and c == 'mv':
                R.exec(env, i)
                return [((('fresh', None) if p != '0' else 'foreign', fl, p, old), env)]
            # stored somewhere else as well?
            if c in ('E',) or c[0] == 'fresh':
                if self.holds(R, env, i.ops[0], c):
                    R.exec(env, i)
                    return [(('out', fl, p, old), env)]
            return None
        if i.op == 'ret':
            if i.ops and self.holds(R, env, i.ops[0], c):
                return [(('out', fl, p, old), env)]
            if not self.local or (i.ops and bs.of(i.ops[0]) == self.base) or self.W['esc'](f, bs, self.base):
                self.settle(S, i, False)
            return None
        if i.op == 'call' and i.callee:
            ops = [o for o in (i.ops or []) if isinstance(o, int)]
            if SF.match(i.callee) and ops:
                if bs.of(ops[0]) == self.base:
                    self.settle(S, i, True)
                    R.exec(env, i)
                    return [(('dead', '0', p, ()), env)]
                if self.partner and bs.of(ops[0]) == self.partner[0]:
                    n = c
                    if c == 'mv':
                        if p == 'c' and self.pk is not None:
                            n = ('fresh', None)
                        elif p == '0' and self.pk is not None:
                            n = 'foreign'
                        elif not self.local or fl in ('1', 's') or self.k is None:
                            self.note('shared', i, '%s was taken from a structure that still owns it when it is freed' % self.what())
                            n = 'mix'
                        else:
                            n = 'foreign'
                    R.exec(env, i)
                    return [((n, fl, p, old), env)]
                if self.base[0] == 'ld' and inside(bs.of(ops[0]), self.base):
                    self.settle(S, i, False)
                    R.exec(env, i)
                    return [(('dead', '0', p, ()), env)]
                return None
            if i.callee == 'free' and ops:
                if bs.of(ops[0]) == self.base:
                    R.exec(env, i)
                    return [(('dead', '0', p, ()), env)]
                if self.holds(R, env, ops[0], c):
                    R.exec(env, i)
                    return [(('freed', self.took(c, fl, i), p, old), env)]
                return None
            if i.callee == 'realloc' and ops and self.holds(R, env, ops[0], c):
                R.exec(env, i)
                return [(('freed', self.took(c, fl, i), p, old), env)]
            if i.callee == 'memset' and ops and bs.of(ops[0]) == self.base:
                R.exec(env, i)
                return [(('null', '0', p, ()), env)]
            w = self.W['writes'].get(i.callee, ())
            for o in ops:
                k = bs.of(o)
                if k is None:
                    continue
                if inside(k, self.base) and ((self.S, self.F) in w or (self.S, self.k) in w):
                    R.exec(env, i)
                    return [(('E', '?', p, ()), env)]
                if self.partner and inside(k, self.partner[0]) and ((self.partner[1], self.partner[2]) in w or (self.partner[1], self.pk) in w):
                    R.exec(env, i)
                    return [((c, fl, '?', old), env)]
        return None

    def holds(self, R, env, v, c):
        """is v what the member points to?"""
        f = self.f
        if not isinstance(v, int):
            return False
        for x in (v, R.rep(env, f.strip(v))):
            if not isinstance(x, int):
                continue
            x = f.strip(x)
            if c[0] == 'fresh' and x == c[1]:
                return True
            e = f.expr(x)
            if e[0] == 'ld' and self.is_member(e[1]):
                return True
        return False

    def classify(self, R, env, v, S):
        """content after v was stored; None: the same as before"""
        f = self.f
        if isinstance(v, tuple):
            return 'null' if v[0] == 'n' else 'foreign'
        it = R.itv(env, v)
        if it[:2] == (0, 0):
            return 'null'
        v = f.strip(v)
        r = R.rep(env, v)
        if isinstance(r, int):
            v = f.strip(r)
        if isinstance(v, tuple):
            return 'null' if v[0] == 'n' else 'foreign'
        if v < len(f.args):
            return 'foreign'
        d = f.defn(v)
        if makes(f, d):
            if d.callee == 'realloc' and S[0] == 'freed':
                return 'E' if S[1] == '?' else ('fresh', v)
            return ('fresh', v)
        e = f.expr(v)
        if e[0] == 'ld':
            if self.is_member(e[1]):
                return 'E' if v in S[3] and S[0] != 'E' else None
            if self.is_p(e[1], False):
                return 'mv'
            m = member(f, e[1])
            return 'mix'
        if d.op in ('alloca', 'getelementptr'):
            return 'foreign'
        if d.op == 'call':
            if d.callee is None:
                return 'foreign'
            return 'mix'
        return 'mix'

    def edge(self, R, S, env, i, succ):
        f = self.f
        if f.blocks[succ][-1].op == 'unreachable':
            return None
        c, fl, p, old = S
        if i.op == 'br' and len(i.succ) == 2 and i.succ[0] != i.succ[1]:
            if c[0] == 'fresh' and c[1] is not None and c[1] in env.v and R.itv(env, c[1])[:2] == (0, 0):
                return None         # there was no memory
            if any(R.itv(env, m)[:2] == (0, 0) for m in self.mine if m in env.v):
                return None
            d = f.defn(f.strip(i.ops[0])) if isinstance(i.ops[0], int) else None
            if c[0] == 'fresh' and d is not None and d.op == 'icmp' and d.pred in ('eq', 'ne') and (d.pred == 'eq') == (succ == i.succ[0]):
                # memory taken here is not what the member held before
                ab = [f.strip(R.rep(env, f.strip(x))) for x in d.ops if isinstance(x, int)]
                if c[1] in ab and any(x in old for x in ab if x != c[1]):
                    return None
            t = test(f, i.ops[0])
            if t:
                yes = t[4] == (succ == i.succ[0])
                key = self.bs.key(t[1])
                if t[0] == 'flag' and t[2] == self.S and t[3] == self.k and key == self.base and self.k is not None:
                    if fl in ('0', 'c') and yes or fl in ('1', 's') and not yes:
                        if c not in ('dead', 'no'):
                            return None
                    if fl == '?':
                        fl = '1' if yes else '0'
                elif t[0] == 'member' and t[2] == self.S and t[3] == self.F and key == self.base:
                    if c == 'null' and yes:
                        return None
                    if c[0] == 'fresh' and not yes:
                        return None
                    if c == 'E' and not yes:
                        c = 'null'
                elif self.partner and t[0] == 'flag' and t[2] == self.partner[1] and t[3] == self.pk and key == self.partner[0]:
                    if p in ('0', 'c', '1') and (p == '1') != yes:
                        return None
                    p = '1' if yes else ('c' if p == 'c' else '0')
                elif self.partner and c == 'mv' and t[0] == 'member' and t[2] == self.partner[1] and t[3] == self.partner[2] and key == self.partner[0] and not yes:
                    c = 'null'
        env.ne = frozenset()
        for v in [v for v in env.v if v not in self.keep]:
            if v not in env.fz:
                del env.v[v]
        env.mem.clear()
        env.c.clear()
        return (c, fl, p, old)
