"""Ownership of what a library function takes: typestate of one instance of one resource.

state  None                    the instance looked at is not taken (yet)
       ('held', holders)       the function has it; holders = SSA values that stand for it
       ('back', holders)       it was given back
       ('off',)                handed on, or not there (NULL)
"""
import re
from common import *
from locks import *

NEW = re.compile(r'^zstruct\w*New\w*$')
PLAIN = {'zstructTsNewTimeWindow'}          # plain memory, not a record structure with a type tag
MEM = {'malloc', 'calloc', 'realloc', 'strdup', 'mallocAndCopy', 'mallocAndCopyTrim', 'mallocAndCopyPath'}
FILE = {'fopen': 'stream', 'mkstemp': 'descriptor', 'open': 'descriptor', 'zopenFile': 'descriptor'}
OUT = {'zopenDisk': (1, 'descriptor'), 'decodeAndGunzip': (0, 'memory'), 'gzipAndEncode': (0, 'memory'),
       'expandEmptyXmlTags': (0, 'memory'), 'verticalDatumInfoToString': (0, 'memory')}
                                             # left in an output parameter, unless the result is not 0
GIVE = {'free': {'memory'}, 'zstructFree': {'structure'}, 'fclose': {'stream'}, 'close': {'descriptor'}, 'closeFile': {'descriptor'}}
FRESH = set()                                # functions that return fresh memory (computed)


def makes(f, i):
    if i.op != 'call' or i.callee is None:
        return None
    if i.callee in PLAIN:
        return 'memory'
    if NEW.match(i.callee):
        return 'structure'
    if i.callee in FILE:
        return FILE[i.callee]
    if i.callee in OUT:
        b = base(f, i.ops[OUT[i.callee][0]])
        d = f.defn(b) if isinstance(b, int) else None
        return OUT[i.callee][1] if d is not None and d.op == 'alloca' else None     # else handed on
    return 'memory' if i.callee in MEM or i.callee in FRESH else None


def fresh(prog):
    """functions that return memory they allocated (or nothing), for the caller to give back"""
    out = {}
    while True:
        new = dict(out)
        for f in prog.fns.values():
            if f.name in new or f.name in MEM or not f.blocks or f.ret != 'ptr' or NEW.match(f.name):
                continue
            got, ok = False, True
            for b in f.blocks:
                t = b[-1]
                if t.op != 'ret' or not t.ops:
                    continue
                work, seen = [t.ops[0]], set()
                while work and ok:
                    v = f.strip(work.pop())
                    if not isinstance(v, int):
                        ok = ok and v[0] in ('null', 'i', 'undef', 'poison', 'n')
                        if not ok:
                            pass
                        continue
                    if v in seen:
                        continue
                    seen.add(v)
                    d = f.defn(v)
                    if d is None:
                        ok = False
                    elif d.op == 'phi':
                        work.extend(x for x, _ in d.incoming)
                    elif d.op == 'select':
                        work.extend(d.ops[1:])
                    elif d.op == 'call' and d.callee in MEM | set(new):
                        got = True
                        # also kept elsewhere?
                        if any(u.op == 'store' and u.ops[0] == v for u in f.users(v)):
                            ok = False
                    else:
                        ok = False
            if got and ok:
                new[f.name] = 'memory'
        if new == out:
            return out
        out = new


def base(f, v, n=0):
    """the value an address is built on"""
    v = f.strip(v)
    while isinstance(v, int):
        d = f.defn(v)
        if d is None:
            break
        if d.op == 'getelementptr':
            v = f.strip(d.ops[0])
        elif d.op in ('add', 'sub') and n < 4:
            # memory address kept as a number
            a, b = f.strip(d.ops[0]), f.strip(d.ops[1])
            if isinstance(a, int) and f.defn(a) is not None and f.defn(d.ops[0] if isinstance(d.ops[0], int) else a).op == 'ptrtoint':
                v, n = a, n + 1
            else:
                break
        else:
            break
    return v


class Keeps:
    """what a function does with a pointer it is given: keeps (stores it, returns it) or gives back"""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def get(self, name, k, depth=0):
        key = (name, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ''
        f = self.prog.fns.get(name)
        if f is None or not f.blocks or k >= len(f.args):
            return ''
        r = ''
        work, seen = [k], set()
        while work and not r:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in f.users(v):
                if u.op in ('bitcast', 'getelementptr', 'phi', 'select', 'freeze', 'inttoptr', 'ptrtoint'):
                    if u.op != 'getelementptr' or u.ops[0] == v:
                        work.append(u.id)
                elif u.op == 'store' and u.ops[0] == v:
                    r = 'keeps'
                elif u.op == 'ret':
                    r = 'keeps'
                elif u.op == 'call' and u.callee and v in u.ops:
                    if u.callee in GIVE:
                        r = u.callee
                    else:
                        r = self.get(u.callee, u.ops.index(v), depth + 1)
                if r:
                    break
        self.memo[key] = r
        return r


class Own(NullClient):
    def __init__(self, f, kinds, g, keeps, more=False):
        self.kinds = kinds
        self.g = g
        self.kind = kinds[g]
        self.keeps = keeps
        self.bad = {}
        self.lost, self.again = None, False
        self.loads = ()
        d = f.insts[g]
        self.slot = None
        if d.callee in OUT:
            self.slot = base(f, d.ops[OUT[d.callee][0]])
            self.loads = [i.id for i in f.all() if i.op == 'load' and base(f, i.ops[0]) == self.slot]
        # what decides more than one branch is remembered along a path, nothing else
        seen, phis = {}, set()
        for b in f.blocks:
            t = b[-1]
            if t.op in ('br', 'switch') and len(t.succ) > 1 and isinstance(t.ops[0], int):
                work, mine = [t.ops[0]], set()
                while work:
                    v = work.pop()
                    if not isinstance(v, int) or v in mine:
                        continue
                    mine.add(v)
                    e = f.defn(v)
                    if e is not None and e.op not in ('call', 'load'):
                        work.extend(f.operands(e))
                        if e.op == 'phi':
                            phis.add(v)
                for v in mine:
                    seen[v] = seen.get(v, 0) + 1
        self.keep = {v for v, n in seen.items() if n > 1} | {i.id for i in f.all() if makes(f, i)}
        if more:
            self.keep |= phis
        self.mem = [m for m in kinds if kinds[m] in ('memory', 'structure') and f.insts[m].callee not in OUT]
        # values that may stand for another one
        self.other, work = set(), [m for m in self.mem if m != g]
        while work:
            v = work.pop()
            if v not in self.other:
                self.other.add(v)
                work.extend(u.id for u in f.users(v) if u.op in ('phi', 'select', 'bitcast'))
        # values that may stand for it
        self.may = set()
        work = [g]
        while work:
            v = work.pop()
            if v in self.may:
                continue
            self.may.add(v)
            for u in f.users(v):
                if u.op in ('phi', 'select', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze') or (u.op == 'getelementptr' and u.ops[0] == v):
                    work.append(u.id)

    def start(self, R):
        return [('no',)]

    def src(self, R, env, v, hs):
        """does the operand stand for the instance?"""
        if not isinstance(v, int):
            return False
        f = R.f
        for _ in range(8):
            if v in hs:
                return True
            w = base(f, v)
            if not isinstance(w, int):
                return False
            if w in hs:
                return True
            d = f.defn(w)
            if d is not None and d.op == 'select':
                it = R.itv(env, d.ops[0])
                if it[0] == it[1]:
                    v = d.ops[1] if it[0] else d.ops[2]
                    if not isinstance(v, int):
                        return False
                    continue
                return any(self.src(R, env, x, hs) for x in d.ops[1:])
            if w == v:
                w2 = R.rep(env, v)
                if w2 == v or not isinstance(w2, int):
                    break
                v = w2
            else:
                v = w
        if self.slot is not None:
            d = f.defn(f.strip(v))
            return d is not None and d.op == 'load' and base(f, d.ops[0]) == self.slot
        return False

    def note(self, what, i, text):
        self.bad.setdefault(what, (i, text))

    def inst(self, R, S, env, i):
        f = R.f
        g = self.g
        if i.id == g and i.op == 'call':
            d = i
            if S[0] == 'held':
                old = S[1]
                if d.callee == 'realloc' and self.src(R, env, d.ops[0], old):
                    S = ('off',)
                else:
                    hs = frozenset(x for x in old if x != g)
                    S = ('held', hs)
                    if not hs and self.slot is None:
                        self.lost = self.lost or i
                        S = ('gone',)
                    elif self.slot is not None:
                        self.lost = self.lost or i
                        S = ('gone',)
                R.exec(env, i)
                return [(S, env)]
            if S[0] in ('back', 'off', 'null'):
                self.again = True
            if S[0] == 'null':
                S = ('off',)
            for x in self.loads:
                env.v.pop(x, None)
            if S[0] == 'back':
                hs = frozenset(x for x in S[1] if x != g)
                S = ('back', hs) if hs else ('off',)
                R.exec(env, i)
                return [(S, env)]
            R.exec(env, i)
            e2 = env.copy()
            return [(S, env), (('held', frozenset([g])), e2)] if S[0] == 'no' else [(S, env)]
        if S[0] in ('off', 'no', 'gone'):
            return None
        hs = S[1]
        if i.op == 'icmp' and i.pred in ('eq', 'ne') and self.slot is None:
            # it is none of the function's own variables
            for a, b in (i.ops, i.ops[::-1]):
                if isinstance(a, int) and isinstance(b, int) and f.strip(a) in hs:
                    d = f.defn(base(f, b))
                    if d is not None and d.op == 'alloca':
                        k = int(i.pred == 'ne')
                        env.v[i.id] = (k, k, k == 1)
                        return [(S, env)]
            return None
        if S[0] == 'null':
            if i.op == 'call' and i.callee in GIVE and i.ops and self.src(R, env, i.ops[0], hs):
                self.note('null', i, '%s is given to %s where it was not there (NULL)' % (self.name(f, g), i.callee))
            return None
        if S[0] == 'back':
            ops = []
            if i.op == 'load':
                ops = [i.ops[0]]
            elif i.op == 'store':
                ops = [i.ops[1]]
            elif i.op == 'call' and self.slot is None:
                ops = [o for o in i.ops if isinstance(o, int)]
            for o in ops:
                if self.src(R, env, o, hs):
                    twice = i.op == 'call' and i.callee in GIVE
                    what = 'given back twice' if twice else 'used after it was given back'
                    self.note('twice' if twice else 'used', i, '%s %s' % (self.name(f, g), what))
                    return None
            return None
        if i.op == 'call':
            if i.callee in GIVE and i.ops and self.src(R, env, i.ops[0], hs):
                if self.kind not in GIVE[i.callee]:
                    self.note('kind', i, '%s is given back with %s' % (self.name(f, g), i.callee))
                R.exec(env, i)
                return [(('back', hs) if self.slot is None else ('off',), env)]
            if i.callee == 'realloc' and self.src(R, env, i.ops[0], hs):
                R.exec(env, i)
                return [(('off',), env)]
            for k, o in enumerate(i.ops or []):
                if isinstance(o, int) and i.callee and self.src(R, env, o, hs):
                    w = self.keeps.get(i.callee, k)
                    if w == 'keeps':
                        R.exec(env, i)
                        return [(('off',), env)]
                    if w:
                        if self.kind not in GIVE[w]:
                            self.note('kind', i, '%s is given back with %s' % (self.name(f, g), w))
                        R.exec(env, i)
                        return [(('back', hs), env)]
            return None
        if i.op == 'store' and self.src(R, env, i.ops[0], hs):
            R.exec(env, i)
            return [(('off',), env)]
        if i.op == 'ret' and i.ops and self.src(R, env, i.ops[0], hs):
            return [(('off',), env)]
        return None

    def edge(self, R, S, env, i, succ):
        f = R.f
        if f.blocks[succ][-1].op == 'unreachable':
            return None         # the program ends there (assert)
        if len(set(i.succ)) > 1 and any(R.itv(env, m)[:2] == (0, 0) for m in self.mem if m in env.v):
            return None         # there was no memory
        if S[0] in ('held', 'back'):
            hs = S[1]
            if S[0] == 'held':
                for h in hs:
                    it = R.itv(env, h)
                    if (self.slot is None and self.kind != 'descriptor' and it[:2] == (0, 0)) or \
                       (self.kind == 'descriptor' and self.slot is None and it[1] <= 0) or \
                       (self.slot is not None and h == self.g and it[2]):
                        S = ('null', S[1]) if self.kind == 'stream' else ('off',)
                        break
                if any(x in env.v and env.v[x][1] <= 0 for x in self.loads):
                    S = ('off',)
        if S[0] in ('held', 'back', 'null'):
            hs = set(S[1])
            add, rem, over = set(), set(), S[0] == 'held' and len(S) > 2
            for ph in f.blocks[succ]:
                if ph.op != 'phi':
                    break
                for x, p in ph.incoming:
                    if p == i.bb:
                        if self.src(R, env, x, S[1]):
                            add.add(ph.id)
                        else:
                            rem.add(ph.id)
                            if f.strip(x) in self.other and ph.id in self.may:
                                over = True     # its variable takes another value
                        break
            hs = (hs - rem) | add
            if not hs and self.slot is None:
                if S[0] == 'held':
                    self.lost = self.lost or i
                S = ('gone',) if S[0] == 'held' else ('off',)
            # values no longer needed
            lv = R.A.live(f)[0][succ]
            if self.slot is None and hs:
                dead = {h for h in hs if h not in lv and h not in add and not any(u in lv for u in self.derived(f, h))}
                hs2 = hs - dead
                if not hs2 and S[0] == 'held' and over:
                    self.lost = self.lost or i
                    S = ('gone',)
                hs = hs2 if hs2 else hs
                if not hs2 and S[0] not in ('held', 'gone'):
                    S = ('off',)
            if S[0] not in ('off', 'gone'):
                S = (S[0], frozenset(hs)) + (('over',) if over and not add and S[0] == 'held' else ())
        env.mem.clear()
        env.ne = frozenset()
        for v in [v for v in env.v if v not in self.keep and v not in self.may]:
            if v not in env.fz:
                del env.v[v]
        env.c.clear()
        return S

    def derived(self, f, h):
        m = self.__dict__.setdefault('_der', {})
        if h not in m:
            s, work = set(), [h]
            while work:
                v = work.pop()
                for u in f.users(v):
                    if u.op in ('bitcast', 'getelementptr', 'inttoptr', 'ptrtoint', 'freeze', 'add', 'sub') and u.id not in s:
                        s.add(u.id)
                        work.append(u.id)
            m[h] = s
        return m[h]

    @staticmethod
    def name(f, g):
        d = f.insts[g]
        return '%s%s' % ("'%s' from " % d.name if d.name else 'what came from ', d.callee)


def label(f, g, kinds):
    """stable name of one resource: function, kind of call and its rank among these"""
    d = f.insts[g]
    order = {b: k for k, b in enumerate(f.rpo())}
    same = sorted((x for x in kinds if f.insts[x].callee == d.callee), key=lambda x: (order.get(f.insts[x].bb, 1 << 30), f.insts[x].pos))
    return '%s:%s%d' % (f.name, d.callee, same.index(g) + 1)
