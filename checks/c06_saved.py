"""C06: what an operation did to the file header is in the file when the operation reports success.

Interprocedural typestate: state of one handle = (header changed since it was last written,
data written since the header was, lock level, end mark owed).  Summaries on demand."""
import itertools
from common import *
from flow import Runner, NullClient, Env, mk, BIG
from locks import key, const, fh
import affine

PRIM = {'zput', 'zputBuff', 'zpermWrite', 'zpermRead', 'zflushToDisk', 'zlockActive', 'zgetFileSpace'}
# no effect on the header: reads, messages, error reports, process table, lock bookkeeping
NONE = {'zget', 'zgetBuff', 'zerrorProcessing', 'zerrorUpdate', 'zpidWrite', 'zpidUpdate', 'zlockPassive', 'zlockingOld', 'zcheckMultiUser', 'zinitIfltab', 'zmemoryFree', 'zlockDss', 'zmemoryGet'}
# words of the header that are a cursor or a record of errors, not saved on purpose
CURSOR = {'kreclaimSegAvailableAdd', 'kreclaimSegNumber', 'kerrorAddress', 'kerrorMemory', 'kerrorTotal'}
# questions zinquire answers from memory
QUIET = {'writ', 'fver', 'hand', 'unit', 'stat', 'maxp', 'fsiz'}
ERR, GOOD = (-BIG, -2, True), (-1, BIG, False)


def is_key(a, table, name=None):
    return a[0] == 'gep' and a[2][-1][0] == '[]' and a[2][-1][2][0] == 'key' and a[2][-1][2][1] == table and (name is None or a[2][-1][2][2] == name)


class State(tuple):
    """(header changed in memory only, writing mark set, lock level, change lost)"""
    __slots__ = ()

    def but(self, **k):
        n = dict(zip(('dirty', 'writing', 'level', 'lost'), self))
        n.update(k)
        return State((n['dirty'], n['writing'], n['level'], n['lost']))
    dirty = property(lambda s: s[0])
    writing = property(lambda s: s[1])
    level = property(lambda s: s[2])
    lost = property(lambda s: s[3])


CLEAN = State((False, False, 0, None))


class Header(NullClient):
    def __init__(self, an, handle, start):
        self.an, self.h, self.s0 = an, handle, start

    def start(self, R):
        return [self.s0]

    def mine(self, R, v):
        return R.f.expr(R.f.strip(v)) == self.h

    def good(self, R, env, i, s, rng=GOOD):
        """the call succeeded (a failed step ends the obligation: C04 has it reported)"""
        R.exec(env, i)
        return [(s, env)] if R.opw(i.id) != 32 or R.refine(env, i.id, rng) else []

    def inst(self, R, S, env, i):
        f = R.f
        if i.op == 'load':
            a = f.expr(i.ops[0])
            if a[0] == 'gep' and a[1] == self.h and (is_key(a, 'zdssKeys', 'kwritingNow') and S.writing or is_key(a, 'zdssKeys', 'klocked') and S.level > 0):
                R.exec(env, i)
                return [(S, env)] if R.refine(env, i.id, (1, BIG, True)) else []
            return None
        if i.op == 'store':
            a = f.expr(i.ops[1])
            if is_key(a, 'zdssKeys', 'kwritingNow') and a[1] == self.h:
                v = const(R, env, i.ops[0])
                R.exec(env, i)
                return [(S.but(writing=bool(v)), env)]
            if is_key(a, 'zdssFileKeys') and a[1] == ('ld', key('zdssKeys', 'kfileHeader', self.h)) and a[2][-1][2][2] not in CURSOR:
                self.an.stores.add((f.name, i.id))
                R.exec(env, i)
                return [(S.but(dirty=True), env)]
            return None
        if i.op != 'call' or i.callee is None or i.callee in NONE:
            return None
        c = i.callee
        if c == 'zinquire' and (R.prog.string(i.ops[1]) or '')[:4].lower() in QUIET:
            return None
        if c == 'zgetVersion' and i.ops and self.mine(R, i.ops[0]):
            R.exec(env, i)
            return [(S, env)] if R.refine(env, i.id, (7, 7, True)) else []
        if c in PRIM:
            if not i.ops or not self.mine(R, i.ops[0]):
                return None
            if c == 'zlockActive':
                lev, lock, flush = (const(R, env, o) for o in i.ops[1:4])
                if lev is None or lock is None or flush is None:
                    return None
                if lock == 1:
                    if S.level:
                        return self.good(R, env, i, S.but(level=max(lev, S.level)))
                    lost = S.lost or (S.dirty and flush and (f.name, i.callee)) or None
                    return self.good(R, env, i, S.but(level=lev, dirty=S.dirty and not flush, lost=lost))
                if lev < S.level:
                    return self.good(R, env, i, S)
                if flush and S.writing:
                    return self.good(R, env, i, S.but(level=0, dirty=False, writing=False))
                return self.good(R, env, i, S.but(level=0))
            if c in ('zput', 'zputBuff'):
                s = S.but(writing=True) if c == 'zput' else S
                return self.good(R, env, i, s, (0, 0, False))
            if c == 'zpermWrite':
                return self.good(R, env, i, S.but(dirty=False, writing=True))
            if c == 'zpermRead':
                return self.good(R, env, i, S.but(dirty=False, lost=S.lost or (S.dirty and (f.name, c)) or None))
            if c == 'zflushToDisk':
                R.exec(env, i)
                return [(S.but(writing=False), env), (S, env.copy())] if S.writing else [(S, env)]
            if c == 'zgetFileSpace':
                R.exec(env, i)
                self.an.spaces.add((f.name, i.id))
                return [(S.but(dirty=True), env)]
        if c in R.prog.fns and self.an.relevant(c):
            ks = [k for k, o in enumerate(i.ops) if (c, k) in self.an.handles and self.mine(R, o)]
            if not ks:
                return None
            if not self.an.changes(c):
                # only reads: it can at most take the header from the file again
                if not S.dirty:
                    return None
                R.exec(env, i)
                return [(S.but(lost=S.lost or o.lost, dirty=o.dirty), env.copy()) for o in self.an.summary(c, ks[0], State((True, S.writing, 2 if S.level else 0, None)))]
            outs = self.an.summary(c, ks[0], S.but(lost=None), tuple((k, o[1], o[2]) for k, o in enumerate(i.ops) if isinstance(o, tuple) and o[0] == 'i' and k < len(R.prog[c].args)))
            R.exec(env, i)
            if R.opw(i.id) == 32 and not R.refine(env, i.id, GOOD):
                return []
            return [(o.but(lost=S.lost or o.lost), env.copy()) for o in outs]
        return None

    def edge(self, R, S, env, t, s):
        # addresses kept in the file lie inside its recorded size: no recovery read under the lock
        if S.level and t.op == 'br' and len(t.succ) == 2:
            v = R.rep(env, t.ops[0])
            c = R.f.defn(v) if not isinstance(v, tuple) else None
            if c is not None and c.op == 'icmp' and c.pred in ('sgt', 'slt'):
                b = R.f.defn(R.f.strip(c.ops[1 if c.pred == 'sgt' else 0])) if isinstance(R.f.strip(c.ops[1 if c.pred == 'sgt' else 0]), int) else None
                if b is not None and b.op == 'load' and is_key(R.f.expr(b.ops[0]), 'zdssFileKeys', 'kfileSize') and s == t.succ[0]:
                    return None
        return S


class An:
    def __init__(self, c):
        self.c, self.prog, self.A = c, c.prog, c.A
        self.memo = {}
        self.active = set()
        self.stores = set()
        self.spaces = set()
        self.done = set()
        self._rel = None
        # parameters that are file handles: indexed with a word of the handle, or passed on as one
        self.handles = set()
        todo = [f for f in self.prog.fns.values()]
        for f in todo:
            for i in f.all():
                if i.op in ('load', 'store'):
                    a = f.expr(i.ops[0 if i.op == 'load' else 1])
                    if is_key(a, 'zdssKeys') and a[1][0] == 'arg':
                        self.handles.add((f.name, a[1][1]))
        n = -1
        while n != len(self.handles):
            n = len(self.handles)
            for f in todo:
                for i in f.calls():
                    for k, o in enumerate(i.ops):
                        if (i.callee, k) in self.handles:
                            e = f.expr(f.strip(o))
                            if e[0] == 'arg':
                                self.handles.add((f.name, e[1]))
        self.lockers = {cn for cn, _ in self.prog.callers.get('zlockActive', ())}

    def closure(self, base):
        work = list(base)
        while work:
            n = work.pop()
            for cn, _ in self.prog.callers.get(n, ()):
                if cn not in base and cn not in PRIM and cn not in NONE:
                    base.add(cn)
                    work.append(cn)
        return base

    def relevant(self, name):
        if self._rel is None:
            base, chg = set(), set()
            for f in self.prog.fns.values():
                if f.name in PRIM or f.name in NONE:
                    continue
                for i in f.all():
                    if i.op == 'call' and i.callee in PRIM:
                        base.add(f.name)
                        if i.callee != 'zpermRead':
                            chg.add(f.name)
                    elif i.op == 'store' and is_key(f.expr(i.ops[1]), 'zdssFileKeys'):
                        base.add(f.name)
                        if f.expr(i.ops[1])[2][-1][2][2] not in CURSOR:
                            chg.add(f.name)
            self._rel = self.closure(base)
            self._chg = self.closure(chg)
        return name in self._rel

    def changes(self, name):
        return self.relevant(name) and name in self._chg

    def summary(self, name, k, S, ctx=()):
        m = (name, k, S, ctx)
        if m in self.memo:
            return self.memo[m]
        if m in self.active:
            return [S]
        self.active.add(m)
        r = self.run(self.prog[name], ('arg', k), S, ctx)
        self.active.discard(m)
        self.memo[m] = r
        return r

    def run(self, f, handle, S, ctx=()):
        R = Runner(self.A, f, Header(self, handle, S), maxenv=6)
        env0 = Env()
        for k, v, w in ctx:
            env0.v[k] = (v, v, v != 0)
        out = set()
        obliged = S == CLEAN and (f.name in self.lockers or not self.prog.callers.get(f.name))
        for s, it, t, k in R.run(env0):
            if it is not None and it[1] < GOOD[0]:
                continue
            if s.level == 0 and obliged:
                self.done.add(f.name)
                if s.dirty:
                    self.c.bad(f.name + ':unsaved', f.where(t), f.name + ' can report success with the file header changed in memory only', R.trace(k[0]))
                s = s.but(dirty=False)
            if s.lost and not S.dirty:
                self.c.bad('%s:lost' % f.name, f.where(t), '%s: a change to the file header is overwritten in memory (%s in %s) before it was written to the file' % (f.name, s.lost[1], s.lost[0]), R.trace(k[0]))
                s = s.but(lost=None)
            out.add(s)
        return list(out)


class Release(NullClient):
    """zlockActive(OFF, flush) with writes pending: state (header written, flushed after it, lock released before)"""

    def start(self, R):
        return [(False, False, False)]

    def inst(self, R, st, env, i):
        if i.op != 'call' or i.callee not in ('zpermWrite', 'zflushToDisk', 'zlockDss'):
            return None
        mode = const(R, env, i.ops[2]) if i.callee == 'zlockDss' else const(R, env, i.ops[1]) if i.callee == 'zflushToDisk' else 0
        keep = {a: env.mem[a] for a in (key('zdssKeys', 'kmultiUserAccess'), key('zdssKeys', 'klocked')) if a in env.mem}
        R.exec(env, i)
        env.mem.update(keep)
        if i.callee == 'zlockDss':
            return [((st[0], st[1], st[2] or mode == 0 and not (st[0] and st[1])), env)]
        if i.callee == 'zflushToDisk' and not mode:
            return [(st, env)]
        if i.callee == 'zflushToDisk':
            env.mem[key('zdssKeys', 'kwritingNow')] = ('i', 0, 64)
        new = (True, False, st[2]) if i.callee == 'zpermWrite' else (st[0], st[0], st[2])
        e2 = env.copy()
        out = []
        if R.refine(env, i.id, (0, 0, False)):
            out.append((new, env))
        if R.refine(e2, i.id, (-BIG, -300000000, True) if i.callee == 'zpermWrite' else (-BIG, BIG, True)):
            out.append((st, e2))
        return out


def release(c):
    f = c.prog['zlockActive']
    for (what, mode, flushed), level in itertools.product((('multi-user', 2, True), ('advisory', 3, False), ('exclusive', 4, False), ('released', 6, True), ('single-user', 0, False)), (1, 2, 3)):
        env = Env()
        env.v.update({1: (level, level, True), 2: (0, 0, False), 3: (1, 1, True)})
        for w, v in (('kmultiUserAccess', mode), ('klocked', 1), ('klockLevel', level), ('kwritingNow', 1)):
            env.mem[key('zdssKeys', w)] = ('i', v, 64)
        env.mem[fh('klockReadArrayAddress')] = ('i', 1, 64)
        R = Runner(c.A, f, Release(), maxenv=16)
        n = 0
        for st, it, t, k in R.run(env):
            if it[1] < GOOD[0]:
                continue
            n += 1
            if not st[0]:
                c.bad('zlockActive:unwritten:' + what, f.where(t), 'giving the lock back (%s access) does not write the changed file header' % what, R.trace(k[0]))
            elif flushed and not st[1]:
                c.bad('zlockActive:unflushed:' + what, f.where(t), 'giving the lock back (%s access) does not flush what was written' % what, R.trace(k[0]))
            elif flushed and st[2]:
                c.bad('zlockActive:order:' + what, f.where(t), 'the lock is released (%s access) before the changes are on disk' % what, R.trace(k[0]))
        if not n:
            raise Broken('zlockActive: no successful release in %s access' % what)
        c.ok('access mode the lock is given back in', '%s, level %d' % (what, level))


def body(c):
    an = An(c)
    release(c)
    roots = sorted(n for n in c.prog.fns if an.relevant(n) and (n in an.lockers or not c.prog.callers.get(n)))
    for n in roots:
        f = c.prog[n]
        hs = set()
        for i in f.all():
            if i.op == 'call' and i.callee in c.prog.fns and (i.callee in PRIM or an.relevant(i.callee)) and i.ops:
                for k, o in enumerate(i.ops):
                    if (i.callee, k) in an.handles:
                        e = f.expr(f.strip(o))
                        if e[0] in ('arg', 'ld', 'gep', 'alloca', 'call'):
                            hs.add(e)
        for h in sorted(hs, key=repr):
            if h[0] == 'arg':
                an.summary(n, h[1], CLEAN)
            else:
                an.run(f, h, CLEAN)
    for n in an.done:
        c.ok('operation that saves the header', n)
    for fn, i in an.stores:
        c.ok('header word changed', c.prog[fn].where(c.prog[fn].insts[i]))
    for fn, i in an.spaces:
        c.ok('space taken', c.prog[fn].where(c.prog[fn].insts[i]))
    c.need('operation that saves the header', 90)
    c.need('header word changed', 150)
    c.need('access mode the lock is given back in', 15)
    return ('interprocedural typestate of a file handle (header changed in memory only, writing mark set, lock level), summaries on demand from every operation that locks or that nothing in the library calls: '
            'on each path that ends in success and leaves the handle unlocked, every header word stored since was written back (zpermWrite, or zlockActive giving the lock back with flush while the writing mark is set), '
            'and no re-read of the header (zpermRead, or the lock being taken) lands on a changed header; zlockActive itself writes the header, flushes, then releases, in each access mode.',
            ['paths on which a step failed (code below -1) end the obligation: C04 has the failure reported',
             'cursor and error words of the header are not saved on purpose: ' + ', '.join(sorted(CURSOR)),
             'the handle is of version 7; zinquire answers %s from memory' % ', '.join(sorted(QUIET)),
             'an address kept in the file lies inside the recorded file size, so zget does not take the header again under the lock'])


if __name__ == '__main__':
    main('C06', body)
