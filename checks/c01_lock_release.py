"""C01: the multi-user lock a library call takes is given back on every way out."""
from common import *
from locks import *

# In exclusive access the lock is kept until the handle is closed or its mode changes; a function may
# return with the lock held only if it left the handle in that mode.  zsqueeze7 does so when it fails,
# so its callers must close the handle (checked as an acquisition at the call).
EXCLUSIVE = 4
CLOSERS = {'closeFile', 'zclose', 'zcloseInternal'}


class Lock(NullClient):
    """state: (handle left in exclusive access: yes, no or the value stored as its mode, held = tuple of (handle expression, level, acquire id))"""

    RESULTS = ((-(1 << 31), SEVERE, False), (SEVERE + 1, -1, False), (0, 0, True), (1, (1 << 31) - 1, False))

    def __init__(self, alias, leaves):
        self.alias = alias
        self.leaves = leaves

    def start(self, R):
        return [(False, ())]

    def handle(self, R, v):
        h = R.f.expr(R.f.strip(v))
        return self.alias.get(h, h)

    def inst(self, R, S, env, i):
        excl, st = S
        if i.op == 'store':
            a = R.f.expr(i.ops[1])
            if a[0] == 'gep' and a[2][-1][0] == '[]' and a[2][-1][2] == ('key', 'zdssKeys', 'kmultiUserAccess'):
                v = R.itv(env, i.ops[0])
                # a mode not known yet is remembered, and looked at again when a branch says more
                e = True if v[0] == v[1] == EXCLUSIVE else i.ops[0] if v[0] <= EXCLUSIVE <= v[1] else False
                R.exec(env, i)
                return [((e, st), env)]
            return None
        if i.op != 'call' or i.callee is None:
            return None
        if i.callee in CLOSERS:
            if not st:
                return None
            R.exec(env, i)
            if i.callee == 'closeFile':
                return [((excl, ()), env)]
            h = self.handle(R, i.ops[0])
            return [((excl, tuple(x for x in st if x[0] != h)), env)]
        if i.callee in self.leaves:
            h = self.handle(R, i.ops[0])
            R.exec(env, i)
            if any(x[0] == h for x in st):
                return [(S, env)]
            return [(S, env), ((excl, tuple(sorted(st + ((h, 9, i.id),), key=repr))), env.copy())]
        if i.callee != 'zlockActive':
            return None
        h = self.handle(R, i.ops[0])
        lev, lock = const(R, env, i.ops[1]), const(R, env, i.ops[2])
        R.exec(env, i)
        if lock == OFF:
            if lev is None:
                return [(S, env)]
            return [((excl, tuple(x for x in st if x[0] != h or x[1] is None or x[1] > lev)), env)]
        if lock != ON:
            return [(S, env)]
        out = []
        # Only a zero status means this call took the lock (a positive one is the
        # result of the access test on a handle that already held it).
        for lo, hi, held in self.RESULTS:
            e = env.copy()
            if not R.refine(e, i.id, flow.mk(lo, hi)):
                continue
            if held and not any(x[0] == h and x[1] == lev for x in st):
                out.append(((excl, tuple(sorted(st + ((h, lev, i.id),), key=repr))), e))
            else:
                out.append((S, e))
        return out

    def edge(self, R, S, env, i, succ):
        # a branch that establishes mode == EXCLUSIVE
        excl, st = S
        if excl is not True and excl is not False:
            v = R.itv(env, excl)
            if v[0] == v[1] == EXCLUSIVE:
                return (True, st)
            if not v[0] <= EXCLUSIVE <= v[1]:
                return (False, st)
        a = [k for k in env.mem if k[0] == 'gep' and k[2][-1][0] == '[]' and k[2][-1][2] == ('key', 'zdssKeys', 'kmultiUserAccess')]
        for k in a:
            v = R.itv(env, env.mem[k])
            if v == (EXCLUSIVE, EXCLUSIVE, True) and excl is not True:
                return (True, st)
        return S


class Release(NullClient):
    """zlockActive(OFF) under multi-user access: OS lock dropped and state cleared"""

    def __init__(self):
        self.calls = []

    def start(self, R):
        return [(False, None)]

    def inst(self, R, st, env, i):
        if i.op == 'call' and i.callee == 'zlockDss' and const(R, env, i.ops[2]) == 0:
            a = R.f.expr(R.f.strip(i.ops[3]))
            n = const(R, env, i.ops[4])
            self.calls.append(i)
            R.exec(env, i)
            if a == ('ld', fh('klockAddressWord')) and n is not None and n >= 8 and R.f.expr(R.f.strip(i.ops[1])) == ('ld', key('zdssKeys', 'khandle')):
                return [((True, st[1]), env)]
            return [(st, env)]
        if i.op == 'store' and R.f.expr(i.ops[1]) == key('zdssKeys', 'klocked'):
            v = R.itv(env, i.ops[0])
            R.exec(env, i)
            return [((st[0], v[0] if v[0] == v[1] else '?'), env)]
        if i.op == 'call' and i.callee == 'zlockingOld':
            R.exec(env, i)
            return [((True, 0), env)]
        if i.op == 'call' and i.callee in ('zpermWrite', 'zflushToDisk'):
            # flushing that succeeds leaves the lock state alone
            keep = {k: env.mem[k] for k in (key('zdssKeys', 'kmultiUserAccess'), key('zdssKeys', 'klocked')) if k in env.mem}
            R.exec(env, i)
            env.mem.update(keep)
            return [(st, env)]
        return None


def body(c):
    A, prog = c.A, c.prog
    c.fn('zlockActive'), c.fn('zlockDss'), c.fn('zsqueeze7')
    leaves = {'zsqueeze7'}
    fs = [f for f in prog.fns.values() if f.name not in ('zlockActive', 'zerrorProcessing') and
          (any(True for _ in f.calls('zlockActive')) or any(True for _ in f.calls(leaves)))]
    for f in sorted(fs, key=lambda f: f.name):
        order = f.rpo()
        pos = {b: k for k, b in enumerate(order)}
        on = sorted([i for i in f.calls('zlockActive') if i.ops[2] != ('i', 0, 32) and i.bb in pos] +
                    [i for i in f.calls(leaves) if i.bb in pos], key=lambda i: (pos[i.bb], i.pos))
        if not on:
            continue
        rank = {i.id: k + 1 for k, i in enumerate(on)}
        for cn, env0, alias in contexts(prog, f):
            R = Runner(A, f, Lock(alias, leaves if f.name not in leaves else set()), maxenv=12)
            leaks = {}
            for (excl, st), it, t, k in R.run(env0):
                good = it is None or it[1] >= 0 or it[0] >= -1
                if excl is True:
                    continue
                for h, lev, a in st:
                    leaks.setdefault((a, 'ok' if good else 'error'), (lev, t, R.trace(k[0])))
            for (a, cls), (lev, t, tr) in leaks.items():
                c.bad('%s:acquire%d:%s' % (f.name, rank[a], cls), f.where(f.insts[a]),
                      'lock taken here is still held on a path to a%s return' % (' successful' if cls == 'ok' else 'n error'), tr)
        for i in on:
            c.ok('acquire site', f.where(i))
    # what "release" means: in multi-user access the OS lock is dropped and the state cleared
    f = prog['zlockActive']
    for lev in (1, 2, 3, 4):
        env = Env()
        env.v[1] = (lev, lev, True)
        env.v[2] = (0, 0, False)
        env.mem[key('zdssKeys', 'kmultiUserAccess')] = ('i', MULTI_USER, 64)
        env.mem[key('zdssKeys', 'klocked')] = ('i', 1, 64)
        env.mem[key('zdssKeys', 'klockLevel')] = ('i', lev, 64)
        cl = Release()
        R = Runner(A, f, cl, maxenv=12)
        outs = R.run(env)
        if not outs:
            raise Broken('zlockActive: no return reached')
        for st, it, t, k in outs:
            if not st[0]:
                c.bad('zlockActive:release:os-lock', f.where(t), 'a release in multi-user access reaches the return without dropping the OS lock taken on the lock word', R.trace(k[0]))
            if st[1] != 0:
                c.bad('zlockActive:release:state', f.where(t), 'a release in multi-user access returns with the handle still marked locked', R.trace(k[0]))
        c.ok('release at level', 'zlockActive level %d' % lev)
    os_lock(c, {0})
    c.need('acquire site', 20)
    return ('On every path from an acquisition of the file lock (zlockActive with LOCK_ON returning 0) to a return of the acquiring function, '
            'a release at the same or a higher level on the same handle is passed (property simulation over the SSA control flow graph); '
            'a release in multi-user mode drops the OS lock and clears the locked mark.',
            ['the lock level recorded in the handle is the acquirer\'s (nested acquisitions at lower level are no-ops)'])


if __name__ == '__main__':
    main('C01', body)
