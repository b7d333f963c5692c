"""C02: changes to a file happen under its lock, from the first index read to the last write."""
from common import *
from locks import *
from c01_lock_release import Lock
import c01_lock_release as c01

WRITES = {'zput', 'zputBuff', 'zpermWrite', 'zflushBuffers', 'zwriteEOF', 'zwriteEOFandFlush', 'zwriteNew', 'zwriteExisting', 'zbinNew', 'zbinUpdate', 'zputInfo', 'zreleaseFileSpace', 'zgetFileSpace', 'zreclaimWrite'}
READS = {'zget', 'zgetBuff', 'zcheckInternal', 'zreadInfo', 'zreadInfoBlock', 'zpermRead'}

# functions that call zlockActive(ON) but are not one locked operation, each with its reason
EXEMPT = {
    'zcloseInternal': 'lock status unchecked; the write of the process id entry is refused by zput when the lock was not obtained',
    'zpidWrite': 'locks only when the handle is not locked already (tested first); the pid table write is refused by zput without the lock',
    'zpidUpdate': 'locks only when the handle is not locked already (tested first); the pid table write is refused by zput without the lock',
    'zerrorSave': 'best-effort error log in the header',
    'zsqueeze7': 'works on an exclusive file',
    'zopenInternal': 'reads the header of a file being opened',
    'Java_hec_heclib_util_Heclib_Hec_1zdbmod': 'raw debugging access; lock level chosen by the caller',
    'zcopyFile': 'copies from a file it does not change',
}


# these lock (and release) only a handle that is not locked already
PIDS = ('zpidWrite', 'zpidUpdate')


class Cover(Lock):
    RESULTS = ((-(1 << 31), SEVERE, False), (SEVERE + 1, -10, True), (-9, -2, False), (-1, (1 << 31) - 1, True))

    def __init__(self, alias, maxoff, out, early):
        Lock.__init__(self, alias, set())
        self.maxoff, self.out, self.early = maxoff, out, early

    def inst(self, R, S, env, i):
        if i.op == 'call' and i.callee:
            if i.callee in WRITES or i.callee in READS:
                h = self.handle(R, i.ops[0])
                self.out.setdefault(i.id, set()).add(any(x[0] == h for x in S[1]))
            if i.callee in self.maxoff and i.callee != 'zlockActive':
                hs = {self.handle(R, o) for o in i.ops}
                for h, lev, a in S[1]:
                    if h in hs and lev is not None and self.maxoff[i.callee] >= lev:
                        self.early.setdefault(i.id, (lev, self.maxoff[i.callee]))
        elif i.op == 'store':
            a = R.f.expr(i.ops[1])
            if a[0] == 'gep' and a[2][-1][0] == '[]' and a[2][-1][2][0] == 'key' and a[2][-1][2][1] == 'zdssFileKeys':
                self.out.setdefault(i.id, set()).add(bool(S[1]))
        return Lock.inst(self, R, S, env, i)


class Acquire(NullClient):
    """zlockActive(ON, flush): state (os lock obtained, locked mark set, header re-read after)"""

    def start(self, R):
        return [(False, False, False)]

    def inst(self, R, st, env, i):
        if i.op == 'call' and i.callee == 'zlockDss':
            mode = const(R, env, i.ops[2])
            word = R.f.expr(R.f.strip(i.ops[3])) == ('ld', fh('klockAddressWord')) and (const(R, env, i.ops[4]) or 0) >= 8
            R.exec(env, i)
            if mode == 0:
                return [((False if word else st[0], st[1], st[2]), env)]
            if mode in (1, 2) and word:
                e2 = env.copy()
                out = []
                if R.refine(env, i.id, (0, 0, False)):
                    out.append(((True, st[1], st[2]), env))
                if R.refine(e2, i.id, (-flow.BIG, flow.BIG, True)):
                    out.append((st, e2))
                return out
            return [(st, env)]
        if i.op == 'store' and R.f.expr(i.ops[1]) == key('zdssKeys', 'klocked'):
            v = R.itv(env, i.ops[0])
            R.exec(env, i)
            return [((st[0], v[2], st[2]), env)]
        if i.op == 'call' and i.callee == 'zpermRead' and st[0]:
            R.exec(env, i)
            return [((st[0], st[1], True), env)]
        if i.op == 'call' and i.callee == 'zlockingOld':
            R.exec(env, i)
            return [((True, True, True), env)]
        if i.op == 'call' and i.callee in R.prog.fns:
            # messages and process id bookkeeping leave the lock state of this handle alone
            keep = {k: env.mem[k] for k in (key('zdssKeys', 'kmultiUserAccess'), key('zdssKeys', 'klocked'), key('zdssKeys', 'kfileHeader')) if k in env.mem}
            R.exec(env, i)
            env.mem.update(keep)
            return [(st, env)]
        return None


class Reach(NullClient):
    def __init__(self, targets):
        self.t, self.hit = targets, []

    def inst(self, R, st, env, i):
        if i.op == 'call' and i.callee in self.t:
            self.hit.append(i)
        return None


def reporting(n):
    return n.startswith(('zmessage', 'zerror'))


def body(c):
    A, prog = c.A, c.prog
    for n in ('zlockActive', 'zput', 'zwriteDisk', 'zlockDss', 'zwriteInternal', 'zdeleteInternal', 'zrename'):
        c.fn(n)
    # 1. one gateway to the disk, shut without the lock
    for callee, allowed in (('write', {'zwriteDisk', 'writeBytes'}), ('pwrite', set()), ('zwriteDisk', {'zput', 'copyFile'}), ('ftruncate', {'zsqueeze7'})):
        for fn, ci in prog.callers.get(callee, []):
            i = prog[fn].insts[ci]
            if fn in allowed:
                c.ok('disk write caller', '%s calls %s' % (prog[fn].where(i), callee))
            else:
                c.bad('gateway:%s:%s' % (callee, fn), prog[fn].where(i), '%s may only be called from %s: this write bypasses the locked gateway' % (callee, sorted(allowed)))
    for fn, ci in prog.callers.get('writeBytes', []):
        f = prog[fn]
        i = f.insts[ci]
        e = repr(f.expr(f.strip(i.ops[0])))
        if "'khandle'" in e:
            c.bad('gateway:writeBytes:%s' % fn, f.where(i), 'unlocked byte write on a DSS file handle')
        else:
            c.ok('disk write caller', f.where(i))
    f = prog['zput']
    for locked in (0,):
        env = Env()
        env.mem[key('zdssKeys', 'klocked')] = ('i', locked, 64)
        cl = Reach({'zwriteDisk', 'write'})
        R = Runner(A, f, cl, maxenv=12)
        outs = R.run(env)
        if cl.hit:
            c.bad('zput:unlocked-write', f.where(cl.hit[0]), 'the physical write is reached with the handle not locked')
        for st, it, t, k in outs:
            if not (it[1] <= -2):
                c.bad('zput:unlocked-status', f.where(t), 'zput without the lock must fail, may return %s' % (it,), R.trace(k[0]))
        c.ok('gateway guard', 'zput with klocked == 0')
    cl = Reach({'zwriteDisk'})
    Runner(A, f, cl, maxenv=12).run(Env())
    if not cl.hit:
        raise Broken('zput never reaches zwriteDisk')
    # 2. acquisition means the OS lock is held and the header has been re-read
    f = prog['zlockActive']
    for lev in (1, 2, 3, 4):
        for fl in (0, 1):
            env = Env()
            env.v.update({1: (lev, lev, True), 2: (1, 1, True), 3: (fl, fl, bool(fl))})
            env.mem[key('zdssKeys', 'kmultiUserAccess')] = ('i', MULTI_USER, 64)
            env.mem[key('zdssKeys', 'klocked')] = ('i', 0, 64)
            env.mem[key('zdssKeys', 'klockLevel')] = ('i', 0, 64)
            env.mem[key('zdssKeys', 'klockWriteMyAddress')] = ('i', 1, 64)
            R = Runner(A, f, Acquire(), maxenv=16)
            outs = R.run(env)
            okn = 0
            for st, it, t, k in outs:
                if it[0] > 0 or it[1] < 0:
                    continue
                okn += 1
                if not st[0]:
                    c.bad('zlockActive:acquire:os-lock', f.where(t), 'zlockActive reports the lock as taken (returns 0) without holding the OS lock on the lock word', R.trace(k[0]))
                if not st[1]:
                    c.bad('zlockActive:acquire:state', f.where(t), 'zlockActive returns 0 without marking the handle locked', R.trace(k[0]))
                if fl and not st[2]:
                    c.bad('zlockActive:acquire:header', f.where(t), 'the file header is not read again after the lock is obtained', R.trace(k[0]))
            if not okn:
                raise Broken('zlockActive(ON) never returns 0 in multi-user access')
            c.ok('acquisition', 'level %d flush %d' % (lev, fl))
    os_lock(c, {0, 1, 2, 3})
    # 3. locked operations: no index read or write outside the lock, no early release inside a callee
    maxoff = {}
    for f in prog.fns.values():
        if f.name in PIDS or f.name == 'zlockActive' or reporting(f.name):
            continue
        for i in f.calls('zlockActive'):
            lev, on = constop(A, f, i.ops[1]), constop(A, f, i.ops[2])
            if on == 0 and lev is not None:
                maxoff[f.name] = max(maxoff.get(f.name, 0), lev)
    ch = True
    while ch:
        ch = False
        for f in prog.fns.values():
            if f.name in PIDS or reporting(f.name) or f.name == 'zlockActive':
                continue
            for i in f.calls():
                if i.callee in maxoff and maxoff[i.callee] > maxoff.get(f.name, -1):
                    maxoff[f.name] = maxoff[i.callee]
                    ch = True
    for f in sorted(prog.fns.values(), key=lambda f: f.name):
        if f.name in ('zlockActive', 'zerrorProcessing') or f.name in EXEMPT or not any(constop(A, f, i.ops[2]) != 0 for i in f.calls('zlockActive')):
            continue
        out, early = {}, {}
        for cn, env0, alias in contexts(prog, f):
            Runner(A, f, Cover(alias, maxoff, out, early), maxenv=12).run(env0)
        for k, held in out.items():
            i = f.insts[k]
            what = i.callee if i.op == 'call' else 'header.' + f.expr(i.ops[1])[2][-1][2][2]
            if False in held:
                c.bad('%s:outside-lock:%s' % (f.name, what), f.where(i), 'operation takes the lock but uses %s on a path where it is not held' % what)
            c.ok('access under lock', f.where(i) + ' ' + what)
        for k, (lev, off) in early.items():
            i = f.insts[k]
            c.bad('%s:early-release:%s' % (f.name, i.callee), f.where(i), 'callee %s can release level %d while level %d is held here' % (i.callee, off, lev))
        c.ok('locked operation', f.name)
    c.need('access under lock', 90)
    c.need('locked operation', 12)
    return ('who-may-call rule for physical writes; zput refuses without the lock mark; zlockActive returning 0 in multi-user access implies the OS lock, the lock mark and a header re-read; '
            'in every function that takes the lock, each index read, write and header change is on paths where the lock is held; no callee releases it early.',
            ['exempt functions: ' + '; '.join('%s (%s)' % x for x in sorted(EXEMPT.items()))])


if __name__ == '__main__':
    main('C02', body)
