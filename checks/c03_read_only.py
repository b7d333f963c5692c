"""C03: a file opened or set read-only is never changed through that handle."""
from collections import deque
from common import *
from locks import *

READ_ONLY = 1                       # ifltab kopenStatus: 0 closed, 1 read only, 2 write
READ_ACCESS = 1
EFFECTS = {('zput', 0), ('zputBuff', 0)}
# helpers below the operations: they write for an operation that has made the test
LOW = {'zput', 'zputBuff', 'zbinNew', 'zbinUpdate', 'zflushBuffers', 'zgetFileSpace', 'zpermCreate', 'zpermWrite', 'zputInfo', 'zreclaimRead', 'zreclaimSet',
       'zreclaimWrite', 'zreleaseFileSpace', 'zwriteEOF', 'zwriteEOFandFlush', 'zwriteExisting', 'zwriteNew'}
# not operations on data; each with its reason
EXEMPT = {
    'zgetBuff': 'writes only what an accepted operation buffered before',
    'zlockActive': 'lock bookkeeping of an operation', 'zlockingOld': 'lock bookkeeping of an operation', 'zlockPassive': 'lock bookkeeping',
    'zpidWrite': 'process table entry', 'zpidUpdate': 'process table entry', 'zcheckMultiUser': 'process table entry',
    'zcloseInternal': 'clears the process table entry', 'zclose': 'clears the process table entry',
    'zopenInternal': 'creates only a file that does not exist (checked separately)',
    'zerrorSave': 'tests the status itself', 'zerrorProcessing': 'reporting', 'zmemoryFree': 'frees memory',
    'Java_hec_heclib_util_Heclib_Hec_1zdbmod': 'raw debugging access to file words',
}
FILE_OPS = {'ftruncate', 'unlink', 'rename', 'remove', 'copyFile'}


def stat(h):
    return key('zdssKeys', 'kopenStatus', h)


class Ro(NullClient):
    """the handle in argument k is read-only from entry on"""

    def __init__(self, k, unsafe, roret, setters, files=False):
        self.k, self.unsafe, self.roret, self.setters, self.files = k, unsafe, roret, setters, files
        self.hit = []

    def inst(self, R, st, env, i):
        if i.op != 'call' or i.callee is None:
            return None
        me = [j for j, o in enumerate(i.ops) if R.f.expr(R.f.strip(o)) == ('arg', self.k)]
        if i.callee not in EXEMPT and not i.callee.startswith(('zmessage', 'zerror')):
            if any((i.callee, j) in self.unsafe for j in me):
                self.hit.append(i)
            if self.files and i.callee in FILE_OPS:
                self.hit.append(i)
        if i.callee in self.setters:
            return None
        a = stat(('arg', self.k))
        v = env.mem.get(a)
        R.exec(env, i)
        if v is not None:
            env.mem[a] = v
        for j in me:
            r = self.roret.get((i.callee, j))
            if i.callee == 'zinquire':
                s = R.prog.string(i.ops[1])
                r = (0, 0, False) if s and s.lower().startswith('writ') else None
            if r is not None:
                R.refine(env, i.id, r)
        return [(st, env)]


class Inquire(NullClient):
    """zinquire(h, "write"): comparisons with a literal decided for that request"""

    def inst(self, R, st, env, i):
        if i.op == 'call' and i.callee in ('strcmp', 'strncmp', 'strncmp_hec', 'strcasecmp', 'strncasecmp'):
            s = R.prog.string(i.ops[1])
            if s is not None:
                R.exec(env, i)
                eq = s != '' and 'write'.startswith(s)
                env.v[i.id] = (0, 0, False) if eq else (1, flow.BIG, True)
                env.c.clear()
                return [(st, env)]
        return None


class Open(NullClient):
    """state: (mode of the last zopenDisk, status stored since)"""

    def __init__(self):
        self.modes, self.create = [], []

    def start(self, R):
        return [(None, None)]

    def inst(self, R, st, env, i):
        if i.op == 'call' and i.callee == 'zopenDisk':
            m = const(R, env, i.ops[2])
            self.modes.append((i, m))
            R.exec(env, i)
            return [((m, st[1]), env)]
        if i.op == 'call' and i.callee == 'zpermCreate':
            self.create.append(i)
        if i.op == 'store' and R.f.expr(i.ops[1]) == stat(('arg', 0)):
            v = const(R, env, i.ops[0])
            R.exec(env, i)
            return [((st[0], v), env)]
        return None


class Flags(NullClient):
    def __init__(self):
        self.seen = []

    def inst(self, R, st, env, i):
        if i.op == 'call' and i.callee in ('open', 'open64'):
            self.seen.append((i, const(R, env, i.ops[1])))
        return None


def body(c):
    A, prog = c.A, c.prog
    for n in ('zput', 'zopenInternal', 'zopenDisk', 'zinquire', 'zwriteInternal', 'zdeleteInternal', 'zrename', 'zsqueeze7'):
        c.fn(n)
    # 1. opening for reading opens the file descriptor for reading
    f = prog['zopenInternal']
    env = Env()
    env.v[2] = (READ_ACCESS, READ_ACCESS, True)
    cl = Open()
    R = Runner(A, f, cl, maxenv=8)
    outs = R.run(env)
    if not cl.modes:
        raise Broken('zopenInternal(READ_ACCESS) never opens a file')
    for i, m in cl.modes:
        if m is None or m & 11:
            c.bad('zopenInternal:read:mode', f.where(i), 'opening with read access asks for a writable or created file (mode %s)' % m)
        c.ok('read access open', f.where(i))
    for i in cl.create:
        c.bad('zopenInternal:read:create', f.where(i), 'opening with read access can write a new file header')
    n = 0
    for st, it, t, k in outs:
        if it and it[0] <= 0 <= it[1]:
            n += 1
            if st[1] != READ_ONLY:
                c.bad('zopenInternal:read:status', f.where(t), 'a file opened with read access is not marked read-only', R.trace(k[0]))
    if not n:
        raise Broken('zopenInternal(READ_ACCESS) never succeeds')
    # every open: marked writable only when opened for writing
    cl = Open()
    R = Runner(A, f, cl, maxenv=8)
    for st, it, t, k in R.run(Env()):
        if st[1] == 2 and (st[0] is None or not st[0] & 2):
            c.bad('zopenInternal:write-mark', f.where(t), 'handle marked writable although the file was opened with mode %s' % st[0], R.trace(k[0]))
    c.ok('open status', f.name)
    f = prog['zopenDisk']
    env = Env()
    env.v[2] = (0, 0, False)
    cl = Flags()
    Runner(A, f, cl, maxenv=8).run(env)
    if not cl.seen:
        raise Broken('zopenDisk never calls open')
    for i, m in cl.seen:
        if m != 0:
            c.bad('zopenDisk:flags', f.where(i), 'access 0 must open with O_RDONLY, flags are %s' % m)
        c.ok('open flags', f.where(i))
    # the status is changed only by open, close and the explicit read-only switch
    for f in prog.fns.values():
        for i in f.all():
            if i.op == 'store':
                k = flow.key_of(f.expr(i.ops[1]))
                if k and k[1:3] == ('zdssKeys', 'kopenStatus'):
                    v = f.expr(i.ops[0])
                    if f.name not in ('zopenInternal', 'zsetFile', 'zcheckKeys', 'zcloseInternal', 'zinitIfltab') or (f.name == 'zcheckKeys' and v != ('c', READ_ONLY)):
                        c.bad('status-store:%s' % f.name, f.where(i), 'handle status changed outside open, close and the read-only switch')
                    c.ok('status store', f.where(i))
    # 2. the query the alias operations rely on
    f = prog['zinquire']
    env = Env()
    env.mem[stat(('arg', 0))] = ('i', READ_ONLY, 64)
    env.v[1] = (1, flow.BIG, True)

    class Keep(Inquire):
        def inst(self, R, st, env, i):
            r = Inquire.inst(self, R, st, env, i)
            if r is None and i.op == 'call':
                v = env.mem.get(stat(('arg', 0)))
                R.exec(env, i)
                if v is not None:
                    env.mem[stat(('arg', 0))] = v
                return [(st, env)]
            return r
    R = Runner(A, f, Keep(), maxenv=4)
    outs = R.run(env)
    if not outs:
        raise Broken('zinquire(write): no return reached')
    for st, it, t, k in outs:
        if it != (0, 0, False):
            c.bad('zinquire:write', f.where(t), 'the write access query may answer %s for a read-only handle' % (it,), R.trace(k[0]))
    c.ok('write access query', f.name)
    # 3. bottom-up effect analysis under "read-only"
    reachset = prog.reaches(['zput', 'zputBuff']) | prog.reaches(FILE_OPS)
    cand = {f.name for f in prog.fns.values() if f.name in reachset and f.name not in EXEMPT and f.name not in ('zput', 'zputBuff') and not f.name.startswith(('zmessage', 'zerror'))}
    setters = {'zset', 'zsetFile', 'zopenInternal', 'zopen', 'zopenExtended', 'zclose', 'zcloseInternal', 'hec_dss_zopen'}
    order = post(prog, cand)
    unsafe, roret, hits, nret = set(EFFECTS), {}, {}, 0
    for n in order:
        f = prog[n]
        for k, (an, t) in enumerate(f.args):
            if t != 'ptr' or (n, k) in EFFECTS:
                continue
            rel = any(f.expr(f.strip(o)) == ('arg', k) and ((i.callee, j) in unsafe or (i.callee, j) in roret) for i in f.calls() if i.callee not in EXEMPT for j, o in enumerate(i.ops))
            isq = n == 'zsqueeze7' and k == 0
            if not rel and not isq:
                continue
            env = Env()
            env.mem[stat(('arg', k))] = ('i', READ_ONLY, 64)
            cl = Ro(k, unsafe, roret, setters, isq)
            outs = Runner(A, f, cl, maxenv=4).run(env)
            if cl.hit:
                unsafe.add((n, k))
                hits[(n, k)] = cl.hit
            elif n not in LOW:
                its = [o[1] for o in outs if o[1] is not None]
                c.ok('operation', '%s argument %d' % (n, k))
                if its and all(i[1] < 0 for i in its):
                    r = its[0]
                    for x in its[1:]:
                        r = flow.join(r, x)
                    roret[(n, k)] = r
    for (n, k), h in sorted(hits.items()):
        if n in LOW:
            continue
        f = prog[n]
        direct = [i for i in h if i.callee in LOW or i.callee in FILE_OPS]
        for i in direct:
            c.bad('%s:%s' % (n, i.callee), f.where(i), 'reached on a handle that is read-only: no test of the write permission before %s' % i.callee)
    for n in ('zwriteInternal', 'zdeleteInternal', 'zrename', 'zaliasAdd', 'zaliasRemove', 'zaliasRemoveAll'):
        r = roret.get((n, 0))
        if (n, 0) not in unsafe and (r is None or r[1] > -10):
            c.bad('%s:status' % n, prog[n].where(next(prog[n].all())), 'on a read-only handle the operation must fail with an error, may return %s' % (r,))
        c.ok('refusal', n)
    # 4. low level writers are called on handles we track
    for n in sorted(LOW):
        for fn, ci in prog.callers.get(n, []):
            if fn in EXEMPT or fn in LOW or fn.startswith(('zmessage', 'zerror')):
                continue
            f = prog[fn]
            i = f.insts[ci]
            h = f.expr(f.strip(i.ops[0]))
            if h[0] != 'arg':
                c.bad('untracked:%s:%s' % (fn, n), f.where(i), '%s called on a handle that is not the function\'s own' % n)
            c.ok('writer call', f.where(i))
    c.need('operation', 8)
    c.need('writer call', 40)
    c.need('refusal', 6)
    return ('Opening with read access reaches open() only with O_RDONLY and marks the handle read-only; under the assumption "handle read-only" a bottom-up effect analysis shows that no operation reaches a write, truncation, rename or removal, and that the modifying operations return an error.',
            ['exempt: ' + '; '.join('%s (%s)' % x for x in sorted(EXEMPT.items()))])


def post(prog, names):
    seen, out = set(), []
    for n0 in sorted(names):
        if n0 in seen:
            continue
        st = [(n0, iter([c.callee for c in prog[n0].calls() if c.callee in names]))]
        seen.add(n0)
        while st:
            x, it = st[-1]
            for cc in it:
                if cc not in seen:
                    seen.add(cc)
                    st.append((cc, iter([k.callee for k in prog[cc].calls() if k.callee in names])))
                    break
            else:
                out.append(x)
                st.pop()
    return out


if __name__ == '__main__':
    main('C03', body)
