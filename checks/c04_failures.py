"""C04: a storage failure on a DSS file reaches the caller of the operation."""
from common import *
from flow import NullClient, Runner, CLASSES, CLASSNAMES, BIG, meet
from c03_read_only import post

# operating system calls: index of the requested size, or None (fails with -1)
SRC = {'read': 2, 'write': 2, 'pread': 2, 'pwrite': 2, 'lseek': None, 'lseek64': None, 'fsync': None, 'fdatasync': None, 'ftruncate': None}
# the raw device layer: any non-zero result is a failure
RAW = {'zreadDisk', 'zwriteDisk', 'readBytes', 'writeBytes', 'flushFile', 'zflushToDisk', 'copyFile'}
# functions whose own failure result is -1
NEG1 = {'zcatSortPath': 'count of catalog entries', 'zcatalogInternal': 'count', 'zcatInternalSort': 'count', 'hec_dss_recordType': 'type, or -1', 'hec_dss_flush_log_file': 'log'}
# a failure that is recovered from, or concerns something thrown away
RECOVERED = {('zcatInternalSort', 'zgetCatalogSortAddresses'): 'the catalog is sorted again instead',
             ('zopenInternal', 'zreadDisk'): 'the file header is read again by zpermRead, which reports it; a file too short to have one is taken for empty',
             ('zsqueeze7', 'zclose'): 'the temporary file, deleted afterwards',
             ('hec_dss_tsRetrieveInfo', 'ztsProcessTimes'): 'its result is not used'}
# no status to return: legacy calls with a status argument, calls that return a time or nothing
NOSTATUS = {'zgetLastWriteTimeFile': 'time', 'zgetLastWriteTimeRec': 'time', 'ztsTrimAdjustTimeWindow': 'void', 'zcheck7': 'status argument', 'zmaxPart7': 'status argument', 'zreadx': 'status argument', 'zwritex': 'status argument'}
FAILCLASS = ('error', 'notice', 'rawneg')


def reporting(n):
    return n.startswith(('zmessage', 'zerror', 'zcloseLog', 'zopenLog'))


# bookkeeping that is advisory by design, and the closing of a file (its handle is gone either way)
ADVISORY = {'zlockPassive': 'access counters of other processes', 'zpidWrite': 'process table', 'zpidUpdate': 'process table',
            # diagnosis and inquiry tools report what they find as counts and text
            'zcheckFile': 'tool', 'zcheckLinks': 'tool', 'zcheckPathnames': 'tool', 'zcheckHashTable': 'tool', 'zgetFileVersion': 'inquiry', 'zlockDss': 'a refused lock request, tried again', 'zanalyzeFile': 'tool',
            'zinquireChar': 'tool', 'zinquire': 'tool', 'checkGrid': 'tool', 'printRecordBasics': 'tool', 'zcatalogFile': 'tool', 'zlockingOld': 'not called', 'zgetDataCRC': 'tool', 'zcheckAccessReset': 'tool',
            'zsetCatalogSortAddresses': 'size hints of the catalog sort', 'zcheckMultiUser': 'change hint', 'testLock': 'lock query'}


class C(NullClient):
    def __init__(self, con):
        self.con = con

    def start(self, R):
        return [('ok', None)]

    def inst(self, R, st, env, i):
        c = i.callee
        if i.op != 'call' or st[0] != 'ok' or c is None:
            return None
        if c == 'zlockActive' and R.itv(env, i.ops[2])[:2] == (0, 0):
            # giving the lock back; with LOCKING_FLUSH_ON it writes the file header
            if R.itv(env, i.ops[3])[:2] == (0, 0) or c not in self.con:
                return None
            R.exec(env, i)
            e2 = env.copy()
            e2.v[i.id] = CLASSES[CLASSNAMES.index('error')]
            e2.c.clear()
            return [(st, env), ((i.id, 'unlock'), e2)]
        if c in SRC:
            R.exec(env, i)
            e2 = env.copy()
            if SRC[c] is not None:
                R.refine(e2, i.id, (-1, BIG, False))
                e2.ne = e2.ne | {frozenset((i.id, R.rep(env, R.f.strip(i.ops[SRC[c]]))))}
            else:
                R.refine(e2, i.id, (-1, -1, True))
            R.refine(env, i.id, (0, BIG, False))
            return [(st, env), ((i.id, 'raw'), e2)]
        if c in self.con:
            R.exec(env, i)
            out = [(st, env)]
            full = R.itv(env, i.id)
            for cl in self.con[c]:
                e2 = env.copy()
                e2.v[i.id] = CLASSES[CLASSNAMES.index(cl)]
                e2.c.clear()
                out.append(((i.id, cl), e2))
            rest = [m for m in (meet(full, v) for x, v in zip(CLASSNAMES, CLASSES) if x not in self.con[c]) if m is not None]
            rest = [m for m in rest if m[0] >= -1] or rest
            if rest:
                env.v[i.id] = (min(m[0] for m in rest), max(m[1] for m in rest), all(m[2] for m in rest))
            return out
        return None


def scope(p):
    seen, work = set(), list(SRC)
    while work:
        n = work.pop()
        for f, _ in p.callers[n]:
            if f in seen or reporting(f) or f in ADVISORY or f.startswith('Java_'):
                continue
            seen.add(f)
            work.append(f)
    return seen


def body(c):
    p, A = c.prog, c.A
    for n in ('zget', 'zput', 'zpermRead', 'zpermWrite', 'zlockActive', 'zisError', 'zerrorUpdate', 'zerrorProcessing', 'zwriteInternal', 'zreadInternal', 'zdeleteInternal', 'zbinUpdate', 'zflushToDisk'):
        c.fn(n)
    seen = scope(p)
    con = {}
    for n in post(p, seen):
        f = p[n]
        sites = [i for i in f.calls() if i.callee in SRC or i.callee in con]
        if not sites or n in NOSTATUS:
            continue
        if f.ret != 'i32':
            c.ok('function without a status')
            c.bad('%s:no-status' % n, n, 'calls %s, which can fail, and has no way to say so' % sites[0].callee)
            continue
        R = Runner(A, f, C(con), maxenv=8)
        cls, per, silent = set(), {}, {}
        for st, it, t, k in R.run():
            if st[0] == 'ok':
                continue
            got = [x for x, iv in zip(CLASSNAMES, CLASSES) if meet(iv, it) is not None]
            okc = [x for x in got if x in FAILCLASS or ((n in RAW or st[1] == 'unlock') and x != 'ok') or (x == 'notfound' and (n in NEG1 or (st[1] == 'notfound' and f.insts[st[0]].callee not in RAW)))]
            for x in got:
                if x not in okc:
                    silent.setdefault(st, []).append((x, it, R.trace(k[0])))
            per.setdefault(st, set()).update(x for x in okc if n in RAW or x == 'error' or (st[1] != 'unlock' and (x != 'notfound' or n in NEG1)))
        for st, x in per.items():
            if st not in silent:
                cls.update(x)
        if 'error' in cls and n not in RAW:
            cls.discard('notice')
        if silent and not cls:
            cls = {'error'}
        for i in sites:
            c.ok('call that can fail', '%s %s' % (f.where(i), i.callee))
        c.ok('way a call can fail', None, len(per))
        for st, x in silent.items():
            i = f.insts[st[0]]
            if (n, i.callee) in RECOVERED:
                c.ok('failure recovered from', '%s %s' % (f.where(i), i.callee))
                continue
            c.bad('%s:%s' % (n, i.callee), f.where(i), 'a failure of %s is not passed on: the function can return %s afterwards' % (i.callee, '/'.join(sorted({y[0] for y in x}))), x[0][2][-25:])
        if cls:
            con[n] = sorted(cls)
    c.notes['functions that report storage failures'] = sorted(con)
    for n in ('zwrite', 'zread', 'zdelete', 'zrename', 'zundelete', 'zcopyRecord', 'zcopyFile', 'zduplicateRecord', 'zsqueeze', 'ztsStore', 'ztsRetrieve', 'zpdStore', 'zpdRetrieve', 'ztextStore', 'zarrayStore',
              'zspatialGridStore', 'zspatialTinStore', 'zlocationStore', 'zaliasAdd', 'zcatalog', 'hec_dss_open', 'hec_dss_tsStoreRegular', 'zclose', 'zopenInternal'):
        c.ok('operation that reports failures', n)
        if n not in con:
            c.bad('%s:never-fails' % n, n, 'no failure of the file ever reaches the caller of %s' % n)
    c.need('call that can fail', 480)
    c.need('way a call can fail', 480)
    return ('Failing system calls and failing callees are followed, path-sensitively, to every return of the function, bottom-up over the call graph (each function has a contract: the classes of results with which it reports a storage failure). '
            'Every return reachable after a failure must be a failure result.',
            ['read, write, lseek, fsync and ftruncate fail as documented; the Windows branches are not compiled',
             'exempt: process table and lock counters (%s), inquiry and diagnosis tools' % 'zlockPassive, zpidWrite, zpidUpdate'] + ['%s/%s: %s' % (a, b, r) for (a, b), r in RECOVERED.items()] + ['%s: %s' % x for x in NOSTATUS.items()])


if __name__ == '__main__':
    main('C04', body)
