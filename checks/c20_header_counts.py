"""C20: the counters of the file header follow the operations.

For every operation that adds, changes or removes records the net effect on each
header word along every successful path is computed as an affine form, under
hypotheses about what the operation was given (see affine.py), and compared with
the effect the header documents."""
from common import *
import multiprocessing
import affine
from affine import BIG
from flow import Runner, Env

POS, NONPOS, ZERO, ONE, NZ = (1, BIG, True), (-BIG, 0, False), (0, 0, False), (1, 1, True), (-BIG, BIG, True)
TWO = (2, BIG, True)
AREAS = [('internalHeaderNumber', 'kinfoInternalHeadNumber', 'knumberInternalHeader'), ('header2Number', 'kinfoHeader2Number', 'knumberHeader2'),
         ('userHeaderNumber', 'kinfoUserHeadNumber', 'knumberUserHeader'), ('values1Number', 'kinfoValues1Number', 'knumberDataArea1'),
         ('values2Number', 'kinfoValues2Number', 'knumberDataArea2'), ('values3Number', 'kinfoValues3Number', 'knumberDataArea3')]
NOW = '=+getCurrentTimeMillis()'
STATUS = 'zdssFileKeys.kcatSortStatus'


WORDING = {POS: '>0', NONPOS: '<=0', ZERO: '=0', ONE: '=1', NZ: '!=0', TWO: '>=2'}


def H(n):
    return 'zdssFileKeys.' + n


def T(n):
    return 'zStructTransfer.' + n


def I(n):
    return 'zdssInfoKeys.' + n


def table():
    """(function, header word, hypotheses on values read, argument intervals, class of return, allowed effects)"""
    r = []

    def fact(fn, word, eff, hyps=None, args=None, ret='ok'):
        r.append((fn, word, hyps or {}, args or {}, ret, frozenset(eff if isinstance(eff, (set, list, tuple)) else [eff])))
    # a record is added
    fact('zwriteNew', 'knumberRecords', '+1')
    fact('zwriteNew', 'kcatSortNewWrites', '+1')
    fact('zwriteNew', 'klastWriteTime', NOW)
    fact('zwriteNew', 'knumberDeletes', '+0')
    fact('zwriteNew', 'knumberAliases', '+0')
    fact('zwriteNew', 'knumberCollections', '+1', {'zdssKeys.kisaCollection': NZ})
    fact('zwriteNew', 'knumberCollections', '+0', {'zdssKeys.kisaCollection': ZERO})
    fact('zwriteNew', 'khashsUsed', '+1', {'zdssKeys.khashTableBinAdd': ZERO})
    fact('zwriteNew', 'khashsUsed', '+0', {'zdssKeys.khashTableBinAdd': NZ})
    fact('zwriteNew', 'kcatSortStatus', '=+2', {STATUS: ONE})
    fact('zwriteNew', 'kcatSortStatus', '+0', {STATUS: ZERO})
    fact('zwriteNew', 'kcatSortStatus', '+0', {STATUS: TWO})
    for t, i, h in AREAS:
        fact('zwriteNew', h, '+1', {T(t): POS, I(i) + '!': POS})
        fact('zwriteNew', h, '+0', {T(t): NONPOS, I(i) + '!': NONPOS})
        # an existing record is overwritten
        fact('zwriteExisting', h, '+1', {T(t): POS, I(i): ZERO})
        fact('zwriteExisting', h, '+0', {T(t): POS, I(i): POS})
        fact('zwriteExisting', h, '+0', {T(t): NONPOS, I(i): ZERO})
    for w in ('knumberRecords', 'knumberDeletes', 'kcatSortNewWrites', 'kcatSortDeletes', 'kcatSortStatus', 'knumberAliases', 'knumberCollections', 'khashsUsed'):
        fact('zwriteExisting', w, '+0')
    fact('zwriteExisting', 'klastWriteTime', NOW)
    info = '+numberLongsInBytes(+zdssKeys.klenLastPath)+zdssVals.infoSize'
    heads = ''.join('+L(+%s)' % x for x in (I('kinfoHeader2Number'), I('kinfoInternalHeadNumber'), I('kinfoUserHeadNumber')))
    space = '+L(+%s)' % I('kinfoAllocatedSize') + heads
    vals = ''.join('+L(+%s)' % I('kinfoValues%dNumber' % k) for k in (1, 2, 3))
    fact('zwriteExisting', 'kdead', {'+0', space + info})
    fact('zdeleteInternal', 'kdead', {heads + vals + info, heads + vals + '+zdssVals.maxInfoSize'}, None, {2: ZERO})
    fact('zdeleteInternal', 'kdead', {'=+0'} | {x.replace('+', '-').replace('(-', '(+') for x in (heads + vals + info, heads + vals + '+zdssVals.maxInfoSize')}, None, {2: ONE})
    fact('zwriteExisting', 'knumberExpansions', {'+0', '+1'})
    # a record is deleted, or restored
    for un, s in ((ZERO, 1), (ONE, -1)):
        a = {2: un}
        p, m = ('+1', '-1') if s == 1 else ('-1', '+1')
        al = {I('kinfoAliasesBinAddress'): ZERO}
        fact('zdeleteInternal', 'knumberRecords', m, al, a)
        fact('zdeleteInternal', 'knumberDeletes', p, al, a)
        fact('zdeleteInternal', 'kcatSortDeletes', p, al, a)
        fact('zdeleteInternal', 'knumberRecords', '+0', al, a, 'other')
        fact('zdeleteInternal', 'knumberDeletes', '+0', al, a, 'other')
        fact('zdeleteInternal', 'knumberRenames', '+0', al, a)
        fact('zdeleteInternal', 'knumberAliases', '+0', al, a)
        fact('zdeleteInternal', 'kcatSortStatus', '=+3', {STATUS: POS, **al}, a)
        fact('zdeleteInternal', 'kcatSortStatus', '+0', {STATUS: ZERO, **al}, a)
        fact('zdeleteInternal', 'klastWriteTime', NOW, al, a)
        for t, i, h in AREAS:
            fact('zdeleteInternal', h, m, {I(i): POS, **al}, a)
            fact('zdeleteInternal', h, '+0', {I(i): NONPOS, **al}, a)
    # renamed
    for w in ('knumberRenames', 'kcatSortDeletes', 'kcatSortNewWrites'):
        fact('zrename', w, {'+1', '+2*again'})
    fact('zrename', 'kcatSortStatus', {'=+3', '+2*again'})
    fact('zrename', 'klastWriteTime', {NOW, '+2*again'})
    fact('zrename', 'knumberAliases', {'+0', '+2*again'})
    fact('zrename', 'knumberRecords', {'+0', '+2*again'})
    
    # aliases
    fact('zaliasAdd', 'knumberAliases', '+1')
    fact('zaliasAdd', 'knumberRecords', '+0')
    fact('zaliasAdd', 'kcatSortStatus', '=+2', {STATUS: ONE})
    fact('zaliasAdd', 'kcatSortStatus', '+0', {STATUS: ZERO})
    fact('zaliasAdd', 'kcatSortStatus', '+0', {STATUS: TWO})
    fact('zaliasAdd', 'khashsUsed', '+1', {'zdssKeys.khashTableBinAdd': ZERO})
    fact('zaliasAdd', 'khashsUsed', '+0', {'zdssKeys.khashTableBinAdd': NZ})
    fact('zaliasRemove', 'knumberAliases', '-1')
    fact('zaliasRemove', 'knumberAliasDeletes', '+1')
    fact('zaliasRemove', 'knumberRecords', '+0')
    fact('zaliasRemove', 'kcatSortStatus', '=+3')
    fact('zaliasRemove', 'knumberAliases', '+0', ret='other')
    fact('zaliasRemoveAll', 'kcatSortStatus', '=+3')
    fact('zaliasRemoveAll', 'knumberRecords', '+0')
    fact('zaliasRemoveAll', 'knumberAliases', '-result')
    fact('zaliasRemoveAll', 'knumberAliasDeletes', '+result')
    fact('zaliasRemove', 'kdead', '+numberLongsInBytes(+strlen())+zdssBinKeys.kbinSize')
    # the sorted catalog is stored
    fact('zsetCatalogSortAddresses', 'kcatSortNewWrites', '=+0')
    fact('zsetCatalogSortAddresses', 'kcatSortDeletes', '=+0')
    fact('zsetCatalogSortAddresses', 'kcatSortStatus', '=+1')
    fact('zsetCatalogSortAddresses', 'kcatSequenceNumber', '+1')
    fact('zsetCatalogSortAddresses', 'kcatSortNumber', '=+arg2')
    # pathname bins
    fact('zbinNew', 'ktotalBins', '+1', {'zdssKeys.kpathBin': NZ})
    fact('zbinNew', 'kbinsRemainInBlock', '-1', {'zdssFileKeys.kbinsRemainInBlock': POS, 'zdssKeys.kpathBin': NZ})
    fact('zbinNew', 'kbinsRemainInBlock', '=+zdssFileKeys.kbinsPerBlock-1', {'zdssFileKeys.kbinsRemainInBlock': NONPOS, 'zdssKeys.kpathBin': NZ})
    # a new file
    for w in ('knumberRecords', 'knumberExpansions', 'knumberRenames', 'knumberDeletes', 'knumberAliases', 'kdead', 'ktotalBins', 'khashsUsed', 'kbinsOverflow', 'kmaxPathsOneHash',
              'kmaxInternalHeader', 'kmaxHeader2', 'kmaxUserHeader', 'kmaxValues1Size', 'kmaxValues2Size', 'kmaxValues3Size', 'kmaxRecordSize', 'kreclaimTotal'):
        fact('zpermCreate', w, '=+0')
    # space given out at the end of the file
    fact('zgetFileSpace', 'kfileSize', '+arg1', None, {2: ZERO}, 'any')
    fact('zgetFileSpace', 'kfileSize', {'+0', '+arg1'}, None, {2: ONE}, 'any')
    fact('zgetFileSpace', 'kdead', {'+0', '-arg1'}, None, {2: ONE}, 'any')
    fact('zgetFileSpace', 'kdead', '+0', None, {2: ZERO}, 'any')
    fact('zgetFileSpace', 'kreclaimedSpace', {'+0', '+1'}, None, {2: ONE}, 'any')
    fact('zreleaseFileSpace', 'kdead', '+arg2', ret='any')
    # the largest of each kind so far: raised by a larger one, never lowered
    LOW, HIGH, SMALL, LARGE = (0, 5, False), (7, (1 << 31) - 1, True), (0, 2, False), (8, 1 << 20, True)
    names = [t for t, _, _ in AREAS]
    for t, w in zip(names, ('kmaxInternalHeader', 'kmaxHeader2', 'kmaxUserHeader', 'kmaxValues1Size', 'kmaxValues2Size', 'kmaxValues3Size')):
        fact('zwriteInternal', w, '=+' + T(t), {H(w): LOW, T(t): LARGE})
        fact('zwriteInternal', w, '+0', {H(w): HIGH, T(t): SMALL})
    total = '=' + ''.join(sorted('+L(+%s)' % T(t) for t in names))
    sizes = {'kmaxRtsSize': 100, 'kmaxRtdSize': 105, 'kmaxItsSize': 110, 'kmaxItdSize': 115, 'kmaxPdSize': 200, 'kmaxPddSize': 205, 'kmaxOtherSize': 300}
    for w in ['kmaxRecordSize'] + list(sizes):
        ty = {} if w == 'kmaxRecordSize' else {T('dataType'): (sizes[w], sizes[w], True)}
        fact('zwriteInternal', w, total, {H(w): LOW, **{T(t): LARGE for t in names}, **ty})
        fact('zwriteInternal', w, '+0', {H(w): HIGH, **{T(t): SMALL for t in names}, **ty})
        for o, k in sizes.items():
            if o != w and w != 'kmaxRecordSize':
                fact('zwriteInternal', w, '+0', {T('dataType'): (k, k, True)})
    return r


# operations that may change a counted word (what they change it by is decided above)
WRITERS = {
    'knumberRecords': 'zdeleteInternal zwriteNew', 'knumberDeletes': 'zdeleteInternal', 'knumberRenames': 'zrename', 'knumberAliases': 'zaliasAdd zaliasRemove zaliasRemoveAll',
    'knumberAliasDeletes': 'zaliasRemove zaliasRemoveAll', 'knumberCollections': 'zwriteNew', 'knumberExpansions': 'zwriteExisting zcopyRecordInternal',
    'kcatSortStatus': 'zaliasAdd zaliasRemove zaliasRemoveAll zdeleteInternal zrename zsetCatalogSortAddresses zwriteNew',
    'kcatSortNewWrites': 'zrename zsetCatalogSortAddresses zwriteNew', 'kcatSortDeletes': 'zdeleteInternal zrename zsetCatalogSortAddresses',
    'kcatSequenceNumber': 'zsetCatalogSortAddresses', 'kcatSortNumber': 'zsetCatalogSortAddresses', 'kfileSize': 'zgetFileSpace', 'ktotalBins': 'zbinNew', 'kbinsRemainInBlock': 'zbinNew',
    'khashsUsed': 'zaliasAdd zrename zwriteNew', 'kdead': 'zaliasRemove zaliasRemoveAll zdeleteInternal zgetFileSpace zreleaseFileSpace zrename zwriteExisting',
    **{h: 'zdeleteInternal zwriteExisting zwriteNew' for _, _, h in AREAS},
    **{w: 'zwriteInternal' for w in ('kmaxInternalHeader', 'kmaxHeader2', 'kmaxUserHeader', 'kmaxValues1Size', 'kmaxValues2Size', 'kmaxValues3Size', 'kmaxRecordSize',
                                     'kmaxRtsSize', 'kmaxRtdSize', 'kmaxItsSize', 'kmaxItdSize', 'kmaxPdSize', 'kmaxPddSize', 'kmaxOtherSize')}}


def within(prog, g, allowed):
    """every way to g from outside passes one of the allowed functions"""
    todo, seen = [g], set()
    while todo:
        n = todo.pop()
        if n in seen or n in allowed:
            continue
        seen.add(n)
        up = [x for x, _ in prog.callers.get(n, ())]
        if not up:
            return False
        todo += up
    return True


def writers(c):
    for n, f in c.prog.fns.items():
        for i in f.all():
            if i.op != 'store':
                continue
            a = affine.name(f.expr(i.ops[1]))
            if not a or not a.startswith('zdssFileKeys.'):
                continue
            w = a.split('.')[1].split('+')[0]
            if w not in WRITERS:
                continue
            ok = set(WRITERS[w].split()) | {'zpermCreate'}
            c.ok('store to a counted word', '%s in %s' % (w, n))
            if not within(c.prog, n, ok):
                c.bad('writer:%s:%s' % (w, n), f.where(i), '%s changes header word %s outside the operations that keep it' % (n, w))


class State:
    c = None
    memo = {}


def summary(R, env, i, target):
    """effects of a callee on the target word (successful paths), with its arguments substituted"""
    A = State.c.A
    tab, k = target.split('.')
    if ('key', tab, k) not in A.mod[i.callee] or i.callee in State.skip or i.callee in State.own and i.callee != R.f.name:
        return None
    key = (i.callee, target)
    if i.callee == R.f.name or key in State.memo and State.memo[key] is None:
        return [('d', affine.atom(('?', 'again')))]
    if key not in State.memo:
        State.memo[key] = None
        g = State.c.prog[i.callee]
        s = set()
        for st, it, t, k2 in Runner(A, g, affine.Net(target, None, summary), maxenv=6).run():
            if it is not None and it[1] < -1:
                continue
            s.add(st[0])
        State.memo[key] = s
    s = State.memo[key]
    if not s:
        return None
    args = [affine.form(R, env, o) for o in i.ops]
    return [(k, affine.subst(x, args)) for k, x in s]


State.own = {'zwriteNew', 'zwriteExisting', 'zdeleteInternal', 'zrename', 'zaliasAdd', 'zaliasRemove', 'zaliasRemoveAll', 'zsetCatalogSortAddresses', 'zpermCreate'}     # judged by facts of their own
State.skip = {'zreclaimRead', 'zreclaimWrite', 'zgetFileSpace'}    # zgetFileSpace has facts of its own, reclaim words are not counted


def cls(it):
    if it is None:
        return 'any'
    if it[1] < -1:
        return 'err'
    if it[0] <= 0 <= it[1] and not (it[0] < 0 and it[2]):
        return 'ok'
    return 'other'


def effect(q):
    s = affine.render(q[1])
    return s if q[0] == 'd' else '=' + s


def one(k):
    fn, word, hyps, args, ret, allowed = State.facts[k]
    try:
        f = State.c.fn(fn)
        cl = affine.Net('zdssFileKeys.' + word, hyps, summary)
        R = Runner(State.c.A, f, cl, maxenv=16)
        env = Env()
        for a, it in args.items():
            env.v[a] = it
        n, bad, seen = 0, [], set()
        for st, it, t, kk in R.run(env):
            if ret != 'any' and cls(it) != ret:
                continue
            n += 1
            e = effect(st[0])
            for sign in (1, -1):
                if ('+result' if sign > 0 else '-result') in allowed and st[0][0] == 'd' and affine.scale(affine.form(R, kk[1], t.ops[0]), sign) == st[0][1]:
                    e = '+result' if sign > 0 else '-result'
            seen.add(e)
            if e not in allowed:
                bad.append((e, cl.sites.get(st[0]) or f.where(t), R.trace(kk[0])))
        if not bad and seen != allowed and n:
            bad = [('only ' + '/'.join(sorted(seen)), f.where(next(f.all())), None)]
        return k, n, bad, None
    except RuntimeError as e:
        return k, 0, [], str(e)


def body(c):
    State.c = c
    c.A
    State.facts = table()
    for fn in {x[0] for x in State.facts}:
        c.fn(fn)
    with multiprocessing.get_context('fork').Pool(8) as pool:
        res = pool.map(one, range(len(State.facts)), chunksize=4)
    for k, n, bad, err in res:
        fn, word, hyps, args, ret, allowed = State.facts[k]
        if err:
            raise Broken('%s: %s' % (fn, err))
        cond = ', '.join('%s %s' % (h.split('.')[-1].rstrip('!'), WORDING.get(it) or 'in %d..%d' % it[:2]) for h, it in sorted(hyps.items()))
        if args:
            cond += ' arg ' + ' '.join('%d=%s' % (a, x[0]) for a, x in args.items())
        if not n:
            raise Broken('%s has no %s path when %s' % (fn, ret, cond))
        c.ok('effect on a header word', '%s: %s %s%s' % (fn, word, ' / '.join(sorted(allowed)), ' when ' + cond if cond else ''))
        for e, w, tr in bad:
            c.bad('%s:%s:%s' % (fn, word, cond or 'always'), w, 'a successful call of %s changes header word %s by %s, must be %s%s' % (fn, word, e, ' and '.join(sorted(allowed)), ' when ' + cond if cond else ''), tr)
    writers(c)
    c.need('effect on a header word', 225)
    c.need('store to a counted word', 60)
    return ('For each operation that adds, changes, moves, deletes, restores or renames a record, adds or removes an alias, stores the sorted catalog, adds a pathname bin, hands out space or creates the file: '
            'the net change of each header word, as an affine form over the values the operation was given, along every path that returns success (interval-refined path-sensitive dataflow, calls summarised), '
            'equals one of the effects of the table, and every effect of the table occurs. Every store to a counted word lies in, or is only reached through, one of those operations.',
            ['header words are reached through ifltab[kfileHeader] (a copy of the header held elsewhere is not followed)', 'space taken from the reclaim table (off by default) is not counted'])


if __name__ == '__main__':
    main('C20', body)
