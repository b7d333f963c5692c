"""C25: every block of the file is written inside the space handed out for it, and
the areas of one record do not overlap.

Affine forms (affine.py) of addresses and lengths along every path."""
from common import *
import affine
from affine import add, scale, words, const, form, render, name, BIG
from flow import Runner, Env
from locks import key

AREAS = [('InternalHead', 'internalHeader'), ('Header2', 'header2'), ('UserHead', 'userHeader'), ('Values1', 'values1'), ('Values2', 'values2'), ('Values3', 'values3')]
PUT = {'zput', 'zputBuff'}
SPACE = 'zgetFileSpace'
POS, ZERO, NZ = (1, BIG, True), (0, 0, False), (-BIG, BIG, True)


def I(n):
    return 'zdssInfoKeys.' + n


def T(n):
    return 'zStructTransfer.' + n


def longs(R, env, i):
    """8-byte words a zput/zputBuff call writes"""
    n, w = form(R, env, i.ops[3]), R.itv(env, i.ops[4])
    if w[0] != w[1] or w[0] not in (1, 2):
        return None
    if R.itv(env, i.ops[3])[1] <= 0:
        n = scale(n, -1)        # a fill
    return n if w[0] == 2 else words(n)


def ge0(d):
    """the form is >= 0 (what is left over are lengths)"""
    return all(k > 0 for _, k in d[1]) and d[0] >= 0


class Spaces(affine.Hyps):
    """puts into space handed out by zgetFileSpace in the same function"""

    def __init__(self):
        self.found = {}
        self.allocs = set()

    def init(self):
        return frozenset()

    def step(self, R, p, env, i):
        if i.op != 'call':
            return None
        if i.callee == SPACE:
            size = form(R, env, i.ops[1])
            R.exec(env, i)
            self.allocs.add(i.id)
            return [(frozenset(x for x in p if x[0] != i.id) | {(i.id, size)}, env)]
        if i.callee == 'zbinUpdate':
            v = R.rep(env, i.ops[2])
            R.exec(env, i)
            env.mem[key('zdssKeys', 'kaddInfoLastPath', R.f.expr(i.ops[0]))] = v
            return [(p, env)]
        if i.callee in PUT:
            a = form(R, env, i.ops[1])
            for cid, size in p:
                at = [(x, k) for x, k in a[1] if x[0] == 'v' and x[1] == cid]
                if at and at[0][1] == 1:
                    off = add(a, affine.atom(at[0][0]), -1)
                    n = longs(R, env, i)
                    # a negative number of words is a fill of that length
                    good = n is not None and ge0(off) and any(ge0(add(add(size, off, -1), scale(n, s), -1)) for s in (1, -1))
                    k = (i.id, cid)
                    if k not in self.found or not good:
                        self.found[k] = (good, render(off), None if n is None else render(n), render(size), R.f.where(i))
        return None


class Record(affine.Hyps):
    """the words of the info block and the space asked for"""

    def __init__(self, hyps=None):
        self.hyps = hyps or {}

    def init(self):
        return frozenset()

    def step(self, R, p, env, i):
        if i.op == 'store':
            n = name(R.f.expr(i.ops[1]))
            if n and (n.startswith('zdssInfoKeys.') and n.split('.')[1] in WORDS_ or n == 'zdssKeys.kaddInfoLastPath'):
                v = form(R, env, i.ops[0])
                R.exec(env, i)
                return [(frozenset(x for x in p if x[0] != n) | {(n, v)}, env)]
            if n == T('totalAllocatedSize'):
                cur = env.mem.get(R.f.expr(i.ops[1]))
                v = form(R, env, i.ops[0])
                old = form(R, env, cur) if cur is not None else None
                R.exec(env, i)
                q = set(x for x in p if x[0] not in ('alloc', 'grow'))
                if old is not None:
                    q.add(('grow', add(v, old, -1)))
                return [(frozenset(q | {('alloc', v)}), env)]
        if i.op == 'call' and i.callee == SPACE:
            v = form(R, env, i.ops[1])
            R.exec(env, i)
            return [(frozenset(x for x in p if x[0] != 'space') | {('space', v), ('base', form(R, env, i.id))}, env)]
        if i.op == 'call' and i.callee == 'zbinUpdate':
            v, r = form(R, env, i.ops[2]), R.rep(env, i.ops[2])
            R.exec(env, i)
            env.mem[key('zdssKeys', 'kaddInfoLastPath')] = r
            return [(frozenset(x for x in p if x[0] != 'bin') | {('bin', v), (KAD, v)}, env)]
        if i.op == 'call' and i.callee in PUT:
            m = name(R.f.expr(i.ops[1]))
            a, n = form(R, env, i.ops[1]), longs(R, env, i)
            if key('zdssKeys', 'kinfo') == R.f.expr(i.ops[2]) or name(R.f.expr(R.f.insts[R.f.strip(i.ops[2])].ops[0]) if isinstance(R.f.strip(i.ops[2]), int) and R.f.strip(i.ops[2]) >= len(R.f.args) and R.f.insts[R.f.strip(i.ops[2])].op == 'load' else ('x',)) == 'zdssKeys.kinfo':
                return [(frozenset(x for x in p if x[0] != 'info') | {('info', (a, n))}, self.done(R, env, i))]
            lab = render(a)
            if lab == '+zdssKeys.kinfoAddInBin' and n == const(1):
                t = R.f.expr(i.ops[2])
                return [(frozenset(p | {('binput', str(name(t)))}), self.done(R, env, i))]
        return None

    def done(self, R, env, i):
        R.exec(env, i)
        return env

    def edge(self, R, st, env, t, s):
        p, wr = st
        if t.op == 'br' and len(t.succ) == 2:
            c = R.f.defn(R.rep(env, t.ops[0])) if not isinstance(R.rep(env, t.ops[0]), tuple) else None
            if c is not None and c.op == 'icmp' and c.pred in ('sgt', 'sge', 'slt', 'sle'):
                taken = s == t.succ[0]
                a, b = form(R, env, c.ops[0]), form(R, env, c.ops[1])
                d = add(a, b, -1)
                if 'kinfoAllocatedSize' in render(d):
                    # as "d <= k"
                    k = {('sgt', False): 0, ('sge', False): -1, ('slt', True): -1, ('sle', True): 0}.get((c.pred, taken))
                    if k is None:
                        d = scale(d, -1)
                        k = {('sgt', True): -1, ('sge', True): 0, ('slt', False): 0, ('sle', False): -1}[c.pred, taken]
                    p = p | {('le', (d, k))}
        return (p, wr)


KAD = 'zdssKeys.kaddInfoLastPath'
WORDS_ = {'kinfo%sAddress' % a for a, _ in AREAS} | {'kinfo%sNumber' % a for a, _ in AREAS} | {'kinfoAllocatedSize'}


class Kept(affine.Hyps):
    """zbinUpdate: the address given becomes the address of the record"""

    def init(self):
        return False

    def step(self, R, p, env, i):
        if i.op == 'store' and name(R.f.expr(i.ops[1])) == KAD:
            good = R.f.strip(R.rep(env, i.ops[0])) == 2
            R.exec(env, i)
            return [(good, env)]
        return None


INFO = '+numberLongsInBytes(+zdssKeys.klenLastPath)+zdssVals.infoSize'


def isok(it):
    return it is None or not (it[1] < 0)


def record(c, fname):
    """zwriteNew / zwriteExisting"""
    f = c.fn(fname)
    R = Runner(c.A, f, Record({'zdssKeys.kreclaimLevel!': ZERO, 'zdssVals.infoSize!': (25, 1000, True), 'zdssKeys.klenLastPath!': (1, 1000, True)}), maxenv=24)
    R.symbolic = True
    kinds = {}
    seen = set()
    for (p, wr), it, t, kk in R.run():
        if not isok(it):
            continue
        if p in seen:
            continue
        seen.add(p)
        d = {}
        les = []
        for k, v in p:
            if k == 'le':
                les.append(v)
            else:
                d[k] = v
        moved = 'space' in d
        where, tr = f.where(t), R.trace(kk[0])

        def bad(what, text):
            c.bad('%s:%s:%s' % (fname, 'moved' if moved else 'in place', what), where, text, tr)

        def num(a):
            return d.get(I('kinfo%sNumber' % a))
        # lengths are those given, each area starts where the one before ends
        for k, (a, m) in enumerate(AREAS):
            n = num(a)
            if n is None:
                bad(a + ' length', '%s does not store the length of area %s' % (fname, m))
                continue
            c.ok('length of an area', '%s %s: %s' % (fname, m, render(n)))
            if render(n) not in ('+' + T(m + 'Number'), '+0'):
                bad(a + ' length', 'the length stored for %s is %s' % (m, render(n)))
            if k:
                pa, pn = d.get(I('kinfo%sAddress' % AREAS[k - 1][0])), num(AREAS[k - 1][0])
                if k == 1 and not moved and pa is None:
                    pa = KEEP(R, kk[1], d)
                x = d.get(I('kinfo%sAddress' % a))
                if x is None or pa is None or pn is None:
                    bad(a + ' address', '%s does not store the address of area %s' % (fname, m))
                    continue
                c.ok('start of an area', '%s %s after %s' % (fname, m, AREAS[k - 1][1]))
                if k == 1 and not moved:
                    good = render(add(x, words(pn), -1)) == '+' + I('kinfoInternalHeadAddress')
                else:
                    good = add(x, pa, -1) == words(pn)
                if not good:
                    bad(a + ' address', 'area %s starts at %s, the area before ends at %s' % (m, render(x), render(add(pa, words(pn)))))
        al = d.get(I('kinfoAllocatedSize'))
        if al is None:
            bad('allocated', '%s does not store the space allocated for the values' % fname)
            continue
        heads = const(0)
        for a, m in AREAS[:3]:
            if num(a) is not None:
                heads = add(heads, words(num(a)))
        if moved:
            kinds['moved'] = 1
            base, req = d['base'], d['space']
            ih = d.get(I('kinfoInternalHeadAddress'))
            c.ok('first area after the info block', fname)
            ninfo = add(ih, base, -1) if ih else None
            if ninfo is None or render(ninfo) != INFO:
                bad('info block', 'the first area starts %s words after the start of the record, must be the length of its info block' % (render(ninfo) if ninfo else 'no'))
                continue
            rest = add(add(add(req, ninfo, -1), heads, -1), words(al), -1)
            c.ok('space asked for', fname)
            if render(rest) != '+0':
                # a surplus of whole areas is harmless
                if any(k < 0 for _, k in rest[1]) or rest[0] < 0 or any(x[0] != 'L' for x, _ in rest[1]):
                    bad('space', 'the space asked for falls short of the areas stored by %s' % render(scale(rest, -1)))
            c.ok('address kept', fname)
            if d.get(KAD) != base:
                bad('address', 'the address kept for the record is not the space handed out')
            if fname == 'zwriteNew' and d.get('bin') != base:
                bad('bin', 'the pathname bin does not get the address of the space handed out')
            if fname == 'zwriteExisting' and d.get('binput') != KAD:
                bad('bin', 'the pathname bin is not updated with the new address of the record')
        else:
            kinds['in place'] = 1
            orig = [I('kinfo%sNumber' % a) for a, _ in AREAS[:3]] + [I('kinfoAllocatedSize')]
            want = add(add(scale(heads, 2), const(0)), const(0))
            good = False
            g = d.get('grow')
            for e, k in les:
                # e <= k with e = 2*(new words) - 2*(old words)
                o = {}
                for x, q in e[1]:
                    if q < 0:
                        o[render(affine.atom(x))] = q
                if sorted(o) == sorted('+L(+%s)' % x for x in orig) and set(o.values()) == {-2} and k <= 0:
                    new = (e[0], tuple((x, q) for x, q in e[1] if q > 0))
                    before = add(al, g, -1) if g is not None else al
                    if render(new) == render(add(scale(heads, 2), scale(words(before), 2))) and (g is None or render(add(g, e)) == '+0' or g == const(0)):
                        good = True
            c.ok('in place only when it fits', fname)
            if not good and os.environ.get('DBG'):
                print(render(al), '| grow', g and render(g), '| heads', render(heads), '|', [(render(e), k) for e, k in les])
            if not good:
                bad('fits', 'the record is rewritten in place without a test that all its areas, each in whole 8-byte words, fit in the space it has')
        if 'info' not in d:
            bad('info block', 'the info block is not written')
        else:
            a, n = d['info']
            c.ok('info block written', '%s %s' % (fname, render(n) if n else '?'))
            if n is None or render(n) != INFO:
                bad('info length', 'the info block is written with %s words' % (render(n) if n else '?'))
            if moved and a != d['base'] or not moved and render(a) != '+' + KAD:
                bad('info address', 'the info block is written at %s' % render(a))
    return kinds


def KEEP(R, env, d):
    return const(0)


class Alloc(affine.Hyps):
    """zwriteInternal: the allocation is at least what the values take when space is looked for"""

    def __init__(self):
        self.calls = {}

    def init(self):
        return False

    def need(self, R, env, e):
        return render(e)

    def step(self, R, p, env, i):
        if i.op == 'store':
            n = name(R.f.expr(i.ops[1]))
            if n == T('totalAllocatedSize'):
                v = render(form(R, env, i.ops[0]))
                R.exec(env, i)
                return [(v == NEED, env)]
            if n in (T('values1Number'), T('values2Number'), T('values3Number')):
                return None
        if i.op == 'call' and i.callee in ('zwriteNew', 'zwriteExisting'):
            self.calls.setdefault(i.callee, []).append((p, R.f.where(i)))
        return None

    def edge(self, R, st, env, t, s):
        p, wr = st
        if t.op == 'br' and len(t.succ) == 2 and not p:
            c = R.f.defn(R.rep(env, t.ops[0])) if not isinstance(R.rep(env, t.ops[0]), tuple) else None
            if c is not None and c.op == 'icmp' and c.pred in ('sgt', 'sge', 'slt', 'sle'):
                taken = s == t.succ[0]
                a, b = render(form(R, env, c.ops[0])), render(form(R, env, c.ops[1]))
                cur = '+' + T('totalAllocatedSize')
                if (a, b) == (NEED, cur) and (c.pred in ('sgt', 'sge')) != taken or (a, b) == (cur, NEED) and (c.pred in ('sgt', 'sge')) == taken:
                    return (True, wr)
        return st


NEED = ''.join('+2*L(+%s)' % T('values%dNumber' % k) for k in (1, 2, 3))


def loaded_from(R, v):
    """name of the location a value was loaded from"""
    v = R.f.strip(v)
    i = R.f.defn(v) if isinstance(v, int) else None
    return name(R.f.expr(i.ops[0])) if i is not None and i.op == 'load' else None


class Areas(affine.Hyps):
    """zwriteInternal: the six areas written, each at its own address"""
    hyps = {}

    def __init__(self):
        self.sites = {}

    def init(self):
        return frozenset()

    def step(self, R, p, env, i):
        if i.op == 'call' and i.callee in PUT:
            a = render(form(R, env, i.ops[1]))
            n = longs(R, env, i)
            w = R.itv(env, i.ops[4])
            raw = form(R, env, i.ops[3])
            m = loaded_from(R, i.ops[2])
            self.sites[(a, m, render(raw), w)] = R.f.where(i)
            R.exec(env, i)
            return [(p | {a}, env)]
        return None


def areas_written(c):
    f = c.fn('zwriteInternal')
    want = {}
    for a, m in AREAS:
        want['+' + I('kinfo%sAddress' % a)] = m
    # with an array and a length for every area each is written once
    hyp = {}
    for _, m in AREAS:
        hyp[T(m + 'Number')] = (1, (1 << 31) - 1, True)
        hyp[T(m)] = (1, BIG, True)
    cl = Areas()
    cl.hyps = hyp
    R = Runner(c.A, f, cl, maxenv=24)
    R.symbolic = True
    done = None
    for (p, wr), it, t, kk in R.run():
        if it is not None and it[0] == it[1] == 0 or it is not None and it[1] >= 0 and it[0] <= 0 and p:
            miss = set(want) - p
            c.ok('areas of a record written', 'zwriteInternal, all six')
            if miss and it[0] == it[1] == 0:
                c.bad('zwriteInternal:missing:' + ','.join(sorted(want[x] for x in miss)), f.where(t), 'the record is stored without writing ' + ', '.join(sorted(want[x] for x in miss)), R.trace(kk[0]))
            if not miss:
                done = True
    if not done:
        raise Broken('zwriteInternal: no path that writes all six areas')
    free = Areas()
    R = Runner(c.A, f, free, maxenv=8)
    R.symbolic = True
    R.run()
    for (a, m, n, w), where in {**cl.sites, **free.sites}.items():
        if a not in want:
            c.bad('zwriteInternal:address:' + a, where, 'zwriteInternal writes at %s, which is no area of the record' % a)
            continue
        x = want[a]
        c.ok('area written', '%s <- %s, %s ints' % (a, m, n))
        if m != T(x):
            c.bad('zwriteInternal:array:' + x, where, 'area %s is written from %s' % (x, m))
        if n.lstrip('+-') != T(x + 'Number'):
            c.bad('zwriteInternal:length:' + x, where, 'area %s is written with length %s' % (x, n))
        if w[0] != 1 or w[1] != 1:
            c.bad('zwriteInternal:size:' + x, where, 'the lengths of area %s count 4-byte words, it is written in words of %s' % (x, w[0]))
        if n[0] == '-' and not x.startswith('values'):
            c.bad('zwriteInternal:fill:' + x, where, 'area %s is written as a fill' % x)


class Reads(affine.Hyps):
    """zreadInternal: reads of the areas"""

    def __init__(self):
        self.sites = {}

    def init(self):
        return frozenset()

    def step(self, R, p, env, i):
        if i.op == 'call' and i.callee in ('calloc', 'malloc'):
            n, w = (form(R, env, i.ops[0]), form(R, env, i.ops[1])) if i.callee == 'calloc' else (form(R, env, i.ops[0]), const(1))
            ints = scale(n, w[0] // 4) if not w[1] and w[0] % 4 == 0 else None
            R.exec(env, i)
            return [(frozenset(x for x in p if x[0] != i.id) | {(i.id, ints)}, env)]
        if i.op == 'store' and (name(R.f.expr(i.ops[1])) or '').startswith('zStructTransfer.'):
            v = R.rep(env, i.ops[0])
            n = name(R.f.expr(i.ops[1]))
            q = {x for x in p if x[0] != n}
            for x in p:
                if x[0] == v:
                    q.add((n, x[1]))
            R.exec(env, i)
            return [(frozenset(q), env)]
        if i.op == 'call' and i.callee in ('zgetBuff', 'zget'):
            a = render(form(R, env, i.ops[1]))
            n = form(R, env, i.ops[3])
            w = R.itv(env, i.ops[4])
            m = loaded_from(R, i.ops[2])
            cap = dict((x for x in p if isinstance(x[0], str) and x[0] != 'le')).get(m)
            les = tuple(sorted((render(e), k) for t, (e, k) in ((x[0], x[1]) for x in p if x[0] == 'le')))
            self.sites.setdefault((a, m, render(n), w, cap and render(add(cap, n, -1)), les), R.f.where(i))
        return None

    def edge(self, R, st, env, t, s):
        p, wr = st
        if t.op == 'br' and len(t.succ) == 2:
            c = R.f.defn(R.rep(env, t.ops[0])) if not isinstance(R.rep(env, t.ops[0]), tuple) else None
            if c is not None and c.op == 'icmp' and c.pred in ('sgt', 'sge', 'slt', 'sle'):
                taken = s == t.succ[0]
                d = add(form(R, env, c.ops[0]), form(R, env, c.ops[1]), -1)
                if 'Mode' in render(d):
                    k = {('sgt', False): 0, ('sge', False): -1, ('slt', True): -1, ('sle', True): 0}.get((c.pred, taken))
                    if k is None:
                        d = scale(d, -1)
                        k = {('sgt', True): -1, ('sge', True): 0, ('slt', False): 0, ('sle', False): -1}[c.pred, taken]
                    p = frozenset(x for x in p if x[0] != 'le' or len(x) < 2) | {('le', (d, k))}
        return (p, wr)


def areas_read(c):
    f = c.fn('zreadInternal')
    for k, (a, m) in enumerate(AREAS):
        cl = Reads()
        # one area at a time
        cl.hyps = {T(x + 'Mode'): ZERO for _, x in AREAS if x != m}
        R = Runner(c.A, f, cl, maxenv=32)
        R.symbolic = True
        R.run()
        seen = 0
        for (at, arr, n, w, room, les), where in cl.sites.items():
            if at == '+' + I('kinfoInternalHeadAddress') and arr is None:
                continue        # load of the whole record into the buffer
            if at != '+' + I('kinfo%sAddress' % a):
                c.bad('zreadInternal:%s:address' % m, where, 'area %s is read from %s' % (m, at))
                continue
            seen += 1
            c.ok('area read', '%s -> %s, %s ints, room left %s, given %s' % (at, arr, n, room, les))
            if arr != T(m):
                c.bad('zreadInternal:%s:array' % m, where, 'area %s is read into %s' % (m, arr))
            if w != (1, 1, True):
                c.bad('zreadInternal:%s:size' % m, where, 'area %s is read in words of %s' % (m, w[0]))
            num, mode = '+' + I('kinfo%sNumber' % a), '+' + T(m + 'Mode')
            if room is not None:
                good = n == num and not room.startswith('-')
            elif n == mode:
                good = True
            else:
                good = n == num and any(d == num + mode.replace('+', '-') and k <= 0 or d == mode.replace('+', '-') + num and k <= 0 for d, k in les)
            if not good:
                c.bad('zreadInternal:%s:length' % m, where, 'area %s: %s ints are read, the array has %s' % (m, n, 'room for %s more' % room if room is not None else 'the size given by the caller'))
        if not seen:
            raise Broken('zreadInternal does not read area ' + m)


class EndMark(affine.Hyps):
    def __init__(self):
        self.sites = {}

    def init(self):
        return None

    def step(self, R, p, env, i):
        if i.op == 'call' and i.callee in PUT:
            v = env.mem.get(R.f.expr(i.ops[2]))
            if v is not None:
                it = R.itv(env, v)
                if it[0] == it[1] == END_FLAG:
                    a = form(R, env, i.ops[1])
                    self.sites.setdefault((render(a), longs(R, env, i) == const(1)), R.f.where(i))
        return None


END_FLAG = -97532


class Given(affine.Hyps):
    def init(self):
        return None


class Pieces(affine.Hyps):
    """what zgetFileSpace leaves in the table of reclaimed space of the piece it hands out"""

    def init(self):
        return frozenset()

    @staticmethod
    def entry(R, env, a):
        """index of a table word, of an address"""
        e, k = R.f.expr(R.f.strip(a)), const(0)
        while e[0] == 'gep' and all(x[0] == '[]' and x[1] == 'i64' for x in e[2]):
            for x in e[2]:
                n = Pieces.index(R, env, x[2])
                if n is None:
                    return None
                k = add(k, n)
            e = e[1]
        if e[:2] == ('call', 'zreclaimRead') or e[0] == 'phi' and any(isinstance(x, int) and R.f.expr(R.f.strip(x))[:2] == ('call', 'zreclaimRead') for x, _ in R.f.insts[e[1]].incoming):
            return k
        return None

    @staticmethod
    def index(R, env, t):
        if isinstance(t, int):
            return form(R, env, t)
        if t[0] == 'c':
            return const(t[1])
        if t[0] in ('add', 'sub'):
            a, b = Pieces.index(R, env, t[1]), Pieces.index(R, env, t[2])
            return None if a is None or b is None else add(a, b, 1 if t[0] == 'add' else -1)
        if t[0] in ('phi', 'val', 'call') and isinstance(t[-1], int):
            return form(R, env, t[-1])
        return None

    @staticmethod
    def word(R, env, x):
        """index of the table word a form is the content of"""
        if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1 and x[1][0][0][0] == 'v':
            d = R.f.defn(x[1][0][0][1])
            if d is not None and d.op == 'load':
                return Pieces.entry(R, env, d.ops[0])
        return None

    def step(self, R, p, env, i):
        if i.op == 'store':
            k = self.entry(R, env, i.ops[1])
            if k is not None:
                v = form(R, env, i.ops[0])
                # in terms of the word it was made from
                for a, n in v[1]:
                    if n == 1 and self.word(R, env, (0, ((a, 1),))) == k:
                        v = add(add(v, (0, ((a, 1),)), -1), (0, ((('was', k), 1),)))
                R.exec(env, i)
                return [(frozenset(x for x in p if x[0] != k) | {(k, v)}, env)]
        if i.op == 'call' and (i.callee == 'memset' or i.callee.startswith('llvm.memset')):
            k = self.entry(R, env, i.ops[0])
            n = i.ops[2]
            if k is not None and i.ops[1][:2] == ('i', 0) and isinstance(n, tuple) and n[0] == 'i':
                R.exec(env, i)
                ks = {add(k, const(j)) for j in range(n[1] // 8)}
                return [(frozenset(x for x in p if x[0] not in ks) | {(k, const(0)) for k in ks}, env)]
        return None


def pieces(c):
    f = c.fn(SPACE)
    cl = Pieces()
    R = Runner(c.A, f, cl, maxenv=24)
    seen = wrong = 0
    for (p, wr), it, t, (kk, env) in R.run():
        x = form(R, env, t.ops[0])
        k = Pieces.word(R, env, x)
        if k is None:
            if render(x) != '+zdssFileKeys.kfileSize':
                wrong += 1
                c.bad(SPACE + ':address', f.where(t), 'space is handed out at %s, not at the end of the file or from the table' % render(x), R.trace(kk))
            continue
        seen += 1
        c.ok('piece of reclaimed space', 'entry at %s' % render(k))
        st = dict(p)
        # (the index can have another name by now)
        pairs = [(k, y, st[add(k, const(1), -1)]) for k, y in st.items() if add(k, const(1), -1) in st]
        if len(pairs) != 1 or len(st) != 2:
            c.bad(SPACE + ':entry', f.where(t), 'a piece is handed out and its entry in the table is kept', R.trace(kk))
            continue
        k, a, s = pairs[0]
        if a == const(0) and s == const(0):
            continue
        moved = add(a, (0, ((('was', k), 1),)), -1)
        rest = add(moved, form(R, env, 1), -1)
        if rest[1] or rest[0] < 0:
            c.bad(SPACE + ':rest', f.where(t), 'what is left of a piece starts %s behind it, not behind what was handed out' % render(moved), R.trace(kk))
        whole = add(s, moved)
        if whole != (0, ((('was', add(k, const(1), -1)), 1),)) and not (whole[0] <= 0 and len(whole[1]) == 1 and whole[1][0][1] == 1 and whole[1][0][0][0] == 'v' and have(R, f, whole[1][0][0][1])):
            c.bad(SPACE + ':left', f.where(t), 'what is left of a piece and what was handed out are %s words, not the size of the piece' % render(whole), R.trace(kk))
    if not seen and not wrong:
        raise Broken('zgetFileSpace hands out no reclaimed space')
    fits(c, f)


def have(R, f, v):
    """a size found in the table"""
    work, seen, got = [v], set(), False
    while work:
        v = f.strip(work.pop())
        if not isinstance(v, int):
            if v[:2] != ('i', 0):
                return False
            continue
        if v in seen:
            continue
        seen.add(v)
        d = f.defn(v)
        if d is None:
            return False
        if d.op == 'phi':
            work.extend(x for x, _ in d.incoming)
        elif d.op == 'load' and f.expr(f.strip(d.ops[0]))[0] == 'gep':
            got = True
        else:
            return False
    return got


def fits(c, f):
    """a piece is taken only under a test that it is as long as needed"""
    idom = f.dominators()
    n = 0
    for i in f.all():
        if i.op != 'phi' or not i.type == 'i32' or not have(None, f, i.id):
            continue
        for x, pb in i.incoming:
            w = f.strip(x) if isinstance(x, int) else None
            d = f.defn(w) if w is not None else None
            if d is None or d.op != 'load':
                continue
            n += 1
            e = f.expr(w)
            above, b, good = [pb], pb, False
            while idom.get(b, b) != b:
                b = idom[b]
                above.append(b)
            for b, up in zip(above, above[1:]):
                t = f.blocks[up][-1]
                if t.op == 'br' and len(t.succ) == 2 and isinstance(t.ops[0], int):
                    k = f.defn(f.strip(t.ops[0]))
                    if k is not None and k.op == 'icmp':
                        l, r = (f.expr(f.strip(o)) if isinstance(o, int) else o for o in k.ops)
                        for side in (0, 1):
                            if t.succ[side] in above and t.succ[1 - side] not in above:
                                m = {('sge', 0): 1, ('sgt', 0): 1, ('slt', 1): 1, ('sle', 1): 1}.get((k.pred, side))
                                q = {('sle', 0): 1, ('slt', 0): 1, ('sgt', 1): 1, ('sge', 1): 1}.get((k.pred, side))
                                if m and l == e and r == ('arg', 1) or q and r == e and l == ('arg', 1):
                                    good = True
            c.ok('size of a piece', f.where(d))
            if not good:
                c.bad(SPACE + ':size', f.where(d), 'a piece is taken that was not found to be as long as needed')
    if not n:
        raise Broken('zgetFileSpace looks at no size of a piece')


def body(c):
    # whole records
    k = record(c, 'zwriteNew')
    if set(k) != {'moved'}:
        raise Broken('zwriteNew has no path that asks for space')
    k = record(c, 'zwriteExisting')
    if set(k) != {'moved', 'in place'}:
        raise Broken('zwriteExisting: paths %s' % sorted(k))
    # the allocation covers the values
    f = c.fn('zwriteInternal')
    cl = Alloc()
    R = Runner(c.A, f, cl, maxenv=24)
    R.symbolic = True
    R.run()
    for g in ('zwriteNew', 'zwriteExisting'):
        if g not in cl.calls:
            raise Broken('zwriteInternal does not call ' + g)
        for p, w in cl.calls[g]:
            c.ok('allocation covers the values', 'zwriteInternal -> ' + g)
            if not p:
                c.bad('zwriteInternal:%s:allocation' % g, w, 'space is looked for without raising the allocation to the whole 8-byte words of the three value areas')
    areas_written(c)
    areas_read(c)
    # the address of a new bin entry
    f = c.fn('zbinUpdate')
    R = Runner(c.A, f, Kept(), maxenv=16)
    for (p, wr), it, t, kk in R.run():
        if it is None or it[1] >= 0:
            c.ok('address entered in the bin is kept', 'zbinUpdate')
            if not p:
                c.bad('zbinUpdate:address', f.where(t), 'zbinUpdate succeeds without making the address given the address of the record', R.trace(kk[0]))
    # space is handed out at the end of the file
    f = c.fn(SPACE)
    cl = Given()
    cl.hyps = {'zdssKeys.kreclaimLevel': ZERO}
    R = Runner(c.A, f, cl, maxenv=16)
    for st, it, t, (kk, env) in R.run():
        x = render(form(R, env, t.ops[0]))
        c.ok('space handed out', '%s returns %s' % (SPACE, x))
        if x != '+zdssFileKeys.kfileSize':
            c.bad(SPACE + ':address', f.where(t), 'space is handed out at %s, not at the end of the file' % x, R.trace(kk))
    pieces(c)
    # the end of file mark
    for f in c.prog.fns.values():
        if not any(i.op == 'store' and i.ops[0] == ('i', END_FLAG) + i.ops[0][2:] for i in f.all() if i.op == 'store' and isinstance(i.ops[0], tuple) and i.ops[0][0] == 'i'):
            continue
        cl = EndMark()
        R = Runner(c.A, f, cl, maxenv=12)
        R.run()
        for (a, one), w in cl.sites.items():
            c.ok('end of file mark', '%s writes it at %s' % (f.name, a))
            if a != '+zdssFileKeys.kfileSize' or not one:
                c.bad('%s:end of file mark' % f.name, w, 'the end of file mark is written at %s%s' % (a, '' if one else ', not as one 8-byte word'))
    # blocks
    for fname in sorted({x for x, _ in c.prog.callers.get(SPACE, ())} - {'zwriteNew', 'zwriteExisting'}):
        f = c.prog[fname]
        cl = Spaces()
        R = Runner(c.A, f, cl, maxenv=16)
        R.run()
        c.ok('block asked for', fname, len(cl.allocs))
        for (pid, cid), (good, off, n, size, w) in cl.found.items():
            c.ok('write into a block', '%s: %s words at offset %s of %s' % (fname, n, off, size))
            if not good:
                c.bad('%s:put:%s' % (fname, size), w, '%s writes %s words at offset %s of a block of %s words' % (fname, n, off, size))
        for a in cl.allocs - {cid for _, cid in cl.found}:
            if fname not in RAWBLOCKS:
                raise Broken('%s: no write into a block it asked for' % fname)
    for kind, n in (('length of an area', 12), ('start of an area', 10), ('space asked for', 2), ('in place only when it fits', 1), ('allocation covers the values', 2),
                    ('area written', 6), ('area read', 12), ('end of file mark', 1), ('block asked for', 8), ('write into a block', 8)):
        c.need(kind, n)
    return ('Affine forms of every address and length are carried along every path of zwriteNew, zwriteExisting, zwriteInternal, zreadInternal, zgetFileSpace, zbinUpdate and every other function that asks for file space. '
            'Decided: the six areas of a record follow each other without overlap, first one after the info block; the space asked for holds the info block and all areas in whole 8-byte words; a record is rewritten in place only under a test that the new areas fit; '
            'the allocation covers the three value areas; each area is written from its own array, with its own length, at its own address, and read back from there into its own array, never more than the array holds; '
            'fixed blocks are written inside the space asked for; space is handed out at the recorded end of the file, where the end mark is written.',
            ['space reuse from the reclaim table is off (the default)', 'lengths are not negative and fit in 32 bits', 'an info block has at least 25 words and a pathname 1 to 1000 bytes'])


RAWBLOCKS = set()

if __name__ == '__main__':
    main('C25', body)
