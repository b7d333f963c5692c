"""C07: a handle of a closed (or never opened) file is turned away."""
from common import *
from c03_read_only import post

PUBLIC_DIRS = ('/Public/', '/SemiPublic/', '/DssInterface/')
COMPARE = ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strncmp_hec')
COPIES = ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strlen', 'charInt', 'charLong', 'strcmp', 'strncmp', 'strcat')
RAW = {'read', 'write', 'pread', 'pwrite', 'pread64', 'pwrite64', 'lseek', 'lseek64', 'lockf', 'lockf64', 'fsync', 'fdatasync', 'ftruncate', 'ftruncate64', 'close', '_commit', 'fcntl', 'flock'}
# these make the handle one of an open file
OPENING = {'zopenInternal', 'zopen', 'zopenExtended', 'hec_dss_zopen', 'zopen7', 'zopenLog'}
# steps below the public operations; they are analysed as part of the operations that call them
HELPERS = {'zcheckInfo': 'declared in hecdssInternal.h, called with the header in memory', 'checkGrid': 'part of zcheckInfo'}
# operations on the contents or the index of a file: must answer with a negative status on a handle that is not open
DATA_OPS = '''zaliasAdd zaliasGetPrimary zaliasList zaliasNumber zaliasRemove zaliasRemoveAll zanalyzeFile zarrayRetrieve zarrayStore zbinaryRetrieveToFile zbinaryStoreFromFile
zcatalog zcatalogFile zcatalogToFile zcheck zcheckFile zcheckHashTable zcheckLinks zcheckPathnameBins zcheckPathnames zcollectionCat zcopyFile zcopyRecord zdataType zdelete zduplicateRecord
zfileAccessInfo zgetLastWriteTimeFile zgetLastWriteTimeRec zgetRecordAddresses zgetRecordSize zlocationDelete zlocationRetrieve zlocationStore zpdRetrieve zpdStore zread zreadx zrecordAddresses
zrename zspatialGridRetrieve zspatialGridRetrieveVersion zspatialGridStore zspatialTinRetrieve zspatialTinStore zsqueeze7 zsqueezeNeeded ztextRetrieve ztextRetrieveToFile ztextStore ztextStoreFromFile
ztsGetDateRange ztsGetDateTimeRange ztsGetFirstLastPathnames ztsRetrieve ztsStore zundelete zundeleteAll zwhatChangedSetStart zwrite zwritex zreadInfo zwriteInternal zreadInternal zclose
ztsGetSizes ztsRetrievePattern zflushToDisk zgetMyLastWriteTime'''.split()


class Closed(flow.NullClient):
    """The handle in argument k is not open on entry: its first words and its pointers are zero.  State: what string comparisons told so far."""

    def __init__(self, W, k, request=None):
        self.W, self.k, self.request, self.hit = W, k, request, []

    def start(self, R):
        return [()]

    def inst(self, R, st, env, i):
        f = R.f
        if i.op in ('load', 'store'):
            p = i.ops[0] if i.op == 'load' else i.ops[1]
            if self.null(R, env, p):
                self.hit.append((i, 'reads or writes through a pointer of the handle that is null when the file is not open'))
                return []
            a = f.expr(p)
            b = a
            while b[0] == 'gep':
                b = b[1]
            if i.op == 'load' and b == ('arg', self.k):
                had = a in env.mem
                R.exec(env, i)
                if not had and i.type != 'ptr' and self.zero(R, env, a, p) and not R.refine(env, i.id, (0, 0, False)):
                    return []
                return [(st, env)]
            return None
        if i.op != 'call' or i.callee is None:
            return None
        c = i.callee
        if c in COMPARE and (self.request is not None or f.name in ('zinquire', 'zinquireChar')):
            s = R.prog.string(i.ops[1])
            if s is not None:
                return self.compare(R, st, env, i, s)
        ex = [f.expr(f.strip(o)) for o in i.ops]
        me = [j for j, e in enumerate(ex) if e == ('arg', self.k)]
        if c in COPIES or c.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
            if any(self.null(R, env, o) for o in i.ops):
                self.hit.append((i, 'passes a pointer of the handle that is null when the file is not open to %s' % c))
                return []
        if c in RAW and self.mine(ex[0]):
            self.hit.append((i, 'does file input or output on the descriptor of a handle that is not open'))
            return []
        lit = R.prog.string(i.ops[1]) if c in ('zinquire', 'zinquireChar') and len(i.ops) > 1 else None
        for j, e in enumerate(ex):
            # the descriptor of the handle handed down to a system wrapper
            if self.mine(e) and (c, j) in self.W.fdio:
                self.hit.append((i, 'does file input or output (%s) on the descriptor of a handle that is not open' % c))
                return []
        for j in me:
            if c in OPENING:
                return []               # from here on the handle is open
            if c == 'zerrorProcessing':
                if self.W.error(j, R.itv(env, i.ops[2])):
                    self.hit.append((i, 'reports an error in a way that uses the header of a file that is not open'))
                    return []
                continue
            if self.W.events(c, j, lit):
                self.hit.append((i, 'calls %s, which uses the contents of a handle that is not open' % c))
                return []
        R.exec(env, i)
        for j in me:
            r = self.W.returns(c, j, lit)
            if r == 'never':
                return []
            if r is not None and not R.refine(env, i.id, r):
                return []
        return [(st, env)]

    def zero(self, R, env, a, p):
        """is the word at this address zero after a close?"""
        k = flow.key_of(a)
        if k is not None and k[1] == 'zdssKeys' and k[3] == ('c', 0):
            return k[2] in self.W.zero
        d = R.f.defn(p) if not isinstance(p, tuple) else None
        if d is not None and d.op == 'getelementptr' and len(d.ops) == 2:
            it = R.itv(env, d.ops[1])
            return 0 <= it[0] and it[1] < self.W.wiped
        return a == ('arg', self.k)

    def mine(self, e):
        """descriptor word of the handle"""
        if e[0] != 'ld':
            return False
        k = flow.key_of(e[1])
        return k is not None and k[1:3] == ('zdssKeys', 'khandle') and e[1][1] == ('arg', self.k)

    def compare(self, R, st, env, i, s):
        R.exec(env, i)
        env.c.clear()
        if self.request is not None:
            q = self.request.lower()[:4]
            eq = q.startswith(s) if 'strn' in i.callee else q == s
        else:
            b = R.f.expr(R.f.strip(i.ops[0]))
            d = dict(st)
            known = d.get(b, ('ne', frozenset()))
            if known[0] == 'eq':
                eq = known[1] == s
            elif s in known[1]:
                eq = False
            else:
                e1, e2 = env, env.copy()
                e1.v[i.id] = (0, 0, False)
                e2.v[i.id] = (1, flow.BIG, True)
                d1, d2 = dict(d), dict(d)
                d1[b] = ('eq', s)
                d2[b] = ('ne', known[1] | {s})
                return [(tuple(sorted(d1.items(), key=str)), e1), (tuple(sorted(d2.items(), key=str)), e2)]
        env.v[i.id] = (0, 0, False) if eq else (1, flow.BIG, True)
        return [(st, env)]

    def null(self, R, env, p):
        f = R.f
        for _ in range(12):
            e = f.defn(p) if not isinstance(p, tuple) else None
            if e is None:
                return isinstance(p, tuple) and p[0] == 'n'
            if e.op in ('getelementptr', 'bitcast'):
                p = e.ops[0]
                continue
            if e.op == 'inttoptr':
                return R.itv(env, e.ops[0])[:2] == (0, 0)
            if e.op == 'load' and e.type == 'ptr':
                # (long long *)ifltab[k] kept in a local variable
                a = f.expr(e.ops[0])
                v = env.mem.get(a)
                if isinstance(v, int) and v != p:
                    p = v
                    continue
            return False
        return False


class World:
    def __init__(self, c):
        self.c, self.A, self.prog = c, c.A, c.prog
        self.ev, self.ret, self.lit, self.zep, self.det = {}, {}, {}, {}, {}
        self.fdio = self.descriptor_users()

    def descriptor_users(self):
        """(function, argument) whose argument is the descriptor of a raw system call"""
        out, ch = set(), True
        while ch:
            ch = False
            for f in self.prog.fns.values():
                for i in f.calls():
                    for j, o in enumerate(i.ops):
                        if (i.callee in RAW and j == 0) or (i.callee, j) in out:
                            e = f.expr(f.strip(o))
                            if e[0] == 'arg' and (f.name, e[1]) not in out:
                                out.add((f.name, e[1]))
                                ch = True
        return out

    def solve(self, f, k, request=None, env=None):
        cl = Closed(self, k, request)
        outs = flow.Runner(self.A, f, cl, maxenv=4).run(env or flow.Env())
        its = [o[1] for o in outs if o[1] is not None]
        r = None
        if its:
            r = its[0]
            for x in its[1:]:
                r = flow.join(r, x)
        elif not outs:
            r = 'never'
        return cl.hit, r

    def literal(self, fn, j, lit):
        k = (fn, j, lit)
        if k not in self.lit:
            env = flow.Env()
            env.v[1] = (1, flow.BIG, True)
            self.lit[k] = self.solve(self.prog[fn], j, lit, env)
        return self.lit[k]

    def events(self, fn, j, lit=None):
        if lit is not None and (fn, j) in self.ev:
            return bool(self.literal(fn, j, lit)[0])
        return bool(self.ev.get((fn, j)))

    def returns(self, fn, j, lit=None):
        if lit is not None and (fn, j) in self.ret:
            return self.literal(fn, j, lit)[1]
        return self.ret.get((fn, j))

    def error(self, j, it):
        k = (j, it)
        if k not in self.zep:
            self.zep[k] = False
            env = flow.Env()
            env.v[2] = it
            self.zep[k] = bool(self.solve(self.prog['zerrorProcessing'], j, None, env)[0])
        return self.zep[k]


def handles(f):
    for k, (n, t) in enumerate(f.args):
        if t == 'ptr' and 'ifltab' in n.lower():
            yield k


def public(f):
    w = f.where(next(iter(f.all())))
    src = getattr(f, 'file', None) or w
    return any(d in src for d in PUBLIC_DIRS)


def body(c):
    prog = c.prog
    for n in ('zopenInternal', 'zinquire', 'zinquireChar', 'zerrorProcessing', 'zgetVersion', 'zcheckKeys', 'zget', 'zclose'):
        c.fn(n)
    W = World(c)
    # 1. closing clears the words that identify an open file and all the memory the handle owns
    W.wiped, W.zero = closing(c)
    c.notes['words zero after a close'] = sorted(W.zero)
    # 2. bottom-up
    cand = {f.name for f in prog.fns.values() if any(True for _ in handles(f))}
    n = 0
    for name in post(prog, cand):
        f = prog[name]
        for k in handles(f):
            h, r = W.solve(f, k)
            W.ev[name, k], W.ret[name, k] = bool(h), r
            W.det[name, k] = h
            n += 1
    c.notes['handle arguments analysed'] = n
    pub = neg = 0
    for (name, k), h in sorted(W.det.items()):
        f = prog[name]
        if not public(f) or name in OPENING or name in HELPERS or name.startswith(('zmessage', 'zerror', 'zcompare_')):
            continue
        if name not in KNOWN_FNS:
            continue
        pub += 1
        for i, why in h:
            c.bad('%s:%s' % (name, i.callee or 'null'), f.where(i), '%s %s' % (name, why))
        c.ok('public operation', '%s argument %d' % (name, k))
    for name in DATA_OPS:
        if name not in prog.fns:
            continue
        f = prog[name]
        for k in handles(f):
            r = W.ret.get((name, k))
            if not W.ev.get((name, k)):
                if r is not None and r != 'never' and r[1] >= 0:
                    c.bad('%s:accepts' % name, f.where(next(iter(f.all()))), '%s may answer %s on a handle that is not open' % (name, r[:2]))
            c.ok('refusal', '%s %s' % (name, r))
    c.need('public operation', 80)
    c.need('refusal', 50)
    return ('Under the hypothesis that the identifying words and the pointers of the handle are zero (what closing leaves, or a handle never opened) a bottom-up path-sensitive analysis shows for every public operation that it neither uses a null pointer of the handle nor does input or output on its descriptor, and that operations on the contents answer with a negative status; closing leaves the identifying words of the handle zero.',
            ['helpers: ' + '; '.join('%s (%s)' % x for x in sorted(HELPERS.items())), 'the handle array is zeroed before its first use, as the documentation requires'])


WIPED = 20                  # words a closed handle is recognised by (zcheckKeys)


def pointer_words(prog):
    """words of the handle that hold memory the handle owns"""
    out = {}
    for f in prog.fns.values():
        for i in f.all():
            if i.op == 'store':
                k = flow.key_of(f.expr(i.ops[1]))
                if k and k[1] == 'zdssKeys':
                    d = f.defn(i.ops[0]) if not isinstance(i.ops[0], tuple) else None
                    if d is not None and d.op == 'ptrtoint':
                        out.setdefault(k[2], (f, i))
            elif i.op == 'call' and i.callee == 'zmemoryGet':
                e = f.expr(f.strip(i.ops[1]))
                k = key_word(e)
                if k:
                    out.setdefault(k, (f, i))
    return out


def key_word(e):
    """name of the handle word an index expression stands for"""
    if isinstance(e, tuple):
        if e[0] == 'key' and e[1] == 'zdssKeys':
            return e[2]
        for x in e:
            r = key_word(x)
            if r:
                return r
    return None


class Release(flow.NullClient):
    """one owned word, nonzero on entry.  State: number of times its memory was freed"""

    def __init__(self, word):
        self.word = word

    def start(self, R):
        return [0]

    def inst(self, R, st, env, i):
        f = R.f
        if i.op == 'load' and i.type != 'ptr' and self.is_word(f.expr(i.ops[0])):
            a = f.expr(i.ops[0])
            had = a in env.mem
            R.exec(env, i)
            if not had:
                env.v[i.id] = (1, flow.BIG, True)
                env.mem[a] = i.id
            return [(st, env)]
        if i.op == 'load' and i.type == 'ptr' and self.is_word(f.expr(i.ops[0])):
            return None
        if i.op == 'call' and i.callee in ('free', 'zstructFree') and self.origin(R, env, i.ops[0]):
            R.exec(env, i)
            return [(min(st + 1, 2), env)]
        if i.op == 'call' and i.callee and (i.callee.startswith(('zmessage', 'zerror')) or i.callee in ('zhandle',)):
            a = word_addr(self.word)
            v = env.mem.get(a)
            R.exec(env, i)
            if v is not None:
                env.mem[a] = v
            return [(st, env)]
        return None

    def is_word(self, a):
        k = flow.key_of(a)
        return k is not None and k[1:3] == ('zdssKeys', self.word) and a[1] == ('arg', 0)

    def origin(self, R, env, p):
        f = R.f
        for _ in range(20):
            p = R.rep(env, p)
            e = f.defn(p) if not isinstance(p, tuple) else None
            if e is None:
                return False
            if e.op in ('getelementptr', 'bitcast', 'inttoptr'):
                p = e.ops[0]
                continue
            return e.op == 'load' and self.is_word(f.expr(e.ops[0]))
        return False


def word_addr(word):
    return ('gep', ('arg', 0), (('[]', 'i64', ('key', 'zdssKeys', word)),))


def closing(c):
    prog, A = c.prog, c.A
    f = c.fn('zmemoryFree')
    words = pointer_words(prog)
    if len(words) < 6:
        raise Broken('only %d handle words that own memory found' % len(words))
    for w, (g, gi) in sorted(words.items()):
        R = flow.Runner(A, f, Release(w), maxenv=6)
        outs = R.run(flow.Env())
        for st, it, t, k in outs:
            if st != 1:
                c.bad('zmemoryFree:%s:freed' % w, f.where(t), 'closing frees the memory of handle word %s %s' % (w, 'more than once' if st else 'not at all'), R.trace(k[0]))
        # the word itself is cleared: its last store on every path is zero
        R = flow.Runner(A, f, Cleared(w), maxenv=6)
        for st, it, t, k in R.run(flow.Env()):
            if st != 'zero':
                c.bad('zmemoryFree:%s:cleared' % w, f.where(t), 'handle word %s keeps the address of freed memory after the file is closed' % w, R.trace(k[0]))
        c.ok('owned memory released', '%s (allocated in %s)' % (w, g.name))
    # the identity of the handle
    f = c.fn('zcloseInternal')
    vals = handle_positions(c)
    last = WIPED - 1
    R = flow.Runner(A, f, Wipe(A, f, last), maxenv=6)
    n = 0
    for st, it, t, k in R.run(flow.Env()):
        if st[0]:
            n += 1
            if not st[1]:
                c.bad('zcloseInternal:wiped', f.where(t), 'after the file is closed the first %d words of the handle still say that it is open' % (last + 1), R.trace(k[0]))
            if not st[2]:
                c.bad('zcloseInternal:memory', f.where(t), 'after the file is closed the memory of the handle is not released', R.trace(k[0]))
    if not n:
        raise Broken('zcloseInternal never closes the file')
    c.ok('identity wiped', 'words 0 to %d' % last)
    return last + 1, {k for k, v in vals.items() if v is not None and v <= last} | set(words)


class Cleared(Release):
    """state: None, or what was stored last into the word; a test that finds it zero counts"""

    def start(self, R):
        return ['kept']

    def inst(self, R, st, env, i):
        f = R.f
        if i.op == 'store' and self.is_word(f.expr(i.ops[1])):
            z = R.itv(env, i.ops[0])[:2] == (0, 0)
            R.exec(env, i)
            return [('zero' if z else 'kept', env)]
        if i.op == 'call' and i.callee in ('free', 'zstructFree'):
            R.exec(env, i)
            return [(st, env)]
        r = Release.inst(self, R, 0, env, i)
        return None if r is None else [(st, e) for _, e in r]


class Wipe(flow.NullClient):
    """state: (descriptor closed, identity words zeroed, memory released)"""

    def __init__(self, A, f, last):
        self.last, self.first = last, {}     # loop header -> its first instruction
        import loops
        for h, body in loops.loops(f).items():
            self.clears(f, h, body, last)

    def start(self, R):
        return [(False, False, False)]

    def inst(self, R, st, env, i):
        f = R.f
        if i.op == 'call' and i.callee in ('closeFile', 'close', 'zmemoryFree'):
            R.exec(env, i)
            return [((st[0] or i.callee != 'zmemoryFree', st[1], st[2] or i.callee == 'zmemoryFree'), env)]
        if i.op == 'call' and (i.callee or '').startswith(('llvm.memset', 'memset')) and f.expr(f.strip(i.ops[0])) == ('arg', 0):
            n = R.itv(env, i.ops[2])
            z = R.itv(env, i.ops[1])[:2] == (0, 0)
            R.exec(env, i)
            return [((st[0], st[1] or (z and n[0] >= 8 * self.last + 8), st[2]), env)]
        if not st[1] and any(i is x for x in self.first.values()):
            R.exec(env, i)
            return [((st[0], True, st[2]), env)]
        return None

    def clears(self, f, h, body, last):
        """for (i = 0; i < N; i++) handle[i] = 0, N > last, and no other way out of the loop"""
        if sum(1 for b in body for x in f.succ[b] if x not in body) != 1:
            return
        stores = [i for b in body for i in f.blocks[b] if i.op == 'store']
        for s in stores:
            a = f.expr(s.ops[1])
            if a[0] != 'gep' or a[1] != ('arg', 0) or not (isinstance(s.ops[0], tuple) and s.ops[0][0] == 'i' and s.ops[0][1] == 0):
                continue
            ph = [i for i in f.blocks[h] if i.op == 'phi']
            for p in ph:
                idx = f.defn(s.ops[1])
                if idx is None or idx.op != 'getelementptr' or not any(f.strip(o) == p.id for o in idx.ops[1:] if not isinstance(o, tuple)):
                    continue
                if self.counts(f, h, body, p, last):
                    # the first instruction after the phis marks the loop
                    self.first[h] = [i for i in f.blocks[h] if i.op != 'phi'][0]

    def counts(self, f, h, body, p, last):
        start = step = bound = False
        for o, _ in p.incoming:
            if isinstance(o, tuple):
                start = start or o[1] == 0
            else:
                d = f.defn(f.strip(o))
                if d is not None and d.op == 'add' and any(isinstance(x, tuple) and x[0] == 'i' and x[1] == 1 for x in d.ops):
                    step = True
        for b in body:
            for i in f.blocks[b]:
                if i.op == 'icmp':
                    for x in i.ops:
                        if isinstance(x, tuple) and x[0] == 'i' and x[1] > last:
                            bound = True
        return start and step and bound


def handle_positions(c):
    """word positions of the handle, as zinit sets them"""
    import c17_layout
    return {k: v for (t, k), v in c17_layout.constants(c)[0].items() if t == 'zdssKeys'}


KNOWN_FNS = set(open(os.path.join(VERIF, 'engine', 'known_functions.txt')).read().split())

if __name__ == '__main__':
    main('C07', body)
