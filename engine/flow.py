"""Path-sensitive dataflow over the SSA program (property simulation).

The abstract state of a path is (client state, environment).  The environment
maps SSA values to integer intervals (plus a "not zero" flag) and canonical
memory addresses to the SSA value last loaded from / stored there.  At a block
at most MAXENV environments are kept per client state; beyond that they are
joined.  Branch conditions refine the environment on both edges, contradictory
edges are not followed.  No solver, no execution: a lattice fixpoint.
"""
from collections import defaultdict, deque
from ir import CASTS, BIN, key_of

BIG = 1 << 62
I32 = (-(1 << 31), (1 << 31) - 1, False)
FULL = (-BIG, BIG, False)
# status classes of this code base (see zisError): severe error, notice/warning code, raw negative, not found, ok, positive
CLASSES = [(-(1 << 31) + 1, -300000000, True), (-299999999, -10, True), (-9, -2, True), (-1, -1, True), (0, 0, False), (1, (1 << 31) - 1, True)]
CLASSNAMES = ['error', 'notice', 'rawneg', 'notfound', 'ok', 'positive']
ERR = CLASSES[0]


def mk(lo, hi, nz=False):
    if lo == 0 and nz:
        lo = 1
    if hi == 0 and nz:
        hi = -1
    if lo > 0 or hi < 0:
        nz = True
    if lo > hi:
        return None
    return (lo, hi, nz)


def join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]), a[2] and b[2])


def meet(a, b):
    return mk(max(a[0], b[0]), min(a[1], b[1]), a[2] or b[2])


def leq(a, b):
    return a[0] >= b[0] and a[1] <= b[1] and (a[2] or not b[2])


def width(t):
    if t.startswith('i') and t[1:].isdigit():
        return int(t[1:])
    return 64


def trange(t):
    w = width(t)
    if t == 'i1':
        return (0, 1, False)
    if t == 'ptr':
        return (0, BIG, False)
    if w <= 32:
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1, False)
    return FULL


LAZY = CASTS | BIN | {'icmp', 'select', 'getelementptr', 'sitofp', 'fptosi'}

PURE_EXT = {'strlen', 'strcmp', 'strncmp', 'abs', 'labs', 'toupper', 'tolower', 'isdigit', 'isspace', 'isalpha', 'atoi', 'atof', 'atol',
            'strchr', 'strstr', 'strrchr', 'memcmp', 'fabs', 'pow', 'floor', 'ceil', 'sqrt', 'log', 'log10', 'exp', '__errno_location', 'usleep', 'free',
            'printf', 'malloc', 'calloc', 'getenv', 'time', '__ctype_b_loc', '__ctype_toupper_loc', 'strcasecmp', 'strncasecmp', 'fflush', 'puts', 'putchar', 'getpid', 'clock', 'round', 'fmod', 'close', 'fclose'}

READONLY_EXT = {'strlen', 'strcmp', 'strncmp', 'atoi', 'atof', 'atol', 'strcasecmp', 'strncasecmp', 'memcmp', 'free', 'printf', 'fprintf', 'puts', 'access', 'stat', 'unlink', 'remove',
                'write', 'close', 'fwrite', 'fputs', 'open', 'open64', 'fopen', 'fopen64', 'rename'}


class Env:
    __slots__ = ('v', 'al', 'mem', 'c', 'ne', 'fz')

    def __init__(self, v=None, al=None, mem=None, ne=frozenset(), fz=frozenset()):
        self.c = {}
        self.fz = fz          # values computed from operands that were redefined since: interval only
        self.ne = ne          # pairs of values known to differ
        self.v = v if v is not None else {}
        self.al = al if al is not None else {}
        self.mem = mem if mem is not None else {}

    def copy(self):
        return Env(dict(self.v), dict(self.al), dict(self.mem), self.ne, self.fz)


class Analysis:
    """Shared per-program facts: constants of never-written globals, mod sets, return intervals, predicate tables."""

    def __init__(self, prog):
        self.prog = prog
        self._const = {}
        self._ret = {}
        self._pred = {}
        self._live = {}
        self._argw = None
        self._mods()
        self._never_written()

    # ---- globals that are never stored to: their initialiser is their value
    def _never_written(self):
        written, escapes = set(), set()

        def root(f, v):
            e = f.expr(v)
            while e[0] in ('gep',):
                e = e[1]
            return e[1] if e[0] == 'g' else None
        for f in self.prog.fns.values():
            for i in f.all():
                if i.op == 'store':
                    r = root(f, i.ops[1])
                    if r:
                        written.add(r)
                    r = root(f, i.ops[0])
                    if r:
                        escapes.add(r)
                elif i.op == 'call':
                    for o in i.ops:
                        r = root(f, o)
                        if r:
                            escapes.add(r)
        self.written = written
        self.constglobals = {g for g, d in self.prog.globals.items() if 'init' in d and not d['decl'] and (d['const'] or (g not in written and g not in escapes and d['local']))}

    def const_load(self, a):
        """Value of a load from a never-written global at canonical address a (int or None)."""
        if a in self._const:
            return self._const[a]
        r = None
        g, steps = None, ()
        if a[0] == 'g':
            g = a[1]
        elif a[0] == 'gep' and a[1][0] == 'g':
            g, steps = a[1][1], a[2]
        if g in self.constglobals:
            d = self.prog.globals[g]
            init, ty = d['init'], d['type']
            ok = True
            for s in steps:
                if init[0] == 'z':
                    break
                if init[0] != 'a':
                    ok = False
                    break
                if s[0] == '.':
                    t = self.prog.types.get(ty)
                    k = next((k for k, fl in enumerate(t['fields']) if fl[0] == s[2]), None) if t else None
                    if k is None:
                        ok = False
                        break
                    ty = t['fields'][k][2]
                else:
                    if s[2][0] != 'c':
                        ok = False
                        break
                    k = s[2][1]
                if not 0 <= k < len(init[1]):
                    ok = False
                    break
                init = init[1][k]
            if ok:
                while init[0] == 'a' and init[1]:
                    init = init[1][0]
                if init[0] == 'i':
                    r = init[1]
                elif init[0] in ('z', 'n'):
                    r = 0
        self._const[a] = r
        return r

    # ---- which memory classes a function may write
    @staticmethod
    def aclass(a):
        if a[0] == 'gep':
            s = a[2][-1]
            if s[0] == '.':
                return ('.', s[1], s[2])
            k = key_of(a)
            if k:
                return ('key', k[1], k[2])
            return ('[]', s[1])
        if a[0] == 'g':
            return ('g', a[1])
        if a[0] == 'alloca':
            return a
        return ('*',)

    def _mods(self):
        mod = {}
        callees = {}
        for f in self.prog.fns.values():
            m = set()
            cs = set()
            for i in f.all():
                if i.op == 'store':
                    a = f.expr(i.ops[1])
                    r = a
                    while r[0] == 'gep':
                        r = r[1]
                    if r[0] == 'alloca':
                        continue
                    m.add(self.aclass(a))
                elif i.op == 'call':
                    if i.callee is None:
                        m.add(('?',))
                    elif i.callee in self.prog.fns:
                        cs.add(i.callee)
                    elif i.callee.startswith('llvm.mem') or not pure_ext(i.callee):
                        m.add(('ext',))
            mod[f.name] = m
            callees[f.name] = cs
        ch = True
        while ch:
            ch = False
            for n in mod:
                for c in callees[n]:
                    if not mod[c] <= mod[n]:
                        mod[n] |= mod[c]
                        ch = True
        self.mod = mod

    # ---- which pointer arguments a function may write through or keep
    def argw(self, name):
        if self._argw is None:
            self._argw = w = {f.name: set() for f in self.prog.fns.values()}
            fl = {f.name: self._argflow(f) for f in self.prog.fns.values()}
            ch = True
            while ch:
                ch = False
                for n, (direct, passed) in fl.items():
                    new = set(direct)
                    if n == 'zwriteDisk':
                        passed = {x for x in passed if x[1] != 'zswap'}     # swapped there only for files of other byte order

                    for a, c, k in passed:
                        if k in w[c]:
                            new.add(a)
                    if not new <= w[n]:
                        w[n] |= new
                        ch = True
        return self._argw[name]

    def _argflow(self, f):
        direct, passed = set(), set()
        users = defaultdict(list)
        for i in f.all():
            for o in f.operands(i):
                if isinstance(o, int):
                    users[o].append(i)
        for a in range(len(f.args)):
            seen, work = {a}, [a]
            while work:
                v = work.pop()
                for i in users[v]:
                    if i.op in ('getelementptr', 'gep', 'bitcast', 'phi', 'select', 'freeze'):
                        if i.id not in seen:
                            seen.add(i.id)
                            work.append(i.id)
                    elif i.op in ('load', 'icmp', 'br', 'switch'):
                        pass
                    elif i.op in ('sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'sdiv', 'srem', 'sitofp', 'fcmp', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'udiv', 'urem', 'fpext', 'fptrunc', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fptosi'):
                        pass
                    elif i.op == 'call':
                        for k, o in enumerate(i.ops):
                            if o != v:
                                continue
                            if i.callee in self.prog.fns:
                                passed.add((a, i.callee, k))
                            elif i.callee is not None and (i.callee in READONLY_EXT or i.callee.startswith('llvm.mem') and k > 0 and i.callee.startswith(('llvm.memcpy', 'llvm.memmove')) or i.callee in ('memcpy', 'memmove') and k > 0):
                                pass
                            else:
                                direct.add(a)
                    else:
                        direct.add(a)
        return direct, passed

    # ---- liveness (closed under lazily evaluated operands)
    def live(self, f):
        if f.name in self._live:
            return self._live[f.name]
        n = len(f.blocks)
        gen = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]

        def need(v, acc):
            st = [v]
            while st:
                x = st.pop()
                if not isinstance(x, int) or x in acc:
                    continue
                acc.add(x)
                d = f.defn(x)
                if d is not None and (d.op in LAZY or d.op == 'load' or d.op == 'call'):
                    st.extend(d.ops)
        for bi, b in enumerate(f.blocks):
            for i in b:
                if i.op == 'phi':
                    kill[bi].add(i.id)
                    continue
                acc = set()
                for o in f.operands(i):
                    need(o, acc)
                gen[bi] |= acc
            for s in f.succ[bi]:
                for i in f.blocks[s]:
                    if i.op != 'phi':
                        break
                    for v, p in i.incoming:
                        if p == bi:
                            acc = set()
                            need(v, acc)
                            gen[bi] |= acc
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                s = set(gen[bi])
                for t in f.succ[bi]:
                    s |= livein[t]
                s -= kill[bi] if not gen[bi] & kill[bi] else set()
                if s != livein[bi]:
                    livein[bi] = s
                    ch = True
        out = []
        for bi in range(n):
            s = set()
            for t in f.succ[bi]:
                s |= livein[t]
            s |= {i.id for t in f.succ[bi] for i in f.blocks[t] if i.op == 'phi'}
            out.append(s)
        self._live[f.name] = (livein, out)
        return self._live[f.name]

    # ---- return interval of a function (context-insensitive), and by argument class
    def ret_itv(self, name, args=None, depth=0):
        f = self.prog.fns.get(name)
        if f is None or f.ret == 'void':
            return FULL
        key = (name, args)
        if key in self._ret:
            return self._ret[key]
        dflt = trange(f.ret)
        self._ret[key] = dflt
        if depth > 12 or len(f.insts) > 4000:
            return dflt
        r = Runner(self, f, NullClient(), depth=depth + 1, maxenv=8 if len(f.insts) < 80 else 3)
        env = Env()
        if args:
            for k, it in enumerate(args):
                if it is not None:
                    env.v[k] = it
        outs = r.run(env)
        res = None
        for _, it, _, _ in outs:
            if it is not None:
                res = it if res is None else join(res, it)
        if res is None:
            res = dflt
        w = trange(f.ret)
        res = meet(res, w) or w
        self._ret[key] = res
        return res

    def call_itv(self, R, env, i):
        f = self.prog.fns[i.callee]
        m = MODELS.get(i.callee)
        if m:
            return m(self, R, env, i)
        if R.depth >= 8 or f.ret == 'void':
            return None
        if len(f.insts) < 150 and not f.vararg and f.ret.startswith('i') and i.type.startswith('i'):
            args = []
            for k, o in enumerate(i.ops):
                t = f.args[k][1] if k < len(f.args) else 'ptr'
                if t in ('i32', 'i64'):
                    x = R.itv(env, o)
                    args.append(x if x != trange(t) else None)
                else:
                    args.append(None)
            if any(a is not None for a in args):
                return self.ret_itv(i.callee, tuple(args), R.depth)
        return self.ret_itv(i.callee, None, R.depth)

    def predicate(self, name):
        """For a side-effect free int->int function: list of (argclass, result interval); else None."""
        if name in self._pred:
            return self._pred[name]
        f = self.prog.fns.get(name)
        r = None
        if f is not None and f.ret == 'i32' and len(f.args) == 1 and f.args[0][1] == 'i32' and len(f.insts) < 400:
            self._pred[name] = None
            if not [m for m in self.mod[name] if m[0] not in ('*',)]:
                r = [(c, self.ret_itv(name, (c,))) for c in CLASSES]
                if all(x[1] == r[0][1] for x in r):
                    r = None
        self._pred[name] = r
        return r


def pure_ext(n):
    return n in PURE_EXT or n.startswith(('llvm.abs.', 'llvm.fabs.', 'llvm.smin.', 'llvm.smax.', 'llvm.umin.', 'llvm.umax.'))


def isabs(i):
    return i.op == 'call' and bool(i.callee) and (i.callee in ('abs', 'labs', 'llabs') or i.callee.startswith('llvm.abs'))


def model_error_processing(A, R, env, i):
    """zerrorProcessing: the negative code zerrorEncode builds from its arguments.

    (Its version 6 branch hands back the caller's status; for a version 7 file
    it is not taken.  The shape of the function is itself checked, see C05.)"""
    x = [R.itv(env, o) for o in i.ops]
    r = A.ret_itv('zerrorEncode', (x[5], (0, 0, False), x[1] if x[1][0] == x[1][1] else (1, 99, True), x[2] if x[2][0] == x[2][1] else (1, 99, True), None), R.depth)
    r = meet(r, (-(1 << 31) + 1, -100000000, True)) or (-(1 << 31) + 1, -100000000, True)
    if x[5][0] >= 1:
        # code = -(sev*1e8 + low*1e4 + err*100 + status), all fields within their digits
        r = meet(r, (-(x[5][1] + 1) * 100000000 if x[5][1] <= 20 else -(1 << 31) + 1, -x[5][0] * 100000000, True)) or r
    return r


# results of C library calls (POSIX)
EXT_RET = {n: (-1, 0, False) for n in ('lockf', 'lockf64', 'close', 'fsync', 'fdatasync', 'ftruncate', 'unlink', 'remove', 'rename', 'access', 'stat', 'fstat', 'chmod', 'fclose')}
EXT_RET.update({n: (-1, (1 << 31) - 1, False) for n in ('open', 'open64', 'creat')})
EXT_RET.update({n: (-1, BIG, False) for n in ('read', 'write', 'lseek', 'lseek64')})
EXT_RET.update({n: (0, BIG, False) for n in ('strlen', 'strnlen')})


MODELS = {'zerrorProcessing': model_error_processing}


class NullClient:
    track_mem = True

    def start(self, R):
        return [()]

    def inst(self, R, st, env, i):
        """Return None (unchanged) or a list of (state, env)."""
        return None

    def edge(self, R, st, env, i, succ):
        return st

    def call_result(self, R, st, env, i):
        return None


class Runner:
    def __init__(self, A, f, client, depth=0, maxenv=6):
        self.A = A
        self.f = f
        self.prog = A.prog
        self.client = client
        self.depth = depth
        self.maxenv = maxenv
        self.parent = {}
        self.esc = None
        self.ment = {}

    # ---------- values
    def itv(self, env, v, d=0):
        if not isinstance(v, tuple):
            r = env.c.get(v)
            if r is None:
                r = self._itv(env, v, d)
                env.c[v] = r
            return r
        return self._itv(env, v, d)

    def _itv(self, env, v, d=0):
        f = self.f
        if isinstance(v, tuple):
            k = v[0]
            if k == 'i':
                if v[2] == 1:
                    b = 1 if v[1] else 0
                    return (b, b, bool(b))
                return (v[1], v[1], v[1] != 0)
            if k == 'n':
                return (0, 0, False)
            if k == 'r':
                return v[1:]
            if k == 'g':
                return (1, BIG, True)
            if k == 'e' and v[1] == 'getelementptr':
                return (1, BIG, True)
            if k == 'e' and v[1] in CASTS:
                return self.itv(env, v[3][0], d + 1)
            return FULL
        while v in env.al:
            v = env.al[v]
        if isinstance(v, tuple):
            return self.itv(env, v, d + 1)
        if v in env.v:
            base = env.v[v]
        else:
            base = None
        i = f.defn(v)
        if i is None:
            return base or trange(f.args[v][1])
        if i.op in LAZY and d < 30 and v not in env.fz:
            x = self.lazy(env, i, d)
            if base is None:
                return x
            m = meet(base, x)
            return m if m is not None else base
        if base is not None:
            return base
        if i.op == 'alloca':
            return (1, BIG, True)
        if i.op == 'load':
            k = self.A.const_load(f.expr(i.ops[0]))
            if k is not None:
                return (k, k, k != 0)
        return trange(i.type)

    def fpitv(self, env, v, d):
        """interval of a floating point value computed from integers and constants, or None"""
        if isinstance(v, tuple):
            try:
                return (float(v[1]),) * 2 if v[0] == 'f' else None
            except ValueError:
                return None
        i = self.f.defn(v)
        if i is None or d > 30 or v in env.fz:
            return None
        if i.op == 'sitofp':
            x = self.itv(env, i.ops[0], d + 1)
            return (float(x[0]), float(x[1])) if x[0] > -(1 << 53) and x[1] < (1 << 53) else None
        if i.op in ('fmul', 'fadd', 'fsub'):
            a, b = self.fpitv(env, i.ops[0], d + 1), self.fpitv(env, i.ops[1], d + 1)
            if a is None or b is None:
                return None
            if i.op == 'fmul':
                c = [x * y for x in a for y in b]
                return min(c), max(c)
            return (a[0] + b[0], a[1] + b[1]) if i.op == 'fadd' else (a[0] - b[1], a[1] - b[0])
        return None

    def lazy(self, env, i, d):
        op = i.op
        if op == 'fptosi':
            x = self.fpitv(env, i.ops[0], d)
            r = trange(i.type)
            if x and x[0] == x[0] and abs(x[0]) < 2e9 and abs(x[1]) < 2e9:
                return mk(int(x[0]), int(x[1])) or r
            return r
        if op == 'sitofp':
            return FULL
        if op == 'getelementptr':
            b = self.itv(env, i.ops[0], d + 1)
            return (1, BIG, True) if b[2] and b[0] >= 0 else (0, BIG, False)
        if op == 'zext':
            x = self.itv(env, i.ops[0], d + 1)
            w = self.opw(i.ops[0])
            if x[0] < 0:
                return (0, (1 << w) - 1 if w < 62 else BIG, x[2])
            return x
        if op in ('sext', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            x = self.itv(env, i.ops[0], d + 1)
            if op == 'sext' and self.opw(i.ops[0]) == 1:
                return (-x[1], -x[0], x[2])
            return x
        if op == 'trunc':
            x = self.itv(env, i.ops[0], d + 1)
            r = trange(i.type)
            if i.type == 'i1':
                if x[0] >= 0 and x[1] <= 1:
                    return x
                return r
            if x[0] >= r[0] and x[1] <= r[1]:
                return x
            return r
        if op == 'icmp':
            t = self.cmp(env, i.pred, i.ops[0], i.ops[1], d)
            return (0, 1, False) if t is None else ((1, 1, True) if t else (0, 0, False))
        if op == 'select':
            c = self.itv(env, i.ops[0], d + 1)
            if c[2]:
                return self.itv(env, i.ops[1], d + 1)
            if c[1] == 0 and c[0] == 0:
                return self.itv(env, i.ops[2], d + 1)
            return join(self.itv(env, i.ops[1], d + 1), self.itv(env, i.ops[2], d + 1))
        a = self.itv(env, i.ops[0], d + 1)
        b = self.itv(env, i.ops[1], d + 1)
        tr = trange(i.type)
        r = tr
        if a[0] == a[1] and b[0] == b[1] and op in ('and', 'or', 'xor') and a[0] >= 0 and b[0] >= 0:
            k = a[0] & b[0] if op == 'and' else (a[0] | b[0] if op == 'or' else a[0] ^ b[0])
            return (k, k, k != 0)
        if op == 'add':
            r = (a[0] + b[0], a[1] + b[1], False)
        elif op == 'sub':
            r = (a[0] - b[1], a[1] - b[0], False)
        elif op == 'mul':
            c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
            r = (min(c), max(c), a[2] and b[2])
        elif op == 'sdiv' and b[0] == b[1] and b[0] != 0:
            def q(x, y):
                s = abs(x) // abs(y)
                return s if (x < 0) == (y < 0) else -s
            c = [q(a[0], b[0]), q(a[1], b[0])]
            r = (min(c), max(c), False)
        elif op == 'srem' and b[0] == b[1] and b[0] > 0:
            if a[0] >= 0 and a[1] < b[0]:
                r = a
            else:
                r = (0 if a[0] >= 0 else max(a[0], -(b[0] - 1)), 0 if a[1] <= 0 else b[0] - 1, False)
        elif op == 'and' and b[0] == b[1] and b[0] >= 0:
            r = (0, b[0], False)
        elif op == 'and' and i.type == 'i1':
            r = (min(a[0], b[0]), min(a[1], b[1]), False)
        elif op == 'or' and i.type == 'i1':
            r = (max(a[0], b[0]), max(a[1], b[1]), False)
        elif op == 'or' and a[0] >= 0 and b[0] >= 0:
            r = (max(a[0], b[0]), BIG, a[2] or b[2])
        elif op == 'xor' and i.type == 'i1' and b == (1, 1, True):
            r = (1 - a[1], 1 - a[0], False)
        elif op == 'shl' and b[0] == b[1] and 0 <= b[0] < 32:
            r = (a[0] << b[0], a[1] << b[0], False)
        if r[0] < tr[0] or r[1] > tr[1]:
            if op in ('add', 'sub', 'mul') and i.type == 'i32':
                return meet(r, tr) or tr
            return tr
        return mk(*r) or tr

    def opw(self, v):
        if isinstance(v, tuple):
            return v[2] if v[0] == 'i' else 64
        if v < len(self.f.args):
            return width(self.f.args[v][1])
        return width(self.f.insts[v].type)

    def rep(self, env, v):
        while not isinstance(v, tuple) and v in env.al:
            v = env.al[v]
        return v

    def cmp(self, env, pred, a, b, d=0):
        ra, rb = self.rep(env, self.f.strip(a)), self.rep(env, self.f.strip(b))
        same = ra == rb and not isinstance(ra, tuple)
        if same:
            if pred in ('eq', 'sle', 'sge', 'ule', 'uge'):
                return True
            if pred in ('ne', 'slt', 'sgt', 'ult', 'ugt'):
                return False
        if env.ne and pred in ('eq', 'ne'):
            if frozenset((ra, rb)) in env.ne:
                return pred == 'ne'
            for p, q, v in ((ra, rb, a), (rb, ra, b)):
                if isinstance(q, tuple) and q[0] == 'i' and isinstance(p, int) and frozenset((p, q[:2])) in env.ne and self.opw(p) <= self.opw(v):
                    return pred == 'ne'
        x, y = self.itv(env, a, d + 1), self.itv(env, b, d + 1)
        if pred in ('eq', 'ne'):
            m = meet(x, y)
            if m is None:
                return pred == 'ne'
            if x[0] == x[1] == y[0] == y[1]:
                return pred == 'eq'
            return None
        if pred[0] == 'u' and (x[0] < 0 or y[0] < 0):
            return None
        p = pred[1:]
        if p == 'lt':
            return True if x[1] < y[0] else (False if x[0] >= y[1] else None)
        if p == 'le':
            return True if x[1] <= y[0] else (False if x[0] > y[1] else None)
        if p == 'gt':
            return True if x[0] > y[1] else (False if x[1] <= y[0] else None)
        if p == 'ge':
            return True if x[0] >= y[1] else (False if x[1] < y[0] else None)
        return None

    # ---------- refinement (in place); False = contradiction
    def refine(self, env, v, it, d=0):
        if it is None:
            return False
        v = self.rep(env, v)
        if isinstance(v, tuple):
            return meet(self.itv(env, v), it) is not None
        cur = self.itv(env, v)
        m = meet(cur, it)
        if m is None:
            return False
        if m == cur and d > 0:
            return True
        env.v[v] = m
        env.c.clear()
        i = self.f.defn(v)
        if i is None or d > 12 or v in env.fz:
            return True
        if i.op in ('sext', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            if self.opw(i.ops[0]) == 1:
                return self.refine(env, i.ops[0], mk(min(abs(m[0]), abs(m[1])) if m[2] or m == (0, 0, False) else 0, 1 if m[0] != 0 or m[1] != 0 else 0, m[2]), d + 1)
            return self.refine(env, i.ops[0], m, d + 1)
        if i.op == 'zext':
            if m[0] >= 0:
                x = self.itv(env, i.ops[0])
                if x[0] >= 0 or m[1] < (1 << (self.opw(i.ops[0]) - 1)) or (m[0] == m[1] == 0):
                    return self.refine(env, i.ops[0], m, d + 1)
                if m[2]:
                    return self.refine(env, i.ops[0], (-BIG, BIG, True), d + 1)
            return True
        if i.op == 'trunc':
            x = self.itv(env, i.ops[0])
            r = trange(i.type)
            if x[0] >= r[0] and x[1] <= r[1]:
                return self.refine(env, i.ops[0], m, d + 1)
            if m[2]:
                return self.refine(env, i.ops[0], (-BIG, BIG, True), d + 1)
            return True
        if i.op == 'icmp':
            if m[0] == m[1]:
                return self.assume_cmp(env, i, m[0] != 0, d + 1)
            return True
        if i.op == 'xor' and i.type == 'i1' and i.ops[1][0:1] == ('i',):
            return self.refine(env, i.ops[0], (1 - m[1], 1 - m[0], (1 - m[1]) > 0), d + 1)
        if i.op == 'and' and i.type == 'i1' and m[0] == 1:
            return self.refine(env, i.ops[0], m, d + 1) and self.refine(env, i.ops[1], m, d + 1)
        if i.op == 'or' and i.type == 'i1' and m[1] == 0:
            return self.refine(env, i.ops[0], m, d + 1) and self.refine(env, i.ops[1], m, d + 1)
        if i.op == 'add' and isinstance(i.ops[1], tuple) and i.ops[1][0] == 'i':
            k = i.ops[1][1]
            return self.refine(env, i.ops[0], (max(m[0] - k, -BIG), min(m[1] - k, BIG), False), d + 1)
        if i.op == 'sub' and isinstance(i.ops[1], tuple) and i.ops[1][0] == 'i':
            k = i.ops[1][1]
            return self.refine(env, i.ops[0], (max(m[0] + k, -BIG), min(m[1] + k, BIG), False), d + 1)
        if i.op == 'sub' and i.ops[0] == ('i', 0, 32):
            return self.refine(env, i.ops[1], (-m[1], -m[0], m[2]), d + 1)
        if i.op == 'call' and i.callee:
            p = self.A.predicate(i.callee)
            if p:
                h = None
                cur = self.itv(env, i.ops[0])
                for c, r in p:
                    cc = meet(c, cur)
                    if cc is None or meet(r, m) is None:
                        continue
                    h = cc if h is None else join(h, cc)
                if h is None:
                    return False
                return self.refine(env, i.ops[0], h, d + 1)
        if isabs(i):
            x = self.itv(env, i.ops[0])
            if x[0] >= 0:
                return self.refine(env, i.ops[0], m, d + 1)
            if x[1] <= 0 or m[0] > x[1]:
                return self.refine(env, i.ops[0], (-m[1], -m[0], m[2]), d + 1)
            return self.refine(env, i.ops[0], (-m[1], m[1], m[2]), d + 1)
        if i.op == 'load':
            return True
        return True

    def assume_cmp(self, env, i, truth, d=0):
        pred, a, b = i.pred, i.ops[0], i.ops[1]
        t = self.cmp(env, pred, a, b)
        if t is not None:
            if t != truth:
                return False
        neg = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
        if not truth:
            pred = neg[pred]
        x, y = self.itv(env, a), self.itv(env, b)
        if pred == 'eq':
            m = meet(x, y)
            return self.refine(env, a, m, d + 1) and self.refine(env, b, m, d + 1)
        if pred == 'ne':
            ok = True
            for u, w, uw in ((a, y, x), (b, x, y)):
                if w[0] == w[1]:
                    k = w[0]
                    if k == 0:
                        ok = ok and self.refine(env, u, (-BIG, BIG, True), d + 1)
                    elif uw[0] == k:
                        ok = ok and self.refine(env, u, (k + 1, BIG, False), d + 1)
                    elif uw[1] == k:
                        ok = ok and self.refine(env, u, (-BIG, k - 1, False), d + 1)
                    elif uw[0] < k < uw[1]:
                        self.differs(env, u, k)
            return ok
        if pred[0] == 'u':
            if x[0] < 0 or y[0] < 0:
                if y[0] == y[1] and y[0] >= 0 and pred in ('ult', 'ule'):
                    return self.refine(env, a, (0, y[1], False), d + 1)
                return True
        p = pred[1:]
        if p == 'lt':
            return self.refine(env, a, (-BIG, y[1] - 1, False), d + 1) and self.refine(env, b, (x[0] + 1, BIG, False), d + 1)
        if p == 'le':
            return self.refine(env, a, (-BIG, y[1], False), d + 1) and self.refine(env, b, (x[0], BIG, False), d + 1)
        if p == 'gt':
            return self.refine(env, a, (y[0] + 1, BIG, False), d + 1) and self.refine(env, b, (-BIG, x[1] - 1, False), d + 1)
        if p == 'ge':
            return self.refine(env, a, (y[0], BIG, False), d + 1) and self.refine(env, b, (-BIG, x[1], False), d + 1)
        return True

    def differs(self, env, v, k):
        """v is known not to be the constant k, which lies inside its interval"""
        r = self.rep(env, self.f.strip(v))
        if isinstance(r, int) and r not in env.fz and self.opw(r) <= self.opw(v):
            env.v[r] = self.itv(env, r)
            env.ne = env.ne | {frozenset((r, ('i', k)))}

    def apart(self, env, p):
        """the intervals alone tell the pair of a value and a constant apart"""
        c = [x for x in p if isinstance(x, tuple)]
        if not c:
            return False
        for x in p:
            if not isinstance(x, tuple) and meet(self.itv(env, x), (c[0][1], c[0][1], c[0][1] != 0)) is None:
                return True
        return False

    # ---------- memory
    def kill_class(self, env, classes):
        if not env.mem:
            return
        anyext = any(c[0] in ('ext', '?') for c in classes)
        star = ('*',) in classes
        dead = []
        for a in env.mem:
            c = self.A.aclass(a)
            if c[0] == 'alloca' or self.local_root(a):
                continue
            if c in classes or (star and c[0] == '*') or (anyext and c[0] in ('[]', '*')) or self.sub_hit(a, classes):
                dead.append(a)
        for a in dead:
            del env.mem[a]

    def sub_hit(self, a, classes):
        """a's address itself depends on a load of a killed class"""
        if not isinstance(a, tuple) or not a:
            return False
        if a[0] == 'ld' and self.A.aclass(a[1]) in classes:
            return True
        for x in a[1:]:
            if isinstance(x, tuple) and self.sub_hit(x, classes):
                return True
        return False

    def local_root(self, a):
        r = a
        while r[0] == 'gep':
            r = r[1]
        return r[0] == 'alloca' and r[1] not in self.escaped()

    def escaped(self):
        """allocas whose address is stored somewhere (so calls may write them at any time)"""
        if self.esc is None:
            s = set()
            for i in self.f.all():
                if i.op == 'store':
                    e = self.f.expr(i.ops[0])
                    while e[0] == 'gep':
                        e = e[1]
                    if e[0] == 'alloca':
                        s.add(e[1])
            self.esc = s
        return self.esc

    def mentions(self, a, kind_id):
        m = self.ment.get(a)
        if m is None:
            acc = set()

            def go(x):
                if len(x) >= 2 and x[0] in ('phi', 'call', 'val') and isinstance(x[-1], int):
                    acc.add(x[-1])
                for y in x:
                    if isinstance(y, tuple) and y:
                        go(y)
            go(a)
            m = self.ment[a] = frozenset(acc)
        return kind_id in m

    def do_load(self, env, i):
        a = self.f.expr(i.ops[0])
        env.al.pop(i.id, None)
        env.v.pop(i.id, None)
        k = self.A.const_load(a)
        if k is not None:
            env.v[i.id] = (k, k, k != 0)
            return
        if a in env.mem:
            v = env.mem[a]
            r = self.rep(env, v)
            if isinstance(r, tuple) and r[0] == 'r':
                env.v[i.id] = meet(r[1:], trange(i.type)) or r[1:]
            elif r != i.id:
                env.al[i.id] = r
                return
        env.mem[a] = i.id

    def do_store(self, env, i):
        a = self.f.expr(i.ops[1])
        c = self.A.aclass(a)
        dead = []
        for k in env.mem:
            if k == a:
                continue
            ck = self.A.aclass(k)
            if ck == c and c[0] not in ('alloca', 'g') or self.sub_hit(k, {c}):
                # different indices of one alloca array
                if ck == c and ck[0] == 'key' and key_of(k)[0] != key_of(a)[0]:
                    dead.append(k)
                else:
                    dead.append(k)
        for k in dead:
            del env.mem[k]
        env.mem[a] = self.rep(env, i.ops[0])

    def do_call_mem(self, env, i):
        c = i.callee
        if c is not None and c in self.prog.fns:
            m = self.A.mod[c]
            self.kill_class(env, m)
        elif c is not None and (pure_ext(c) or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime')):
            return
        else:
            self.kill_class(env, {('ext',)})
        if env.mem:
            roots = set()
            ws = self.A.argw(c) if c in self.prog.fns else None
            for k, o in enumerate(i.ops):
                if ws is not None and k not in ws and k < len(self.prog.fns[c].args):
                    continue
                e = self.f.expr(o)
                while e[0] == 'gep':
                    e = e[1]
                if e[0] == 'alloca':
                    roots.add(e)
            if roots:
                dead = []
                for a in env.mem:
                    r = a
                    while r[0] == 'gep':
                        r = r[1]
                    if r in roots:
                        dead.append(a)
                for a in dead:
                    del env.mem[a]

    def deps(self):
        """root value (phi, load, call) -> lazily evaluated values computed from it"""
        f = self.f
        d = f.__dict__.get('_deps')
        if d is None:
            d = defaultdict(set)
            for i in f.all():
                if i.op in LAZY:
                    seen, work = set(), list(f.operands(i))
                    while work:
                        o = work.pop()
                        if not isinstance(o, int) or o in seen:
                            continue
                        seen.add(o)
                        k = f.defn(o)
                        if k is None:
                            continue
                        if k.op in LAZY:
                            work.extend(f.operands(k))
                        else:
                            d[o].add(i.id)
            f._deps = d
        return d

    def freeze(self, env, y, it):
        if y not in env.fz:
            env.v[y] = it
            env.fz = env.fz | {y}
            if env.ne:
                env.ne = frozenset(p for p in env.ne if y not in p)

    def def_kill(self, env, i):
        """value i is (re)defined: forget aliases and addresses built on the old value"""
        x = i.id
        dep = self.deps().get(x)
        if dep:
            held = {w for w in env.al.values() if w in dep}
            held.update(w for w in env.mem.values() if w in dep)
            for y in held:
                self.freeze(env, y, self.itv(env, y))
        if env.ne:
            env.ne = frozenset(p for p in env.ne if x not in p)
        env.c.clear()
        env.v.pop(x, None)
        env.al.pop(x, None)
        for k in [k for k, w in env.al.items() if w == x]:
            del env.al[k]
        for a in [a for a, w in env.mem.items() if w == x or self.mentions(a, x)]:
            del env.mem[a]

    # ---------- driver
    def run(self, env0=None, limit=400000):
        f = self.f
        cl = self.client
        livein, liveout = self.A.live(f)
        table = defaultdict(list)     # (pred, block, state) -> [env]
        visits = defaultdict(int)
        work = deque()
        order = {b: k for k, b in enumerate(f.rpo())}
        outs = []
        import heapq, itertools
        cnt = itertools.count()
        heap = []
        inq = {}

        hasphi = [bool(b) and b[0].op == 'phi' for b in f.blocks]

        def push(pred, blk, st, env, par):
            lv = livein[blk]
            v, al = {}, {}
            if hasphi[blk]:
                ph = []
                for i in f.blocks[blk]:
                    if i.op != 'phi':
                        break
                    for x, p in i.incoming:
                        if p == pred:
                            ph.append((i, self.rep(env, x), self.itv(env, x)))
                            break
                ids = {i.id for i, _, _ in ph}
                for i, r, it in ph:
                    self.def_kill(env, i)
                env.c.clear()
                for i, r, it in ph:
                    if isinstance(r, int) and r not in ids and r not in env.fz and any(r in self.deps().get(p, ()) for p in ids):
                        self.freeze(env, r, it)
                for i, r, it in ph:
                    env.v[i.id] = it
                    if isinstance(r, int) and r not in ids:
                        env.al[i.id] = r
                        env.v[r] = it
                    elif isinstance(r, tuple):
                        pass
                    v[i.id] = it
            for k, w in env.al.items():
                if k in lv or k in v:
                    al[k] = w
            mem = env.mem
            reps = set(al.values())
            reps.update(x for x in mem.values() if isinstance(x, int))
            for k, w in env.v.items():
                if k in lv or k in reps:
                    v[k] = w
            ne = env.ne
            if ne:
                ne = frozenset(p for p in ne if all(isinstance(x, tuple) or x in v for x in p) or not any(isinstance(x, tuple) for x in p))
            e = Env(v, al, dict(mem), ne, env.fz & v.keys())
            key = (pred if hasphi[blk] else -1, blk, st)
            lst = table[key]
            for o in lst:
                if self.sub(e, o):
                    return
            visits[key] += 1
            lst[:] = [o for o in lst if not self.sub(o, e)]
            lst.append(e)
            pend = inq.get(key)
            if len(lst) > self.maxenv or visits[key] > 3 * self.maxenv + 3:
                m = lst[0]
                for o in lst[1:]:
                    m = self.merge(m, o, widen=visits[key] > 2 * self.maxenv + 3)
                lst[:] = [m]
                e = m
                pend_new = [m]
            else:
                pend_new = (pend or []) + [e]
            self.parent.setdefault(key, par)
            if pend is None:
                heapq.heappush(heap, (order.get(blk, 0), next(cnt), key))
            inq[key] = pend_new

        for st in cl.start(self):
            push(-1, 0, st, (env0.copy() if env0 else Env()), None)
        steps = 0
        while heap:
            _, _, key = heapq.heappop(heap)
            envs = inq.pop(key, [])
            pred, blk, st0 = key
            for env in envs:
                env = env.copy()
                states = [(st0, env)]
                for i in f.blocks[blk]:
                    if i.op == 'phi':
                        continue
                    steps += 1
                    if steps > limit:
                        raise RuntimeError('flow limit in ' + f.name)
                    nxt = []
                    for st, e in states:
                        pre = cl.inst(self, st, e, i)
                        if pre is None:
                            self.exec(e, i)
                            nxt.append((st, e))
                        else:
                            nxt.extend(pre)
                    states = nxt
                    if not states:
                        break
                    if len(states) > 8:
                        # many calls in one block: join what agrees on the client state
                        groups = {}
                        for st, e in states:
                            groups[st] = self.merge(groups[st], e) if st in groups else e
                        states = list(groups.items())
                    if len(states) > 60:
                        raise RuntimeError('state explosion in ' + f.name)
                t = f.blocks[blk][-1]
                for st, e in states:
                    if t.op == 'ret':
                        v = t.ops[0] if t.ops else None
                        outs.append((st, self.itv(e, v) if v is not None and f.ret != 'void' else None, t, (key, e)))
                    elif t.op == 'br':
                        if len(t.succ) == 1:
                            s2 = cl.edge(self, st, e, t, t.succ[0])
                            if s2 is not None:
                                push(blk, t.succ[0], s2, e, key)
                        else:
                            for k, s in enumerate(t.succ):
                                e2 = e.copy()
                                if t.succ[0] == t.succ[1]:
                                    pass
                                elif not self.refine(e2, t.ops[0], (1, 1, True) if k == 0 else (0, 0, False)):
                                    continue
                                if True:
                                    s2 = cl.edge(self, st, e2, t, s)
                                    if s2 is not None:
                                        push(blk, s, s2, e2, key)
                    elif t.op == 'switch':
                        seen = defaultdict(list)
                        for cv, s in t.cases:
                            seen[s].append(cv)
                        for s, cvs in seen.items():
                            for cv in cvs:
                                e2 = e.copy()
                                if self.refine(e2, t.ops[0], (cv, cv, cv != 0)):
                                    s2 = cl.edge(self, st, e2, t, s)
                                    if s2 is not None:
                                        push(blk, s, s2, e2, key)
                        e2 = e.copy()
                        ok = True
                        if any(cv == 0 for cv, _ in t.cases):
                            ok = self.refine(e2, t.ops[0], (-BIG, BIG, True))
                        it = self.itv(e2, t.ops[0])
                        if it[0] == it[1] and any(cv == it[0] for cv, _ in t.cases):
                            ok = False
                        for cv, _ in t.cases:
                            if ok and it[0] < cv < it[1] and cv != 0:
                                self.differs(e2, t.ops[0], cv)
                        if ok:
                            s2 = cl.edge(self, st, e2, t, t.default)
                            if s2 is not None:
                                push(blk, t.default, s2, e2, key)
        return outs

    def exec(self, env, i):
        op = i.op
        if op != 'store' and op not in ('br', 'ret', 'switch'):
            if op not in LAZY or i.id in env.v or i.id in env.al or i.id in env.c:
                env.c.clear()
        if op == 'load':
            self.def_kill(env, i)
            self.do_load(env, i)
        elif op == 'store':
            self.do_store(env, i)
        elif op == 'call':
            self.def_kill(env, i)
            self.do_call_mem(env, i)
            if i.type != 'void' and i.callee in self.prog.fns:
                p = self.A.predicate(i.callee)
                if p:
                    cur = self.itv(env, i.ops[0])
                    h = None
                    for c, r in p:
                        if meet(c, cur) is not None:
                            h = r if h is None else join(h, r)
                    if h is not None:
                        if cur[0] != -cur[1] and cur[1] - cur[0] < 1 << 21:
                            h = meet(h, self.A.ret_itv(i.callee, (cur,), self.depth)) or h
                        env.v[i.id] = h
                else:
                    r = self.A.call_itv(self, env, i)
                    if r is not None:
                        env.v[i.id] = r
            elif i.callee in EXT_RET:
                env.v[i.id] = EXT_RET[i.callee]
            elif isabs(i):
                x = self.itv(env, i.ops[0])
                lo, hi = (0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))), max(abs(x[0]), abs(x[1]))
                if hi <= trange(i.type)[1]:
                    env.v[i.id] = mk(lo, hi, x[2]) or trange(i.type)
                elif i.callee.startswith('llvm.abs') and i.ops[1][1]:
                    env.v[i.id] = mk(lo, trange(i.type)[1], x[2])      # abs(INT_MIN) is undefined
        elif op in LAZY:
            if i.id in env.v or i.id in env.al:
                env.v.pop(i.id, None)
                env.al.pop(i.id, None)
            # values aliased to an older incarnation
            for k in [k for k, w in env.al.items() if w == i.id]:
                del env.al[k]
            for a in [a for a, w in env.mem.items() if w == i.id]:
                del env.mem[a]
            if i.id in env.fz:
                env.fz = env.fz - {i.id}
            if env.ne:
                env.ne = frozenset(p for p in env.ne if i.id not in p)

    def sub(self, a, b):
        """a is covered by b"""
        for k, v in b.v.items():
            x = a.v.get(k)
            if x is None:
                x = self.itv(a, k)
            if not leq(x, v):
                return False
        for k, v in b.al.items():
            if a.al.get(k) != v:
                return False
        for k, v in b.mem.items():
            if a.mem.get(k) != v and not (isinstance(v, tuple) and v[0] == 'r' and k in a.mem and leq(self.itv(a, a.mem[k]), v[1:])):
                return False
        return (a.ne >= b.ne or all(self.apart(a, p) for p in b.ne - a.ne)) and a.fz <= b.fz

    def merge(self, a, b, widen=False):
        v = {}
        for k in a.v.keys() | b.v.keys():
            x, y = self.itv(a, k), self.itv(b, k)
            j = join(x, y)
            if widen and x != y:
                w = trange(self.f.args[k][1] if k < len(self.f.args) else self.f.insts[k].type)
                j = (j[0] if x[0] == y[0] else (0 if j[0] >= 0 else w[0]), j[1] if x[1] == y[1] else w[1], j[2])
            v[k] = j
        al = {k: w for k, w in a.al.items() if b.al.get(k) == w}
        mem = {k: w for k, w in a.mem.items() if b.mem.get(k) == w}
        if getattr(self.client, 'ranges', False) and not widen:
            # a word that holds different values keeps the range of both
            for k in a.mem.keys() & b.mem.keys():
                if k not in mem:
                    j = join(self.itv(a, a.mem[k]), self.itv(b, b.mem[k]))
                    if j[2] or j[0] > -(1 << 31) or j[1] < (1 << 31) - 1:
                        mem[k] = ('r',) + j
        fz = a.fz | b.fz
        for k in fz:
            if k not in v:
                v[k] = join(self.itv(a, k), self.itv(b, k))
        ne = a.ne & b.ne
        if a.ne != b.ne:
            ne |= {p for p in a.ne - b.ne if self.apart(b, p)} | {p for p in b.ne - a.ne if self.apart(a, p)}
        return Env(v, al, mem, ne, fz)

    def trace(self, key, maxn=40):
        """source lines of one abstract path reaching key"""
        out = []
        seen = set()
        while key is not None and key not in seen:
            seen.add(key)
            blk = key[1]
            ls = [i.line for i in self.f.blocks[blk] if i.line]
            if ls:
                out.append(ls[0])
            key = self.parent.get(key)
        out.reverse()
        r = []
        for x in out:
            if not r or r[-1] != x:
                r.append(x)
        return r[-maxn:]
