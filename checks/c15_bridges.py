"""C15: what the Java natives and the C interface take or make, they give back.

Typestate per resource (strings and arrays taken from Java, record structures and memory made
by the function) over every path of every bridge function.
"""
import multiprocessing
import re
from common import *
from locks import *
import own
import flags

GET = re.compile(r'^Get(String(UTF)?(Chars|Critical)|\w+ArrayElements|PrimitiveArrayCritical)$')
REL = re.compile(r'^Release(String(UTF)?(Chars|Critical)|\w+ArrayElements|PrimitiveArrayCritical)$')
NEW = re.compile(r'^zstruct\w*New\w*$')
MEM = {'malloc', 'calloc', 'realloc', 'strdup', 'mallocAndCopy', 'mallocAndCopyTrim', 'mallocAndCopyPath'}
FREE = {'free': 'memory', 'zstructFree': 'structure'}
ABORT = 2
OUT = {'zaliasList': 2}     # functions that leave memory for the caller in an output parameter


def jni(f, i):
    """name of the Java interface function an indirect call uses"""
    if i.op == 'call' and i.callee is None and i.icallee is not None:
        e = f.expr(f.strip(i.icallee))
        if e[0] == 'ld' and e[1][0] == 'gep' and e[1][2][-1][:2] == ('.', 'struct.JNINativeInterface_'):
            return e[1][2][-1][2]
    return None


def makes(f, i):
    """kind of resource a call gives to the function, or None"""
    if i.op != 'call':
        return None
    if i.callee is None:
        n = jni(f, i)
        return n if n and GET.match(n) else None
    if NEW.match(i.callee):
        return 'structure'
    if i.callee in OUT:
        return 'list'
    return 'memory' if i.callee in MEM or i.callee in own.FRESH else None


LENT = {}       # (constructor, argument): flags that say the structure owns the member the argument goes to


def lent(prog, name, k):
    """flags of the members in which a constructor puts its argument k"""
    if (name, k) not in LENT:
        f = prog.fns.get(name)
        r = set()
        for u in f.users(k) if f is not None and f.blocks and k < len(f.args) else ():
            if u.op == 'store' and u.ops[0] == k:
                m = flags.member(f, f.expr(f.strip(u.ops[1])))
                for _, _, ks, _ in OWNED.get(m[1], {}).get(m[2], ()) if m else ():
                    r |= set(ks)
        LENT[name, k] = r
    return LENT[name, k]


OWNED = {}


def bridge(f):
    return 'javaHeclib/' in f.file or 'hecdss/' in f.file


def base(f, v):
    """the pointer an address is built on"""
    v = f.strip(v)
    while isinstance(v, int):
        d = f.defn(v)
        if d is None or d.op != 'getelementptr':
            break
        v = f.strip(d.ops[0])
    return v


class Own(NullClient):
    """state: (held, given back), both tuples of value ids of the calls that gave the resource"""

    def __init__(self, f, kinds):
        self.kinds = kinds
        self.bad = {}
        self.rels = set()
        # what decides more than one branch is remembered along a path, nothing else
        seen, many = {}, set()
        for b in f.blocks:
            t = b[-1]
            if t.op in ('br', 'switch') and len(t.succ) > 1 and isinstance(t.ops[0], int):
                work, mine = [t.ops[0]], set()
                while work:
                    v = work.pop()
                    if not isinstance(v, int) or v in mine:
                        continue
                    mine.add(v)
                    d = f.defn(v)
                    if d is not None and d.op not in ('call', 'load'):
                        work.extend(f.operands(d))
                for v in mine:
                    seen[v] = seen.get(v, 0) + 1
        many = {v for v, n in seen.items() if n > 1}
        self.keep = many | {i.id for i in f.all() if makes(f, i)}
        # the version of a file does not change while it is open
        self.version = {}
        vs = [i for i in f.all() if i.op == 'call' and i.callee == 'zgetVersion']
        if len(vs) > 1:
            idom = f.dominators()
            for i in vs:
                up = set()
                b = i.bb
                while b:
                    b = idom.get(b)
                    up.add(b)
                for k in vs:
                    if (k.bb in up or k.bb == i.bb and k.pos < i.pos) and f.expr(f.strip(k.ops[0])) == f.expr(f.strip(i.ops[0])) and k.id not in self.version:
                        self.version[i.id] = k.id
                        break
        self.keep |= set(self.version.values())
        # phis that may be one of the resources
        self.may = {}
        for g in kinds:
            work = [g]
            while work:
                v = work.pop()
                for u in f.users(v):
                    if u.op in ('phi', 'bitcast', 'select', 'inttoptr', 'ptrtoint', 'freeze') and g not in self.may.setdefault(u.id, set()):
                        self.may[u.id].add(g)
                        work.append(u.id)

    def start(self, R):
        return [((), ())]

    def rep(self, R, env, v):
        for _ in range(12):
            v = R.f.strip(v)
            w = R.f.strip(R.rep(env, v)) if isinstance(v, int) else v
            if w == v:
                return v
            v = w
        return v

    def who(self, R, env, v, S):
        """(resource, state) an operand stands for on this path"""
        r = self.rep(R, env, v)
        if r in self.kinds:
            return r
        c = self.may.get(r, ()) if isinstance(r, int) else ()
        for s in S:
            for g in s:
                if g in c:
                    return g
        return None

    def note(self, key, i, text, S=None):
        self.bad.setdefault(key, (i, text))

    def inst(self, R, S, env, i):
        held, back = S
        f = R.f
        # use of something already given back
        if back:
            ops = []
            if i.op == 'load':
                ops = [i.ops[0]]
            elif i.op == 'store':
                ops = [i.ops[1]]
            elif i.op == 'call':
                ops = [o for o in i.ops if isinstance(o, int)]
            for o in ops:
                g = self.rep(R, env, base(f, o))
                if g in self.kinds and g in back:
                    what = 'given back twice' if i.callee in FREE or REL.match(jni(f, i) or '') else 'used after it was given back'
                    self.note((what, g), i, '%s %s' % (self.name(f, g), what))
        if i.id in self.version and i.op == 'call':
            R.exec(env, i)
            env.al[i.id] = self.version[i.id]
            return [(S, env)]
        if i.op == 'call':
            k = self.kinds.get(i.id)
            n = jni(f, i)
            if i.callee == 'realloc' and not k:
                g = self.who(R, env, i.ops[0], S)
                if g in held:
                    R.exec(env, i)
                    return [((tuple(x for x in held if x != g), back), env)]
            if not k and n and GET.match(n):
                R.exec(env, i)
                R.refine(env, i.id, (1, flow.BIG, True))
                return [(S, env)]
            if k:
                if i.callee == 'realloc':
                    g = self.who(R, env, i.ops[0], S)
                    if g in held:
                        held = tuple(x for x in held if x != g)
                R.exec(env, i)
                if i.id in held:
                    self.note(('lost', i.id), i, '%s is taken again before it was given back' % self.name(f, i.id))
                if k not in ('memory', 'structure', 'list'):
                    R.refine(env, i.id, (1, flow.BIG, True))
                return [((tuple(sorted(set(held) | {i.id})), tuple(x for x in back if x != i.id)), env)]
            rel = None
            if n and REL.match(n):
                rel, want, v = n, n.replace('Release', 'Get'), i.ops[2]
            elif i.callee in FREE:
                rel, want, v = i.callee, FREE[i.callee], i.ops[0]
            if rel:
                g = self.who(R, env, v, S)
                d = f.defn(f.strip(v)) if isinstance(f.strip(v), int) else None
                if g is None and rel == 'free' and d is not None and d.op == 'load':
                    for x in held:
                        if self.kinds[x] == 'list' and base(f, f.insts[x].ops[OUT[f.insts[x].callee]]) == base(f, d.ops[0]):
                            self.rels.add(i.id)
                            R.exec(env, i)
                            return [((tuple(y for y in held if y != x), back), env)]
                if g in held:
                    self.rels.add(i.id)
                    d = f.insts[g]
                    if self.kinds[g] != want:
                        self.note(('kind', g), i, '%s is given back with %s' % (self.name(f, g), rel))
                    if want.startswith('Get'):
                        a, b = self.rep(R, env, d.ops[1]), self.rep(R, env, i.ops[1])
                        if a != b and f.expr(f.strip(d.ops[1])) != f.expr(f.strip(i.ops[1])) and not (set(self.origins(f, a)) & set(self.origins(f, b))):
                            self.note(('object', g), i, '%s is given back to another Java object' % self.name(f, g))
                        if len(i.ops) > 3:
                            m = const(R, env, i.ops[3])
                            if m != 0 and not (m == ABORT and self.readonly(f, g)):
                                self.note(('mode', g), i, '%s: changed elements are not copied back (release mode %s)' % (self.name(f, g), m))
                    R.exec(env, i)
                    return [((tuple(x for x in held if x != g), tuple(sorted(set(back) | {g}))), env)]
                return None
        if i.op == 'store':
            g = self.who(R, env, i.ops[0], (held,))
            if g not in held and isinstance(i.ops[0], tuple) and i.ops[0][0] == 'i' and i.ops[0][1]:
                # the structure the memory was given to is told that it owns it
                w = flags.flagof(f, f.expr(f.strip(i.ops[1])))
                b = self.rep(R, env, w[0][1]) if w and w[0][0] == 'phi' else w[0][-1] if w and w[0][0] == 'call' else None
                d = f.defn(b) if isinstance(b, int) else None
                if d is not None and d.op == 'call' and d.callee and NEW.match(d.callee):
                    for k, o in enumerate(d.ops):
                        x = self.who(R, env, o, (held,)) if isinstance(o, int) else None
                        if x in held and w[2] in lent(R.prog, d.callee, k):
                            g = x
            if g in held and self.kinds[g] in ('memory', 'structure'):
                R.exec(env, i)
                return [((tuple(x for x in held if x != g), back), env)]
        if i.op == 'ret' and i.ops:
            g = self.who(R, env, i.ops[0], (held,)) if isinstance(i.ops[0], int) else None
            if g in held and self.kinds[g] != 'list':
                return [((tuple(x for x in held if x != g), back), env)]
        return None

    def edge(self, R, S, env, i, succ):
        held, back = S
        env.mem.clear()
        env.ne = frozenset(p for p in env.ne if self.version and any(x in self.version.values() for x in p))
        for v in [v for v in env.v if v not in self.keep and v not in self.may and v not in self.kinds]:
            if v not in env.fz:
                del env.v[v]
        env.c.clear()
        if held:
            gone = [g for g in held if (R.itv(env, g)[1] <= 0 if self.kinds[g] == 'list' else R.itv(env, g)[:2] == (0, 0))]
            if gone:
                return (tuple(x for x in held if x not in gone), back)
        return S

    @staticmethod
    def origins(f, v, seen=None):
        seen = set() if seen is None else seen
        v = f.strip(v)
        if not isinstance(v, int) or v in seen:
            return []
        seen.add(v)
        d = f.defn(v)
        if d is not None and d.op == 'phi':
            r = []
            for x, _ in d.incoming:
                r += Own.origins(f, x, seen)
            return r
        return [v]

    @staticmethod
    def readonly(f, g):
        work, seen = [g], set()
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in f.users(v):
                if u.op in ('getelementptr', 'bitcast', 'phi', 'select', 'freeze'):
                    work.append(u.id)
                elif u.op == 'store' or (u.op == 'call' and not REL.match(jni(f, u) or '')):
                    return False
        return True

    @staticmethod
    def name(f, g):
        d = f.insts[g]
        n = d.callee or jni(f, d)
        return '%s%s' % ("'%s' from " % d.name if d.name else 'what came from ', n)


def label(f, g, kinds):
    """stable name of one resource: function, kind of call and its rank among these"""
    d = f.insts[g]
    n = d.callee or jni(f, d)
    order = {b: k for k, b in enumerate(f.rpo())}
    same = sorted((x for x in kinds if (f.insts[x].callee or jni(f, f.insts[x])) == n), key=lambda x: (order.get(f.insts[x].bb, 1 << 30), f.insts[x].pos))
    return '%s:%s%d' % (f.name, n, same.index(g) + 1)


WORK = {}


def one(job):
    """all paths of one function for one resource"""
    n, kinds, g = job
    A, f = WORK['A'], WORK['prog'].fns[n]
    cl = Own(f, {g: kinds[g]})
    for lv in A.live(f)[0]:
        lv |= set(cl.version.values())
    R = Runner(A, f, cl, maxenv=6)
    out, kept = [], None
    for S, it, t, k in R.run(Env()):
        if g in S[0] and kept is None:
            kept = (t, R.trace(k[0]))
    if kept:
        out.append((label(f, g, kinds) + ':kept', f.where(f.insts[g]), '%s is not given back on a path to the return' % Own.name(f, g), kept[1]))
    for (what, g), (i, text) in cl.bad.items():
        out.append(('%s:%s' % (label(f, g, kinds), what.split()[0] + ('2' if 'twice' in what else '')), f.where(i), text, None))
    return out


def body(c):
    A, prog = c.A, c.prog
    todo = []
    fs = [f for f in prog.fns.values() if bridge(f)]
    own.FRESH.update(own.fresh(prog))
    OWNED.update(flags.owned(prog))
    if len(fs) < 60:
        raise Broken('only %d bridge functions found' % len(fs))
    for f in sorted(fs, key=lambda f: f.name):
        kinds = {i.id: makes(f, i) for i in f.all() if makes(f, i)}
        c.ok('function', f.name)
        rel = [i for i in f.all() if i.op == 'call' and (REL.match(jni(f, i) or ''))]
        if not kinds:
            for i in rel:
                c.bad('%s:release' % f.name, f.where(i), 'gives back what it never took')
            continue
        todo.append((f.name, kinds))
        for g in kinds:
            c.ok('taken from Java' if kinds[g].startswith('Get') else kinds[g], f.where(f.insts[g]))
    jobs = [(n, kinds, g) for n, kinds in todo for g in sorted(kinds)]
    WORK.update(A=A, prog=prog)
    with multiprocessing.get_context('fork').Pool() as pool:
        for res in pool.imap_unordered(one, jobs, chunksize=4):
            for key, where, text, tr in res:
                c.bad(key, where, text, tr)
    c.need('taken from Java', 150)
    c.need('structure', 15)
    return ('For every string, array, record structure and block of memory that a Java native or a function of the C interface takes or makes: on every path to a return it is given back exactly once, '
            'in the matching way (same Java object, changed elements copied back), or handed on (stored in a structure, returned), and is not used afterwards (property simulation over the SSA control flow graph).',
            ['taking the elements of a Java array or string does not fail', 'the library functions called do not keep the memory passed to them'])


if __name__ == '__main__':
    main('C15', body)
