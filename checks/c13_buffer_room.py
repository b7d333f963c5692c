"""C13: what is written into a buffer of stated size stays inside it.

rooms7.json states which routines of the library write into a buffer whose room the caller gives
(buffer argument, room argument, bytes per unit).  At every call of one of them, and of the C library's
own, the room stated is compared with the room there is: the object written to, minus the offset, as
affine forms and intervals along every path; inside the routines every write through the buffer
argument, direct or handed on, is compared with the room the caller stated, going through loops with
what holds at the start of every round."""
import json
import multiprocessing
import re
from common import *
import loops
from flow import Runner, NullClient
from affine import form, add, scale, const, render

TABLE = os.path.join(HERE, 'rooms7.json')
# library routines: buffer, room, bytes of one unit
LIBC = {'snprintf': (0, 1, 1), 'vsnprintf': (0, 1, 1), 'strncpy': (0, 2, 1), 'memcpy': (0, 2, 1), 'memmove': (0, 2, 1), 'memset': (0, 2, 1), 'fgets': (0, 1, 1), 'read': (1, 2, 1), 'strftime': (0, 1, 1), 'pread': (1, 2, 1), 'fread': None}
LIBC = {k: v for k, v in LIBC.items() if v}
# writers that are not told the room: where what they write ends, by the argument it comes from
OPEN_ENDED = {'strcpy': 1, 'strcat': 1, 'stpcpy': 1, 'sprintf': 1, 'vsprintf': 1, 'gets': None}
TOP = 1 << 31


def writer(n):
    for p in ('llvm.memcpy', 'llvm.memmove', 'llvm.memset'):
        if n.startswith(p):
            return p[5:]
    return n


class Room(NullClient):
    """the writes of one function into buffers"""

    def __init__(self, c, contracts):
        self.c, self.con = c, contracts
        self.out = {}

    def inst(self, R, st, env, i):
        if i.op != 'call' or i.callee is None:
            return None
        n = writer(i.callee)
        if n in OPEN_ENDED:
            self.open_ended(R, env, i, n)
        for d, m, u in self.con.get(n, ()):
            if isinstance(m, list):
                continue
            if max(d, m if isinstance(m, int) and u else 0) >= len(i.ops):
                continue
            cap = scale(form(R, env, i.ops[m]), u) if u else const(m)
            hi = R.itv(env, i.ops[m])[1] * u if u else m
            if u and n not in LIBC and hi <= 0:
                continue
            obj, size, off = place(self.c.prog, R, env, i.ops[d])
            if obj is None:
                continue
            self.note(R, env, i, n, d, obj, size, off, cap, hi)
        return None

    def open_ended(self, R, env, i, n):
        obj, size, off = place(self.c.prog, R, env, i.ops[0])
        if obj is None or size is None and obj[0] != 'arg' or obj[0] == 'arg' and not any(x[0] == obj[1] for x in self.con.get(R.f.name, ())):
            return
        k = OPEN_ENDED[n]
        t = self.c.prog.string(i.ops[k]) if k is not None and len(i.ops) > k else None
        n_ = longest(t, n in ('sprintf', 'vsprintf')) if t is not None else None
        v = 'unstated'
        if n_ is not None and n not in ('strcat',) and size is not None and not size[1] and not off[1] and off[0] + n_ + 1 <= size[0]:
            v = 'in'
        if n_ is not None:
            n += ' of known text'
        self.out.setdefault((obj, n, i.id, 0, v), (v, obj, None, R.f.where(i), 'text of no stated length'))

    def note(self, R, env, i, n, d, obj, size, off, cap, hi):
        left = None
        verdict = 'open'
        if obj[0] == 'arg':
            need = add(off, cap)
            mine = [x for x in self.con.get(R.f.name, ()) if x[0] == obj[1]]
            if not mine:
                return
            if isinstance(mine[0][1], int):
                size = scale(form(R, env, mine[0][1]), mine[0][2])
        if size is not None:
            left = add(add(size, off, -1), cap, -1)
            lo, up = bounds(R, env, left)
            verdict = 'in' if lo >= 0 else 'out' if up < 0 else 'open'
            if verdict == 'open' and not size[1] and not off[1]:
                verdict = 'in' if size[0] - off[0] - hi >= 0 else 'unbounded'
        self.out.setdefault((obj, n, i.id, d, verdict), (verdict, obj, None, R.f.where(i), '%s of %s' % (render(add(off, cap)), render(size) if size else '?')))


PRESET = {}


def preset(prog, a):
    """the only constant ever stored in a member of a global, as an interval"""
    if a[0] != 'gep' or a[1][0] != 'g' or any(s[0] != '.' for s in a[2]):
        return None
    if not PRESET:
        for f in prog.fns.values():
            for i in f.all():
                if i.op == 'store':
                    e = f.expr(f.strip(i.ops[1]))
                    if e[0] == 'gep' and e[1][0] == 'g' and all(s[0] == '.' for s in e[2]):
                        k = i.ops[0]
                        PRESET.setdefault(e, set()).add(k[1] if isinstance(k, tuple) and k[0] == 'i' else None)
                elif i.op == 'call' and writer(i.callee or '') in LIBC:
                    e = f.expr(f.strip(i.ops[LIBC[writer(i.callee)][0]]))
                    if e[0] == 'g':
                        PRESET.setdefault(e, set()).add(None)
    v = PRESET.get(a)
    if v is None or None in v or len(v) != 1 or a[1] in PRESET:
        return None
    k = next(iter(v))
    return min(k, 0), max(k, 0)


def bounds(R, env, x):
    lo = up = x[0]
    for a, k in x[1]:
        it = R.itv(env, a[1])[:2] if a[0] == 'v' and isinstance(a[1], int) else (-TOP, TOP)
        if a[0] == 'v' and isinstance(a[1], int):
            i = R.f.defn(a[1])
            if i is not None and i.op == 'load':
                it = preset(R.prog, R.f.expr(i.ops[0])) or it
            if i is not None and i.op == 'call' and i.callee == 'strlen':
                # a string ends inside the object that holds it
                o, s, w = place(R.prog, R, env, i.ops[0])
                it = (max(it[0], 0), min(it[1], s[0] - w[0] - 1) if o and s and not s[1] and not w[1] else it[1])
        lo += k * (it[0] if k > 0 else it[1])
        up += k * (it[1] if k > 0 else it[0])
    return lo, up


def esize(prog, ty):
    t = prog.types.get(ty)
    if t is not None:
        return t['size']
    import re
    m = re.fullmatch(r'\[(\d+) x (.*)\]', ty)
    if m:
        s = esize(prog, m.group(2))
        return None if s is None else int(m.group(1)) * s
    return {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}.get(ty)


def index(R, env, t):
    if isinstance(t, int):
        return form(R, env, t)
    if t[0] == 'c':
        return const(t[1])
    if t[0] in ('add', 'sub'):
        a, b = index(R, env, t[1]), index(R, env, t[2])
        return None if a is None or b is None else add(a, b, 1 if t[0] == 'add' else -1)
    if t[0] == 'mul':
        a, b = index(R, env, t[1]), index(R, env, t[2])
        if a is not None and b is not None and (not a[1] or not b[1]):
            return scale(a, b[0]) if not b[1] else scale(b, a[0])
        return None
    if t[0] == 'arg':
        return form(R, env, t[1])
    if t[0] in ('phi', 'val', 'call') and isinstance(t[-1], int):
        return form(R, env, t[-1])
    if t[0] == 'ld' and t[1] in env.mem:
        w = env.mem[t[1]]
        return form(R, env, w) if not isinstance(w, tuple) or w[0] == 'i' else None
    return None


def place(prog, R, env, v, d=0):
    """(what is written to, its size in bytes, offset of the write in it)"""
    f = R.f
    v = R.rep(env, v)
    e = f.expr(f.strip(v))
    if e[0] in ('phi', 'select') and d < 4:
        w = R.rep(env, e[1]) if isinstance(e[1], int) else None
        if w is not None and w != e[1] and not isinstance(w, tuple):
            return place(prog, R, env, w, d + 1)
        return None, None, None
    steps = ()
    while e[0] == 'gep':
        e, steps = e[1], e[2] + steps
    if e[0] in ('phi', 'ld') and d < 4:
        w = env.mem.get(e[1]) if e[0] == 'ld' else R.rep(env, e[1])
        if w is not None and not isinstance(w, tuple) and w != e[-1]:
            o, s, k = place(prog, R, env, w, d + 1)
            if o is not None:
                for st in steps:
                    x = index(R, env, st[2]) if st[0] == '[]' else None
                    z = esize(prog, st[1]) if st[0] == '[]' else None
                    if x is None or z is None:
                        return None, None, None
                    k = add(k, scale(x, z))
                return o, s, k
    # the last array member that holds the place
    fld = None
    for k, s in enumerate(steps):
        if s[0] == '.':
            t = prog.types.get('%' + s[1])
            fd = [x for x in t['fields'] if x[0] == s[2]] if t else []
            if fd and fd[0][2].startswith('['):
                fld = (k, '%s.%s' % (s[1].split('.')[-1], s[2]), fd[0][3])
            elif fd or s[1] == 'struct':
                fld = (k, '%s.%s' % (s[1].split('.')[-1], s[2]), fd[0][3] if fd else None)
    off = const(0)
    rest = steps[fld[0] + 1:] if fld else steps
    for s in rest:
        x = index(R, env, s[2])
        z = esize(prog, s[1])
        off = add(off, scale(x, z)) if off is not None and x is not None and z is not None else None
    if fld:
        if fld[2] is None or off is None:
            return None, None, None
        return ('member', fld[1]), const(fld[2]), off
    if off is None:
        return None, None, None
    if e[0] == 'alloca':
        a = f.insts[e[1]]
        if a.ops and a.ops[0][:2] != ('i', 1):
            return None, None, None
        return ('local', a.name or '?'), const(a.asz), off
    if e[0] == 'g' and e[1] in prog.globals:
        return ('global', e[1]), const(prog.globals[e[1]]['size']), off
    if e[0] == 'arg':
        return ('arg', e[1]), None, off
    if e[0] == 'call' and e[1] in ('malloc', 'calloc', 'realloc'):
        c = f.insts[e[2]]
        if e[1] == 'malloc':
            s = form(R, env, c.ops[0])
        elif e[1] == 'realloc':
            s = form(R, env, c.ops[1])
        else:
            a, b = form(R, env, c.ops[0]), form(R, env, c.ops[1])
            s = scale(a, b[0]) if not b[1] else scale(b, a[0]) if not a[1] else None
        return ('heap', e[1]), s, off
    return None, None, None



def longest(t, fmt):
    """most characters a format of bounded conversions can produce, or None"""
    if not fmt:
        return len(t)
    n = 0
    pos = 0
    for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z)?([a-zA-Z%])', t):
        n += m.start() - pos
        pos = m.end()
        c = m.group(5)
        w = {'%': 1, 'c': 1, 'd': 11, 'i': 11, 'u': 10, 'x': 8, 'X': 8}.get(c)
        if w is None:
            return None
        if m.group(4) in ('l', 'll', 'z') and c != '%':
            w = 20
        n += max(w, int(m.group(2) or 0), int(m.group(3) or 0) + 1)
    return n + len(t) - pos


class S:
    pass


def one(n):
    """[(key, verdict, where, what)] for the calls of one function"""
    f = S.c.prog[n]
    cl = Room(S.c, S.con)
    try:
        Runner(S.c.A, f, cl, maxenv=4).run()
    except RuntimeError as e:
        return n, None, str(e)
    got = {}
    for k, v in cl.out.items():
        obj, w, cid, d = k[:4]
        if obj[0] == 'heap':
            continue
        g = got.setdefault((obj, w, cid, d), [])
        g.append((v[0], v[3], v[4]))
    rest = {k for k, g in got.items() if any(x[0] != 'in' for x in g)}
    mine = S.con.get(n, [])
    stores = mine and direct(f, {x[0] for x in mine})
    proved, whole = {}, True
    for i, d in rows(f, {x[0] for x in mine if isinstance(x[1], list)}):
        k = (('arg', rowarg(f, i, d)), writer(i.callee), i.id, d)
        got.setdefault(k, [('open', f.where(i), 'an item of a row of them')])
        rest.add(k)
    targets = {k[2:] for k in rest if got[k][0][0] != 'unstated'} | {(x, None) for x in stores or ()}
    if targets:
        proved, whole = within(n, targets)
    out = []
    for k, g in sorted(got.items(), key=repr):
        v = [x for x in g if x[0] != 'in']
        ok = not v
        if v and v[0][0] != 'unstated':
            p = proved.get((k[2], k[3]))
            ok = bool(p) and all(x >= 0 for x in p)
        what = (v or g)[0]
        out.append((k, 'in' if ok else what[0], what[1], what[2], 'call'))
    for sid in sorted(stores or ()):
        p = proved.get((sid, None))
        obj = ('arg', stores[sid])
        # not reached on any path that can be taken, or inside the room on all of them
        ok = p is None and whole or bool(p) and all(x >= 0 for x in p)
        weak = bool(p) and any(-(1 << 20) < x < 0 for x in p)
        out.append(((obj, 'store', sid, None), 'in' if ok else 'weak' if weak else 'open', f.where(f.insts[sid]), 'a write through the argument', 'store'))
    return n, out, None


def rowarg(f, i, d):
    e = f.expr(f.strip(i.ops[d]))
    while e[0] == 'gep':
        e = e[1]
    return e[1] if e[0] == 'arg' else None


def rows(f, args):
    """calls that write into one item of a buffer of many"""
    for i in f.calls() if args else ():
        for d, m, u in S.con.get(writer(i.callee or ''), ()):
            if d < len(i.ops) and rowarg(f, i, d) in args:
                yield i, d


def direct(f, args):
    """stores of f through its buffer arguments: id -> argument"""
    r = {}
    for i in f.all():
        if i.op == 'store':
            e = f.expr(f.strip(i.ops[1]))
            while e[0] == 'gep':
                e = e[1]
            if e[0] == 'arg' and e[1] in args:
                r[i.id] = e[1]
    return r


def windex(W, p, t):
    if isinstance(t, int):
        return W.form(p, t)
    if t[0] == 'c':
        return const(t[1])
    if t[0] in ('add', 'sub', 'mul'):
        a, b = windex(W, p, t[1]), windex(W, p, t[2])
        if a is None or b is None:
            return None
        if t[0] != 'mul':
            return add(a, b, 1 if t[0] == 'add' else -1)
        return scale(a, b[0]) if not b[1] else scale(b, a[0]) if not a[1] else loops.atom(('product', a, b))
    if t[0] == 'arg':
        return W.form(p, t[1])
    if t[0] in ('phi', 'val', 'call') and isinstance(t[-1], int):
        return W.form(p, t[-1])
    if t[0] == 'ld':
        return p.mem.get(t[1]) or loops.atom(('ld', t[1], p.ver.get(W.cls(t[1]), 0), p.gen))
    return None


def wplace(W, p, v, prog):
    """(base, offset in bytes) of an address made of array steps; (base, size of the object, offset)"""
    f = W.f
    e = f.expr(f.strip(v))
    steps = ()
    while e[0] == 'gep':
        e, steps = e[1], e[2] + steps
    off, size = const(0), None
    for s in steps:
        if s[0] != '[]':
            return None, None, None
        x, z = windex(W, p, s[2]), esize(prog, s[1])
        if x is None or z is None:
            return None, None, None
        off = add(off, scale(x, z))
    if e[0] == 'alloca':
        a = f.insts[e[1]]
        if not a.ops or a.ops[0][:2] == ('i', 1):
            size = const(a.asz)
    elif e[0] == 'g' and e[1] in prog.globals:
        size = const(prog.globals[e[1]]['size'])
    elif e[0] != 'arg':
        return None, None, None
    return e, size, off


def least(p, x, depth=3):
    """a lower bound of form x from the facts on path p, adding up to three of them"""
    lo = p.facts.range(x)[0]
    if lo >= 0 or depth == 0:
        return lo
    best = lo
    cx = dict(x[1])
    for key, (l, h) in list(p.facts.iv.items()):
        for a, ck in key:
            if a in cx and cx[a] % ck == 0:
                q = cx[a] // ck
                b = q * l if q > 0 else q * h
                if abs(b) >= 1 << 60:
                    continue
                best = max(best, least(p, add(add(x, scale((0, key), q), -1), const(b)), depth - 1))
                if best >= 0:
                    return best
    return best


BYTES = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}


def atmost(f, m):
    """values that are the room (argument m) or no more than 1, whatever way was taken"""
    r = {i.id for i in f.all() if i.op in ('phi', 'select')}

    def small(v):
        return v == m or v in r or isinstance(v, tuple) and v[0] == 'i' and v[1] <= 1
    while True:
        drop = {v for v in r if not all(small(x) for x in ([x for x, _ in f.insts[v].incoming] if f.insts[v].op == 'phi' else f.insts[v].ops[1:]))}
        if not drop:
            return r
        r -= drop


def items(W, p, room, unit, off, need):
    """what is certainly left, of items and of units of one item, when item x of a row of them is written"""
    count, one = room
    best = -TOP
    for a, k in off[1]:
        if a[0] != 'product' or k != unit:
            continue
        for x, y in (a[1:], a[:0:-1]):
            if y == one:
                rest = add(off, (0, ((a, k),)), -1)
                best = max(best, min(least(p, add(add(count, x, -1), const(1), -1)), least(p, rest), least(p, add(add(scale(one, unit), rest, -1), need, -1))))
    return best


def within(n, targets):
    """({(call or store, argument of it): what is certainly left of the room, per path}, are these all paths)"""
    prog, con, A = S.c.prog, S.con, S.c.A
    f = prog.fns[n]
    mine = {x[0]: x for x in con.get(n, ())}
    res = {}

    def client(p, i, W):
        if i.op == 'call' and i.callee:
            w = writer(i.callee)
            W.exec(p, i)
            if w == 'bigEndian':
                p.val[i.id] = const(0)
            elif w == 'strlen':
                p.facts.assume(W.form(p, i.id), 0, TOP)
            for d, m, u in con.get(w, ()):
                if isinstance(m, int) and max(d, m) < len(i.ops):
                    note(W, p, i.id, d, i.ops[d], scale(W.form(p, i.ops[m]), u))
            return [p]
        if i.op == 'select' and i.type in ('i16', 'i32', 'i64') and W.truth(p, i.ops[0]) is None:
            both = []
            for k in (1, 2):
                q = p.copy()
                if W.assume(q, i.ops[0], k == 1):
                    q.val[i.id] = W.form(q, i.ops[k])
                    both.append(q)
            return both
        if i.op == 'store':
            a = i.ops[0]
            t = f.insts[a].type if isinstance(a, int) and a in f.insts else f.args[a][1] if isinstance(a, int) else None
            note(W, p, i.id, None, i.ops[1], const(BYTES.get(t) or (max(1, a[2] // 8) if isinstance(a, tuple) and a[0] == 'i' else 8)))
        return None

    def note(W, p, iid, d, v, need):
        base, size, off = wplace(W, p, v, prog)
        if base is None:
            return
        if base[0] == 'arg':
            if base[1] not in mine:
                return
            m = mine[base[1]]
            if isinstance(m[1], list):
                # so many items of so many units
                res.setdefault((iid, d), set()).add(items(W, p, [W.form(p, x) for x in m[1]], m[2], off, need))
                return
            size = scale(W.form(p, m[1]), m[2])
        if size is None:
            return
        res.setdefault((iid, d), set()).add(least(p, add(add(size, off, -1), need, -1)))

    W = loops.Through(A, f, client, limit=300000)
    rooms = {y for x in mine.values() for y in (x[1] if isinstance(x[1], list) else [x[1]]) if y < len(f.args)}
    W.base = [(loops.atom(('arg', m)), 1, TOP) for m in sorted(rooms)]
    for m in sorted(rooms):
        for v in atmost(f, m):
            W.base += [(add(loops.atom((k, v)), loops.atom(('arg', m)), -1), -loops.BIG, 0) for k in ('phi', 'val')]
    W.learn()
    W.want = W.reach({f.insts[t[0]].bb for t in targets})
    try:
        W.paths(0)
        done = {k: sorted(v) for k, v in res.items()}
        whole = True
    except RuntimeError:
        done, whole = {}, False
    idom = f.dominators()
    for t in sorted(targets, key=repr):
        if whole and t not in done or t in done and all(x >= 0 for x in done[t]):
            continue
        # from the blocks every path to the write passes, nearest first, with nothing known at the start
        W.limit = 20000
        b = f.insts[t[0]].bb
        W.want = W.reach({b})
        for _ in range(40):
            b = idom.get(b)
            if not b:
                break
            res.clear()
            W.steps = 0
            try:
                W.paths(b)
            except RuntimeError:
                break
            if res.get(t) and all(x >= 0 for x in res[t]):
                done[t] = sorted(res[t])
                break
    return done, whole


def body(c):
    t = json.load(open(TABLE))
    con = {k: [v] for k, v in LIBC.items()}
    for k, v in t['contracts'].items():
        if k in c.prog.fns:
            con[k] = [tuple(x) for x in v]
    S.c, S.con = c, con
    c.A
    names = []
    for n in sorted(c.prog.fns):
        if any(writer(i.callee or '') in con or (i.callee or '') in OPEN_ENDED for i in c.prog[n].calls()) or n in con:
            names.append(n)
    undecided = {tuple(x) for x in t['open']}
    left = set()
    with multiprocessing.get_context('fork').Pool(8) as pool:
        done = pool.map(one, names, chunksize=2)
    for n, out, err in done:
        if err:
            raise Broken(err)
        for (obj, w, iid, d), v, where, what, kind in out:
            name = '%s %s' % obj
            rule = 'room of the argument' if obj[0] == 'arg' and kind == 'call' else 'write through the argument' if kind == 'store' else 'room of the %s object' % obj[0]
            if v == 'in':
                c.ok(rule, '%s: %s into %s' % (where, w, name))
                continue
            key = (n, 'local' if obj[0] == 'local' else str(obj[1]), w)
            if key in undecided and v != 'weak':
                left.add(key)
                continue
            if v == 'unstated':
                text = '%s writes text of no stated length into %s' % (w, name)
            elif v == 'weak':
                text = 'the test before this write into %s lets it go past the room the caller stated' % name
            else:
                text = '%s may write past the end of %s (%s)' % (w, name, what) if obj[0] != 'arg' else '%s may write past the room the caller stated for %s (%s)' % (w, name, what)
            c.bad('%s:%s:%s' % key, where, text)
    c.notes['routines told the room'] = len(con)
    c.notes['not decided'] = sorted(' '.join(x) for x in left)
    c.need('room of the local object', 400)
    c.need('room of the argument', 60)
    c.need('write through the argument', 20)
    return ('at every call that states how much may be written (C library and %d routines of this library) the room stated is not more than what is left of the local, global or struct member written to, and inside those routines no write through the buffer argument goes past the room its caller stated; a writer that is told no room writes only text whose length is known' % (len(con) - len(LIBC)),
            ['text handed to strlen ends inside the object that holds it', 'the caller states a room of at least one unit', 'the machine is little endian', 'memory obtained at run time (malloc) is not compared'])


if __name__ == '__main__':
    main('C13', body)
