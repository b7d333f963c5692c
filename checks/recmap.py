"""What a function puts where: along every path, which struct fields, header slots
and copied blocks end up holding which items.  Used to compare the code that
packs a record with the code that unpacks it (C18)."""
import re
import flow
import affine
from flow import CASTS

# from, to argument positions of the routines that copy data
COPY = {'charInt': (0, 1), 'charLong': (0, 1), 'convertDataType': (0, 1), 'convertDataArray': (0, 1),
        'convertIntArray': (0, 1), 'memcpy': (1, 0), 'llvm.memcpy': (1, 0), 'stringCopy': (2, 0),
        'charTo8Byte': (1, 0), 'zcharTo8Byte': (1, 0), 'appendStringToHeader': (0, 1), 'memmove': (1, 0), 'zget': (1, 2)}
COUNT = {'charInt': 2, 'charLong': 2, 'convertDataType': 2, 'convertDataArray': 2, 'convertIntArray': 2, 'memcpy': 2, 'llvm.memcpy': 2}
INTO = {'mallocAndAssignString': (1, 0)}
STRINGS = ('stringCopy', 'appendStringToHeader', 'zcharTo8Byte', 'strcpy')
DUP = {'mallocAndCopy', 'mallocAndCopyTrim', 'readStringFromHeader', 'strdup'}
FPC = {'fpext', 'fptrunc', 'sitofp', 'fptosi', 'uitofp', 'fptoui'}
SLOTS = ('zStructTransfer', 'internalHeader'), ('internalHeaderArg', 'internalHeader')


def short(s):
    return s.split('.')[-1]


class Map(flow.NullClient):
    """slots: argument positions that hold an internal header; calls: name -> interval of the result;
    track: predicate on location names (None: all); anchors: call names at which the map is reported"""

    def __init__(self, headers=(), calls=None, anchors=(), track=None, stop=None):
        self.headers = set(headers)
        self.calls = {'bigEndian': (0, 0, False), 'zmessageLevel': (0, 0, False), 'zgetVersion': (7, 7, True)}
        self.calls.update(calls or {})
        self.anchors = dict(anchors)    # call name -> {argument position: name of the buffer passed}
        self.track = track
        self.out = {}

    # ---------- names
    def root(self, R, env, v, d=0):
        """(root name, byte/element offset form) of a pointer value"""
        v = R.rep(env, v)
        if isinstance(v, tuple):
            if v[0] == 'g':
                return v[1], affine.const(0)
            return str(v), affine.const(0)
        f = R.f
        i = f.defn(v)
        if i is None:
            return ('IH' if v in self.headers else 'arg%d' % v), affine.const(0)
        if i.op in CASTS:
            return self.root(R, env, i.ops[0], d)
        return self.tree(R, env, f.expr(v), d)

    def tree(self, R, env, e, d=0):
        off = affine.const(0)
        if e[0] == 'gep':
            path = e[2]
            last = path[-1]
            if last[0] == '[]' and last[2][0] == 'key':
                return '&%s.%s' % (last[2][1], last[2][2]), off
            if last[0] == '[]' and len(path) == 1:
                r, o = self.tree(R, env, e[1], d + 1)
                return r, affine.add(o, self.idx(R, env, last[2]))
            flds = [p for p in path if p[0] == '.']
            n = '%s.%s' % (short(flds[0][1]), '.'.join(p[2] for p in flds)) if flds else 'mem'
            if e[1][0] == 'alloca' and not flds:
                return self.local(e[1]), self.idx(R, env, last[2]) if last[0] == '[]' else off
            if last[0] == '[]':
                off = self.idx(R, env, last[2])
            if flds and (flds[0][1], flds[-1][2]) in SLOTS:
                n = 'IH'
            return '&' + n, off
        if e[0] == 'ld':
            # a pointer loaded from a field or a local
            a = e[1]
            if a in env.mem and d < 20:
                w = R.rep(env, env.mem[a])
                if not isinstance(w, tuple):
                    i = R.f.defn(w)
                    if i is None or i.op != 'load':
                        return self.root(R, env, w, d + 1)
            n, o = self.tree(R, env, a, d + 1)
            n = n[1:] if n.startswith('&') else '*' + n
            if o != affine.const(0):
                n += '[%s]' % self.show(o)
            return ('IH' if n == 'zStructTransfer.internalHeader' else n), off
        if e[0] == 'arg':
            return ('IH' if e[1] in self.headers else 'arg%d' % e[1]), off
        if e[0] == 'alloca':
            return self.local(e), off
        if e[0] == 'call':
            return '%s#%d' % (e[1], e[2]), off
        if e[0] == 'g':
            return '&' + e[1], off
        if e[0] == 'phi' or e[0] == 'select':
            w = R.rep(env, e[1])
            if w != e[1]:
                return self.root(R, env, w, d + 1)
            return '%s#%s' % (e[0], e[1]), off
        return '%s' % (e[0],), off

    def local(self, e):
        return 'local#%d' % e[1]

    def idx(self, R, env, t):
        """affine form of an index expression tree"""
        if isinstance(t, int):
            return self.lform(R, env, t)
        if t[0] == 'c':
            return affine.const(t[1])
        if t[0] in ('add', 'sub'):
            return affine.add(self.idx(R, env, t[1]), self.idx(R, env, t[2]), 1 if t[0] == 'add' else -1)
        if t[0] == 'mul':
            a, b = self.idx(R, env, t[1]), self.idx(R, env, t[2])
            if not b[1]:
                return affine.scale(a, b[0])
            if not a[1]:
                return affine.scale(b, a[0])
        if t[0] == 'phi' and isinstance(t[-1], int):
            lo, hi = R.itv(env, t[-1])[:2]
            if lo == hi and all(isinstance(x, tuple) and x[0] == 'i' for x, _ in R.f.insts[t[-1]].incoming) and ('i', lo) in [x[:2] for x, _ in R.f.insts[t[-1]].incoming if isinstance(x, tuple)]:
                return affine.const(lo)     # the place on this path
        if t[0] in ('phi', 'val', 'call', 'select') and isinstance(t[-1], int):
            return self.lform(R, env, t[-1])
        if t[0] == 'ld':
            n, o = self.tree(R, env, t[1])
            return affine.atom(('s', n.lstrip('&') + ('' if o == affine.const(0) else '[%s]' % self.show(o))))
        return affine.atom(('s', t[0]))

    def lform(self, R, env, v):
        R.symbolic = True
        x = affine.form(R, env, v)
        r = affine.const(x[0])
        for a, k in x[1]:
            if a[0] == 'v':
                r = affine.add(r, affine.scale(affine.atom(('s', self.atom(R, env, a[1]))), k))
            elif a[0] == 'L':
                r = affine.add(r, affine.scale(affine.atom(('s', 'words(%s)' % self.show(a[1], R, env))), k))
            else:
                r = affine.add(r, affine.scale(affine.atom(('s', str(a[0]))), k))
        return r

    def show(self, x, R=None, env=None):
        if R is not None:
            y = affine.const(x[0])
            for a, k in x[1]:
                y = affine.add(y, affine.scale(affine.atom(('s', self.atom(R, env, a[1]))) if a[0] == 'v' else affine.atom(a), k))
            x = y
        s = []
        for a, k in sorted(x[1], key=lambda t: str(t[0])):
            s.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else '%d*' % abs(k)) + str(a[1]))
        if x[0] or not s:
            s.append('%+d' % x[0])
        r = ''.join(s)
        return r[1:] if r.startswith('+') else r

    def atom(self, R, env, v, d=0):
        if isinstance(v, tuple):
            return str(v[1])
        f = R.f
        i = f.defn(v)
        if i is None:
            return 'arg%d' % v
        if i.op == 'load':
            n, o = self.tree(R, env, f.expr(i.ops[0]))
            n = n.lstrip('&')
            if o != affine.const(0) or n == 'IH':
                n += '[%s]' % self.show(o)
            return n
        if i.op == 'call':
            if i.callee in ('numberIntsInBytes', 'numberLongsInBytes', 'strlen', 'numberBytesInInts', 'i4toi8', 'i8toi4'):
                return '%s(%s)' % (i.callee, ','.join(self.val(R, env, o, d + 1) for o in i.ops))
            return (i.callee or '?') + '()'
        if i.op in FPC:
            return self.val(R, env, i.ops[0], d + 1)
        if i.op in ('sdiv', 'srem', 'fmul', 'fadd', 'fsub', 'fdiv', 'and', 'or', 'shl', 'mul') and d < 4:
            return '%s(%s)' % (i.op, ','.join(self.val(R, env, o, d + 1) for o in i.ops))
        return i.op

    def val(self, R, env, v, d=0):
        """name of a stored value"""
        v = R.rep(env, v)
        if isinstance(v, tuple):
            if v[0] in ('i', 'f'):
                return str(v[1])
            if v[0] == 'n':
                return '0'
            return str(v[1:])
        f = R.f
        i = f.defn(v)
        if i is not None and i.type == 'ptr' and i.op != 'load' or i is None and f.args[v][1] == 'ptr':
            r, o = self.root(R, env, v)
            return r if o == affine.const(0) else '%s+%s' % (r, self.show(o))
        if i is not None and i.type == 'ptr':
            r, o = self.tree(R, env, f.expr(v))
            return r
        return self.show(self.lform(R, env, v))

    def options(self, R, env, v, d=0):
        """names a stored value can have: a value chosen between others is any of them that is not a constant"""
        f = R.f
        r = R.rep(env, f.strip(R.rep(env, v)))
        i = f.defn(r) if not isinstance(r, tuple) else None
        its = []
        if i is not None and d < 3 and i.type != 'ptr':
            if i.op == 'phi':
                pos = {b: k for k, b in enumerate(f.rpo())}
                if all(pos.get(b, 0) < pos.get(i.bb, 0) for _, b in i.incoming):
                    its = [x for x, _ in i.incoming]
            elif i.op == 'select':
                its = i.ops[1:3]
        n = self.val(R, env, v, d)
        if not 1 < len(its) <= 4 or n not in ('phi', 'select'):
            return [n]
        out = []
        for x in its:
            for m in self.options(R, env, x, d + 1):
                # which of several constants is meant depends on more than the place
                if m not in out and not re.fullmatch(r'-?\d+', m):
                    out.append(m)
        return out or [n]

    # ---------- transfer function
    def start(self, R):
        return [frozenset()]

    def put(self, st, fact):
        s = set(st)
        if fact[0] == 'w':
            s = {x for x in s if not (x[0] == 'w' and x[1] == fact[1])}
        elif fact[0] == 'c':
            s = {x for x in s if not (x[0] == 'c' and x[1:3] == fact[1:3])}
        elif fact[0] == 'q':
            old = [x for x in s if x[0] == 'q' and x[1] == fact[1]]
            seq = ()
            for x in old:
                s.discard(x)
                seq = x[2]
            if not seq or seq[-1] != fact[2]:
                seq = seq + (fact[2],)
            fact = ('q', fact[1], seq[:12])
        s.add(fact)
        return frozenset(s)

    def want(self, n):
        return self.track is None or self.track(n)

    def inst(self, R, st, env, i):
        if i.op == 'store':
            n, o = self.tree(R, env, R.f.expr(i.ops[1]))
            n = n.lstrip('&')
            sym = bool(o[1])
            if not sym and (o != affine.const(0) or n == 'IH'):
                n += '[%d]' % o[0]
            if not sym and self.want(n):
                labs = self.options(R, env, i.ops[0])
                R.exec(env, i)
                return [(self.put(st, ('w', n, lab)), env if len(labs) == 1 else env.copy()) for lab in labs]
            return None
        if i.op == 'call':
            c = i.callee
            if c in self.calls:
                R.exec(env, i)
                if not R.refine(env, i.id, self.calls[c]):
                    return []
                return [(st, env)]
            base = 'llvm.memcpy' if c and c.startswith('llvm.memcpy') else c
            if base in COPY:
                s, t = COPY[base]
                if base == 'memcpy' or base == 'llvm.memcpy':
                    pass
                if base == 'zget':
                    src, so = self.val(R, env, i.ops[s]), affine.const(0)
                else:
                    src, so = self.root(R, env, i.ops[s])
                dst, do = self.root(R, env, i.ops[t])
                st2 = st
                sn = src + ('' if so == affine.const(0) else '[%s]' % self.show(so))
                if self.want(dst) or self.want(src):
                    if base in STRINGS and not dst.startswith('&zStruct'):
                        st2 = self.put(st, ('q', dst, sn))
                    else:
                        if base in COUNT:
                            sn += ' x ' + self.val(R, env, i.ops[COUNT[base]])
                        st2 = self.put(st, ('c', dst, self.show(do), sn))
                R.exec(env, i)
                return [(st2, env)]
            if base in DUP or base in INTO:
                k = INTO[base] if base in INTO else (0, None)
                src, so = self.root(R, env, i.ops[k[0]])
                me = '%s#%d' % (c, i.id) if k[1] is None else self.root(R, env, i.ops[k[1]])[0]
                if self.want(src) or self.want(me):
                    st = self.put(st, ('d', me, src, self.show(so)))
                    st = self.put(st, ('q', src, me))
                R.exec(env, i)
                return [(st, env)]
            if c in self.anchors:
                b = {self.root(R, env, i.ops[k])[0]: n for k, n in self.anchors[c].items()}
                self.out.setdefault(flat(st, b), R.f.where(i))
        if i.op == 'ret' and 'ret' in self.anchors:
            it = R.itv(env, i.ops[0]) if i.ops else (0, 0)
            if it[1] >= 0:
                self.out.setdefault(flat(st, self.anchors['ret']), R.f.where(i))
        return None


NEW = re.compile(r'^[A-Za-z_]\w*#\d+')


def flat(st, bind=None):
    """frozenset of (location, item): buffers are followed, temporary names removed"""
    w = {x[1]: x[2] for x in st if x[0] == 'w'}
    seq = {x[1]: x[2] for x in st if x[0] == 'q'}
    dup = {x[1]: (x[2], x[3]) for x in st if x[0] == 'd'}
    cop = {}
    for x in st:
        if x[0] == 'c':
            cop.setdefault(x[1], {})[x[2]] = x[3]
    home = dict(bind or {})
    for n, v in w.items():
        if NEW.match(v) and not n.startswith(('local#', 'phi#')) and '#' not in n:
            home.setdefault(v, 'IH' if n.endswith('.internalHeader') else n)
    for n in list(home):
        home['&' + n] = home[n]

    def src(t, d=0):
        """describe a copied or stored source"""
        body, _, cnt = t.partition(' x ')
        m = NEW.match(body)
        if m and d < 4:
            r = m.group(0)
            rest = body[m.end():]
            if r in cop and '0' in cop[r]:
                s = src(cop[r]['0'].split(' x ')[0], d + 1)
                return s + rest + (' x ' + cnt if cnt else '')
            if r in dup:
                s = src(dup[r][0], d + 1)
                return 'string of ' + s
            if r in seq:
                return 'strings' + (' x ' + cnt if cnt else '')
            return 'new'
        return re.sub(r'#\d+', '', t)

    out = set()
    for n, v in w.items():
        m = NEW.match(n)
        loc = n
        if m:
            if m.group(0) not in home:
                continue
            rest = n[m.end():]
            loc = home[m.group(0)] + (rest or '[0]')
        out.add((loc, src(v)))
    for r, d in cop.items():
        loc = home.get(r, r.lstrip('&'))
        if NEW.match(loc):
            continue
        for o, s in d.items():
            out.add(('%s[%s]' % (loc, re.sub(r'#\d+', '', o)) if o != '0' or loc == 'IH' else loc + '[0]', src(s)))
            b = NEW.match(s)
            if b and b.group(0) in seq:
                out.add((loc + ' strings', tuple(seq[b.group(0)])))
    for r, q in seq.items():
        loc = home.get(r)
        if loc:
            out.add((loc + ' strings', tuple(q)))
        elif any(x.lstrip('&').split('#')[0] in ('mallocAndCopy', 'mallocAndCopyTrim', 'readStringFromHeader') or x.startswith('&') for x in q):
            inv = {v: n for n, v in w.items() if NEW.match(v)}
            b = src(r + '')
            out.add(('strings of ' + b, tuple(inv.get(x, x.lstrip('&')) for x in q)))
    for n, (s, o) in dup.items():
        pass
    return frozenset(out)
