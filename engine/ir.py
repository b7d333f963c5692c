"""Program model over irdump's JSON (SSA form LLVM IR of the whole program)."""
import re
from collections import defaultdict

CASTS = {'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv'}


def tup(o):
    if isinstance(o, list):
        return tuple(tup(x) for x in o)
    return o


class Inst:
    __slots__ = ('id', 'op', 'type', 'line', 'file', 'name', 'ops', 'callee', 'icallee', 'succ', 'cases', 'default', 'pred', 'incoming', 'st', 'ss', 'at', 'asz', 'bb', 'pos', 'ia', 'fn', 'x')

    def __repr__(self):
        return '%%%d=%s%s%r@%d' % (self.id, self.op, ' ' + self.callee if self.callee else '', self.ops, self.line)

    @property
    def is_call(self):
        return self.op == 'call'


class Function:
    def __init__(self, name, d, prog):
        self.name = name
        self.prog = prog
        self.file = d['file']
        m = re.search(r'(heclib/.*)$', self.file)
        if m:
            self.file = m.group(1)
        self.line = d['line']
        self.static = d['static']
        self.ret = d['ret']
        self.vararg = d['vararg']
        self.args = [(a[0], a[1]) for a in d['args']]
        self.blocks = []
        self.insts = {}
        for bi, b in enumerate(d['blocks']):
            blk = []
            for pi, r in enumerate(b):
                I = Inst()
                I.fn = name
                I.id = r['i']
                I.op = r['op']
                I.type = r['t']
                I.line = r['l']
                I.file = r.get('f')
                I.ia = r.get('ia')
                I.name = r.get('n')
                I.ops = tup(r.get('o', []))
                I.callee = r.get('c')
                I.icallee = tup(r['ci']) if 'ci' in r else None
                I.pred = r.get('p')
                I.st = r.get('st')
                I.ss = r.get('ss')
                I.at = r.get('at')
                I.asz = r.get('as')
                I.incoming = tup(r['in']) if 'in' in r else None
                I.x = tup(r.get('x', []))
                I.cases = tup(r['cs']) if 'cs' in r else None
                I.default = r.get('d')
                I.succ = tuple(r['s']) if 's' in r else ()
                if I.op == 'switch':
                    I.succ = tuple(dict.fromkeys([I.default] + [c[1] for c in I.cases]))
                I.bb = bi
                I.pos = pi
                self.insts[I.id] = I
                blk.append(I)
            self.blocks.append(blk)
        self.succ = [blk[-1].succ for blk in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for i, s in enumerate(self.succ):
            for t in s:
                if i not in self.pred[t]:
                    self.pred[t].append(i)
        self._expr = {}
        self._users = None
        self._dom = None
        self._deps = None

    def __getstate__(self):
        d = dict(self.__dict__)
        d['_deps'] = None
        d['_expr'] = {}
        d['_users'] = None
        d['_dom'] = None
        return d

    def __repr__(self):
        return '<%s>' % self.name

    # -- basics ---------------------------------------------------------
    def all(self):
        for b in self.blocks:
            yield from b

    def calls(self, name=None):
        for i in self.all():
            if i.op == 'call' and (name is None or i.callee == name or (not isinstance(name, str) and i.callee in name)):
                yield i

    def rets(self):
        return [b[-1] for b in self.blocks if b[-1].op == 'ret']

    def users(self, v):
        if self._users is None:
            u = defaultdict(list)
            for i in self.all():
                seen = set()
                for o in self.operands(i):
                    if isinstance(o, int) and o not in seen:
                        seen.add(o)
                        u[o].append(i)
            self._users = u
        return self._users.get(v, [])

    @staticmethod
    def operands(i):
        if i.incoming is not None:
            return [x[0] for x in i.incoming]
        o = list(i.ops)
        if i.icallee is not None:
            o.append(i.icallee)
        return o

    def where(self, i):
        f = self.file
        if i.file:
            m = re.search(r'(heclib/.*)$', i.file)
            f = m.group(1) if m else i.file
        return '%s:%d (%s)' % (f, i.line or self.line, self.name)

    def vname(self, v):
        if isinstance(v, int):
            if v < len(self.args):
                return self.args[v][0]
            return self.insts[v].name or '%%%d' % v
        return str(v)

    def defn(self, v):
        """Instruction defining local value v (None for args/constants)."""
        if isinstance(v, int) and v >= len(self.args):
            return self.insts[v]
        return None

    def strip(self, v):
        while True:
            d = self.defn(v)
            if d is not None and d.op in CASTS:
                v = d.ops[0]
            else:
                if isinstance(v, tuple) and v and v[0] == 'e' and v[1] in CASTS:
                    v = v[3][0]
                    continue
                return v

    # -- canonical expressions -------------------------------------------
    def expr(self, v, depth=0):
        """Structural expression tree of a value; loads keep their address tree."""
        if isinstance(v, int):
            if v in self._expr:
                return self._expr[v]
            if v < len(self.args):
                r = ('arg', v)
            else:
                if depth > 60:
                    return ('val', v)
                r = self._mk(self.insts[v], depth)
            self._expr[v] = r
            return r
        k = v[0]
        if k == 'i':
            return ('c', v[1])
        if k == 'n':
            return ('c', 0)
        if k == 'g':
            return ('g', v[1])
        if k == 'f':
            return ('cf', v[1])
        if k == 'e':
            if v[1] == 'getelementptr':
                return self._gep(v[2], v[3], depth)
            if v[1] in CASTS:
                return self.expr(v[3][0], depth + 1)
            return ('ce', v[1]) + tuple(self.expr(x, depth + 1) for x in v[3])
        if k == 'u':
            return ('undef',)
        return ('?',)

    def _gep(self, st, ops, depth):
        base = self.expr(ops[0], depth + 1)
        idx = [self.expr(x, depth + 1) for x in ops[1:]]
        steps = []
        first = idx[0]
        ty = st
        if first != ('c', 0):
            steps.append(('[]', ty, first))
        for ix in idx[1:]:
            t = self.prog.types.get(ty)
            if t is not None and ix[0] == 'c':
                fld = t['fields'][ix[1]]
                fname = fld[0]
                if not steps and base[0] == 'g':
                    own = self.prog.globals.get(base[1], {}).get('fields')
                    if own:
                        fname = own[ix[1]]
                steps.append(('.', ty.lstrip('%'), fname))
                ty = fld[2]
            else:
                m = re.match(r'\[\d+ x (.*)\]$', ty)
                ty2 = m.group(1) if m else '?'
                if ix != ('c', 0) or not m:
                    steps.append(('[]', ty2, ix))
                ty = ty2
        if base[0] == 'gep':
            return ('gep', base[1], base[2] + tuple(steps)) if steps else base
        if not steps:
            return base
        return ('gep', base, tuple(steps))

    def _mk(self, i, depth):
        op = i.op
        if op in CASTS:
            return self.expr(i.ops[0], depth + 1)
        if op == 'load':
            a = self.expr(i.ops[0], depth + 1)
            if a[0] == 'gep' and a[1][0] == 'g' and len(a[2]) == 1 and a[2][0][0] == '.' and a[1][1] in KEYTABLES:
                return ('key', a[1][1], a[2][0][2])
            if a[0] == 'g' and a[1] in KEYTABLES:
                return ('key', a[1], self.prog.first_field(a[1]))
            return ('ld', a)
        if op == 'getelementptr':
            return self._gep(i.st, i.ops, depth)
        if op in BIN:
            return (op, self.expr(i.ops[0], depth + 1), self.expr(i.ops[1], depth + 1))
        if op == 'icmp' or op == 'fcmp':
            return (op, i.pred, self.expr(i.ops[0], depth + 1), self.expr(i.ops[1], depth + 1))
        if op == 'call':
            return ('call', i.callee or '?', i.id)
        if op == 'phi':
            return ('phi', i.id)
        if op == 'alloca':
            return ('alloca', i.id)
        if op == 'select':
            return ('select',) + tuple(self.expr(x, depth + 1) for x in i.ops)
        return ('val', i.id)

    def key_of_addr(self, v):
        """(base expr, table, key, extra) if v addresses base[table.key (+extra)]."""
        a = self.expr(v)
        return key_of(a)

    # -- CFG --------------------------------------------------------------
    def dominators(self):
        if self._dom is None:
            n = len(self.blocks)
            order = self.rpo()
            num = {b: k for k, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [p for p in self.pred[b] if p in idom]
                    if not ps:
                        continue
                    x = ps[0]
                    for p in ps[1:]:
                        y = p
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                    if idom.get(b) != x:
                        idom[b] = x
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb:
            return a.pos < b.pos
        idom = self.dominators()
        x = b.bb
        if x not in idom:
            return True
        while x != 0:
            x = idom[x]
            if x == a.bb:
                return True
        return a.bb == 0

    def rpo(self):
        seen = {0}
        out = []
        st = [(0, iter(self.succ[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]


KEYTABLES = {'zdssKeys', 'zdssFileKeys', 'zdssInfoKeys', 'zdssBinKeys', 'zdssVals', 'zdssErrorCodes', 'zdssErrorSeverity', 'zbinKeys'}


def key_of(a):
    """Decode base[table.key] addresses.  a: canonical address tree."""
    if a[0] == 'gep' and a[2] and a[2][-1][0] == '[]':
        ix = a[2][-1][2]
        base = ('gep', a[1], a[2][:-1]) if len(a[2]) > 1 else a[1]
        if ix[0] == 'key':
            return base, ix[1], ix[2], ('c', 0)
        if ix[0] == 'add':
            for p, q in ((1, 2), (2, 1)):
                if ix[p][0] == 'key':
                    return base, ix[p][1], ix[p][2], ix[q]
    return None


class Program:
    def __init__(self, raw, units):
        self.units = units
        self.types = raw['types']
        self.globals = raw['globals']
        self.decls = raw['decls']
        self.inlined = raw['inlined']
        self.fns = {}
        for n, d in raw['functions'].items():
            self.fns[n] = Function(n, d, self)
        self.callers = defaultdict(list)
        for f in self.fns.values():
            for c in f.calls():
                if c.callee:
                    self.callers[c.callee].append((f.name, c.id))
        # functions whose address is taken
        self.address_taken = set()
        for f in self.fns.values():
            for i in f.all():
                for o in Function.operands(i):
                    self._at(o)
        for g in self.globals.values():
            if 'init' in g:
                self._at(tup(g['init']))

    def _at(self, o):
        if isinstance(o, tuple):
            if o and o[0] == 'g' and o[1] in self.fns:
                self.address_taken.add(o[1])
            elif o and o[0] in ('e', 'a'):
                for x in o[-1]:
                    self._at(x)

    def first_field(self, g):
        if self.globals[g].get('fields'):
            return self.globals[g]['fields'][0]
        t = self.types.get(self.globals[g]['type'])
        return t['fields'][0][0] if t else '?'

    def __getitem__(self, n):
        return self.fns[n]

    def string(self, v):
        """Constant C string for a global operand, or None."""
        if isinstance(v, tuple) and v and v[0] == 'g':
            g = self.globals.get(v[1])
            if g and g['const'] and 'init' in g:
                if g['init'][0] == 's':
                    return g['init'][1].split('\0')[0]
                if g['init'][0] == 'z':
                    return ''
        return None

    def reach(self, roots):
        seen, work = set(), list(roots)
        while work:
            n = work.pop()
            if n in seen or n not in self.fns:
                continue
            seen.add(n)
            for c in self.fns[n].calls():
                if c.callee:
                    work.append(c.callee)
        return seen

    def reaches(self, targets):
        """functions that transitively call one of targets"""
        seen, work = set(), list(targets)
        while work:
            n = work.pop()
            for f, _ in self.callers.get(n, []):
                if f not in seen:
                    seen.add(f)
                    work.append(f)
        return seen
