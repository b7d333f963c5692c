"""Failure propagation: once a storage-layer call has failed on a path, the
function must itself return a failure (bottom-up over the call graph)."""
import flow
from flow import Runner, NullClient, Env, join, meet, trange, BIG

# external sources: name -> index of the requested-count operand or None
SOURCES = {'read': 2, 'write': 2, 'lseek': None, 'lseek64': None, 'fsync': None, 'fdatasync': None}
# error reporting and message output: not part of the data path
REPORTING = ('zmessage', 'zerror', 'zcloseLog', 'zopenLog', 'zlog')
STATUS_FAIL = (-(1 << 31) + 1, -2, True)


def reporting(n):
    return n is not None and n.startswith(REPORTING)


class FailClient(NullClient):
    """state: 'ok' (no failure so far) or the id of the call that failed."""

    def __init__(self, EF):
        self.EF = EF

    def start(self, R):
        return ['ok']

    def inst(self, R, st, env, i):
        if i.op != 'call' or i.callee is None or st != 'ok':
            return None
        EF = self.EF
        c = i.callee
        if c == 'zerrorProcessing' and EF.raise_events:
            R.exec(env, i)
            r = R.itv(env, i.id)
            if r[1] <= -300000000:
                return [(i.id, env)]
            return [(st, env)]
        if c in SOURCES or c in EF.failing:
            if EF.ignore(R.f, i):
                return None
            R.exec(env, i)
            e2 = env.copy()
            if c in SOURCES:
                fail = (-1, BIG, False) if SOURCES[c] is not None else (-1, -1, True)
                if SOURCES[c] is not None:
                    e2.ne = e2.ne | {frozenset((i.id, R.rep(env, R.f.strip(i.ops[SOURCES[c]]))))}
                okv = (0, BIG, False)
            else:
                fail = EF.failing[c]
                okv = None
            e2.v[i.id] = fail
            e2.c.clear()
            if okv is not None:
                env.v[i.id] = okv
                env.c.clear()
            return [(st, env), (i.id, e2)]
        return None


class ErrFlow:
    def __init__(self, A, fail_of=None, ignore=None, raise_events=True, skip=()):
        self.A = A
        self.prog = A.prog
        self.failing = {}
        self.fail_of = fail_of or {}      # function -> interval that means failure (default STATUS_FAIL)
        self.ignore = ignore or (lambda f, i: False)
        self.raise_events = raise_events
        self.skip = set(skip)
        self.bad = []                     # (function, site inst, ret inst, itv, trace)
        self.swallow = []                 # functions without a status that call failing ones
        self.sites = []
        self.funcs = []

    def reach(self):
        seen, work = set(), list(SOURCES) + (['zerrorProcessing'] if self.raise_events else [])
        while work:
            n = work.pop()
            for f, _ in self.prog.callers.get(n, []):
                if f not in seen and not reporting(f) and f not in self.skip:
                    seen.add(f)
                    work.append(f)
        return seen

    def order(self):
        reach = self.reach()
        seen, out = set(), []
        for n0 in sorted(reach):
            if n0 in seen:
                continue
            st = [(n0, iter([c.callee for c in self.prog[n0].calls() if c.callee in reach]))]
            seen.add(n0)
            while st:
                x, it = st[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c)
                        st.append((c, iter([k.callee for k in self.prog[c].calls() if k.callee in reach])))
                        break
                else:
                    out.append(x)
                    st.pop()
        return out

    def isfail(self, name, it):
        w = self.fail_of.get(name, STATUS_FAIL)
        if it is None:
            return False
        if w == 'nonzero':
            return it[2]
        return it[0] >= w[0] and it[1] <= w[1]

    def run(self):
        order = self.order()
        pos = {n: k for k, n in enumerate(order)}
        # back edges of the call graph: assume the standard contract
        for n in order:
            for c in self.prog[n].calls():
                if c.callee in pos and pos[c.callee] >= pos[n] and self.prog[c.callee].ret == 'i32':
                    self.failing.setdefault(c.callee, flow.ERR)
        for n in order:
            f = self.prog[n]
            sites = [i for i in f.calls() if (i.callee in SOURCES or i.callee in self.failing or i.callee == 'zerrorProcessing' and self.raise_events) and not self.ignore(f, i)]
            if not sites:
                self.failing.pop(n, None)
                continue
            hasret = f.ret in ('i32', 'i64', 'ptr') and (f.ret == 'i32' or n in self.fail_of)
            if not hasret:
                self.swallow.append((n, sites))
                continue
            R = Runner(self.A, f, FailClient(self))
            outs = R.run()
            self.funcs.append(n)
            self.sites += [(n, i) for i in sites]
            fi = None
            bad = {}
            for st, it, t, key in outs:
                if st == 'ok':
                    continue
                if self.isfail(n, it):
                    fi = it if fi is None else join(fi, it)
                else:
                    bad.setdefault(st, []).append((t, it, R.trace(key[0])))
            if fi is None:
                fi = self.fail_of.get(n, flow.ERR) if not bad else None
            if fi == 'nonzero':
                fi = (-(1 << 31), (1 << 31) - 1, True)
            if fi is not None:
                self.failing[n] = fi
            else:
                self.failing.pop(n, None)
            for s, b in bad.items():
                self.bad.append((n, f.insts[s], b))
        return self
