"""C11: a structure frees exactly the members it owns."""
import multiprocessing
from flags import *

WORK = {}


def escapes(f, bs, base):
    """is the structure stored or handed out other than by return?"""
    for i in f.all():
        if i.op == 'store' and isinstance(i.ops[0], int) and bs.of(i.ops[0]) == base:
            return True
    return False


def run(f, bs, unit, partner, maxenv=8):
    cl = Flag(WORK, f, bs, unit, partner)
    R = Runner(WORK['A'], f, cl, maxenv=maxenv)
    outs = list(R.run(Env()))
    return cl, outs, R


def new_state(name, S, F, memo={}):
    """content and flag of a member of what a constructor returns"""
    key = (name, S, F)
    if key in memo:
        return memo[key]
    memo[key] = ('E', '?')
    f = WORK['prog'].fns.get(name)
    if f is None or not f.blocks:
        return memo[key]
    bs = Bases(f)
    got = set()
    for b in f.blocks:
        t = b[-1]
        if t.op == 'ret' and t.ops and isinstance(t.ops[0], int):
            k = bs.of(t.ops[0])
            if k is None:
                continue
            cl, outs, R = run(f, bs, (k, S, F), None)
            for st, it, t2, kk in outs:
                if t2 is not t or st[0] in ('no', 'dead'):
                    continue
                c, fl, p, old = st
                c = 'E' if isinstance(c, tuple) else c
                fl = {'s': '1', 'c': '0'}.get(fl, fl)
                got.add((c, fl))
    if len(got) == 1:
        memo[key] = got.pop()
    elif got:
        fls = {x[1] for x in got}
        cs = {x[0] for x in got} - {'null'}
        if cs <= {'E'} and fls == {'1'}:
            memo[key] = ('E', '1')
        elif fls == {'0'}:
            memo[key] = (cs.pop() if len(cs) == 1 else 'mix', '0')
        else:
            memo[key] = ('E', '?')
    return memo[key]


def units(f, bs, tab):
    """members this function stores to or whose flags it stores, with the members of other structures they take from"""
    out = {}
    for i in f.all():
        if i.op != 'store':
            continue
        a = f.expr(i.ops[1])
        m = flagof(f, a)
        if m and m[1] in tab:
            for F, k in tab[m[1]].items():
                if k == m[2]:
                    out.setdefault((bs.key(m[0]), m[1], F), set())
            continue
        m = member(f, a)
        if m and m[1] in tab and m[2] in tab[m[1]]:
            s = out.setdefault((bs.key(m[0]), m[1], m[2]), set())
            if isinstance(i.ops[0], int):
                e = f.expr(f.strip(i.ops[0]))
                if e[0] == 'ld':
                    q = member(f, e[1])
                    if q and q[1] in tab and q[2] in tab[q[1]] and (bs.key(q[0]), q[1]) != (bs.key(m[0]), m[1]):
                        s.add((bs.key(q[0]), q[1], q[2]))
    return out


class Dispatch(NullClient):
    """zstructFree for one kind of structure: which free routines are called"""

    def __init__(self, kind, routines):
        self.kind, self.routines = kind, routines

    def start(self, R):
        return [()]

    def inst(self, R, S, env, i):
        f = R.f
        is_type = i.op == 'call' and i.callee == 'zstructGetType'
        if i.op == 'load':
            e = f.expr(i.ops[0])
            is_type = e[0] == 'gep' and e[2] and e[2][-1][0] == '.' and e[2][-1][2] == 'structType'
        if is_type:
            R.exec(env, i)
            env.v[i.id] = (self.kind, self.kind, self.kind != 0)
            return [(S, env)]
        if i.op == 'call' and i.callee in self.routines:
            R.exec(env, i)
            return [(S + (i.callee,), env)]
        return None


def free_routines(c, table):
    """the free routines themselves"""
    prog, A = c.prog, c.A
    of = {}
    flags = {}
    for S, ms in sorted(table.items()):
        s = S.replace('struct.', '')
        fns = {x[0] for sites in ms.values() for x in sites}
        for n in fns:
            of.setdefault(n, set()).add(S)
        used = {}
        for F, sites in sorted(ms.items()):
            f = prog.fns[sites[0][0]]
            ks = {x[2] for x in sites}
            if len(ks) > 1 or any(len(k) > 1 for k in ks):
                c.bad('%s:%s.%s:guard' % (f.name, s, F), sites[0][1], "'%s' of %s is freed under more than one allocated[] flag: %s" % (F, s, sorted(ks)))
                continue
            k = ks.pop()
            if k:
                used.setdefault(k[0], []).append((F, sites[0]))
            c.ok('member freed under its own flag', '%s.%s %s' % (s, F, k))
        for k, xs in sorted(used.items()):
            if len(xs) > 1:
                c.bad('%s:%s:flag-%d-shared' % (xs[0][1][0], s, k), xs[1][1][1], 'one allocated[] flag of %s (%d) stands for %s' % (s, k, ' and '.join("'%s'" % x[0] for x in xs)))
        flags[S] = set(used)
        c.ok('flags of a structure', '%s %s' % (s, sorted(used)))
    for n in sorted(of):
        f = c.fn(n)
        frees = [i for i in f.calls('free') if i.ops and isinstance(i.ops[0], int) and f.strip(i.ops[0]) == 0]
        c.ok('free routine', n)
        if not frees:
            c.bad('%s:keeps-structure' % n, f.where(f.blocks[0][0]), 'the structure itself is never freed')
        for x in frees:
            after, work = set(), [x.bb]
            while work:
                for s in f.blocks[work.pop()][-1].succ:
                    if s not in after:
                        after.add(s)
                        work.append(s)
            for i in f.all():
                if (i.bb in after or i.bb == x.bb and i.pos > x.pos) and i is not x and i.op in ('load', 'store'):
                    e = f.expr(i.ops[0] if i.op == 'load' else i.ops[1])
                    if e == ('arg', 0) or e[0] == 'gep' and e[1] == ('arg', 0):
                        c.bad('%s:used-after' % n, f.where(i), 'the structure is used after it was freed')
    # every kind of structure that is made goes to the routine that frees its members
    z = c.fn('zstructFree')
    kinds = {}
    for f in prog.fns.values():
        for i in f.all():
            if i.op == 'store' and isinstance(i.ops[0], tuple) and i.ops[0][0] == 'i':
                m = member(f, f.expr(i.ops[1]))
                if m and m[2] == 'structType' and m[1] in table:
                    kinds.setdefault((m[1], i.ops[0][1]), (f, i))
    for (S, k), (f, i) in sorted(kinds.items(), key=lambda x: x[0]):
        want = {n for n in of if S in of[n]}
        s = S.replace('struct.', '')
        c.ok('kind of structure freed by its own routine', '%s %d' % (s, k))
        outs = {st for st, it, t, kk in Runner(A, z, Dispatch(k, set(of)), maxenv=8).run(Env())}
        if any(len(o) != 1 or o[0] not in want for o in outs) or not outs:
            c.bad('zstructFree:%s' % s, z.where(z.blocks[0][0]), 'zstructFree does not give a %s (structType %d, made in %s) to %s: %s' % (s, k, f.name, '/'.join(sorted(want)), sorted(outs)))
    # a flag that is set stands for a member
    for f in sorted(prog.fns.values(), key=lambda f: f.name):
        for i in f.all():
            if i.op != 'store':
                continue
            g = flagof(f, f.expr(i.ops[1]))
            if g and g[1] in flags:
                c.ok('flag', '%s %s %d' % (f.name, g[1][7:], g[2]))
                if g[2] not in flags[g[1]] and i.ops[0] != ('i', 0) and not SF.match(f.name):
                    c.bad('%s:%s:flag-%d' % (f.name, g[1][7:], g[2]), f.where(i), 'allocated[%d] of %s is set, but stands for no member that its free routine frees' % (g[2], g[1][7:]))
            m = member(f, f.expr(i.ops[1]))
            if m and m[1] in table and m[2] not in table[m[1]] and isinstance(i.ops[0], int):
                d = f.defn(f.strip(i.ops[0]))
                if d is not None and makes(f, d):
                    freed = any(x.op == 'call' and x.callee in ('free', 'realloc') or x.op == 'call' and x.callee and SF.match(x.callee) for g2 in prog.fns.values() for x in g2.all()
                                if x.op == 'call' and x.callee in ('free', 'realloc') and x.ops and isinstance(x.ops[0], int) and (lambda e: e[0] == 'ld' and (member(g2, e[1]) or (0, 0, 0))[1:] == m[1:])(g2.expr(g2.strip(x.ops[0]))))
                    c.ok('memory put in a member', '%s %s' % (f.name, m[2]))
                    if not freed:
                        c.bad('%s:%s.%s:orphan' % (f.name, m[1][7:], m[2]), f.where(i), "memory is put in '%s' of %s, which its free routine does not free" % (m[2], m[1][7:]))


def one(job):
    name, unit, partner = job
    f = WORK['prog'].fns[name]
    bs = Bases(f)
    res = []
    try:
        cl, outs, R = run(f, bs, unit, partner)
        if cl.bad:
            try:
                cl2, outs, R = run(f, bs, unit, partner, 24)
                cl.bad = {k: v for k, v in cl2.bad.items()}
            except RuntimeError:
                pass
    except RuntimeError as e:
        return [('%s:%s.%s:undecided' % (name, unit[1][7:], unit[2]), f.file, str(e), None)]
    for what, (i, text) in cl.bad.items():
        res.append(('%s:%s.%s:%s' % (name, unit[1].replace('struct.', ''), unit[2], what), f.where(i), text, None))
    return res


def body(c):
    A, prog = c.A, c.prog
    FRESH.update(fresh(prog))
    table = owned(prog)
    tab = {}
    for S, ms in table.items():
        for F, sites in ms.items():
            ks = {k for s in sites for k in s[2]}
            tab.setdefault(S, {})[F] = None if not ks else sorted(ks)[0]
    free_routines(c, table)
    WORK.update(A=A, prog=prog, flag=tab, writes=writes(prog, tab), new=new_state, esc=escapes)
    c.notes['members'] = {S[7:]: {F: k for F, k in m.items()} for S, m in tab.items()}
    jobs = []
    for f in sorted(prog.fns.values(), key=lambda f: f.name):
        if f.file.endswith('/sortfiles.c') or SF.match(f.name) or not f.blocks:
            continue
        bs = Bases(f)
        for u, ps in sorted(units(f, bs, tab).items(), key=str):
            if u[0][0] in ('alloca', 'g') or (isinstance(u[0], tuple) and u[0][:1] == ('gep',) and u[0][1][0] in ('alloca', 'g')):
                continue
            c.ok('member of a structure', '%s %s.%s' % (f.name, u[1].replace('struct.', ''), u[2]))
            for q in sorted(ps, key=str) or [None]:
                jobs.append((f.name, u, q))
    with multiprocessing.get_context('fork').Pool() as pool:
        for res in pool.imap_unordered(one, jobs, chunksize=2):
            for key, where, text, tr in res:
                c.bad(key, where, text, tr)
    c.need('member freed under its own flag', 80)
    c.need('flags of a structure', 10)
    c.need('free routine', 10)
    c.need('kind of structure freed by its own routine', 10)
    c.need('flag', 200)
    c.need('member of a structure', 310)
    return ('the free routines give the members of each record structure and the allocated[] flag each is freed under (read from them on every run). Then, for each of %d members '
            'that a function stores to or whose flag it sets or clears, every path of the function: at the return, or where the structure is freed, memory taken here is in a '
            'flagged member, what the structure does not own (an argument, an array of the caller, a member of another structure that keeps it) is in an unflagged one, no flag '
            'stands for a member that was freed, a member is not overwritten while it is the only holder of memory, and a member of a structure of the caller is freed only '
            'after a look at its flag. The free routines: one flag per member and one member per flag, every flag set anywhere stands for a member that is freed, every kind of '
            'structure reaches its own routine, which frees the structure last' % len(jobs),
            ['a member whose flag is not known on a path (it comes from the caller or from a function called) is taken to be in step with its flag',
             'a member freed by hand in a structure made here is taken to have been owned',
             'memory stored again in a later round of a loop is not followed',
             'the structures of the bundled GNU sort and the vertical datum structures (which have no allocated[] flags) are left out'])


if __name__ == '__main__':
    main('C11', body)
