"""Shared pieces of the lock analyses (C01, C02)."""
import flow
from flow import Runner, NullClient, Env

ON, OFF = 1, 0
SEVERE = -300000000
MULTI_USER = 2          # multi-user access mode (hecdss7.h)
RELEASE = 6


def key(table, name, base=('arg', 0)):
    return ('gep', base, (('[]', 'i64', ('key', table, name)),))


def fh(name):
    """canonical address of a file header word, reached through the handle"""
    return ('gep', ('ld', key('zdssKeys', 'kfileHeader')), (('[]', 'i64', ('key', 'zdssFileKeys', name)),))


def const(R, env, v):
    it = R.itv(env, v)
    return it[0] if it[0] == it[1] else None


def constop(A, f, v):
    """constant an operand always has (literal or load of a constant global), or None"""
    if isinstance(v, tuple):
        return v[1] if v and v[0] == 'i' else None
    d = f.defn(f.strip(v)) if isinstance(f.strip(v), int) else None
    return A.const_load(f.expr(d.ops[0])) if d is not None and d.op == 'load' else None


def contexts(prog, f):
    """calling contexts of f: constant integer arguments and equal pointer arguments at its call sites"""
    out = {}
    if len([a for a in f.args if a[1] == 'ptr']) < 2:
        return [(None, Env(), {})]
    for cn, ci in prog.callers.get(f.name, []):
        g = prog.fns[cn]
        i = g.insts[ci]
        env, alias, desc = Env(), {}, []
        ex = [g.expr(g.strip(o)) for o in i.ops]
        for k, o in enumerate(i.ops):
            if k >= len(f.args):
                break
            t = f.args[k][1]
            if t.startswith('i') and ex[k][0] == 'c':
                v = ex[k][1]
                env.v[k] = (v, v, v != 0)
                desc.append((k, v))
            elif t == 'ptr':
                for j in range(k):
                    if f.args[j][1] == 'ptr' and ex[j] == ex[k] and ex[k][0] in ('arg', 'ld', 'gep', 'alloca'):
                        alias[('arg', k)] = ('arg', j)
                        desc.append((k, 'arg%d' % j))
                        break
        out.setdefault(tuple(desc), (cn, env, alias))
    return list(out.values()) or [(None, Env(), {})]


F_CMD = {0: 0, 1: 1, 2: 2, 3: 3}      # zlockDss mode -> lockf F_ULOCK, F_LOCK, F_TLOCK, F_TEST


class OsLock(NullClient):
    """state: (seek ok, command list)"""

    def __init__(self, mode, word):
        self.mode, self.word = mode, word

    def start(self, R):
        return [('none', None)]

    def inst(self, R, st, env, i):
        if i.op != 'call':
            return None
        if i.callee in ('lseek', 'lseek64'):
            off, wh = const(R, env, i.ops[1]), const(R, env, i.ops[2])
            good = off == self.word * 8 and wh == 0 and R.f.expr(R.f.strip(i.ops[0])) == ('arg', 1)
            R.exec(env, i)
            e2 = env.copy()
            R.refine(e2, i.id, (-1, -1, True))
            R.refine(env, i.id, (0, flow.BIG, False))
            return [(('seek' if good else 'badseek', None), env), (('failed', None), e2)]
        if i.callee in ('lockf', 'lockf64'):
            cmd = const(R, env, i.ops[1])
            good = st[0] == 'seek' or st[0] == 'done'
            if cmd != F_CMD[self.mode] or R.f.expr(R.f.strip(i.ops[0])) != ('arg', 1) or R.f.expr(R.f.strip(i.ops[2])) != ('arg', 4):
                good = False
            R.exec(env, i)
            out = []
            for v in (0, -1):
                e = env.copy()
                e.v[i.id] = (v, v, v != 0)
                e.c.clear()
                out.append((('done' if good else 'wrong', v), e))
            return out
        return None


def os_lock(c, modes):
    f = c.fn('zlockDss')
    for mode in sorted(modes):
        for word in (1, 1000003):
            env = Env()
            env.v[2] = (mode, mode, mode != 0)
            env.v[3] = (word, word, True)
            R = Runner(c.A, f, OsLock(mode, word), maxenv=12)
            n = 0
            for st, it, t, k in R.run(env):
                n += 1
                if st[0] == 'failed':
                    good = it[0] > 0 or it[1] < 0
                elif st[0] == 'done':
                    good = it == (0, 0, False) if st[1] == 0 else it[2]
                else:
                    good = False
                if not good:
                    c.bad('zlockDss:mode%d:%s' % (mode, st[0]), f.where(t), 'mode %d must seek to the lock word and issue lockf command %d over the given length, reporting its result' % (mode, F_CMD[mode]), R.trace(k[0]))
            if n:
                c.ok('OS lock mode', 'zlockDss mode %d' % mode)
