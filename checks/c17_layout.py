"""C17: the layout of the file header, info blocks, pathname bins and the handle."""
from common import *
from format7 import KEYS

ID = {('zdssFileKeys', 'kendFileHeader'): -97531, ('zdssInfoKeys', 'kinfoFlag'): -97534}
HANDLE_WORDS = 250
SIZE_ONLY = {'kbinSize'}               # a size, not a position
MARKERS = {'zwriteEOF': -97532, 'zwriteEOFandFlush': -97532}


def constants(c):
    """(table, field) -> value: constant propagation over the initialisation routine"""
    p, A, st, val = c.prog, c.A, {}, {}
    for n in p.reach(['zinit']):
        f = p[n]
        for i in f.all():
            if i.op != 'store':
                continue
            a = f.expr(i.ops[1])
            if a[0] == 'g' and p.globals[a[1]]['type'].startswith('%'):
                st.setdefault((a[1], p.first_field(a[1])), []).append((f, i))
            elif a[0] == 'gep' and a[1][0] == 'g' and len(a[2]) == 1 and a[2][0][0] == '.':
                st.setdefault((a[1][1], a[2][0][2]), []).append((f, i))

    def ev(f, v, d):
        if isinstance(v, tuple):
            return v[1] if v[0] == 'i' else None
        if v < len(f.args):
            return None
        i = f.insts[v]
        if i.op in ('sext', 'zext', 'trunc', 'freeze'):
            return ev(f, i.ops[0], d)
        if i.op == 'load':
            e = f.expr(v)
            if e[0] == 'key':
                return get(e[1], e[2], d + 1)
            a = f.expr(i.ops[0])
            if a[0] == 'gep' and a[1][0] == 'g' and len(a[2]) == 1 and a[2][0][0] == '.':
                return get(a[1][1], a[2][0][2], d + 1)
            return None
        if i.op in ('add', 'sub', 'mul'):
            x, y = ev(f, i.ops[0], d), ev(f, i.ops[1], d)
            if x is None or y is None:
                return None
            return x + y if i.op == 'add' else x - y if i.op == 'sub' else x * y
        if i.op == 'call' and i.callee in p.fns:
            args = []
            for o in i.ops:
                x = ev(f, o, d)
                args.append(None if x is None else (x, x, x != 0))
            r = A.ret_itv(i.callee, tuple(args))
            return r[0] if r and r[0] == r[1] else None
        return None

    def get(t, k, d=0):
        if (t, k) not in val:
            val[t, k] = None
            if d < 400:
                vs = {ev(f, i.ops[0], d) for f, i in st.get((t, k), [])}
                val[t, k] = vs.pop() if len(vs) == 1 else None
        return val[t, k]
    for t, k in list(st):
        get(t, k)
    return val, st


def body(c):
    p = c.prog
    c.fn('zinit')
    val, st = constants(c)
    where = lambda t, k: st[t, k][0][0].where(st[t, k][0][1]) if (t, k) in st else 'zinit'
    for t, keys in KEYS.items():
        for k, want in keys.items():
            v = val.get((t, k))
            if v is None and (t, k) in st:
                raise Broken('position %s.%s is not a compile-time constant any more' % (t, k))
            c.ok('word position', '%s.%s = %s' % (t, k, v))
            if v != want:
                c.bad('%s.%s' % (t, k), where(t, k), 'word position is %s, in released version 7 files it is %s' % (v, want))
    # distinct positions, also of words added later
    for t in list(KEYS) + ['zdssKeys']:
        seen = {}
        for (t2, k), v in sorted(val.items()):
            if t2 != t or k in SIZE_ONLY:
                continue
            if v is None:
                raise Broken('position %s.%s is not a compile-time constant' % (t, k))
            c.ok('distinct position', '%s.%s = %d' % (t, k, v))
            if v in seen:
                c.bad('%s.%s:overlap' % (t, k), where(t, k), 'has the same position %d as %s' % (v, seen[v]))
            seen[v] = k
            if t == 'zdssKeys' and not 0 <= v < HANDLE_WORDS:
                c.bad('%s.%s:range' % (t, k), where(t, k), 'position %d lies outside the handle array of %d words' % (v, HANDLE_WORDS))
        # every field of the table is set
        g = p.globals[t]
        for k in g['fields']:
            if (t, k) not in st and k != '':
                used = any(i.op == 'load' and f.expr(i.id)[:3] == ('key', t, k) for f in p.fns.values() for i in f.all())
                if used:
                    c.bad('%s.%s:unset' % (t, k), 'zinit', 'position is used but never set')
    if val.get(('zdssVals', 'infoSize')) != 30:
        c.bad('infoSize', where('zdssVals', 'infoSize'), 'size of the fixed part of an info block is %s, must be 30' % val.get(('zdssVals', 'infoSize')))
    c.ok('word position', 'infoSize')
    pathlongs = KEYS['zdssInfoKeys']['kinfoPathname'] + 394 // 8
    if (val.get(('zdssVals', 'maxInfoSize')) or 0) < pathlongs:
        c.bad('maxInfoSize', where('zdssVals', 'maxInfoSize'), 'info block buffer (%s words) cannot hold the longest pathname' % val.get(('zdssVals', 'maxInfoSize')))
    c.ok('word position', 'maxInfoSize')
    # marker values written to and expected from the file
    for f in p.fns.values():
        for i in f.all():
            if i.op == 'store':
                k = flow.key_of(f.expr(i.ops[1]))
                if k and k[1:3] in ID and k[3] == ('c', 0):
                    v = f.expr(i.ops[0])
                    if v[0] == 'c':
                        c.ok('marker', f.where(i))
                        if v[1] != ID[k[1:3]]:
                            c.bad('%s:marker:%s' % (f.name, k[2]), f.where(i), 'marker written is %d, must be %d' % (v[1], ID[k[1:3]]))
            elif i.op == 'icmp':
                for a, b in (i.ops, i.ops[::-1]):
                    e = f.expr(a)
                    v = f.expr(b)
                    if e[0] == 'ld' and v[0] == 'c':
                        k = flow.key_of(e[1])
                        if k and k[1:3] in ID and k[3] == ('c', 0):
                            c.ok('marker', f.where(i))
                            if v[1] != ID[k[1:3]]:
                                c.bad('%s:marker:%s' % (f.name, k[2]), f.where(i), 'marker expected is %d, must be %d' % (v[1], ID[k[1:3]]))
    for n, want in MARKERS.items():
        f = c.fn(n)
        vals = {f.expr(i.ops[0])[1] for i in f.all() if i.op == 'store' and f.expr(i.ops[1])[0] == 'alloca' and f.expr(i.ops[0])[0] == 'c'}
        c.ok('marker', n)
        if want not in vals:
            c.bad('%s:marker' % n, f.where(next(f.all())), 'end of file word written is not %d' % want)
    c.need('word position', 130)
    c.need('distinct position', 200)
    c.need('marker', 7)
    return ('Constant propagation over the initialisation routine gives every word position; file header, info block and bin positions equal those of released version 7 files, no two positions of one table coincide, handle positions lie inside the handle, marker words have their released values.', [])


if __name__ == '__main__':
    main('C17', body)
