"""C21: squeezing or copying a file never loses its contents.

Typestate of the two files of a squeeze (path sensitive), coverage of the copying loops by
linear forms over one round of the loop, and the table of record states."""
from common import *
from flow import Runner, NullClient, Env, BIG
from locks import key, const
import loops as loopmod
from loops import Walker, loops
from affine import add, scale, const as num
import affine

OK0 = (0, 0, False)
GOOD, ERR = (-1, BIG, False), (-BIG, -300000000, True)


def root(f, v):
    e = f.expr(f.strip(v)) if not isinstance(v, tuple) else None
    while e is not None and e[0] == 'gep':
        e = e[1]
    return e


class Squeeze(NullClient):
    """state: (original, copy, facts about the copy, original's handle closed, copy's handle closed, original's header read again)"""

    def __init__(self, c, f):
        self.c, self.f = c, f
        self.h0 = ('arg', 0)
        self.orig, self.temp, self.h1 = set(), set(), set()
        for i in f.calls():
            if i.callee == 'charLong' and f.expr(f.strip(i.ops[0])) == ('ld', key('zdssKeys', 'kfullFilename', self.h0)):
                self.orig.add(root(f, i.ops[1]))
            if i.callee == 'zopenInternal' and root(f, i.ops[0]) != self.h0:
                self.h1.add(root(f, i.ops[0]))
                self.temp.add(root(f, i.ops[1]))
        if not (len(self.orig) == len(self.temp) == len(self.h1) == 1) or self.orig & self.temp:
            raise Broken('zsqueeze7: the two files of the squeeze were not recognised')
        self.temp = next(iter(self.temp))
        self.orig = next(iter(self.orig))
        self.h1 = next(iter(self.h1))
        self.seen = {}

    def which(self, v):
        e = root(self.f, v)
        return 'orig' if e == self.orig else 'temp' if e == self.temp else None

    def handle(self, v):
        e = root(self.f, v)
        return 'orig' if e == self.h0 else 'temp' if e == self.h1 else None

    def fd(self, v):
        e = self.f.expr(self.f.strip(v))
        return 'orig' if e == ('ld', key('zdssKeys', 'khandle', self.h0)) else 'temp' if e == ('ld', key('zdssKeys', 'khandle', self.h1)) else None

    def start(self, R):
        return [('intact', 'stale', frozenset(), False, False, False)]

    def report(self, k, i, text, R):
        self.c.bad('zsqueeze7:' + k, self.f.where(i), text)

    def split(self, R, env, i, good, st, bad, rng=OK0):
        """good state when the result is in rng, bad state otherwise"""
        R.exec(env, i)
        self.seen[i.id] = i
        e2 = env.copy()
        out = []
        if R.refine(env, i.id, rng):
            out.append((good, env))
        neg = (-BIG, BIG, True) if rng == OK0 else ERR
        if R.refine(e2, i.id, neg):
            out.append((bad, e2))
        return out

    def inst(self, R, st, env, i):
        if i.op != 'call':
            return None
        c = i.callee
        o, t, fx, oc, tc, rd = st
        whole = fx >= {'copied', 'flushed', 'read', 'checked'}
        if c in ('unlink', 'remove', 'unlinkat', '_unlink', 'deleteFile'):
            w = self.which(i.ops[0])
            if w == 'temp':
                if o not in ('intact', 'back'):
                    self.report('copy-deleted:' + o, i, 'the squeezed copy is deleted while the original is %s' % o, R)
                return self.split(R, env, i, (o, 'none', frozenset(), oc, tc, rd), st, (o, 'none', frozenset(), oc, tc, rd))
            if w == 'orig':
                if not whole:
                    self.report('deleted-early', i, 'the original is deleted before the copy was %s' % '/'.join(sorted({'copied', 'flushed', 'read', 'checked'} - fx)), R)
                elif not (oc and tc):
                    self.report('deleted-open', i, 'the original is deleted while a file is open: what is not written yet is lost', R)
                return self.split(R, env, i, ('gone', t, fx, oc, tc, rd), st, st)
            self.report('deletes-other', i, 'a file that is neither the original nor the copy is deleted', R)
            return None
        if c == 'rename':
            a, b = self.which(i.ops[0]), self.which(i.ops[1])
            if (a, b) == ('orig', 'temp'):
                if o != 'intact' or not oc or t not in ('none', 'stale'):
                    self.report('moved', i, 'the original is renamed while %s' % ('it is open' if not oc else 'it is %s and the copy %s' % (o, t)), R)
                return self.split(R, env, i, ('moved', t, fx, oc, tc, rd), st, st)
            if (a, b) == ('temp', 'orig'):
                if o == 'moved':
                    return self.split(R, env, i, ('intact', 'none', fx, oc, tc, rd), st, st)
                if not (o == 'gone' and whole and tc):
                    self.report('replaced', i, 'the copy takes the name of the original before it is complete and closed', R)
                return self.split(R, env, i, ('back', 'none', fx, oc, tc, rd), st, st)
            self.report('rename-other', i, 'a rename involves a file that is neither the original nor the copy', R)
            return None
        if c in ('ftruncate', 'ftruncate64', '_chsize', 'truncate'):
            w = self.fd(i.ops[0])
            if w == 'orig':
                if not whole:
                    self.report('truncated-early', i, 'the original is emptied before the copy was %s' % '/'.join(sorted({'copied', 'flushed', 'read', 'checked'} - fx)), R)
                if const(R, env, i.ops[1]) != 0:
                    self.report('truncated-part', i, 'the original is not emptied before the copy is put in its place', R)
                return self.split(R, env, i, ('gone', t, fx, oc, tc, rd), st, st)
            self.report('truncates-other', i, 'a file other than the original is truncated', R)
            return None
        if c == 'copyFile':
            if self.handle(i.ops[0]) != 'temp' or self.fd(i.ops[1]) != 'orig' or o != 'gone':
                self.report('copied-back', i, 'the contents copied back are not those of the copy, or the original was not emptied', R)
            return self.split(R, env, i, ('filled', t, fx, oc, tc, rd), st, st)
        if c == 'flushFile' and self.fd(i.ops[0]) == 'orig':
            return self.split(R, env, i, ('back' if o == 'filled' else o, t, fx, oc, tc, rd), st, st)
        if c in ('zopenInternal', 'zclose', 'zcopyFile', 'zflushToDisk', 'zpermRead', 'zcheckPathnameBins') and i.ops:
            w = self.handle(i.ops[0])
            if c == 'zopenInternal':
                n = self.which(i.ops[1])
                if w != n:
                    self.report('opens-wrong', i, 'the %s is opened under the name of the %s' % (w, n), R)
                if w == 'temp':
                    if t == 'stale':
                        self.report('stale-copy', i, 'the copy is opened without a left-over file of that name being deleted first', R)
                    if const(R, env, i.ops[3]) is not None and False:
                        pass
                    return self.split(R, env, i, (o, 'open', frozenset(), oc, False, rd), st, (o, 'open', frozenset(), oc, True, rd), GOOD)
                if o not in ('intact', 'back'):
                    self.report('opened-missing', i, 'the original is opened while it is %s: a new, empty file would be created' % o, R)
                return self.split(R, env, i, (o, t, fx, False, tc, o == 'back'), st, (o, t, fx, True, tc, rd), GOOD)
            if c == 'zclose':
                if w == 'temp':
                    return self.split(R, env, i, (o, t, fx, oc, True, rd), st, st, GOOD)
                return self.split(R, env, i, (o, t, fx, True, tc, rd), st, st, GOOD)
            if c == 'zcopyFile':
                if w != 'orig' or self.handle(i.ops[1]) != 'temp' or const(R, env, i.ops[2]) != 0 or o != 'intact' or oc:
                    self.report('copies-wrong', i, 'what is copied is not all valid records of the original', R)
                return self.split(R, env, i, (o, t, frozenset({'copied'}), oc, tc, rd), st, (o, t, frozenset(), oc, tc, rd), GOOD)
            if w == 'temp' and c == 'zflushToDisk' and const(R, env, i.ops[1]):
                return self.split(R, env, i, (o, t, fx | ({'flushed'} if 'copied' in fx else set()), oc, tc, rd), st, st)
            if c == 'zpermRead':
                if w == 'temp':
                    return self.split(R, env, i, (o, t, fx | ({'read'} if 'flushed' in fx else set()), oc, tc, rd), st, st, GOOD)
                return self.split(R, env, i, (o, t, fx, oc, tc, o in ('filled', 'back')), st, st, GOOD)
            if w == 'temp' and c == 'zcheckPathnameBins':
                return self.split(R, env, i, (o, t, fx | ({'checked'} if 'copied' in fx else set()), oc, tc, rd), st, st, GOOD)
        return None


def squeeze(c):
    f = c.fn('zsqueeze7')
    cl = Squeeze(c, f)
    R = Runner(c.A, f, cl, maxenv=24)
    n = 0
    ends = set()
    for st, it, t, k in R.run():
        o = st[0]
        ends.add((o, it[1] >= -1))
        if it[1] < 0 or it[0] > 0 or it[2]:
            continue
        n += 1
        if o not in ('intact', 'back'):
            c.bad('zsqueeze7:success:' + o, f.where(t), 'success is reported while the original is %s' % o, R.trace(k[0]))
        elif o == 'back' and not st[5]:
            c.bad('zsqueeze7:old-header', f.where(t), 'the handle keeps the header of the old file after the squeezed one took its place', R.trace(k[0]))
    for i in cl.seen.values():
        c.ok('step of the squeeze', '%s %s' % (f.where(i), i.callee))
    c.need('step of the squeeze', 24)
    if ('back', True) not in ends:
        raise Broken('zsqueeze7: no path puts the squeezed file in place')
    c.ok('way a squeeze ends', None, len(ends))
    # nothing else deletes, renames or empties files
    allowed = {'zsqueeze7': None, 'deleteFile': 'the caller names the file', 'zcatInternalSort': 'temporary sort files', 'cleanup': 'temporary sort files', 'zaptemp': 'temporary sort files'}
    for callee in ('unlink', 'remove', 'rename', 'ftruncate', 'ftruncate64', 'truncate', 'unlinkat', 'rmdir', 'renameat', 'copyFile'):
        for fn, i in c.prog.callers.get(callee, ()):
            c.ok('call that destroys a file', '%s %s' % (c.prog[fn].where(c.prog[fn].insts[i]), callee))
            if fn not in allowed:
                if callee == 'copyFile' and const_arg(c.prog[fn], c.prog[fn].insts[i], 1) == 0:
                    continue
                c.bad('%s:%s' % (fn, callee), c.prog[fn].where(c.prog[fn].insts[i]), '%s calls %s: only the squeeze and the sort of temporary files do that' % (fn, callee))
    c.need('call that destroys a file', 15)


def const_arg(f, i, k):
    v = f.strip(i.ops[k])
    return v[1] if isinstance(v, tuple) and v[0] == 'i' else None


def outer(W, f, want):
    """the outermost loop that contains a call of want"""
    r = [h for h, body in W.loops.items() if any(i.op == 'call' and i.callee in want for b in body for i in f.blocks[b])]
    r = [h for h in r if not any(h != g and h in W.loops[g] for g in r)]
    if not r:
        raise Broken('%s: the loop around %s was not found' % (f.name, '/'.join(want)))
    return r


def phis(f, h):
    return [i for i in f.blocks[h] if i.op == 'phi']


def entry_form(W, f, h, phi):
    """value a loop variable starts with"""
    i = f.insts[phi]
    body = W.loops[h]
    r = set()
    for x, q in i.incoming:
        if q not in body:
            r.add(x if isinstance(x, tuple) else ('v', x))
    return r


def starts(W, f, h, phi):
    """form of the constant a loop variable starts with, or None"""
    e = entry_form(W, f, h, phi)
    v = next(iter(e)) if len(e) == 1 else None
    return num(v[1]) if v and v[0] == 'i' else None


def whole_copy(c):
    """copyFile: the blocks read and written follow each other from 0 to the end of file mark"""
    f = c.fn('copyFile')

    def client(p, i, W):
        if i.op == 'call' and i.callee in ('zreadDisk', 'zwriteDisk'):
            p.events += ((i.callee, tuple(W.form(p, o) for o in i.ops), i.id),)
            W.exec(p, i)
            q = p.copy()
            ok = p.facts.assume(W.form(p, i.id), 0, 0)
            q.facts.differ(W.form(q, i.id))
            q.events += (('failed', i.id),)
            return ([p] if ok else []) + [q]
        return None
    loopmod.NONNEG.add('zdssFileKeys.kfileSize')
    W = Walker(c.A, f, client)
    hs = outer(W, f, ('zreadDisk',))
    c.A.aclass  # noqa
    for h in hs:
        body = W.loops[h]
        size = None
        W.steps = 0
        # rounds: cut paths at the first failure
        ps, inv = W.rounds(h)
        rounds = 0
        for p in ps:
            if any(e[0] == 'failed' for e in p.events):
                continue
            rd = [e for e in p.events if e[0] == 'zreadDisk']
            wr = [e for e in p.events if e[0] == 'zwriteDisk']
            if not rd:
                continue
            rounds += 1
            w = f.where(f.insts[rd[0][2]])
            if len(rd) != 1 or len(wr) > 1:
                raise Broken('copyFile: more than one block is copied in a round of the loop')
            tohandle = affine.atom(('arg', 1))
            copying = bool(wr) or p.facts.range(tohandle)[1] > 0
            if wr:
                if wr[0][1][2:] != rd[0][1][2:]:
                    c.bad('copyFile:block', w, 'the block written is not the block read (address, array or length differs)')
                if wr[0][1][0] != tohandle:
                    c.bad('copyFile:target', w, 'the block is not written to the target')
            elif p.facts.range(tohandle)[1] > 0:
                c.bad('copyFile:not-written', w, 'a block read is not written to the target')
            a, n = rd[0][1][2], rd[0][1][4]
            if not a[1]:
                c.bad('copyFile:same-block', w, 'every round of the copy reads the same block')
                continue
            if len(a[1]) != 1 or a[1][0][1] != 1 or a[0] != 0 or a[1][0][0][0] != 'phi':
                raise Broken('copyFile: the address of a block is not a variable of the loop')
            ph = a[1][0][0][1]
            if entry_form(W, f, h, ph) != {('i', 0, 64)}:
                c.bad('copyFile:start', w, 'the copy does not start at the beginning of the file')
            if n[1] and len(n[1]) > 6:
                raise Broken('copyFile: length of a block not understood')
            end = add(scale(a, 2), n)               # 4-byte words
            fsize = [x for x in {y for q in ps for e in q.events if e[0] == 'zreadDisk' for y, _ in e[1][4][1]} if x[0] == 'ld' and affine.name(x[1]) == 'zdssFileKeys.kfileSize']
            if p.exit[0] == 'latch':
                nxt = W.incoming(p, ph, p.exit[1])
                d = add(scale(nxt, 2), end, -1)
                if d != num(0):
                    # the last block is followed by nothing
                    last = fsize and add(end, add(scale(affine.atom(fsize[0]), 2), num(2)), -1) == num(0)
                    if not last or p.facts.range(d)[0] < 0 and False:
                        c.bad('copyFile:gap', w, 'the next block does not start where this one ends')
                c.ok('round of the whole-file copy', 'next block follows')
            elif wr:
                if not fsize:
                    raise Broken('copyFile: the file size does not bound the copy')
                fin = add(end, add(scale(affine.atom(fsize[0]), 2), num(2)), -1)
                if fin != num(0) and p.facts.range(fin)[0] < 0:
                    c.bad('copyFile:short', w, 'the copy can end before the end of file mark was written')
                c.ok('round of the whole-file copy', 'copy ends at the mark')
        if not rounds:
            raise Broken('copyFile: no complete round')


def scan(c):
    """zcopyFile: every word of the file is looked at, and each valid record found is copied"""
    f = c.fn('zcopyFile')
    copy = ('zcopyRecordInternal', 'zcopyRecord')

    def client(p, i, W):
        if i.op == 'call' and i.callee in ('zget', 'zcompareRecordStatus') + copy:
            p.events += ((i.callee, tuple(W.form(p, o) for o in i.ops), i.id),)
        if i.op == 'load':
            d = f.defn(f.strip(i.ops[0]))
            if d is not None and d.op == 'getelementptr' and isinstance(d.ops[-1], int) and str(d.st).startswith('[') or d is not None and d.op == 'getelementptr' and d.st == 'i64' and isinstance(d.ops[-1], int):
                p.events += (('word', W.form(p, d.ops[-1])),)
        return None
    W = Walker(c.A, f, client)
    for h in outer(W, f, copy):
        body = W.loops[h]
        inner = [g for g in W.loops if g != h and g in body and any(i.op == 'call' and i.callee in copy for b in W.loops[g] for i in f.blocks[b])]
        if len(inner) != 1:
            raise Broken('zcopyFile: expected one loop over the words of a block')
        g = inner[0]
        for p in W.rounds(h)[0]:
            gets = [e for e in p.events if e[0] == 'zget']
            if p.exit[0] == 'leave' and any(x for x in [p.exit[1]] if returns_error(c, f, x)):
                continue
            if p.exit[0] == 'leave':
                sz = [a for a in W_atoms(p) if a[0] == 'ld' and affine.name(a[1]) == 'zdssFileKeys.kfileSize']
                ok = False
                for i in phis(f, h):
                    for a in sz:
                        lo = p.facts.range(add(affine.atom(('phi', i.id)), affine.atom(a), -1))[0]
                        ok = ok or lo >= 0
                c.ok('end of the scan')
                if not ok and not gets:
                    c.bad('zcopyFile:ends-early', f.name, 'the scan can end before the end of the file')
                continue
            if p.exit[0] != 'latch':
                continue
            if not any(e == ('loop', g) for e in p.events):
                c.bad('zcopyFile:skips-block', f.name, 'a block is read (or skipped) without looking for records in it')
                continue
            if len(gets) != 1:
                raise Broken('zcopyFile: expected one read per block')
            adr, buf, n = gets[0][1][1:4]
            if not adr[1]:
                c.bad('zcopyFile:same-block', f.where(f.insts[gets[0][2]]), 'every round of the scan reads the same block')
                continue
            if len(adr[1]) != 1 or adr[0] or adr[1][0][0][0] != 'phi':
                raise Broken('zcopyFile: the address of a block is not a variable of the loop: %s' % (adr,))
            ph = adr[1][0][0][1]
            w = f.where(f.insts[gets[0][2]])
            if entry_form(W, f, h, ph) != {('i', 0, 64)}:
                c.bad('zcopyFile:start', w, 'the scan does not start at the beginning of the file')
            nxt = W.incoming(p, ph, p.exit[1])
            d = add(nxt, add(adr, n), -1)
            c.ok('block of the scan')
            if p.facts.range(d)[1] > 0:
                c.bad('zcopyFile:gap', w, 'the next block starts behind the end of this one: the words between are not scanned')
            cap = capacity(c, f, buf)
            if cap is not None and p.facts.range(n)[1] > cap // 8:
                c.bad('zcopyFile:buffer', w, 'a block of %s words is read into an array of %d' % (p.facts.range(n)[1], cap // 8))
            # words looked at: from 0 in steps of 1 to n
        # inner loop
        W2 = Walker(c.A, f, client)
        for p in W2.rounds(g)[0]:
            if p.exit[0] == 'leave' and returns_error(c, f, p.exit[1]):
                continue
            if p.exit[0] == 'leave':
                lens = [W2.form(type(p)(), i.ops[3]) for i in f.calls('zget') if i.bb in body and i.bb not in W2.loops[g]]
                seen = num(1 if any(e[0] == 'word' for e in p.events) else 0)     # the word of this round was looked at
                if not any(p.facts.range(add(seen, add(add(affine.atom(('phi', i.id)), starts(W2, f, g, i.id), -1), n, -1)))[0] >= 0 for i in phis(f, g) if starts(W2, f, g, i.id) for n in lens):
                    c.bad('zcopyFile:block-end', f.name, 'the search for records can stop before the end of a block')
                c.ok('end of a block')
                continue
            if p.exit[0] == 'ret':
                continue
            # a variable that goes up by one; the word looked at lies as far from the first as the variable from its start
            cand = []
            for i in phis(f, g):
                s0 = starts(W2, f, g, i.id)
                if s0 and W2.incoming(p, i.id, p.exit[1]) == add(affine.atom(('phi', i.id)), num(1)):
                    idx = [e[1] for e in p.events if e[0] == 'word']
                    if idx and idx[0] == add(affine.atom(('phi', i.id)), s0, -1):
                        cand.append(i)
            if not cand:
                c.bad('zcopyFile:stride', f.name, 'a word of a block is skipped by the search for records')
                continue
            c.ok('word of the scan')
            if any(e[0] in copy for e in p.events):
                continue
            # not copied: only because it is no record, or not wanted
            why = skip_reason(c, W2, f, p)
            if not why:
                c.bad('zcopyFile:not-copied', f.name, 'a record can be passed over although its mark, name length and status are right (lines %s)' % ' '.join(str(f.blocks[b][0].line) for b in p.blocks if f.blocks[b][0].line))
            else:
                c.ok('reason to pass over a word', why)
    c.need('end of a block', 1)
    c.need('word of the scan', 3)
    c.need('reason to pass over a word', 3)


def W_atoms(p):
    s = set()
    for k in p.facts.iv:
        for a, _ in k:
            s.add(a)
    return s


def capacity(c, f, buf):
    if len(buf[1]) == 1 and buf[0] == 0:
        a = buf[1][0][0]
        e = a[1] if a[0] == 'adr' else None
        if a[0] == 'val':
            i = f.insts.get(a[1])
            if i is not None and i.op == 'alloca':
                return i.asz
        while e is not None and e[0] == 'gep':
            e = e[1]
        if e is not None and e[0] == 'alloca':
            return f.insts[e[1]].asz
    return None


def returns_error(c, f, b):
    """block b leads straight to a return of a value that is not a constant (an error code)"""
    seen = set()
    while b not in seen:
        seen.add(b)
        if any(i.op == 'call' and i.callee in ('zerrorUpdate', 'zerrorProcessing', 'zerrorEncodeHigh') for i in f.blocks[b]):
            return True
        s = f.succ[b]
        if len(s) != 1:
            return False
        b = s[0]
    return False


def skip_reason(c, W, f, p):
    """the fact on this path that makes the word no wanted record"""
    for e in p.events:
        if e[0] == 'zcompareRecordStatus':
            x = W.form(p, e[2])
            if p.facts.range(x) == (0, 0):
                return 'status not wanted'
    # mark differs: (a word of the block) - flag != 0, with the flag a constant
    flag = c.A.const_load(('g', 'DSS_INFO_FLAG')) if False else None
    for k, v in p.facts.ne:
        if len(k) == 1 and k[0][0][0] == 'ld' and v * k[0][1] == FLAG:
            return 'no mark'
    for k, (lo, hi) in p.facts.iv.items():
        if len(k) == 1 and k[0][0][0] == 'ld' and k[0][1] == 1:
            n = W.cls(k[0][0][1])
            if n[0] == 'alloca' or True:
                if hi <= 0:
                    return 'no name length'
                if lo >= 393:
                    return 'name length too long'
    return None


FLAG = -97534


def table(c):
    """zcompareRecordStatus: what is asked for with 'valid'"""
    f = c.fn('zcompareRecordStatus')
    want = {(1, 0): 1, (0, 0): 1, (2, 0): 1, (11, 0): 0, (12, 0): 0, (10, 0): 0, (13, 0): 0, (15, 0): 0, (1, 1): 1, (2, 1): 0, (11, 1): 0, (2, 2): 1, (1, 2): 0, (11, 11): 1, (1, 11): 0, (12, 11): 0, (12, 12): 1, (1, 12): 0, (11, 12): 0,
            (1, 100): 1, (2, 100): 1, (11, 100): 1, (12, 100): 1}
    for (a, b), r in want.items():
        env = Env()
        env.v.update({0: (a, a, a != 0), 1: (b, b, b != 0)})
        R = Runner(c.A, f, NullClient(), maxenv=8)
        for _, it, t, k in R.run(env):
            c.ok('record state wanted', '%d for %d' % (a, b))
            if it[0] > 0 and not r or it[1] <= 0 and r or it[0] != it[1] and (it[0] <= 0 < it[1]):
                c.bad('zcompareRecordStatus:%d:%d' % (a, b), f.where(t), 'a record of state %d is%s taken for state %d' % (a, ' not' if r else '', b))


KEEP = {'kinfoTypeVersion', 'kinfoExpansion', 'kinfoLastWriteTime', 'kinfoProgram', 'kinfoFirstDate', 'kinfoCreationTime'}
MAYSET = {'info', 'pathname', 'pathnameLength', 'totalAllocatedSize', 'totalExpandedSize', 'internalHeader', 'internalHeaderNumber'}


class Record(NullClient):
    """state: (phase, info words set back, date words handed over)"""

    def __init__(self, c, f):
        self.c, self.f = c, f
        self.n = 0

    def start(self, R):
        return [('new', frozenset(), frozenset())]

    def keyname(self, v, table):
        e = self.f.expr(v) if isinstance(v, int) else None
        if e and e[0] == 'gep' and e[2][-1][0] == '[]' and e[2][-1][2][0] == 'key' and e[2][-1][2][1] == table:
            return e[2][-1][2][2], e[1]
        return None, None

    def loaded(self, v, table):
        v = self.f.strip(v)
        e = self.f.expr(v) if isinstance(v, int) else None
        if e and e[0] == 'ld' and e[1][0] == 'gep' and e[1][2][-1][0] == '[]' and e[1][2][-1][2][0] == 'key' and e[1][2][-1][2][1] == table:
            return e[1][2][-1][2][2]
        return None

    def inst(self, R, st, env, i):
        ph, back, dates = st
        f = self.f
        if i.op == 'store':
            n, base = self.keyname(i.ops[1], 'zdssInfoKeys')
            if n:
                src = self.loaded(i.ops[0], 'zdssInfoKeys')
                x = f.defn(f.strip(i.ops[0]))
                if src != n and not (x is not None and x.op == 'call' and x.callee == 'i4toi8'):
                    self.c.bad('zcopyRecordInternal:' + n, f.where(i), 'the word %s of a copied record does not come from the record copied' % n)
                R.exec(env, i)
                return [((ph, back | {n}, dates), env)]
            n, base = self.keyname(i.ops[1], 'zdssKeys')
            if n in ('kdataFirstDate', 'kdataLastDate'):
                if self.loaded(i.ops[0], 'zdssInfoKeys') != n.replace('kdata', 'kinfo'):
                    self.c.bad('zcopyRecordInternal:' + n, f.where(i), 'the date %s of a copied record does not come from the record copied' % n)
                R.exec(env, i)
                return [((ph, back, dates | {(n, base)}), env)]
            e = f.expr(i.ops[1])
            if e[0] == 'gep' and e[2][-1][0] == '.' and e[2][-1][1] == 'struct.zStructTransfer' and e[2][-1][2] not in MAYSET:
                self.c.bad('zcopyRecordInternal:' + e[2][-1][2], f.where(i), 'the copy changes %s of the record' % e[2][-1][2])
            return None
        if i.op != 'call':
            return None
        if i.callee == 'zstructTransferNew':
            if const(R, env, i.ops[1]) != 1:
                self.c.bad('zcopyRecordInternal:areas', f.where(i), 'not all areas of the record are asked for')
            return None
        if i.callee == 'zreadInternal':
            R.exec(env, i)
            return [(('read', back, dates), env)]
        if i.callee == 'zwrite':
            if ph != 'read':
                self.c.bad('zcopyRecordInternal:unread', f.where(i), 'a record is written that was not read')
            h = f.expr(f.strip(i.ops[0]))
            if {n for n, b in dates if b == h} != {'kdataFirstDate', 'kdataLastDate'}:
                self.c.bad('zcopyRecordInternal:dates', f.where(i), 'the first and last date of the record are not handed to the copy')
            R.exec(env, i)
            if not R.refine(env, i.id, GOOD):
                return []
            return [(('written', frozenset(), dates), env)]
        if i.callee in ('stringCopy', 'memcpy', 'llvm.memcpy.p0.p0.i64', 'copyLong'):
            n, _ = self.keyname(i.ops[0], 'zdssInfoKeys')
            m, _ = self.keyname(i.ops[2] if i.callee == 'stringCopy' else i.ops[1], 'zdssInfoKeys')
            if n and n == m:
                R.exec(env, i)
                return [((ph, back | {n}, dates), env)]
        if i.callee == 'zput':
            if ph == 'written':
                self.n += 1
                miss = KEEP - back
                if miss:
                    self.c.bad('zcopyRecordInternal:lost:' + '/'.join(sorted(miss)), f.where(i), 'the copy does not keep %s of the record' % '/'.join(sorted(miss)))
                R.exec(env, i)
                if R.refine(env, i.id, GOOD):
                    return [(('put', back, dates), env)]
                return []
        return None


def record(c):
    f = c.fn('zcopyRecordInternal')
    cl = Record(c, f)
    R = Runner(c.A, f, cl, maxenv=8)
    for st, it, t, k in R.run():
        if it[1] < 0 or it[0] > 0 or it[2]:
            continue
        c.ok('copied record', st[0])
        if st[0] != 'put':
            c.bad('zcopyRecordInternal:success:' + st[0], f.where(t), 'a record is reported as copied when it was only ' + st[0], R.trace(k[0]))
    if not cl.n:
        raise Broken('zcopyRecordInternal: the info block of the copy is not written')
    c.need('copied record', 1)


def body(c):
    record(c)
    squeeze(c)
    whole_copy(c)
    scan(c)
    table(c)
    c.need('record state wanted', 20)
    return ('path-sensitive typestate over the two files of a squeeze (original intact/moved/gone/filled/back, copy copied+flushed+read+checked, handles closed), each step split into success and failure; '
            'linear forms of addresses and lengths over every path through one round of the copying loops; constant propagation through the table of record states; inventory of the calls that delete, rename or truncate files.',
            ['unlink, rename and ftruncate leave the file as it was when they fail', 'the Windows branches are not compiled',
             'version 6 files are outside'])


if __name__ == '__main__':
    main('C21', body)
