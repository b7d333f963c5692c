"""C09: memory and files a library function takes for its own use are given back on every path, once."""
import multiprocessing
from own import *

WORK = {}


def one(job):
    out = look(job, 6)
    for n in (14, 32):
        if out:                 # look again, keeping more cases apart
            try:
                out = look(job, n)
            except RuntimeError:
                break
    return out


def look(job, maxenv):
    n, kinds, g = job
    A, f = WORK['A'], WORK['prog'].fns[n]
    cl = Own(f, kinds, g, WORK['keeps'], maxenv > 6)
    R = Runner(A, f, cl, maxenv=maxenv)
    out, kept = [], None
    for S, it, t, k in R.run(Env()):
        if S[0] == 'held' and kept is None:
            kept = (t, R.trace(k[0]))
    if kept:
        out.append((label(f, g, kinds) + ':kept', f.where(f.insts[g]), '%s is not given back on a path to the return' % Own.name(f, g), kept[1]))
    if cl.lost is not None and not cl.again:
        cl.bad['lost'] = (cl.lost, '%s is replaced before it was given back' % Own.name(f, g))
    for what, (i, text) in cl.bad.items():
        out.append((label(f, g, kinds) + ':' + what, f.where(i), text, None))
    return out


def bridge(f):
    return 'javaHeclib/' in f.file or 'hecdss/' in f.file


def body(c):
    A, prog = c.A, c.prog
    jobs = []
    FRESH.update(fresh(prog))
    c.notes['functions that return memory to give back'] = sorted(FRESH)
    for f in sorted(prog.fns.values(), key=lambda f: f.name):
        if bridge(f) or f.file.endswith('/sortfiles.c'):
            continue
        kinds = {i.id: makes(f, i) for i in f.all() if makes(f, i)}
        if not kinds:
            continue
        c.ok('function', f.name)
        for g in sorted(kinds):
            c.ok(kinds[g], f.where(f.insts[g]))
            jobs.append((f.name, kinds, g))
    WORK.update(A=A, prog=prog, keeps=Keeps(prog))
    with multiprocessing.get_context('fork').Pool() as pool:
        for res in pool.imap_unordered(one, jobs, chunksize=2):
            for key, where, text, tr in res:
                c.bad(key, where, text, tr)
    c.need('memory', 200)
    c.need('structure', 40)
    c.need('descriptor', 6)
    c.need('stream', 2)
    return ('for every call by which a library function takes memory, a record structure, a stream or a descriptor (%d calls in the functions '
            'of the library), every path of the function from that call to its return: the instance is given back with the call made for '
            'its kind, or handed on (stored, returned, passed to something that keeps it); it is not given back a second time, not used '
            'after that, and its variable does not take another value while it still holds it' % len(jobs),
            ['paths on which an allocation of the same function failed are not looked at (out of memory is out of scope)',
             'what is stored in a structure is that structure\'s to give back (not followed further here)',
             'the bundled GNU sort (sortfiles.c) and the Java and C bridges are left out; the bridges are the subject of C15',
             'paths through assert() failures end there'])


if __name__ == '__main__':
    main('C09', body)
