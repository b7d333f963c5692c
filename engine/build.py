"""Compile /repo's current working tree to LLVM IR and load it.

Every check calls load().  The products are keyed by a hash over all the inputs
(sources, headers, CMake files, this engine), so a change in /repo is always
seen; the cache directory (/verif/.cache, git-ignored) only saves time between
checks run one after another on the same tree.
"""
import hashlib, json, os, pickle, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('HEC_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))


class Broken(Exception):
    """The analysis itself cannot be carried out (error exit, never 0 or 1)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tool():
    src = os.path.join(HERE, 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'irdump-' + h)
    if not os.path.exists(exe):
        flags = [f for f in subprocess.check_output([LLVM + '/llvm-config', '--cxxflags'], text=True).split() if f != '-DNDEBUG']
        ld = subprocess.check_output([LLVM + '/llvm-config', '--ldflags'], text=True).split()
        tmp = exe + '.%d' % os.getpid()
        r = sh(['g++', '-O1', *flags, '-std=c++17', '-fno-rtti', '-fno-exceptions', src, '-o', tmp, *ld, '-lLLVM-18'])
        if r.returncode:
            raise Broken('cannot build irdump:\n' + r.stdout[-3000:])
        os.replace(tmp, exe)
    return exe


def inputs_hash():
    h = hashlib.sha256()
    for base in ('heclib', 'cmake'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = sorted(x for x in ds if x not in ('.git', '_build'))
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.cmake', '.in')) or f == 'CMakeLists.txt':
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b'\0')
                    h.update(open(p, 'rb').read() + b'\0')
    for p in (os.path.join(REPO, 'CMakeLists.txt'), os.path.join(HERE, 'irdump.cpp'), os.path.join(HERE, 'known_functions.txt'), os.path.join(HERE, 'build.py'), os.path.join(HERE, 'ir.py')):
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


TARGETS = ('heclib/heclib_c/', 'heclib/hecdss/', 'heclib/javaHeclib/')


def compile_db(work):
    cfg = os.path.join(work, 'cfg')
    cmd = ['cmake', '-S', REPO, '-B', cfg, '-G', 'Ninja', '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_BUILD_TYPE=',
           '-DCMAKE_C_FLAGS=-O1 -g -Wno-error', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON',
           '-DFETCHCONTENT_SOURCE_DIR_ZLIB=/opt/vp/shim/zlib', '-DFETCHCONTENT_SOURCE_DIR_DSS_TEST_DATA=/opt/vp/shim/dss-test-data',
           '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON']
    env = dict(os.environ, JAVA_HOME='/usr/lib/jvm/java-17-openjdk-amd64', LC_ALL='C.UTF-8')
    r = sh(cmd, env=env)
    if r.returncode:
        raise Broken('cmake configure of /repo failed:\n' + r.stdout[-3000:])
    seen, out = set(), []
    for e in json.load(open(os.path.join(cfg, 'compile_commands.json'))):
        f = os.path.realpath(e['file'])
        rel = os.path.relpath(f, REPO)
        if rel.startswith(TARGETS) and f.endswith('.c') and f not in seen:
            seen.add(f)
            args = shlex.split(e['command'])[1:]
            keep, i = [], 0
            while i < len(args):
                a = args[i]
                if a in ('-o', '-c'):
                    i += 2
                    continue
                if a.startswith(('-I', '-D', '-U', '-std')):
                    keep.append(a)
                    if a in ('-I', '-D', '-U'):
                        i += 1
                        keep.append(args[i])
                elif a in ('-isystem', '-include'):
                    keep += [a, args[i + 1]]
                    i += 1
                i += 1
            if not any(a.startswith('-std') for a in keep):
                keep.append('-std=gnu99')
            out.append((rel, e['directory'], keep))
    if len(out) < 400:
        raise Broken('only %d translation units found in the build (432 on the pinned tree)' % len(out))
    return sorted(out)


def compile_all(work, db):
    bc = os.path.join(work, 'bc')
    os.makedirs(bc)

    def one(t):
        rel, d, flags = t
        o = os.path.join(bc, rel.replace('/', '__') + '.bc')
        r = sh([LLVM + '/clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fPIC', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-Wno-error=implicit-int', '-fno-inline', *flags, '-emit-llvm', '-c', os.path.join(REPO, rel), '-o', o], cwd=d)
        return rel, o, r.returncode, r.stdout
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(one, db))
    bad = [(r[0], r[3]) for r in res if r[2]]
    if bad:
        raise Broken('clang cannot compile: ' + '; '.join('%s: %s' % (a, b[-400:]) for a, b in bad[:3]))
    return [r[1] for r in res]


def load():
    import ir
    exe = tool()
    key = inputs_hash()
    os.makedirs(CACHE, exist_ok=True)
    pk = os.path.join(CACHE, 'prog-%s.pickle' % key)
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    work = tempfile.mkdtemp(prefix='hecir-')
    try:
        db = compile_db(work)
        bcs = compile_all(work, db)
        out = os.path.join(work, 'ir.json')
        r = sh([exe, out, os.path.join(HERE, 'known_functions.txt'), '-', *bcs])
        if r.returncode:
            raise Broken('irdump failed: ' + r.stdout[-2000:])
        with open(out) as f:
            raw = json.load(f)
        prog = ir.Program(raw, [d[0] for d in db])
        sys.setrecursionlimit(100000)
        tmp = pk + '.%d' % os.getpid()
        with open(tmp, 'wb') as f:
            pickle.dump(prog, f, protocol=4)
        os.replace(tmp, pk)
        olds = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith('prog-') and x.endswith('.pickle')), key=os.path.getmtime)
        for o in olds[:-4]:
            os.unlink(o)
        return prog
    finally:
        shutil.rmtree(work, ignore_errors=True)
