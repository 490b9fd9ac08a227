"""Incremental build of the library under test, straight from /repo's working tree.

ensure(variant, targets) -> build dir.  Objects live in /verif/.cache/<variant>; ccache
(private, in /verif/.cache/ccache) makes rebuilds of unchanged translation units cheap.
A content manifest catches files whose content changed without a newer mtime."""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
EXT = ('.cxx', '.hxx', '.txx', '.i', '.h', '.c', '.cpp', '.hpp', '.in', '.txt', '.py', '.hh')
SKIP = ('/Test', '/doc/')
VARIANTS = {
    'rel': ['-DCMAKE_CXX_FLAGS=-O1', '-DCMAKE_C_FLAGS=-O1'],
    'asan': ['-DCMAKE_CXX_FLAGS=-O1', '-DCMAKE_C_FLAGS=-O1', '-DVERIF_SAN=address'],
}
ALL = {
    'rel': ['swig_medcoupling', 'cshim', 'srshim', 'swig_MEDLoader', 'swig_MEDPartitioner', 'swig_ParaMEDMEM'],
    'asan': ['swig_medcoupling'],
}


class BuildError(Exception):
    pass


def _manifest():
    out = {}
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in files:
            if f.endswith(EXT):
                p = os.path.join(root, f)
                try:
                    with open(p, 'rb') as h:
                        out[p] = hashlib.sha1(h.read()).hexdigest()
                except OSError:
                    pass
    for f in ('CMakeLists.txt', 'MEDCoupling_version.h.in'):
        p = os.path.join(REPO, f)
        with open(p, 'rb') as h:
            out[p] = hashlib.sha1(h.read()).hexdigest()
    return out


def ensure(variant='rel', targets=('swig_medcoupling',), quiet=True):
    bdir = os.path.join(CACHE, variant)
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ)
    for k in ('LD_PRELOAD', 'LD_LIBRARY_PATH', 'PYTHONPATH', 'ASAN_OPTIONS'):
        env.pop(k, None)
    env['CCACHE_DIR'] = os.path.join(CACHE, 'ccache')
    env['CCACHE_MAXSIZE'] = '4G'
    env['CCACHE_NOHASHDIR'] = '1'
    env['CCACHE_SLOPPINESS'] = 'time_macros'
    env['PATH'] = '/usr/local/bin:/usr/bin:/bin:' + env.get('PATH', '')
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mpath = os.path.join(bdir, 'sources.json')
        try:
            old = json.load(open(mpath))
        except Exception:
            old = {'t': 0, 'files': {}}
        new = _manifest()
        now = time.time()
        for p, h in new.items():
            if old['files'].get(p, h) != h or (p not in old['files'] and old['t']):
                if os.stat(p).st_mtime <= old['t'] + 1:
                    os.utime(p, (now, now))
        log = open(os.path.join(bdir, 'build.log'), 'w')
        def run(cmd):
            r = subprocess.run(cmd, env=env, stdout=log, stderr=subprocess.STDOUT)
            log.flush()
            if r.returncode:
                tail = open(os.path.join(bdir, 'build.log')).read()[-4000:]
                raise BuildError('%s failed:\n%s' % (' '.join(cmd), tail))
        if not os.path.exists(os.path.join(bdir, 'build.ninja')) or set(new) != set(old['files']):
            run(['cmake', '-S', os.path.join(VERIF, 'build'), '-B', bdir, '-G', 'Ninja',
                 '-DPython3_EXECUTABLE=/usr/bin/python3', '-DMEDCOUPLING_REPO=' + REPO] + VARIANTS[variant])
        t0 = time.time()
        run(['ninja', '-C', bdir, '-j', str(os.cpu_count() or 8)] + list(targets))
        # 't': start of this build; anything edited later has a newer mtime
        json.dump({'t': t0, 'files': new}, open(mpath + '.tmp', 'w'))
        os.replace(mpath + '.tmp', mpath)
    return bdir


def env_for(variant, extra=()):
    bdir = os.path.join(CACHE, variant)
    S = os.path.join(REPO, 'src')
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = os.path.join(bdir, 'lib')
    env['PYTHONPATH'] = ':'.join([os.path.join(bdir, 'python'), S + '/MEDCoupling_Swig', S + '/Stat',
                                  S + '/MEDLoader/Swig', S + '/RENUMBER_Swig',
                                  S + '/ParaMEDMEM_Swig', S])
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'PYTHONDONTWRITEBYTECODE'):
        env[k] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['MEDCOUPLING_RESOURCE_DIR'] = os.path.join(REPO, 'resources')
    env['PATH'] = '/usr/local/bin:/usr/bin:/bin:' + env.get('PATH', '')
    if variant == 'asan':
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        std = subprocess.run(['gcc', '-print-file-name=libstdc++.so.6'], capture_output=True, text=True).stdout.strip()
        env['LD_PRELOAD'] = os.path.realpath(lib) + ':' + os.path.realpath(std)
        env['ASAN_OPTIONS'] = ('detect_leaks=0:detect_container_overflow=0:detect_odr_violation=0:'
                               'allocator_may_return_null=1:exitcode=99:handle_abort=1:'
                               'max_allocation_size_mb=2000:quarantine_size_mb=64:malloc_context_size=6')
    return env


if __name__ == '__main__':
    variants = sys.argv[1:] or list(ALL)
    for v in variants:
        t = time.time()
        ensure(v, ALL[v])
        print('built', v, '%.0fs' % (time.time() - t), flush=True)
