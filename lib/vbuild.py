"""Build /repo's current working tree out of tree, in a directory keyed by the
content of the sources (so a stale build can never be used)."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

MPIENV = dict(LC_ALL='C', CC='gcc', FC='gfortran',
              OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
              OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none',
              OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
              OMPI_MCA_pml='ob1', OMPI_MCA_plm='isolated', OMPI_MCA_mpi_yield_when_idle='1')

FLAVORS = {
    'std': '-Wno-error -U_FORTIFY_SOURCE -DSCOTCH_DEBUG_ALL',
    'nodebug': '-Wno-error -U_FORTIFY_SOURCE',
}


def env():
    e = dict(os.environ)
    e.update(MPIENV)
    return e


def src_hash():
    h = hashlib.sha256()
    for top in ('CMakeLists.txt', 'cmake', 'src'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            h.update(top.encode()); h.update(open(p, 'rb').read())
            continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            if os.path.relpath(d, REPO).startswith('src/check/data'):
                continue
            for f in sorted(fs):
                q = os.path.join(d, f)
                if os.path.islink(q) or not os.path.isfile(q):
                    continue
                h.update(os.path.relpath(q, REPO).encode())
                h.update(open(q, 'rb').read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


RENAMED = ('create join detach self mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock cond_init cond_destroy '
           'cond_wait cond_signal cond_broadcast barrier_init barrier_destroy barrier_wait spin_init spin_destroy spin_lock '
           'spin_trylock spin_unlock').split()


def vsched(d):
    """The controlled scheduler, used in place of the threads of the system."""
    so = os.path.join(d, 'libvsched.so')
    src = os.path.join(VERIF, 'harness', 'vsched.c')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        r = subprocess.run(['gcc', '-O2', '-g', '-fPIC', '-shared', '-w', src, '-o', so + '.tmp', '-lpthread'], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('vsched: ' + r.stderr[-500:])
        os.rename(so + '.tmp', so)
    return so


def vmpi(d):
    """Message orders chosen at random (preloaded by the processes of distributed runs)."""
    so = os.path.join(d, 'libvmpi.so')
    src = os.path.join(VERIF, 'harness', 'vmpi.c')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        r = subprocess.run(['mpicc', '-O2', '-g', '-fPIC', '-shared', '-w', src, '-o', so + '.tmp'], capture_output=True, text=True, env=env())
        if r.returncode != 0:
            raise BuildError('vmpi: ' + r.stderr[-500:])
        os.rename(so + '.tmp', so)
    return so


def sched_flags():
    f = ' '.join('-Dpthread_%s=vs_%s' % (x, x) for x in RENAMED)
    return f + ' -Dpthread_setaffinity_np=vs_setaffinity -Dpthread_getaffinity_np=vs_getaffinity -Dsched_yield=vs_sched_yield -fsanitize=thread'


def build(targets=('scotch', 'scotcherr'), flavor='std'):
    """Returns the build directory; bin/ and lib/ are below it."""
    h = src_hash()
    flags, extra = FLAVORS[flavor] if flavor != 'sched' else FLAVORS['std'] + ' ' + sched_flags(), []
    d = os.path.join(BUILD, h + '-' + flavor)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for o in os.listdir(BUILD):                     # keep only this source version
            q = os.path.join(BUILD, o)
            if os.path.isdir(q) and not o.startswith(h) and len(o) > 21 and o[20] == '-':
                shutil.rmtree(q, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        log = open(os.path.join(d, 'build.log'), 'a')
        if flavor == 'sched':
            so = vsched(d)
            extra = ['-DCMAKE_%s_LINKER_FLAGS=-fno-sanitize=thread -Wl,--no-as-needed %s -Wl,-rpath,%s' % (k, so, d) for k in ('EXE', 'SHARED')]
            extra += ['-DBUILD_PTSCOTCH=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON']
        if not os.path.exists(os.path.join(d, 'build.ninja')):
            r = subprocess.run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja',
                                '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DBUILD_SHARED_LIBS=ON',
                                '-DENABLE_TESTS=OFF', '-DCMAKE_C_FLAGS=' + flags] + extra,
                               stdout=log, stderr=log, env=env())
            if r.returncode != 0:
                raise BuildError('cmake failed, see ' + log.name)
        t = [] if targets == 'all' else list(targets)
        r = subprocess.run(['ninja', '-C', d] + t, stdout=log, stderr=log, env=env())
        if r.returncode != 0:
            raise BuildError('ninja failed, see ' + log.name)
    return d


def helper(d, src, so, defs=(), more=()):
    """Compiles a helper of harness/ like a source file of the library (of build d), with more of the library's own files if asked."""
    import json, shlex
    out = os.path.join(d, so)
    src = os.path.join(VERIF, 'harness', src)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            return out
        cc = [x for x in json.load(open(os.path.join(d, 'compile_commands.json'))) if x['file'].endswith('/libscotch/common_thread.c')][0]
        a = shlex.split(cc['command'])
        a = a[:a.index('-o')]
        lib = os.path.join(d, 'lib')
        files = [src] + [os.path.join(REPO, 'src', 'libscotch', m) for m in more]
        a += ['-I' + os.path.join(REPO, 'src', 'libscotch'), '-I' + os.path.join(d, 'src', 'include')] + list(defs)
        a += ['-w', '-fPIC', '-shared', '-Wl,-Bsymbolic', '-fno-sanitize=undefined'] + files
        a += ['-o', out + '.tmp', '-L' + lib, '-lscotch', '-lscotcherr', '-Wl,-rpath,' + lib]
        if 'sched' in os.path.basename(d):
            k = a.index('-fsanitize=thread')
            objs = []
            for f in files:
                o = out + '.' + os.path.basename(f) + '.o'
                r = subprocess.run(a[:a.index('-shared')] + ['-c', f, '-o', o], cwd=cc['directory'], capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError('helper: ' + r.stderr[-800:])
                objs.append(o)
            r = subprocess.run(['gcc', '-shared', '-Wl,-Bsymbolic'] + objs + ['-o', out + '.tmp', os.path.join(d, 'libvsched.so'),
                                '-L' + lib, '-lscotch', '-lscotcherr', '-Wl,-rpath,' + lib + ':' + d, '-lpthread', '-lm'], capture_output=True, text=True)
        else:
            r = subprocess.run(a, cwd=cc['directory'], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('helper: ' + r.stderr[-800:])
        os.rename(out + '.tmp', out)
    return out


if __name__ == '__main__':
    print(build('all' if len(sys.argv) < 2 else sys.argv[1:]))
