#!/usr/bin/python3
"""Build /repo's current working tree into /verif/.cache/b (out of tree, offline).

A lean configuration (core, pkg/common, pkg/dem, py; no GUI/VTK/CGAL/flow) compiled with -O1, so that
even a change of a core header rebuilds well inside a check's time limit.  ninja does the incremental
work; because sources may be replaced by files with an OLD time stamp (git checkout, cp -a), content
hashes decide what changed and such files get a new mtime (content is never touched).
Exit: 0 ok, 3 build failed.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('VF_REPO', '/repo') if os.environ.get('VF_ANY') else '/repo'
C = V + '/.cache'; B = C + '/b'
LOG = C + '/build.log'

def env():
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'LD_PRELOAD', 'CXXFLAGS', 'CFLAGS', 'LDFLAGS', 'OMP_NUM_THREADS'):
        e.pop(k, None)
    e.update(HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8',
             PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             CCACHE_DIR=C + '/ccache', CCACHE_TEMPDIR=C + '/ccache/tmp', CCACHE_MAXSIZE='6G', CCACHE_NOSTATS='1',
             CCACHE_SLOPPINESS='time_macros,include_file_mtime,include_file_ctime')
    return e

def run(cmd, **kw):
    with open(LOG, 'ab') as f:
        f.write(('\n$ ' + ' '.join(cmd) + '\n').encode()); f.flush()
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env(), **kw).returncode

TOP = ['core', 'lib', 'pkg', 'gui', 'py', 'cMake']
EXTRA = ['scripts/checks-and-tests/checks', 'examples/test/performance', 'doc']

def sources():
    out = {}
    for t in TOP + ['CMakeLists.txt']:
        p = os.path.join(REPO, t)
        if os.path.isfile(p): fs = [p]
        else:
            fs = []
            for d, dn, fn in os.walk(p):
                dn[:] = [x for x in dn if x != '__pycache__']
                fs += [os.path.join(d, f) for f in fn if not f.endswith('.pyc')]
        for f in fs:
            try:
                with open(f, 'rb') as fh: out[os.path.relpath(f, REPO)] = hashlib.sha1(fh.read()).hexdigest()
            except OSError: pass
    return out

def configure():
    old = B + '/chunks.old'
    shutil.rmtree(old, ignore_errors=True); os.makedirs(old)
    for f in os.listdir(B):
        if f.endswith('.cpp') and f.split('.')[0] in ('core', 'pkg', 'lib'):
            os.rename(B + '/' + f, old + '/' + f)
    rc = run(['cmake', '-S', REPO, '-B', B, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
        '-DCMAKE_BUILD_TYPE=Release', '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
        '-DCMAKE_CXX_COMPILER_LAUNCHER=ccache', '-DCMAKE_C_COMPILER_LAUNCHER=ccache',
        '-DCMAKE_CXX_FLAGS=-w -DYADE_VERIF -DSUITESPARSE_VERSION_4 -include /opt/vp/py3compat/py2names.h',
        '-DCMAKE_CXX_FLAGS_RELEASE=-std=gnu++14 -O1',
        '-DCMAKE_INSTALL_PREFIX=' + B + '/inst', '-DCMAKE_SKIP_RPATH=OFF', '-DCHUNKSIZE=3', '-DNOSUFFIX=ON',
        '-DYADE_VERSION=sandbox', '-DPYTHON_EXECUTABLE=/usr/bin/python3',
        '-DPYTHON_INCLUDE_DIR=/usr/include/python3.12',
        '-DPYTHON_LIBRARY=/usr/lib/x86_64-linux-gnu/libpython3.12.so',
        '-DPY_minieigen=/usr/lib/python3/dist-packages', '-DPY_Tkinter=/usr/lib/python3.12/tkinter',
        '-DENABLE_GTS=OFF', '-DENABLE_GUI=OFF', '-DENABLE_VTK=OFF', '-DENABLE_CGAL=OFF', '-DENABLE_PFVFLOW=OFF',
        '-DENABLE_TWOPHASEFLOW=OFF', '-DENABLE_LINSOLV=OFF', '-DENABLE_LBMFLOW=OFF', '-DENABLE_GL2PS=OFF'])
    if rc: return rc
    for f in os.listdir(old):
        a, b = old + '/' + f, B + '/' + f
        if os.path.exists(b) and open(a, 'rb').read() == open(b, 'rb').read(): os.replace(a, b)
    return 0

TSAN = """core/ForceContainerParallel core/InteractionContainer core/Clump core/Interaction pkg/common/InteractionLoop pkg/common/Dispatching
 pkg/dem/NewtonIntegrator pkg/common/InsertionSortCollider pkg/common/Collider pkg/dem/ElasticContactLaw pkg/dem/CohesiveFrictionalContactLaw
 pkg/dem/GlobalStiffnessTimeStepper pkg/common/KinematicEngines pkg/dem/ScGeom pkg/dem/Ig2_Sphere_Sphere_ScGeom pkg/dem/Ig2_Facet_Sphere_ScGeom
 pkg/dem/FrictPhys pkg/dem/HertzMindlin pkg/dem/ViscoelasticPM""".split()
def build_t():
    """The controlled OpenMP runtime, and the translation units with parallel code compiled so that their memory accesses call it
    (they take the place of their twins in libyade)."""
    import concurrent.futures as cf
    T = C + '/t'; os.makedirs(T, exist_ok=True); t0 = time.time()
    lock = open(C + '/build.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    h = hashlib.sha1((json.dumps(sources(), sort_keys=True) + open(V + '/vf/rt/vgomp.cpp').read() + ' '.join(TSAN)).encode()).hexdigest()
    if os.path.exists(T + '/ok') and open(T + '/ok').read() == h: return 0
    if run(['g++', '-O1', '-fPIC', '-shared', '-std=gnu++17', '-w', V + '/vf/rt/vgomp.cpp', '-o', T + '/libvgomp.so', '-ldl']): print('vbuild: vgomp failed'); return 3
    db = json.loads(subprocess.check_output(['ninja', '-t', 'compdb'], cwd=B, env=env()))
    cmd = [x['command'] for x in db if x['file'].endswith('/core.0.cpp')][0].split(' -MD ')[0].split()
    tus = [t for t in TSAN if os.path.exists('%s/%s.cpp' % (REPO, t))]; n = (len(tus) + 7) // 8
    def one(k):
        src = '%s/u%d.cpp' % (T, k); o = '%s/u%d.o' % (T, k)
        open(src, 'w').write(''.join('#include <%s.cpp>\n' % t for t in tus[k * n:k * n + n]))
        return None if run(cmd + ['-fsanitize=thread', '-o', o, '-c', src], cwd=B) else o
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex: os_ = list(ex.map(one, range((len(tus) + n - 1) // n)))
    if None in os_: print('vbuild: instrumented compile failed, see', LOG); return 3
    L = B + '/inst/lib/x86_64-linux-gnu/yade'
    if run(['g++', '-shared', '-o', T + '/libyt.so'] + os_ + [T + '/libvgomp.so', '-L' + L, '-lyade', '-Wl,-rpath,' + L, '-Wl,-rpath,' + T]): print('vbuild: instrumented link failed'); return 3
    open(T + '/ok', 'w').write(h)
    print('vbuild: instrumented units built (%.1f s)' % (time.time() - t0))
    return 0

def main():
    t0 = time.time()
    os.makedirs(B, exist_ok=True); os.makedirs(C + '/ccache/tmp', exist_ok=True)
    lock = open(C + '/build.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    open(LOG, 'w').close()
    src = sources()
    stamp = C + '/stamp.json'
    try: prev = json.load(open(stamp))
    except Exception: prev = {'src': {}, 'time': 0, 'ok': False}
    if prev.get('src') == src and prev.get('ok') and os.path.exists(B + '/inst/ok'):
        print('vbuild: up to date (%.1f s)' % (time.time() - t0)); return 0
    # force new mtimes on changed files that look older than the last build
    changed = [f for f in src if prev['src'].get(f) != src[f]]
    if prev['time']:
        for f in changed:
            p = os.path.join(REPO, f)
            if os.stat(p).st_mtime <= prev['time'] + 2: os.utime(p)
    json.dump({'src': src, 'time': time.time(), 'ok': False}, open(stamp, 'w'))
    conf_changed = [f for f in set(src) ^ set(prev['src'])] or [f for f in changed if f.endswith('CMakeLists.txt') or f.startswith('cMake/')]
    if not os.path.exists(B + '/build.ninja') or conf_changed:
        if configure(): print('vbuild: configure failed, see', LOG); return 3
    if run(['ninja', '-C', B]):
        # one retry: a generated chunk may be stale
        if run(['ninja', '-C', B, '-j6']): print('vbuild: compile failed, see', LOG); return 3
    shutil.rmtree(B + '/inst', ignore_errors=True)
    if run(['cmake', '--install', B]): print('vbuild: install failed'); return 3
    if run(['/usr/bin/python3', '/opt/vp/py3compat/convert.py', B + '/py3cache', B + '/inst/lib', B + '/inst/bin/yade', B + '/inst/bin/yade-batch']):
        print('vbuild: convert failed'); return 3
    open(B + '/inst/ok', 'w').close()
    json.dump({'src': src, 'time': time.time(), 'ok': True}, open(stamp, 'w'))
    print('vbuild: built (%d sources changed, %.1f s)' % (len(changed), time.time() - t0))
    return 0
if __name__ == '__main__': sys.exit(main() or ('--all' in sys.argv and build_t()) or 0)
