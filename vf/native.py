"""Native runs of the real code: replay of a failed obligation, and the bounded
stand-in when the prover gives no answer.  Never counted as proved.

The sources of the tree are compiled at -O0 with address checks and with a hook
on every function entry and exit that injects delays (see replay/common.h), and
linked with the driver of the property.  A driver prints FAILED: ... and exits
non-zero for a behaviour the property forbids, on the real code.
"""
import os, glob, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from . import build

DIR = build.VERIF + '/replay'
FLAGS = ['-std=gnu++17', '-O0', '-g1', '-w', '-pthread', '-DXDISPATCH_MAKEDLL', '-DNDEBUG', '-D_GNU_SOURCE',
         '-fsanitize=address', '-fno-omit-frame-pointer', '-finstrument-functions',
         '-finstrument-functions-exclude-file-list=replay/']
WRAP = ['pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_clockwait', 'pthread_cond_broadcast', 'pthread_cond_signal',
        '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE',
        '_ZNSt18condition_variable10notify_allEv', '_ZNSt18condition_variable10notify_oneEv']


def build_lib(work, qt=False):
    build.make_config(work + '/cfg')
    inc = ['-I' + work + '/cfg', '-I' + build.REPO + '/include', '-I' + build.REPO + '/src']
    src = sorted(glob.glob(build.REPO + '/src/*.cpp') + glob.glob(build.REPO + '/src/naive/*.cpp'))
    if qt:
        inc += ['-fPIC'] + build.QT_INC + ['-I' + build.REPO + '/src/qt5']
        src += sorted(x for x in glob.glob(build.REPO + '/src/qt5/*.cpp') if 'fallback' not in x)
        for h in glob.glob(build.REPO + '/src/qt5/*.h'):
            if 'Q_OBJECT' in open(h).read():
                src.append(build.run_moc(work, h))
    src = [s for s in src if '/libdispatch/' not in s]
    os.makedirs(work + '/nat', exist_ok=True)

    def one(s):
        o = work + '/nat/' + os.path.relpath(s, build.REPO).replace('/', '_').replace('..', '_') + '.o'
        r = subprocess.run(['g++'] + FLAGS + inc + ['-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('does not compile: %s\n%s' % (s, r.stderr[-1500:]))
        return o
    with ThreadPoolExecutor(8) as tp:
        return inc, list(tp.map(one, src))


def run(pids, work, seconds, seed=1, jobs=3):
    """-> (ok, text); ok is False when a forbidden behaviour was seen, None when nothing could be run"""
    drv = [p for p in pids if os.path.exists('%s/%s.cpp' % (DIR, p))]
    if not drv:
        return None, 'no driver'
    qt = any('// qt' == open('%s/%s.cpp' % (DIR, p)).readline().strip() for p in drv)
    inc, objs = build_lib(work, qt)
    text = []
    bad = False
    for p in drv:
        exe = '%s/nat/%s' % (work, p)
        r = subprocess.run(['g++'] + FLAGS + inc + ['-I' + DIR, '%s/%s.cpp' % (DIR, p)] + objs +
                           ['-Wl,' + ','.join('--wrap=' + w for w in WRAP), '-ldl'] + (['-lQt5Core'] if qt else []) + ['-rdynamic', '-o', exe], capture_output=True, text=True)
        if r.returncode:
            return None, 'driver %s does not build: %s' % (p, r.stderr[-1500:])

        def one(s):
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=9')
            try:
                q = subprocess.run([exe, str(seconds), str(s)], capture_output=True, text=True, timeout=seconds + 90, env=env, cwd=work)
                return s, q.returncode, (q.stderr + q.stdout)
            except subprocess.TimeoutExpired:
                return s, 99, 'no end within %d s' % (seconds + 90)
        with ThreadPoolExecutor(jobs) as tp:
            for s, rc, out in tp.map(one, [seed * 1000 + k for k in range(jobs)]):
                tail = '\n'.join(l for l in out.splitlines() if not l.startswith('[xdispatch2]'))[-3000:]
                text.append('driver replay/%s.cpp, %d s, seed %d: exit %d\n%s' % (p, seconds, s, rc, tail))
                bad = bad or rc != 0
    return (not bad), '\n'.join(text)
