"""Mechanical extraction: /repo's current sources -> LLVM IR (clang -O0), on every run.

Nothing of the code under test is rewritten or dropped: whole translation units
are compiled by clang 18 with the project's own include paths and definitions.
config.h is generated from /repo/config.h.in with the feature set the build in
this sandbox detects (naive + qt5 backends).
"""
import os, re, subprocess, hashlib, shutil, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'
FEATURES = '''BUILD_XDISPATCH2_BACKEND_NAIVE BUILD_XDISPATCH2_BACKEND_QT5 XDISPATCH2_HAVE_PRCTL
XDISPATCH2_HAVE_SETPRIORITY XDISPATCH2_HAVE_SYSCONF XDISPATCH2_HAVE_SYSCONF_SC_NPROCESSORS_ONLN
XDISPATCH2_HAVE_SOCKETPAIR XDISPATCH2_HAVE_DLSYM XDISPATCH2_HAVE_IMMINTRIN_H XDISPATCH2_BUILD_SHARED'''.split()


class ExtractError(Exception):
    pass


def make_config(dst):
    os.makedirs(dst + '/xdispatch', exist_ok=True)
    src = open(REPO + '/config.h.in').read()

    def sub(m):
        name, rest = m.group(1), m.group(2)
        return '#define %s%s' % (name, rest) if name in FEATURES else '/* #undef %s */' % name
    out = re.sub(r'#cmakedefine (\w+)(.*)', sub, src)
    with open(dst + '/xdispatch/config.h', 'w') as f:
        f.write(out)


MOC = '/usr/lib/qt5/bin/moc'
QT_INC = ['-I/usr/include/x86_64-linux-gnu/qt5', '-I/usr/include/x86_64-linux-gnu/qt5/QtCore',
          '-I/usr/include/x86_64-linux-gnu/qt5/QtGui', '-I/usr/include/x86_64-linux-gnu/qt5/QtWidgets']


def flags(work):
    return ['-std=c++14', '-O0', '-DNDEBUG', '-DXDISPATCH_MAKEDLL', '-D_GNU_SOURCE', '-I' + work + '/cfg',
            '-I' + REPO + '/include', '-I' + REPO + '/src', '-fPIC', '-pthread',
            '-S', '-emit-llvm', '-fno-discard-value-names', '-g', '-fstandalone-debug',
            '-Wno-everything']


def run_moc(work, hdr):
    """the code the Qt meta object compiler generates for a header of the repository"""
    src = work + '/moc_' + os.path.basename(hdr)[:-2] + '_qt.cpp'
    if not os.path.exists(hdr):
        raise ExtractError('source file missing: ' + hdr)
    r = subprocess.run([MOC, '-o', src, hdr], capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('moc failed on %s:\n%s' % (hdr, r.stderr[-3000:]))
    with open(src) as f:
        t = re.sub(r'#include "[^"]*%s"' % re.escape(os.path.basename(hdr)), '#include "%s"' % hdr, f.read())
    with open(src, 'w') as f:
        f.write(t)
    return src


def compile_tus(work, tus):
    """tus: list of source paths ('src/..' relative to /repo or absolute). Returns list of .ll paths."""
    make_config(work + '/cfg')

    def one(tu):
        if tu.startswith('moc:'):
            src = run_moc(work, REPO + '/' + tu[4:])
        else:
            src = tu if tu.startswith('/') else REPO + '/' + tu
        if not os.path.exists(src):
            raise ExtractError('source file missing: ' + src)
        out = work + '/' + re.sub(r'\W', '_', os.path.relpath(src, '/')) + '.ll'
        cmd = [CLANG] + flags(work)
        if 'qt' in os.path.basename(src):
            cmd += QT_INC
        cmd += [src, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise ExtractError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
        return out
    with ThreadPoolExecutor(8) as tp:
        return list(tp.map(one, tus))
