'''Builds a private, importable copy of /repo's current working tree.

/repo is never written to: the package sources are copied to
/verif/.cache/src-<content hash>/ and the Cython/C++ extension is compiled
there (re-used only when every file it is compiled from has the same content).
'''
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BTA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
PKG = 'beam_telescope_analysis'
PY = '/opt/venv/bin/python'
TOP = ('setup.py', 'VERSION', 'requirements.txt', 'setup.cfg', 'MANIFEST.in', 'README.md')
SKIP_DIRS = {'testing', '__pycache__', 'converter_data'}
EXT_SUFFIX = ('.pyx', '.pxd', '.pxi', '.h', '.hpp')
GENERATED = ('analysis_functions.cpp', 'analysis_functions.c')


def _files():
    out = []
    for name in TOP:
        if os.path.isfile(os.path.join(REPO, name)):
            out.append(name)
    for root, dirs, files in os.walk(os.path.join(REPO, PKG)):
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
        for f in sorted(files):
            if f in GENERATED:
                continue
            if f.endswith(('.py',) + EXT_SUFFIX):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(out)


def _digest(files):
    h = hashlib.sha256()
    for f in files:
        with open(os.path.join(REPO, f), 'rb') as fd:
            data = fd.read()
        h.update(f.encode() + b'\0' + str(len(data)).encode() + b'\0' + data)
    return h.hexdigest()[:24]


def build_env(numba_dir=None):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1', NUMBA_NUM_THREADS='1',
               LANG=os.environ.get('LANG', 'C.UTF-8'))
    env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    if numba_dir:
        env['NUMBA_CACHE_DIR'] = numba_dir
    return env


def _prune(keep):
    try:
        entries = [os.path.join(CACHE, e) for e in os.listdir(CACHE) if e.startswith(('src-', 'ext-'))]
        entries = [e for e in entries if e not in keep]
        entries.sort(key=os.path.getmtime)
        for e in entries[:-6]:
            shutil.rmtree(e, ignore_errors=True)
    except OSError:
        pass


def prepare():
    '''Returns the directory to put first on sys.path.'''
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        files = _files()
        src = os.path.join(CACHE, 'src-' + _digest(files))
        ext_inputs = [f for f in files if f.endswith(EXT_SUFFIX) or f in ('setup.py', 'VERSION', 'requirements.txt') or f.endswith('cpp/data_struct.py')]
        ext = os.path.join(CACHE, 'ext-' + _digest(ext_inputs))
        if os.path.exists(os.path.join(src, '.ok')):
            return src
        shutil.rmtree(src, ignore_errors=True)
        for f in files:
            dst = os.path.join(src, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), dst)
        if not os.path.exists(os.path.join(ext, '.ok')):
            shutil.rmtree(ext, ignore_errors=True)
            os.makedirs(ext)
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=src, env=build_env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            built = glob.glob(os.path.join(src, PKG, 'analysis_functions.*.so'))
            if r.returncode or not built:
                raise RuntimeError('extension build failed:\n' + r.stdout.decode(errors='replace')[-4000:])
            for b in built:
                shutil.copy(b, ext)
            open(os.path.join(ext, '.ok'), 'w').close()
        for b in glob.glob(os.path.join(ext, '*.so')):
            shutil.copy(b, os.path.join(src, PKG))
        os.makedirs(os.path.join(src, '.numba'), exist_ok=True)
        open(os.path.join(src, '.ok'), 'w').close()
        _prune({src, ext})
        return src


if __name__ == '__main__':
    t = time.time()
    print(prepare(), '%.1f s' % (time.time() - t))
