"""Build and cache the program facts (IR, normalised dumps) for the current /repo tree."""
import os, sys, json, hashlib, subprocess, fcntl, glob, pickle, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import irbuild
REPO, BUILD = irbuild.REPO, irbuild.BUILD


class Broken(Exception):
    """The analysis could not be carried out (vanished anchor, tool failure): neither pass nor violation."""


def _sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


def _llvm_flags():
    out = subprocess.run(['llvm-config-18', '--cxxflags'], capture_output=True, text=True, check=True).stdout.split()
    return [x for x in out if not x.startswith('-std=')] + ['-std=c++17']


def irtool():
    src = os.path.join(VERIF, 'tool', 'src', 'irtool.cpp')
    exe = os.path.join(BUILD, 'irtool-' + _sha(src))
    with _Lock('irtool'):
        if not os.path.exists(exe):
            tmp = exe + '.tmp'
            r = subprocess.run(['clang++', '-O1', '-w'] + _llvm_flags() + ['-fno-rtti', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                               capture_output=True, text=True)
            if r.returncode:
                raise Broken('cannot build irtool: ' + r.stderr[:3000])
            os.rename(tmp, exe)
    return exe


def tool(name):
    src = os.path.join(VERIF, 'tool', 'src', name + '.cpp')
    exe = os.path.join(BUILD, name + '-' + _sha(src))
    with _Lock(name):
        if not os.path.exists(exe):
            tmp = exe + '.tmp'
            r = subprocess.run(['clang++', '-O1', '-w'] + _llvm_flags() + ['-fno-rtti', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                               capture_output=True, text=True)
            if r.returncode:
                raise Broken('cannot build %s: %s' % (name, r.stderr[:3000]))
            os.rename(tmp, exe)
    return exe


def excdump(module='all'):
    """call graph with exception edges of the whole program, or of one translation unit (cached)"""
    d, exe = ir(), tool('exctool')
    out = os.path.join(d, 'exc-%s-%s.json' % (module.replace('/', '__'), os.path.basename(exe)))
    with _Lock('exc-' + module.replace('/', '__')):
        if not os.path.exists(out):
            r = subprocess.run([exe, os.path.join(d, module.replace('/', '__') + '.bc'), out + '.tmp'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO))
            if r.returncode:
                raise Broken('exctool failed: ' + r.stderr[:2000])
            os.rename(out + '.tmp', out)
    return json.load(open(out))


_ir = None
def ir():
    global _ir
    if _ir is None:
        try:
            _ir = irbuild.build()
        except SystemExit:
            raise Broken('the current tree does not lower to LLVM IR')
    return _ir


def dump(mode, module, keep=''):
    """module: 'all' or a source path relative to /repo.  -> parsed JSON (cached)"""
    d = ir()
    exe = irtool()
    bc = os.path.join(d, 'all.bc' if module == 'all' else module.replace('/', '__') + '.bc')
    if not os.path.exists(bc):
        raise Broken('no IR for ' + module)
    key = hashlib.sha256(('%s|%s|%s|%s' % (mode, module, keep, os.path.basename(exe))).encode()).hexdigest()[:16]
    pk = os.path.join(d, 'dump-%s.pickle' % key)
    with _Lock('dump-' + key):
        if not os.path.exists(pk):
            out = os.path.join(d, 'dump-%s.json' % key)
            env = dict(os.environ, VERIF_REPO=REPO)
            r = subprocess.run([exe, mode, bc, out, keep], capture_output=True, text=True, env=env)
            if r.returncode:
                raise Broken('irtool %s failed on %s: %s' % (mode, module, r.stderr[:2000]))
            with open(out) as f:
                j = json.load(f)
            os.unlink(out)
            with open(pk + '.tmp', 'wb') as f:
                pickle.dump(j, f, protocol=pickle.HIGHEST_PROTOCOL)
            os.rename(pk + '.tmp', pk)
            return j
    with open(pk, 'rb') as f:
        return pickle.load(f)
