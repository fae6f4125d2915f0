#!/usr/bin/env python3
"""Lower every translation unit of /repo that the project builds to LLVM IR.

Nothing of the project is executed: clang parses and type-checks the current
working tree and emits unoptimised bitcode with debug info, one module per TU,
which are then linked (llvm-link) into one whole-program module per group.
The result is cached by a digest of every source and header that can take part.
"""
import glob, hashlib, json, os, subprocess, sys, concurrent.futures as cf, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CLANG = 'clang++'
CONFIG_H = os.path.join(VERIF, 'tool', 'cfg')

# Directories whose sources make up the project (relative to REPO).
LIBDIRS = ['msat', 'msat/hrit', 'msat/xrit', 'msat/gdal', 'msat/hri',
           'msat/msg-native', 'msat/omtp-ids', 'msat/utils']
GDALDIRS = ['gdal', 'gdal/reflectance', 'gdal/grib', 'gdal/xrit']
TOOLDIRS = ['tools', 'tools/hrit', 'tools/msg-native', 'tools/omtp-ids']
# Not built by the project in this environment (missing third-party headers) or test scaffolding.
EXCLUDE = {'msat/hrit/MSG_data_image.cpp', 'msat/utils/tests.cc', 'msat/utils/testrunner.cc',
           'msat/utils/tests-main.cc', 'gdal/msat2gdal.cpp', 'tools/hrit/XRIT2NetCDF.cpp'}


def sources():
    out = []
    for grp, dirs in (('lib', LIBDIRS), ('gdal', GDALDIRS), ('tools', TOOLDIRS)):
        for d in dirs:
            for pat in ('*.cpp', '*.cc', '*.c'):
                for f in sorted(glob.glob(os.path.join(REPO, d, pat))):
                    rel = os.path.relpath(f, REPO)
                    if rel not in EXCLUDE:
                        out.append((grp, rel))
    return out


def digest():
    h = hashlib.sha256()
    for d in LIBDIRS + GDALDIRS + TOOLDIRS:
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            p = os.path.join(REPO, d, f)
            if os.path.isfile(p) and os.path.splitext(f)[1] in ('.cpp', '.cc', '.c', '.h', '.hh', '.hpp', '.tcc', '.in'):
                h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    for f in sorted(glob.glob(os.path.join(VERIF, 'tool', 'probe', '*.cpp'))):
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


_flags = None
def flags():
    global _flags
    if _flags is None:
        def run(*a):
            r = subprocess.run(a, capture_output=True, text=True)
            return r.stdout.split() if r.returncode == 0 else []
        magick = [x for x in run('pkg-config', '--cflags', 'Magick++') if x != '-fopenmp']
        _flags = (['-D_FILE_OFFSET_BITS=64', '-I', CONFIG_H, '-I', REPO, '-I', os.path.join(REPO, 'msat'),
                   '-I', os.path.join(REPO, 'gdal'), '-I', os.path.join(REPO, 'tools')]
                  + (run('gdal-config', '--cflags') or ['-I/usr/include/gdal']) + magick + ['-w', '-Wno-register', '-fPIC'])
    return _flags


def cmd_for(rel):
    c = rel.endswith('.c')
    return (['clang'] if c else [CLANG, '-std=c++17']) + flags()


def build():
    """-> directory with <rel with / replaced>.bc, lib.bc, gdal.bc and index.json"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'ir-' + digest())
    with open(os.path.join(BUILD, 'ir.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'index.json')):
            return out
        for old in sorted(glob.glob(os.path.join(BUILD, 'ir-*')), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        srcs = sources()

        def one(s):
            grp, rel = s
            o = os.path.join(tmp, rel.replace('/', '__') + '.bc')
            r = subprocess.run(cmd_for(rel) + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-inline', '-emit-llvm', '-fstandalone-debug',
                                '-fno-discard-value-names', '-ffp-contract=off', '-fwrapv', '-c', os.path.join(REPO, rel), '-o', o],
                               capture_output=True, text=True)
            return grp, rel, o, r.returncode, r.stderr
        failed, mods = [], {'lib': [], 'gdal': [], 'tools': []}
        with cf.ThreadPoolExecutor(8) as ex:
            for grp, rel, o, rc, err in ex.map(one, srcs):
                if rc:
                    failed.append((rel, err))
                else:
                    mods[grp].append((rel, o))
        if failed:
            for rel, err in failed:
                sys.stderr.write('irbuild: cannot lower %s\n%s\n' % (rel, err[:2000]))
            raise SystemExit(2)
        # inline functions of the headers that no source uses; where they are gone there is nothing to emit
        for f in sorted(glob.glob(os.path.join(VERIF, 'tool', 'probe', '*.cpp'))):
            o = os.path.join(tmp, 'probe__' + os.path.basename(f) + '.bc')
            r = subprocess.run([CLANG, '-std=c++17'] + flags() + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-inline', '-emit-llvm', '-fstandalone-debug',
                                '-fno-discard-value-names', '-ffp-contract=off', '-fwrapv', '-c', f, '-o', o], capture_output=True, text=True)
            if not r.returncode:
                mods['lib'].append((os.path.relpath(f, VERIF), o))
        for g, ms in (('all', mods['lib'] + mods['gdal']),):
            subprocess.run(['llvm-link-18'] + [o for _, o in ms] + ['-o', os.path.join(tmp, g + '.bc')], check=True)
        json.dump({'tus': {rel: grp for grp in mods for rel, _ in mods[grp]}}, open(os.path.join(tmp, 'index.json'), 'w'))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return out


if __name__ == '__main__':
    print(build())
