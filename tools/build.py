#!/usr/bin/env python3
"""Builds a harness together with every source of /repo/src (current working tree).

usage: build.py HARNESS.cpp [--flavor asan|fast] -> prints the path of the executable
Objects are cached by content hash in /verif/build (git-ignored); nothing is written to /repo."""
import hashlib, os, re, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
PYINC = ['-I/usr/include/python3.12']
FLAVORS = {
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,null,vptr', '-fno-omit-frame-pointer'],
    'fast': ['-O2', '-g1'],
}
LINK = {'asan': ['-fsanitize=address,undefined'], 'fast': []}
COMMON = ['-std=c++11', '-w', '-fpermissive', '-D_GLIBCXX_ASSERTIONS']

def numpy_inc():
    return subprocess.check_output(['/usr/bin/python3', '-c', 'import numpy;print(numpy.get_include())'], text=True).strip()

def sources(SRC, extra_exclude=()):
    out = []
    for root, d, files in os.walk(SRC):
        d.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, SRC)
            if not f.endswith('.cpp') or f.endswith('_test.cpp') or rel in ('main.cpp', 'test.cpp') or rel in extra_exclude:
                continue
            out.append(p)
    return out

def overlay(subs):
    """Copy of /repo/src with (relative path, regex, replacement) substitutions applied; returns (dir, counts)."""
    if not subs:
        return SRC, []
    h = hashlib.sha256(repr(subs).encode())
    files = []
    for root, d, fs in os.walk(SRC):
        d.sort()
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp', '.cpp')):
                p = os.path.join(root, f)
                c = open(p, 'rb').read()
                rel = os.path.relpath(p, SRC)
                files.append((rel, c)); h.update(rel.encode()); h.update(c)
    dst = os.path.join(BUILD, 'src-' + h.hexdigest()[:16])
    counts = [0] * len(subs)
    done = os.path.exists(dst)
    tmp = dst + '.%d' % os.getpid()
    for rel, c in files:
        for i, (r, rx, rep) in enumerate(subs):
            if r == rel:
                s, n = re.subn(rx, rep, c.decode(), flags=re.M)
                counts[i] += n; c = s.encode()
        if not done:
            o = os.path.join(tmp, rel)
            os.makedirs(os.path.dirname(o), exist_ok=True)
            open(o, 'wb').write(c)
    if not done:
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp)
    return dst, counts

SMALLK = ('utility/momentum.h', r'const int MAX_K = \d+;', 'const int MAX_K = %d;')
def smallk(n):
    return (SMALLK[0], SMALLK[1], SMALLK[2] % n)

def headers_hash(SRC):
    h = hashlib.sha256()
    for base in (SRC, os.path.join(VERIF, 'cpp')):
        for root, d, files in os.walk(base):
            d.sort()
            for f in sorted(files):
                if f.endswith(('.h', '.hpp')) or f == 'main.cpp':
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

class BuildError(Exception):
    pass

def build(harness, flavor='asan', defines=(), only=None, subs=()):
    """only: optional list of src-relative .cpp files to link (default: all)."""
    os.makedirs(BUILD, exist_ok=True)
    SRC, counts = overlay(list(subs))
    hh = headers_hash(SRC)
    flags = COMMON + FLAVORS[flavor] + ['-D' + d for d in defines]
    inc = ['-I' + SRC, '-I' + os.path.join(VERIF, 'cpp'), '-isystem', numpy_inc()] + PYINC
    srcs = sources(SRC) if only is None else [os.path.join(SRC, s) for s in only]
    def obj(p):
        fl = flags + ['-include', os.path.join(VERIF, 'cpp', 'py2shim.h')]
        key = hashlib.sha256((hh + p + ' '.join(fl)).encode() + open(p, 'rb').read()).hexdigest()[:24]
        o = os.path.join(BUILD, key + '.o')
        if not os.path.exists(o):
            tmp = o + '.%d.tmp' % os.getpid()
            r = subprocess.run(['g++', '-c', p, '-o', tmp] + fl + inc, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError('compiling %s failed:\n%s' % (p, r.stderr[-3000:]))
            os.replace(tmp, o)
        return o
    with ThreadPoolExecutor(max_workers=8) as ex:
        objs = list(ex.map(obj, [harness] + srcs))
    key = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, os.path.basename(harness)[:-4] + '-' + key)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++', '-o', tmp] + objs + LINK[flavor] + ['-lpython3.12', '-lpthread', '-ldl'], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('linking failed:\n' + r.stderr[-3000:])
        os.replace(tmp, exe)
    return exe

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('harness'); ap.add_argument('--flavor', default='asan')
    a = ap.parse_args()
    try:
        print(build(os.path.abspath(a.harness), a.flavor))
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(1)
