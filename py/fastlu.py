"""builds dyson/solver/lu_fast.pyx of the current tree (cached by content); None when it cannot be built"""
import hashlib, importlib.util, os, re, shutil, subprocess, sys, sysconfig, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
def build():
    import numpy
    src = os.path.join(REPO, 'dyson', 'solver', 'lu_fast.pyx')
    text = open(src).read()
    text = re.sub(r"order=\s*\[\s*'F'\s*\]", "order='F'", text)  # accepted by the numpy of that time
    h = hashlib.sha256(text.encode() + open(__file__).read().encode()).hexdigest()[:20]
    d = os.path.join(BUILD, 'lufast-' + h)
    so = os.path.join(d, 'lu_fast.so')
    if os.path.exists(so): return so
    os.makedirs(BUILD, exist_ok=True)
    t = tempfile.mkdtemp(prefix='lufast-tmp-', dir=BUILD)
    try:
        open(os.path.join(t, 'lu_fast.pyx'), 'w').write(text)
        r = subprocess.run(['/usr/bin/python3', '-c', 'from Cython.Compiler.Main import main; main(command_line=1)', '-2', 'lu_fast.pyx'], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise RuntimeError('cython: ' + r.stdout.decode()[-1500:])
        r = subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-w', '-I', numpy.get_include(), '-I', sysconfig.get_paths()['include'], 'lu_fast.c', '-o', 'lu_fast.so', '-llapack'], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise RuntimeError('gcc: ' + r.stdout.decode()[-1500:])
        try: os.rename(t, d)
        except OSError: pass
        return so
    finally:
        shutil.rmtree(t, ignore_errors=True)
def load():
    so = build()
    spec = importlib.util.spec_from_file_location('lu_fast', so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
if __name__ == '__main__': print(build())
