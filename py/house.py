"""D18 commands that cancel jobs and clean the working folder"""
import os, shutil, sys, tempfile, subprocess, runpy
REPO = os.environ.get('VERIF_REPO', '/repo')
SCR = tempfile.mkdtemp(prefix='house', dir=os.getcwd())
import atexit
OWN = os.getpid()
for i, a in enumerate(sys.argv[:-1]):
    if a in ('--out', '--status', '--replay', '--shrink', '--corpus'): sys.argv[i + 1] = os.path.abspath(sys.argv[i + 1])
atexit.register(lambda: os.getpid() == OWN and shutil.rmtree(SCR, ignore_errors=True))
from pbt import *
TREE = next(p for p in sys.path if os.path.exists(os.path.join(p, 'killthemall.py')))
BIN, CALLS = os.path.join(SCR, 'bin'), os.path.join(SCR, 'calls')
os.mkdir(BIN)
for n in ('qdel', 'qsig', 'qstat', 'qsub', 'kill', 'pkill', 'killall'):
    with open(os.path.join(BIN, n), 'w') as f: f.write('#!/bin/sh\n{ printf "%%s" %s; for a in "$@"; do printf "\\t%%s" "$a"; done; echo; } >> "%s"\n' % (n, CALLS))
    os.chmod(os.path.join(BIN, n), 0o755)
# stand-in for rm: nothing outside the scratch folder can be removed
with open(os.path.join(BIN, 'rm'), 'w') as f:
    f.write('#!/bin/sh\nfor a in "$@"; do case "$a" in -*) ;; *) p=$(realpath -ms -- "$a"); case "$p" in "%s"/work/*|"%s"/other/*) ;; *) echo "outside	$p" >> "%s"; exit 1;; esac;; esac; done\nexec /bin/rm "$@"\n' % (SCR, SCR, CALLS))
os.chmod(os.path.join(BIN, 'rm'), 0o755)
PATH = BIN + os.pathsep + '/usr/bin:/bin'
out = open(os.devnull, 'w')
def calls():
    try: t = open(CALLS).read()
    except IOError: return []
    os.unlink(CALLS)
    return [l.split('\t') for l in t.splitlines()]
def fresh(n):
    d = os.path.join(SCR, n)
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d
@prop('cancel', 'at least two jobs')
def cancel(s):
    """jobs named in the record, or in a range, are asked to end or deleted, each once"""
    d = fresh('work')
    calls()
    ids = []
    for i in range(s.below(5)):
        j = s.pick(['%d', '%d.master', '%d.node-1.cluster', '%d[].host']) % s.range(1, 99999)
        if j not in ids: ids.append(j)
    record = s.flip(7, 8)
    if record: open(os.path.join(d, 'id_job.log'), 'w').write(''.join(j + '\n' for j in ids))
    force, rng = s.flip(), None
    if s.flip(1, 3):
        a = s.range(0, 3000)
        rng = (a, a + s.range(-1, 5))
    argv = []
    if force: argv.append(s.pick(['-f', '--force']))
    if rng: argv += [s.pick(['-r', '--range']), str(rng[0]), str(rng[1])]
    want = [str(i) for i in range(*rng)] if rng else ids if record else []
    old, here, so, path = sys.argv, os.getcwd(), sys.stdout, os.environ['PATH']
    failed = None
    try:
        sys.argv, sys.stdout = ['killthemall.py'] + argv, out
        os.environ['PATH'] = PATH
        os.chdir(d)
        runpy.run_path(os.path.join(TREE, 'killthemall.py'), run_name='__main__')
    except BaseException as e:
        if isinstance(e, SystemExit) and e.code in (0, None): pass
        else: failed = e
    finally:
        sys.argv, sys.stdout = old, so
        os.environ['PATH'] = path
        os.chdir(here)
    got = calls()
    w = 'jobs %s, arguments %s' % (ids if record else 'not recorded', argv)
    CHECK((failed is None) == (record or rng is not None), 'fails', lambda: '%s: %r' % (w, failed))
    exp = [['qdel', j] if force else ['qsig', '-s', 'SIGTERM', j] for j in want]
    CHECK(sorted(got) == sorted(exp), 'calls', lambda: '%s: commands %s instead of %s' % (w, got, exp))
    CHECK(not record or open(os.path.join(d, 'id_job.log')).read().split() == ids, 'record', w)
    if len(exp) > 1: s.nontrivial(w)
ALWAYS = ['Message.txt', '%d_statis.hkl', '%d_MC_para.txt', 'Coordinates.txt', '%d.log', '%d_DYSON.log', 'project.log', 'id_job.log', '%d.gv', 'infile/_in_MC_%d.txt', 'outfile/%d.out', 'diagram/%d.gv', 'diagram/sub/%d.txt']
ALL = ['Weight.hkl', 'statis_total.hkl', 'Dyson_Output.txt', 'paraDyson.txt', '_job_MC_%d.sh', '%d.hkl', 'a %d.txt']
NEVER = ['IO.py', 'inlist.py', 'clear.sh', 'compile.sh', 'README.md', 'simulator.exe', 'dyson/main.py', 'dyson/%d.hkl', 'src/main.cpp', 'src/CMakeLists.txt', 'job_%d.sh', 'run%d.sh', 'dyson/%d.log', 'status.ipynb', 'picture%d.pdf', 'src/%d.gv', 'statistics', 'infile.py', 'Message.py', 'log', 'diagram.py']
@prop('clean', 'at least one file of every kind')
def clean(s):
    """cleaning removes what processes left, with -a all results as well, and never sources"""
    d = fresh('work')
    fresh('other')
    open(os.path.join(SCR, 'other', '1_statis.hkl'), 'w').write('x')
    calls()
    kinds = {}
    for k, l in (('always', ALWAYS), ('all', ALL), ('never', NEVER)):
        for i in range(s.below(8)):
            n = s.pick(l)
            if '%d' in n: n = n % s.below(30)
            p = os.path.join(d, n)
            if not os.path.isdir(os.path.dirname(p)): os.makedirs(os.path.dirname(p))
            open(p, 'w').write(n)
            kinds[n] = k
    if s.flip() and not os.path.exists(os.path.join(d, 'diagram')): os.mkdir(os.path.join(d, 'diagram'))
    opt = s.pick([[], [], ['-a'], ['--all'], ['-d'], ['--diag']])
    script = os.path.join(SCR, 'script.sh')
    shutil.copy(os.path.join(REPO, 'clear.sh'), script)
    os.chmod(script, 0o755)
    subprocess.call(['bash', script] + opt, cwd=d, stdout=out, stderr=out, env=dict(os.environ, PATH=PATH))
    full = opt and opt[0] in ('-a', '--all')
    left = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
    want = sorted(n for n, k in kinds.items() if k == 'never' or (k == 'all' and not full))
    w = 'files %s cleaned with %s' % (sorted(kinds), opt)
    c = calls()
    CHECK(not c, 'outside', lambda: '%s: commands %s' % (w, c))
    CHECK(left == want, 'left', lambda: '%s: lost %s, still there %s' % (w, sorted(set(want) - set(left)), sorted(set(left) - set(want))))
    for n in want: CHECK(open(os.path.join(d, n)).read() == n, 'content', lambda: '%s: %s changed' % (w, n))
    CHECK(os.path.isdir(os.path.join(d, 'diagram')), 'folder', lambda: '%s: no folder for diagrams is left' % w)
    CHECK(os.listdir(os.path.join(SCR, 'other')) == ['1_statis.hkl'], 'outside', w)
    if len(set(kinds.values())) == 3: s.nontrivial(w[:300])
if __name__ == '__main__': main()
