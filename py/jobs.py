"""D11 expansion of job descriptions into processes, and the daemon that runs them"""
from common import *
import copy, json, shutil, signal, tempfile, time, random, types, logging, runpy, subprocess
SCR = tempfile.mkdtemp(prefix='jobs', dir=os.getcwd())
import atexit
OWN = os.getpid()
for i, a in enumerate(sys.argv[:-1]): # the paths given are relative to the folder we leave
    if a in ('--out', '--status', '--replay', '--shrink', '--corpus'): sys.argv[i + 1] = os.path.abspath(sys.argv[i + 1])
atexit.register(lambda: os.getpid() == OWN and shutil.rmtree(SCR, ignore_errors=True))
os.chdir(SCR)
inlist = types.ModuleType('inlist')
inlist.TO_DO, inlist.CPU, inlist.SLEEP = [], 4, 0.005
sys.modules['inlist'] = inlist
import job_class, job_manager as jm, IO
JM = os.path.abspath(jm.__file__)
FAKE = r'''#!/bin/sh
echo "S $$ $*" >> "%(d)s/events"
for a in "$@"; do f="$a"; done
if [ -e "%(d)s/forever" ]; then exec sleep 60; fi
if [ -e "%(d)s/slow" ]; then sleep 0.0$(( $$ %% 5 )); fi
echo "E $$ $*" >> "%(d)s/events"
'''
out = open(os.devnull, 'w')
class quiet:
    def __enter__(self): self.o = sys.stdout; sys.stdout = out
    def __exit__(self, *a): sys.stdout = self.o
def clean():
    for e in os.listdir(SCR):
        p = os.path.join(SCR, e)
        if os.path.isdir(p): shutil.rmtree(p)
        elif e != 'project.log': os.unlink(p)
    for n in ('simulator.exe', 'main.sh'):
        with open(os.path.join(SCR, n), 'w') as f: f.write(FAKE % dict(d=SCR))
        os.chmod(os.path.join(SCR, n), 0o755)
def value(s, d=0):
    k = s.below(8 if d < 2 else 6)
    if k == 0: return s.range(-5, 100000)
    if k == 1: return s.pick([0.5, -1.25, 1e-7, 3.0, 1e22, s.real(-3, 3)])
    if k == 2: return s.pick(['Square', 'J1J2', '', "it's", 'a "b"', 'x\ny'])
    if k == 3: return s.flip()
    if k == 4: return None
    if k == 5: return s.pick([1j, 0.5 - 2j])
    if k == 6: return [value(s, d + 1) for i in range(s.below(4))]
    return {s.pick(['Beta', 'L', 'Name', 'U', 'x y']): value(s, d + 1) for i in range(s.below(4))}
def describe(s, mc, auto=True):
    order = s.range(0, 6)
    ex = './simulator.exe' if mc else ['sh', './main.sh']
    if s.flip(1, 4): ex = s.pick([['./simulator.exe'], ['sh', './simulator.exe'], ['sh', './main.sh', '-v'], './main.sh'])
    d = {'Control': {'__Execute': ex, '__Duplicate': s.range(0, 6), '__IsCluster': s.flip(1, 3), '__AutoRun': auto},
         'Job': {s.pick(['Sample', 'SumRule', 'DysonOnly']): s.range(0, 10 ** 8)}}
    if s.flip(): d['Control']['__PBSCommand'] = '#PBS -l mem=%dgb' % s.range(1, 9)
    for k in ('Tau', 'Lattice', 'Model'): d[k] = value(s)
    if mc:
        d['Markov'] = {'Order': order, 'OrderReWeight': [s.real(0.01, 2) for i in range(order + 1 + s.below(3))], 'Timer': {k: s.range(0, 1000) for k in ['PrinterTimer', 'DiskWriterTimer', 'MessageTimer', 'ReweightTimer'][:s.range(1, 4)]}, 'Sweep': s.range(1, 100)}
    else: d['Dyson'] = {'SleepTime': s.range(0, 300), 'OrderAccepted': {'Sigma': 1, 'Polar': 1}}
    return d
def leftovers(s):
    """files of an earlier run; returns the processes that left statistics"""
    pids = sorted(set(s.range(0, 12) for i in range(s.below(5)))) if s.flip() else []
    for p in pids: open('%d_statis.hkl' % p, 'w').close()
    for n in s.pick([[], [], ['statis_total.hkl'], ['_3_statis.hkl'], ['statis_total.hkl', '_7_statis.hkl', 'Weight.hkl'], ['collect_statis.py', '2_statistics.log.txt']]): open(n, 'w').close()
    for n in s.pick([[], ['21_MC_para.txt', '5.log', '0_DYSON.log']]): open(n, 'w').close()
    if s.flip(1, 4): os.mkdir('sh')   # a folder named like the interpreter: still a command, not a file
    if os.path.exists('2_statistics.log.txt') and 2 not in pids:
        if s.flip(): os.unlink('2_statistics.log.txt')
        else: pids = sorted(pids + [2])   # any file of process 2 about statistics reserves the number
    return pids
def stat(p): return os.path.exists('%d_statis.hkl' % p)
def strip(d):
    d = copy.deepcopy(d)
    return {k: v for k, v in d.items() if k not in ('Control', 'Job')}
def check_inputs(desc, mc, atoms, pids, w):
    n = desc['Control']['__Duplicate']
    if not mc: n = 1 if n > 0 else 0
    CHECK(len(atoms) == n, 'count', lambda: '%s: %d processes for %s' % (w(), len(atoms), desc['Control']))
    own = [a.pid for a in atoms]
    CHECK(len(set(own)) == len(own), 'pids', lambda: '%s: process numbers %s' % (w(), own))
    seeds = []
    for a in atoms:
        j, p = copy.deepcopy(a.para['Job']), copy.deepcopy(a.para['Para'])
        t = 'MC' if mc else 'DYSON'
        want = dict(desc['Job'], Type=t, PID=a.pid, WeightFile='Weight', MessageFile='Message', OutputFile='Dyson_Output')
        if mc:
            want['DoesLoad'] = a.pid in pids
            CHECK(type(p['Markov'].get('Seed')) is int and 0 <= p['Markov']['Seed'] < 2 ** 30, 'seed', lambda: '%s: seed %r' % (w(), p['Markov'].get('Seed')))
            seeds.append(p['Markov'].pop('Seed'))
            tm = p['Markov']['Timer']
            for k, v in desc['Markov']['Timer'].items():
                CHECK(type(tm.get(k)) is int and int(0.8 * v) <= tm[k] <= 1.2 * v, 'timer', lambda: '%s: timer %s of %r is %r' % (w(), k, v, tm.get(k)))
                tm[k] = v
        CHECK(j == want, 'job', lambda: '%s: job section %s instead of %s' % (w(), j, want))
        CHECK(p == strip(desc), 'para', lambda: '%s: parameters %s instead of %s' % (w(), p, strip(desc)))
    CHECK(len(set(seeds)) == len(seeds), 'seeds', lambda: '%s: seeds %s' % (w(), seeds))
    if mc:
        old = [p for p in pids][:n]
        CHECK(sorted(own) == old + list(range(pids[-1] + 1 if pids else 0, (pids[-1] + 1 if pids else 0) + n - len(old))), 'old-first', lambda: '%s: process numbers %s with statistics of %s' % (w(), own, pids))
def kind(a): return 'MC' if a.name == 'MC' else 'DYSON'
def queue(s, auto=True):
    nmc = s.range(0, 1)
    descs = [(describe(s, True, auto), True) for i in range(nmc)] + [(describe(s, False, auto), False) for i in range(s.range(0 if nmc else 1, 1))]
    if s.flip(): descs.reverse()
    return descs
def expand(s, descs, pids, w):
    snap = copy.deepcopy([d for d, _ in descs])
    with quiet():
        jobs = [(job_class.JobMonteCarlo if mc else job_class.JobDyson)(d) for d, mc in descs]
        q, b = jm.construct_job_queue(jobs)
    CHECK([d for d, _ in descs] == snap, 'changed', lambda: '%s: the description became %s' % (w(), [d for d, _ in descs]))
    CHECK(all(a.keep_cpu_busy for a in q) and not any(a.keep_cpu_busy for a in b), 'queues', w)
    for d, mc in descs: check_inputs(d, mc, [a for a in (q if mc else b) if (a.name == 'MC') == mc], pids, w)
    CHECK(len(q) == sum(1 for a in q if a.name == 'MC') and len(b) == sum(1 for a in b if a.name == 'DYSON'), 'queues', w)
    # inputs of different processes share nothing that could be changed
    for i, a in enumerate(q[:2]):
        if len(q) > 1:
            other = copy.deepcopy(q[1 - i].para)
            x = a.para['Para']['Markov']['Timer']
            k = list(x)[0]
            keep, x[k] = x[k], -1
            a.para['Job']['x'] = 1
            CHECK(q[1 - i].para == other, 'shared', lambda: '%s: two processes share their input' % w())
            x[k] = keep
            del a.para['Job']['x']
    return q, b
class Commands:
    """stand-in for os.system: directories and job scripts inside the scratch folder, submissions recorded"""
    def __enter__(self):
        self.log, self.o, self.scripts = [], os.system, []
        os.system = self.run
        return self
    def __exit__(self, *a): os.system = self.o
    def run(self, c):
        p = c.split(' ')
        self.log.append(c)
        t = os.path.abspath(p[-1])
        inside = t.startswith(SCR + os.sep)
        if p[0] == 'mkdir' and inside: os.mkdir(t)
        elif p[0] == 'rm' and inside: os.unlink(t)
        elif p[0] == 'qsub': self.scripts.append((t, open(t).read()))
        return 0
def events():
    try: return [l.split(' ') for l in open(os.path.join(SCR, 'events')).read().splitlines()]
    except IOError: return []
@prop('expand', 'at least two processes')
def expansion(s):
    """the inputs of all processes, the files they are written to, and the commands that start them"""
    clean()
    random.seed(s.word())
    pids = leftovers(s)
    descs = queue(s, s.flip(5, 6))
    w = lambda: 'descriptions %s, files %s' % ([(d['Control'], mc) for d, mc in descs], sorted(os.listdir(SCR)))
    with Commands() as cmd:
        q, b = expand(s, descs, pids, w)
        jm.PROCLIST[:], jm.PROCLIST_BACK[:] = [], []
        started = []
        for a in b + q:
            n = len(cmd.scripts)
            before = copy.deepcopy(a.para)
            with quiet(): jm.submit_job(a)
            CHECK(a.para == before, 'changed', lambda: '%s: submitting changed the input' % w())
            f = os.path.join(SCR, 'infile', '_in_%s_%d' % (kind(a), a.pid))
            CHECK(os.path.exists(f + '.txt'), 'infile', lambda: '%s: no input file of process %s %d in %s' % (w(), kind(a), a.pid, os.listdir(os.path.join(SCR, 'infile'))))
            CHECK(IO.LoadDict(f) == a.para, 'infile', lambda: '%s: input file of %s %d holds %s instead of %s' % (w(), kind(a), a.pid, IO.LoadDict(f), a.para))
            d = [d for d, mc in descs if mc == (kind(a) == 'MC')][0]['Control']
            sh = os.path.join(SCR, '_job_%s_%d.sh' % (kind(a), a.pid))
            if d['__IsCluster']:
                if d['__AutoRun']:
                    CHECK(len(cmd.scripts) == n + 1 and not os.path.exists(sh), 'submit', lambda: '%s: commands %s' % (w(), cmd.log))
                    text = cmd.scripts[-1][1]
                else:
                    CHECK(len(cmd.scripts) == n and os.path.exists(sh), 'submit', lambda: '%s: commands %s' % (w(), cmd.log))
                    text = open(sh).read()
                if '__PBSCommand' in d: CHECK(d['__PBSCommand'] in text.splitlines(), 'script', lambda: '%s: script %s' % (w(), text))
                with open(os.path.join(SCR, 'run.sh'), 'w') as g: g.write(text)
                rc = subprocess.call(['sh', os.path.join(SCR, 'run.sh')], cwd='/', stdout=out, stderr=out)
                CHECK(rc == 0, 'script', lambda: '%s: the job script fails with %d: %s' % (w(), rc, text))
                started.append(f)
            elif d['__AutoRun']: started.append(f)
            else: CHECK(not jm.PROCLIST and not jm.PROCLIST_BACK and not cmd.scripts, 'submit', w)
        procs = jm.PROCLIST + jm.PROCLIST_BACK
        for p, a in procs: CHECK(p.wait() == 0, 'command', lambda: '%s: the command of %s fails' % (w(), a.get_job_name()))
        with quiet(): jm.check_status()
        CHECK(not jm.PROCLIST and not jm.PROCLIST_BACK, 'status', lambda: '%s: %d processes ended, %d still listed' % (w(), len(procs), len(jm.PROCLIST + jm.PROCLIST_BACK)))
    got = sorted(e[-1] for e in events() if e[0] == 'S')
    CHECK(got == sorted(started), 'started', lambda: '%s: input files handed over %s instead of %s' % (w(), got, sorted(started)))
    CHECK(all(e[-2] == '-f' for e in events()), 'started', lambda: '%s: %s' % (w(), events()))
    if len(q + b) >= 2: s.nontrivial('%d processes, %d left over' % (len(q + b), len(pids)))
@prop('refuse', 'a wrong description')
def refuse(s):
    """descriptions the programme cannot run are refused"""
    clean()
    d = describe(s, True)
    how = s.below(4)
    if how == 0: d['Markov']['OrderReWeight'] = d['Markov']['OrderReWeight'][:d['Markov']['Order']]
    elif how == 1: d['Markov']['OrderReWeight'] = s.pick([1.0, (1.0,) * 9, 'x' * 12])
    elif how == 2: d['Control']['__Execute'] = ''
    w = '%s with %s' % (d['Control'], d['Markov'])
    try:
        with quiet(): job_class.JobMonteCarlo(d)
        ok = True
    except SystemExit: ok = False
    CHECK(ok == (how == 3), 'refuse', lambda: '%s is %s' % (w, 'accepted' if ok else 'refused'))
    if how < 3: s.nontrivial(w[:200])
@prop('daemon', 'at least two processes were started')
def daemon(s):
    """the whole daemon with stand-ins for the executables: every process once, never more than allowed at the same time, none left after a request to stop"""
    clean()
    random.seed(s.word())
    pids = leftovers(s)
    descs = queue(s)
    for d, mc in descs: d['Control']['__IsCluster'] = False
    forever = s.flip(1, 3)
    if forever: open('forever', 'w').close()
    elif s.flip(3, 4): open('slow', 'w').close()
    cpu, sig = s.range(1, 4), s.pick([signal.SIGINT, signal.SIGTERM])
    n = sum(d['Control']['__Duplicate'] if mc else min(1, d['Control']['__Duplicate']) for d, mc in descs)
    front = sum(min(cpu, d['Control']['__Duplicate']) if mc else min(1, d['Control']['__Duplicate']) for d, mc in descs)
    w = lambda: '%s, %d processors, %s: events %s' % ([(d['Control'], mc) for d, mc in descs], cpu, 'stopped by %s' % sig.name if forever else 'until the end', [' '.join(e) for e in events()])
    if os.path.exists('project.log'): open('project.log', 'w').close()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(100)
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 1); os.dup2(fd, 2)
            with quiet(): inlist.TO_DO = [(job_class.JobMonteCarlo if mc else job_class.JobDyson)(d) for d, mc in descs]
            inlist.CPU = cpu
            # Python 2 has no lock around waitpid; a signal handler that waits must not block on the loop it interrupted
            subprocess.threading = types.SimpleNamespace(**dict(vars(subprocess.threading), Lock=subprocess.threading.RLock))
            runpy.run_path(JM, run_name='__main__')
            os._exit(3)
        except SystemExit as e: os._exit(0 if e.code in (0, None) else 4)
        except BaseException: os._exit(5)
    if forever:
        t = time.time()
        started = lambda: open('project.log').read().replace('daemon is started...', '').count('is started...') if os.path.exists('project.log') else 0
        up = lambda: sum(1 for e in events() if e[0] == 'S')
        while (started() < front or up() < front or not front) and time.time() - t < 60:
            if os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT): break
            time.sleep(0.002)
        if front:
            try: os.kill(pid, sig)
            except OSError: pass
    rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    ev = events()
    alive = []
    for e in ev:
        if e[0] == 'S' and forever:
            for i in range(200):
                try: st = open('/proc/%s/stat' % e[1]).read().rsplit(')', 1)[1].split()[0]
                except IOError: st = 'X'
                if st in 'XZ': break
                time.sleep(0.01)
            else:
                alive.append(e[1])
                os.kill(int(e[1]), 9)
    CHECK(rc == 0, 'daemon-exit', lambda: '%s: the daemon ends with %d' % (w(), rc))
    CHECK(not alive, 'left-running', lambda: '%s: still running %s' % (w(), alive))
    run = [e[-1] for e in ev if e[0] == 'S']
    CHECK(len(set(run)) == len(run), 'daemon-twice', w)
    CHECK(len(run) == (front if forever else n), 'daemon-count', lambda: '%s: %d processes instead of %d' % (w(), len(run), front if forever else n))
    now = top = 0
    for e in ev:
        if '_in_MC_' in e[-1]:
            now += 1 if e[0] == 'S' else -1
            top = max(top, now)
    CHECK(top <= cpu, 'daemon-cpu', lambda: '%s: %d at the same time' % (w(), top))
    if len(run) >= 2:
        s.nontrivial('%d processes on %d processors' % (len(run), cpu))
        s.tag('stopped' if forever else 'finished')
if __name__ == '__main__': main()
