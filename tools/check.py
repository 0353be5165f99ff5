#!/usr/bin/env python3
"""Decides one property by generated-input search against the current /repo tree.

usage: check.py PROPERTY [--tier quick|thorough] [--secs N] [--seed N] [--jobs N]
       check.py --replay FILE
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (tree does not build, harness broken)."""
import argparse, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B, py2
from checks import CHECKS

NICE = {'asan': 'g++ -O1 with AddressSanitizer and UBSan', 'fast': 'g++ -O2', 'o1': 'g++ -O1', 'py': 'Python code translated to Python 3'}

def env_for(work, variant):
    e = dict(os.environ)
    e.pop('PYTHONPATH', None)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        e[k] = '1'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    if 'py' in variant:
        tree = os.path.join(work, 'tree')
        e['PYTHONPATH'] = ':'.join([tree, os.path.join(tree, 'dyson'), os.path.join(VERIF, 'py')])
    return e

def prepare(variant, work):
    """returns the command prefix of the variant's harness"""
    if 'py' in variant:
        tree = os.path.join(work, 'tree')
        if not os.path.exists(tree):
            py2.tree(tree)
        if variant.get('fastlu'):
            r = subprocess.run(['/usr/bin/python3', os.path.join(VERIF, 'py', 'fastlu.py')], env=dict(env_for(work, variant), VERIF_REPO=B.REPO, VERIF_BUILD=B.BUILD), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise B.BuildError('lu_fast: ' + r.stdout.decode(errors='replace')[-1500:])
        return ['/usr/bin/python3', os.path.join(VERIF, 'py', variant['py'])]
    subs = [B.smallk(variant['k'])] if variant.get('k') else []
    subs += variant.get('subs', [])
    exe = B.build(os.path.join(VERIF, 'cpp', variant['harness'] + '.cpp'), variant.get('flavor', 'asan'), variant.get('defines', ()), variant.get('only'), subs)
    return [exe]

def rundir(work, name, variant):
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    if variant.get('tree'):
        py2.tree(d)
    elif 'py' not in variant:
        py2.io_only(d)
    return d

def vname(v):
    n = v.get('py') or v['harness'] + '/' + v.get('flavor', 'asan')
    if v.get('k'): n += '/MAX_K=%d' % v['k']
    return n

def replay(cmd, env, cwd, path, tier, n=3, limit=120):
    """replays a case n times, returns (number of failures, message)"""
    bad, msg = 0, ''
    for i in range(n):
        out = os.path.join(cwd, 'replay.out')
        if os.path.exists(out): os.remove(out)
        try:
            r = subprocess.run(cmd + ['--replay', path, '--out', out, '--tier', tier], cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
            rc, err = r.returncode, r.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired:
            rc, err = 97, 'HANG: replay exceeded %d s' % limit
        if rc == 0 or rc == 2:
            continue
        bad += 1
        m = ''
        if os.path.exists(out):
            m = ' '.join(open(out, errors='replace').read().split('\n')[1:3])
        if not m.strip():
            tail = [l for l in err.split('\n') if any(w in l for w in ('ERROR: AddressSanitizer', 'SUMMARY', 'runtime error', 'Assertion', 'HANG', 'terminate', 'Error'))]
            m = 'crash (exit %s): %s' % (rc, ' | '.join(tail[:4]))
        msg = m
    return bad, msg

def known_findings(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return {}
    return {f['key']: f for f in json.load(open(p)).get('findings', []) if f['property'] == prop}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--secs', type=float)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    a = ap.parse_args()
    os.makedirs(B.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-', dir=B.BUILD)
    procs = []
    try:
        if a.replay:
            return do_replay(a, work)
        return check(a, work, procs)
    except B.BuildError as e:
        print('NO ANSWER: the tree or harness does not build\n%s' % e)
        return 2
    finally:
        for p in procs:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(work, ignore_errors=True)

def do_replay(a, work):
    lines = open(a.replay).read().split('\n')
    meta = json.loads(next(l for l in lines if l.startswith('# '))[2:])
    v = CHECKS[meta['property']]['variants'][meta['variant']]
    cmd = prepare(v, work)
    d = rundir(work, 'r', v)
    bad, msg = replay(cmd, env_for(work, v), d, os.path.abspath(a.replay), meta.get('tier', '0'), 1)
    print(('FAILS: ' if bad else 'passes ') + msg)
    return 1 if bad else 0

def check(a, work, procs):
    t0 = time.time()
    c = CHECKS[a.prop]
    thorough = a.tier != 'quick'
    tier = '1' if thorough else '0'
    secs = a.secs or (c.get('thorough', 420) if thorough else c.get('quick', 20))
    known = known_findings(a.prop)
    vs = c['variants']
    cmds = [prepare(v, work) for v in vs]
    t_build = time.time() - t0
    tot = sum(v.get('share', 1) for v in vs)
    jobs = []
    for i, v in enumerate(vs):
        n = max(1, round(a.jobs * v.get('share', 1) / tot))
        for j in range(min(n, v.get('maxjobs', n))):
            jobs.append((i, j))
    running = []
    for i, j in jobs:
        v = vs[i]
        d = rundir(work, 'w%d_%d' % (i, j), v)
        props = ','.join(v.get('props', [a.prop]))
        seed = a.seed * 1000 + i * 100 + j
        f = open(os.path.join(d, 'stderr'), 'wb')
        p = subprocess.Popen(cmds[i] + ['--prop', props, '--seed', str(seed), '--secs', str(secs), '--out', 'out.json', '--status', 'status', '--tier', tier, '--known', ','.join(known)],
                             cwd=d, env=env_for(work, v), stdout=subprocess.DEVNULL, stderr=f, start_new_session=True)
        procs.append(p)
        running.append((i, d, p, seed))
    deadline = time.time() + secs + 150
    res, fails, broken = [], [], []
    for i, d, p, seed in running:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 97
        ok = False
        if rc == 0:
            try:
                out = json.load(open(os.path.join(d, 'out.json')))
                ok = True
            except Exception as e:
                broken.append('%s seed %d: no result (%s)' % (vname(vs[i]), seed, e))
        if ok:
            for r in out:
                r['variant'] = i
                res.append(r)
                if r['fail']:
                    fails.append((i, r['prop'], 'CH ' + r['fail']['choices'], r['fail']['key'], r['fail']['msg'], d))
        elif rc != 0:
            err = open(os.path.join(d, 'stderr'), errors='replace').read()
            try:
                st = open(os.path.join(d, 'status')).read().split('\n')
                fails.append((i, st[0], st[1].strip(), 'crash', 'exit %s: %s' % (rc, err[-1500:]), d))
            except Exception:
                broken.append('%s seed %d exit %s: %s' % (vname(vs[i]), seed, rc, err[-2000:]))
    violations = 0
    seen = set()
    unconfirmed = []
    for i, prop, choices, key, msg, d in fails:
        if violations >= 3: break
        if (prop, key) in seen: continue
        v = vs[i]
        path = os.path.join(work, 'cand.txt')
        open(path, 'w').write('%s\n%s\n' % (prop, choices))
        rd = rundir(work, 'rep', v)
        bad, m = replay(cmds[i], env_for(work, v), rd, path, tier)
        if bad < 2:
            unconfirmed.append('%s/%s: %s (replayed %d/3)' % (prop, key, msg[:600], bad))
            continue
        if key == 'crash' and key in known:
            continue
        seen.add((prop, key))
        if key == 'crash':
            out = os.path.join(work, 'shrunk')
            try:
                r = subprocess.run(cmds[i] + ['--shrink', path, '--out', out, '--secs', '25', '--tier', tier], cwd=rd, env=env_for(work, v), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
                if r.returncode == 0:
                    p2 = os.path.join(work, 'cand2.txt')
                    open(p2, 'w').write('%s\nCH %s' % (prop, open(out).read()))
                    b2, m2 = replay(cmds[i], env_for(work, v), rd, p2, tier)
                    if b2 >= 2:
                        choices, m = 'CH ' + open(out).read().strip(), m2
            except subprocess.TimeoutExpired:
                pass
        violations += 1
        meta = dict(property=a.prop, variant=i, harness=vname(v), key=key, tier=tier, message=(m or msg)[:3000])
        body = '%s\n%s\n# %s\n' % (prop, choices, json.dumps(meta))
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', '%s-%s.txt' % (a.prop, hashlib.sha256(body.encode()).hexdigest()[:10]))
        open(rp, 'w').write(body)
        print('%s [%s] %s: %s' % (prop, vname(v), key, (m or msg)[:1500]))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
    # evidence
    evals = sum(r['evals'] for r in res)
    nontriv = sum(r['nontriv'] for r in res)
    samples, tags, rules, disc = [], {}, {}, 0
    perprop = {}
    for r in res:
        rules[r['prop']] = r['rule']
        disc += r['discards']
        q = perprop.setdefault(r['prop'] + ' on ' + vname(vs[r['variant']]), dict(evaluations=0, nontrivial=0))
        q['evaluations'] += r['evals']; q['nontrivial'] += r['nontriv']
        for s in r['samples']:
            if len([x for x in samples if x.startswith(r['prop'] + ': ')]) < 3:
                samples.append(r['prop'] + ': ' + s)
        for k, n in r['tags'].items():
            tags[k] = tags.get(k, 0) + n
    hits = {}
    for r in res: hits.update(r['known'])
    for k, f in known.items():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, f['what']))
    ev = dict(property=a.prop, tier='thorough' if thorough else 'quick', seed=a.seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=nontriv, rule='; '.join('%s: %s' % x for x in sorted(rules.items())), samples=samples[:10], discarded=disc, per_harness=perprop, events=tags, workers=len(running), build_s=round(t_build, 1), known_findings_hit=sorted(hits), unconfirmed=unconfirmed),
              assumptions=c.get('assumptions', []) + ['harness builds: ' + ', '.join('%s (%s)' % (vname(v), NICE.get('py' if 'py' in v else v.get('flavor', 'asan'))) for v in vs)],
              wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (a.prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', a.prop + '.json'))
    print('%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)' % (a.prop, a.tier, evals, nontriv, violations, time.time() - t0, t_build))
    for u in unconfirmed: print('unconfirmed (did not replay): ' + u)
    if violations: return 1
    if broken or not evals:
        print('NO ANSWER: ' + '; '.join(broken)[:3000])
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
