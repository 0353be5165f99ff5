"""D07 merging process statistics and accepting orders"""
from common import *
import os, pickle, shutil
import collect, IO
KIND = {'Sigma': ('TwoSpins', 2, 'AntiSymmetric'), 'Polar': ('FourSpins', 4, 'Symmetric')}
def gen_samples(s, m, name, orders, P):
    """contributions of single samples: which order, which component, value; divided over P processes"""
    sp = KIND[name][1]
    shape = (orders, sp, m.NSublat, sp, m.NSublat, m.Vol, m.MaxTauBin)
    r = s.np()
    kind = s.below(4)
    parts = []
    comps = [tuple(r.randint(0, x) for x in shape[1:6]) for i in range(s.range(1, 3))]
    one = [s.pick([0, 0, 1, 2]) for c in comps] # both parts, real, imaginary
    amp = [s.pick([0.0, 1.0, 4.0, 0.25]) if s.flip(1, 4) else 2.0 ** -o for o in range(orders)]
    t = (np.arange(m.MaxTauBin) + 0.5) / m.MaxTauBin
    noise = [s.pick([0.0, 0.02, 0.3, 2.0]) for o in range(orders)]
    for p in range(P):
        a = np.zeros(shape, dtype=complex)
        if kind == 0: a += np.round(64 * (r.uniform(-1, 1, shape) + 1j * r.uniform(-1, 1, shape)))
        else:
            for o in range(orders):
                for i, c in enumerate(comps):
                    y = amp[o] * ((1 + i) * np.exp(-2 * t) + 1j * t * s_i(kind, i)) + noise[o] * amp[o] * (r.randn(m.MaxTauBin) + 1j * r.randn(m.MaxTauBin))
                    y = [y, y.real + 0j, 1j * y.real][one[i]]
                    a[(o,) + c] = np.round(64 * y)
        parts.append(a)
    norms = [float(s.pick([0, 1, 10, 64, 1000])) for p in range(P)]
    for p in range(P):
        if norms[p] == 0: parts[p][:] = 0 # a process without statistics
        else: parts[p] *= max(1.0, np.round(norms[p] / 8))
    return parts, norms
def s_i(kind, i): return 1.0 if kind == 1 else (-1.0) ** i if kind == 2 else 0.0
def spline_error(y):
    """rms distance to the best cubic spline with one knot in the middle"""
    n = len(y)
    x = np.arange(n) - n / 2.0
    B = np.stack([np.ones(n), x, x ** 2, x ** 3, np.where(x > 0, x, 0) ** 3], axis=1)
    q, _ = np.linalg.qr(B)
    f = q.dot(q.T.dot(y))
    d = y - f
    return np.mean(np.abs(f)), abs(np.sqrt(np.sum(d.real ** 2) / n) + 1j * np.sqrt(np.sum(d.imag ** 2) / n))
def order_error(w):
    """errors that may be attributed to one order: that of the component of the largest weight"""
    c = []
    for y in w.reshape(-1, w.shape[-1]):
        if np.allclose(y, 0, 1e-5): continue
        c.append(spline_error(y))
    if not c: return [0.0]
    best = max(x[0] for x in c)
    return [x[1] for x in c if x[0] >= best * (1 - 1e-7)]
def expected_orders(w, thr, accepted):
    """largest prefix of acceptable orders; None if it is a close call"""
    n = 0
    for o in range(w.shape[0]):
        e = order_error(w[o])
        if any(abs(x - thr) < 1e-7 * max(1.0, thr, x) for x in e): return None
        if not o + 1 <= accepted and min(e) < thr <= max(e): return None
        if e[0] < thr or o + 1 <= accepted: n += 1
        else: break
    return n
def as_dict(name, acc, nacc, norm): return {'SmoothT': {'WeightAccu': acc, 'NormAccu': nacc, 'Norm': norm}}
def new_estimator(m, name): return collect.WeightEstimator(weight.Weight('SmoothT', m, KIND[name][0], KIND[name][2]))
def snapshot(d): return pickle.dumps(d)
def check_pool(est, parts, norms, norm, what):
    d = est.ToDict()['SmoothT']
    e = sum(parts)
    CHECK(close(d['WeightAccu'], e, 1e-12), 'pool', lambda: '%s: accumulated weight %s' % (what, worst(d['WeightAccu'], e)))
    CHECK(d['NormAccu'] == sum(norms) and d['Norm'] == norm, 'pool', '%s: norm %s %s instead of %s %s' % (what, d['NormAccu'], d['Norm'], sum(norms), norm))
@prop('D07', 'at least two processes with statistics')
def D07(s):
    m = gen_map(s, dims=(1, 2), maxL=2, maxsub=2, maxbin=16, minbin=8, vol=4)
    if s.flip(1, 3): return estimators(s, m)
    return files(s, m)
def estimators(s, m):
    name = s.pick(['Sigma', 'Polar'])
    orders, P = s.range(1, 3), s.range(1, 5)
    parts, norms = gen_samples(s, m, name, orders, P)
    norm = s.pick([1.0, 0.5, 3.25])
    dicts = [as_dict(name, a.copy(), n, norm) for a, n in zip(parts, norms)]
    keep = [snapshot(d) for d in dicts]
    r = s.np()
    what = '%s %d orders %d processes' % (name, orders, P)
    results = []
    for rep in range(2):
        # merge in any order, through any intermediate estimators
        todo = [dicts[i] for i in r.permutation(P)]
        while True:
            g = s.range(1, len(todo))
            e = new_estimator(m, name)
            for d in todo[:g]: e.MergeFromDict(d)
            todo = todo[g:] + [e.ToDict()]
            if len(todo) == 1: break
        e = new_estimator(m, name)
        e.MergeFromDict(todo[0])
        if s.flip(1, 3): # what does not belong here is refused and leaves no trace
            bad = s.below(3)
            b = as_dict(name, np.ones_like(parts[0]), 7.0, norm)['SmoothT']
            if bad == 0: b['Norm'] = norm * 2
            elif bad == 1: b['WeightAccu'] = b['WeightAccu'][:, :, :, :, :, :, :-1]
            else: b['WeightAccu'] = np.concatenate([b['WeightAccu']] * 2)
            CHECK(refuses(lambda: e.MergeFromDict({'SmoothT': b})), 'refuse', what + ': statistics of another system were merged')
        check_pool(e, parts, norms, norm, what)
        results.append(e)
    CHECK([snapshot(d) for d in dicts] == keep, 'input', what + ': merging altered the statistics merged')
    est = results[0]
    thr, acc = s.pick([0.02, 0.1, 0.5, 5.0]), s.range(0, orders)
    tot = sum(norms)
    if tot < 1e-3:
        try: est.UpdateWeight(name, thr, acc)
        except collect.CollectStatisFailure: return
        CHECK(False, 'no_statistics', what + ': a weight was made of no statistics')
    w = sum(parts) / tot * norm
    n = expected_orders(w, thr, acc)
    if n is None: raise Discard()
    W, got = est.UpdateWeight(name, thr, acc)
    check_update(m, W, got, w, n, what + ' threshold %s accepted %s' % (thr, acc))
    CHECK([snapshot(d) for d in dicts] == keep, 'input', what + ': updating altered the statistics merged')
    if sum(1 for x in norms if x) > 1: s.nontrivial(what), s.tag('estimators'), s.tag('accepted %d of %d' % (n, orders))
def check_update(m, W, got, w, n, what):
    CHECK(got == n, 'orders', lambda: '%s: %s orders accepted instead of %s, errors %s' % (what, got, n, [order_error(x) for x in w]))
    e = np.sum(w[:n], axis=0)
    CHECK(close(W.Data, e, 1e-10), 'weight', lambda: '%s: weight %s' % (what, worst(W.Data, e)))
    CHECK((W.SpaceDomain, W.TimeDomain, W.Name) == ('R', 'T', 'SmoothT'), 'weight', what + ': domain')
def files(s, m):
    ws = os.path.join(os.getcwd(), 'ws')
    shutil.rmtree(ws, ignore_errors=True)
    os.mkdir(ws)
    collect.workspace = ws
    P = s.range(0, 6)
    orders = {k: s.range(1, 3) for k in KIND}
    gam = s.flip(1, 3)
    norm = {k: s.pick([1.0, 0.5, 3.25]) for k in ('Sigma', 'Polar', 'GammaGStatis', 'GammaWStatis')}
    parts, norms = {}, {}
    for k in KIND: parts[k], norms[k] = gen_samples(s, m, k, orders[k], P) if P else ([], [])
    r = s.np()
    for k, sh in (('GammaGStatis', (2, m.Vol, 4, 4)), ('GammaWStatis', (6, m.Vol, m.Vol, 3, 3))):
        norms[k] = [float(s.pick([1, 10, 64])) for p in range(P)]
        parts[k] = [np.round(8 * (r.uniform(-1, 1, sh) + 1j * r.uniform(-1, 1, sh))) for p in range(P)]
    broken, exact = [], True
    for p in range(P):
        d = {k: {'Histogram': as_dict(k, parts[k][p], norms[k][p], norm[k])} for k in KIND}
        if gam or s.flip(1, 4):
            for k in ('GammaGStatis', 'GammaWStatis'): d[k] = {'WeightAccu': parts[k][p], 'NormAccu': norms[k][p], 'Norm': norm[k]}
        f = '%d_statis%s' % (p, s.pick(['', '_%d' % p, '.old'])) if s.flip(3, 4) else 'run_statis_%d' % p
        f = os.path.join(ws, f + '.hkl')
        bad = s.below(8) if s.flip(1, 3) else 0
        broken.append(bad)
        if bad == 2: del d['Sigma']
        elif bad == 3: d['Sigma']['Histogram']['SmoothT']['WeightAccu'] = parts['Sigma'][p][..., :-1] # another number of bins
        elif bad == 4: d['Sigma']['Histogram'] = {'DeltaT': {}}
        elif bad == 5: d = {'Sigma': 3}
        elif bad >= 6: broken[p] = 0
        dump(d, f)
        if bad == 1:
            b = open(f, 'rb').read()
            with open(f, 'wb') as o: o.write(b[:s.below(len(b))])
    # what is not statistics
    if s.flip(): dump({'x': 1}, os.path.join(ws, 'Weight.hkl'))
    if s.flip(): open(os.path.join(ws, '_7_statis.hkl'), 'wb').write(b'half written')
    if s.flip(): os.mkdir(os.path.join(ws, 'old_statis'))
    good = [p for p in range(P) if broken[p] == 0]
    what = '%d files, %d readable%s' % (P, len(good), ', gamma' if gam else '')
    ok = P > 0 and len(good) >= 0.75 * P
    try: st = collect.CollectStatis(m, gam)
    except collect.CollectStatisFailure as e:
        CHECK(not ok, 'collect', '%s: %s' % (what, e))
        return s.tag('refused')
    CHECK(ok, 'collect', what + ': accepted')
    est = {'Sigma': st[0], 'Polar': st[1]}
    for k in KIND: check_pool(est[k], [parts[k][p] for p in good], [norms[k][p] for p in good], norm[k], what + ' ' + k)
    for i, k in ((2, 'GammaGStatis'), (3, 'GammaWStatis')):
        if not gam: CHECK(st[i] is None, 'gamma', what + ': vertex function without being asked'); continue
        e = sum(parts[k][p] for p in good) / sum(norms[k][p] for p in good) * norm[k]
        CHECK(close(st[i], e, 1e-9 if i == 2 else 1e-5), 'gamma', lambda: '%s %s: %s' % (what, k, worst(st[i], e)))
    thr, acc = s.pick([0.02, 0.1, 0.5, 5.0]), {k: s.range(0, orders[k]) for k in KIND}
    acc0 = dict(acc)
    w, n = {}, {}
    empty = [k for k in KIND if sum(norms[k][p] for p in good) < 1e-3]
    for k in KIND:
        if k in empty: continue
        w[k] = sum(parts[k][p] for p in good) / sum(norms[k][p] for p in good) * norm[k]
        n[k] = expected_orders(w[k], thr, acc[k])
        if n[k] is None: raise Discard()
    fails = bool(empty) or min(n.values()) == 0
    what += ' threshold %s accepted %s' % (thr, acc)
    try: S, Pl, new = collect.UpdateWeight([st[0], st[1]], thr, acc)
    except collect.CollectStatisFailure as e:
        CHECK(fails, 'update', '%s: %s' % (what, e))
        return s.tag('not updated')
    CHECK(not fails, 'update', what + ': accepted although %s' % ('%s has no statistics' % empty if empty else 'no order is acceptable'))
    CHECK(acc == acc0, 'update', what + ': the accepted orders handed in were altered')
    CHECK(set(new) == set(KIND), 'update', what + ': %s' % new)
    check_update(m, S, new['Sigma'], w['Sigma'], n['Sigma'], what + ' Sigma')
    check_update(m, Pl, new['Polar'], w['Polar'], n['Polar'], what + ' Polar')
    if sum(1 for p in good if norms['Sigma'][p]) > 1: s.nontrivial(what), s.tag('files'), s.tag('gamma', int(gam))
def dump(d, f):
    cwd = os.getcwd()
    os.chdir(os.path.dirname(f))
    try: IO.SaveBigDict(os.path.basename(f), d)
    finally: os.chdir(cwd)
if __name__ == '__main__': main()
