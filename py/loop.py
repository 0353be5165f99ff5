"""D14 the self-consistency loop: what every version reads, keeps and writes"""
from common import *
import copy, shutil, tempfile, logging, types, runpy
for i, a in enumerate(sys.argv[:-1]): # the paths given are relative to the folder we leave
    if a in ('--out', '--status', '--replay', '--shrink'): sys.argv[i + 1] = os.path.abspath(sys.argv[i + 1])
SCR = tempfile.mkdtemp(prefix='loop', dir=os.getcwd())
os.chdir(SCR)
import logger
logging.disable(logging.CRITICAL)
import main as dyson, model, collect, IO, parameter, calculator as calc, gamma3_calc as g3, lattice as latmod
from merge import KIND
import gc
gc.collect = lambda *a: 0 # the memory is reported and collected after each table: only slow here
memory_usage = logger.memory_usage
for mod in list(sys.modules.values()):
    if getattr(mod, 'memory_usage', None) is memory_usage: mod.memory_usage = lambda: 0.0
out = open(os.devnull, 'w')
class quiet:
    def __enter__(self): self.o, self.e = sys.stdout, sys.stderr; sys.stdout = sys.stderr = out
    def __exit__(self, *a): sys.stdout, sys.stderr = self.o, self.e
def clean():
    for e in os.listdir(SCR):
        p = os.path.join(SCR, e)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    collect.workspace = SCR
def gen_para(s, gamma3):
    name, ns, dim = s.pick([('Square', 1, 2), ('Square', 1, 2), ('Triangular', 1, 2), ('Chain', 1, 1), ('Checkerboard', 2, 2), ('Honeycomb', 2, 2), ('Kagome', 3, 2), ('ValenceBond', 2, 2)])
    if gamma3: name, ns, dim = 'Square', 1, 2
    lo = 3 if name == 'Triangular' else 2
    L = [s.range(lo, 3) for i in range(dim)]
    if name == 'Triangular': L = [L[0]] * 2
    n = 8 if gamma3 or s.flip(2, 3) else s.pick([8, 9, 12])
    field = s.pick([[0.0] * 4, [0.0] * 4, [-0.4, -0.4, 0.0, 0.0], [-0.2, 0.2, 0.0, 0.0]])
    return {'Gamma3': gamma3, 'Tau': {'MaxTauBin': n, 'Beta': s.pick([0.3, 0.5, 1.0]), 'MaxTauBinTiny': n, 'BasisNum': 4},
            'Lattice': {'Name': name, 'NSublat': ns, 'L': L},
            'Model': {'Name': 'Heisenberg' if name in ('Kagome',) else 'J1J2', 'Interaction': [s.pick([1.0, -0.5, 0.3]), s.pick([0.0, 0.2]), 0.0, 0.0], 'ExternalField': [0.0] * 4, 'Symmetry': ['SU2', 'ParticleHole'],
                      'Hopping': [0.0] * 4, 'Phase': [0.0] * 4, 'ChemicalPotential': [0.0] * 4},
            'Dyson': {'SleepTime': s.range(0, 60), 'OrderAccepted': {'Sigma': 1, 'Polar': 1}, 'ErrorThreshold': s.pick([0.05, 10.0]),
                      'Annealing': {'DeltaField': field, 'Interval': [-x / 4 for x in field]}}}
def make(para):
    m = weight.IndexMap(NSublat=para['Lattice']['NSublat'], L=para['Lattice']['L'], Beta=float(para['Tau']['Beta']), MaxTauBin=para['Tau']['MaxTauBin'], MaxTauBinTiny=para['Tau']['MaxTauBinTiny'], BasisNum=para['Tau']['BasisNum'], Symmetry=para['Model']['Symmetry'] + [para['Lattice']['Name']])
    return m, latmod.Lattice(para['Lattice']['Name'], m)
def gen_statis(s, m, gamma3):
    """statistics of one or two processes: smooth, of a few percent of the bare lines"""
    t = (np.arange(m.MaxTauBin) + 0.5) / m.MaxTauBin
    files, orders = [], s.range(1, 2)
    for p in range(s.range(1, 2)):
        d = {}
        for name in ('Sigma', 'Polar'):
            sp = KIND[name][1]
            a = np.zeros((orders, sp, m.NSublat, sp, m.NSublat, m.Vol, m.MaxTauBin), dtype=complex)
            nacc = float(s.pick([10, 64, 1000]))
            for o in range(orders):
                for i in range(s.range(1, 2)):
                    c = (o, s.below(sp), s.below(m.NSublat), s.below(sp), s.below(m.NSublat), s.below(m.Vol))
                    if s.flip(): c = c[:3] + (c[1],) + (c[2], 0) # a local one
                    a[c] = s.pick([0.02, -0.05, 0.03j, 0.01]) * 0.5 ** o * np.exp(-t * s.range(0, 2)) * nacc
            d[name] = {'Histogram': {'SmoothT': {'WeightAccu': a, 'NormAccu': nacc, 'Norm': 1.0}}}
        if gamma3:
            r = s.np()
            sh = (m.Vol, m.MaxTauBin, m.MaxTauBin)
            d['GammaGStatis'] = {'WeightAccu': 0.02 * (r.randn(2, *sh) + 1j * r.randn(2, *sh)) * 7, 'NormAccu': 7.0, 'Norm': 1.0}
            sw = (2, m.Vol, m.Vol, m.MaxTauBin, m.MaxTauBin)
            d['GammaWStatis'] = {'WeightAccu': 7 * g3.CompressGammaW(0.01 * (r.randn(*sw) + 1j * r.randn(*sw)), m), 'NormAccu': 7.0, 'Norm': 1.0} # compressed by the symmetries
        files.append(d)
    return files
class Scene:
    """decides what happens in each version and watches the files"""
    def __init__(self, script, stop, message): self.script, self.stop, self.message, self.it, self.seen, self.first = script, stop, message, -2, [], {}
    def __enter__(self):
        self.old = [(model.BareFactory, 'Build', model.BareFactory.Build), (IO, 'SaveDict', IO.SaveDict), (dyson.time, 'sleep', dyson.time.sleep)]
        for n in ('W_Dyson', 'G_Dyson', 'SigmaDeltaT_FirstOrder', 'SigmaSmoothT_FirstOrder'): self.old.append((calc, n, getattr(calc, n)))
        sc = self
        build, save = model.BareFactory.Build, IO.SaveDict
        def Build(f):
            sc.begin()
            return build(f)
        model.BareFactory.Build = Build
        def SaveDict(name, mode, root):
            if name == sc.message:
                # what a simulation that reads the message at once will find
                sc.seen.append(dict(message=copy.deepcopy(root), it=sc.it, data=IO.LoadBigDict('Weight'), para=IO.LoadDict('0_DYSON_para'), out=IO.LoadDict('Dyson_Output')))
            return save(name, mode, root)
        IO.SaveDict = SaveDict
        dyson.time.sleep = lambda t: None
        for n in ('W_Dyson', 'G_Dyson', 'SigmaDeltaT_FirstOrder', 'SigmaSmoothT_FirstOrder'): self.wrap(n)
        return self
    def __exit__(self, *a):
        for o, n, f in self.old: setattr(o, n, f)
    def wrap(self, n):
        f, sc = getattr(calc, n), self
        def g(*a, **k):
            if sc.it >= len(sc.script) and sc.stop == n: raise KeyboardInterrupt()
            if n == 'W_Dyson' and 0 <= sc.it < len(sc.script) and sc.script[sc.it][0] == 'deny':
                sc.script[sc.it] = ('denied',) + sc.script[sc.it][1:]
                raise calc.DenorminatorTouchZero(np.array([0.0]), (0,), 0)
            return f(*a, **k)
        setattr(calc, n, g)
    def begin(self):
        self.it += 1
        if self.it < 0: return
        if self.it >= len(self.script):
            if self.stop == 'Build' or self.it > len(self.script): raise KeyboardInterrupt()
            return
        place(self.script[self.it][1] if self.script[self.it][0] != 'nofiles' else [])
def place(files):
    for e in os.listdir(SCR):
        if '_statis' in e: os.unlink(os.path.join(SCR, e))
    for i, d in enumerate(files): IO.SaveBigDict('%d_statis' % i, d)
class Model:
    """one version after the other, from the definition of the scheme"""
    def __init__(self, para, only, new, data):
        self.p, self.only, self.new = para, only, new
        self.m, self.lat = make(para)
        W = lambda *a: weight.Weight(*a[:1] + (self.m,) + a[1:])
        self.W = W('SmoothT', 'FourSpins', 'Symmetric', 'R', 'T')
        self.SD = W('DeltaT', 'TwoSpins', 'AntiSymmetric', 'R')
        self.Sigma = W('SmoothT', 'TwoSpins', 'AntiSymmetric', 'R', 'T')
        self.Polar = W('SmoothT', 'FourSpins', 'Symmetric', 'R', 'T')
        G0, W0 = self.bare()
        self.V = para.get('Version', 0)
        self.gamma = None
        if new: self.G = G0.Copy()
        else:
            self.G = W('SmoothT', 'TwoSpins', 'AntiSymmetric', 'R', 'T').FromDict(copy.deepcopy(data['G']))
            for t, n in ((self.W, 'W'), (self.SD, 'SigmaDeltaT'), (self.Sigma, 'Sigma'), (self.Polar, 'Polar')): t.FromDict(copy.deepcopy(data[n]))
        if para['Gamma3']: self.gamma = copy.deepcopy(data['GGGammaG']['SmoothT']) if not new and 'GGGammaG' in data else g3.SimpleGG(self.G, self.m)
    def bare(self): return model.BareFactory(self.m, self.lat, self.p['Model'], copy.deepcopy(self.p['Dyson']['Annealing'])).Build()
    def decrease(self):
        a = self.p['Dyson']['Annealing']
        if abs(a['DeltaField'][0]) > 1e-5: a['DeltaField'] = [x + y for x, y in zip(a['DeltaField'], a['Interval'])]
    def revert(self):
        a = self.p['Dyson']['Annealing']
        a['Interval'] = [x / 2.0 for x in a['Interval']]
        a['DeltaField'] = [x - y for x, y in zip(a['DeltaField'], a['Interval'])]
    def step(self, what, files):
        """returns what is saved, or None"""
        try: return self.version(what, files)
        except calc.DenorminatorTouchZero:
            self.revert()
            self.fail()
    def version(self, what, files):
        self.V += 1
        ratio = self.V / (self.V + 10.0)
        merged, keep = [], (self.G, self.W, copy.deepcopy(self.gamma))
        def merge(t, x):
            t.Merge(ratio, x)
            merged.append(t)
        def fail():
            for t in merged: t.RollBack()
            self.G, self.W, self.gamma = keep
        self.fail = fail
        G0, W0 = self.bare()
        merge(self.SD, calc.SigmaDeltaT_FirstOrder(self.G, W0, self.m))
        WW = None
        if self.only or self.new:
            self.G = calc.G_Dyson(G0, self.SD, self.Sigma, self.m)
            merge(self.Sigma, calc.SigmaSmoothT_FirstOrder(self.G, self.W, self.m))
            self.G = calc.G_Dyson(G0, self.SD, self.Sigma, self.m)
            merge(self.Polar, calc.Polar_FirstOrder(self.G, self.m))
            if self.p['Gamma3']:
                two = g3.AddTwoG_To_GammaG(g3.AddW_To_GGGammaG(self.gamma, self.W, self.m), self.G, self.m)
                WW = g3.AddTwoW_To_GammaW(g3.AddG_To_GGGammaG(self.gamma, self.G, self.m), W0, self.W, self.m)
                three = g3.AddTwoG_To_GammaG(g3.AddG_To_WWGammaW(WW, self.G, self.m), self.G, self.m)
                self.gamma = g3.SimpleGG(self.G, self.m) + two - three
        else:
            if what == 'nofiles':
                fail()
                return None
            place(files)
            sg, po, gg, gw = collect.CollectStatis(self.m, self.p['Gamma3'])
            d = self.p['Dyson']
            try: self.Sigma, pm, d['OrderAccepted'] = collect.UpdateWeight([sg, po], d['ErrorThreshold'], d['OrderAccepted'])
            except collect.CollectStatisFailure:
                fail()
                return None
            self.G = calc.G_Dyson(G0, self.SD, self.Sigma, self.m)
            merge(self.Polar, pm)
            if self.p['Gamma3']:
                WW = g3.AddTwoW_To_GammaW(gw, W0, self.W, self.m)
                self.gamma = g3.SimpleGG(self.G, self.m) + g3.AddTwoG_To_GammaG(gg, self.G, self.m)
        if what in ('deny', 'denied'): raise calc.DenorminatorTouchZero(np.array([0.0]), (0,), 0)
        W, chi, det = calc.W_Dyson(W0, self.Polar, self.m, self.lat)
        if max(np.max(np.abs(x.Data)) for x in (self.G, W, self.Sigma, self.Polar)) > 1e4: raise Discard() # the scheme diverges: nothing left to compare with
        self.W = W
        self.p['Version'] = self.V
        para = copy.deepcopy(self.p)
        t = calc.Calculate_Chi(calc.Add_ChiTensor_ZerothOrder(chi, self.G, self.m), self.m)
        r = {}
        for n, x in (('G', self.G), ('W', self.W), ('Sigma', self.Sigma), ('Polar', self.Polar), ('Chi', t)):
            x.FFT('R', 'T')
            r[n] = x.Data.copy()
        for n, x in (('SigmaDeltaT', self.SD), ('W0', W0)):
            x.FFT('R')
            r[n] = x.Data.copy()
        if self.p['Gamma3']:
            r['gamma'] = np.array(self.gamma)
            b = g3.Calculate_Chi(g3.FullGGGammaG(self.gamma, W0, self.m)[0], self.m)
            b.FFT('R', 'T')
            r['BKChi'] = b.Data.copy()
            r['WW'] = None if WW is None else g3.CompressGammaW(np.array(WW), self.m)
            W0.FFT('R')
        self.decrease()
        return dict(data=r, para=para, det=det.min(), V=self.V)
def near(got, want, key, what, tol=1e-8, scale=None):
    got, want = np.asarray(got), np.asarray(want)
    sc = max(np.max(np.abs(want)) if want.size else 1, 1e-9) if scale is None else scale
    CHECK(got.shape == want.shape and np.all(np.isfinite(got)) and np.max(np.abs(got - want)) <= tol * sc, key, lambda: '%s: %s' % (what, worst(got, want) if got.shape == want.shape else 'shapes %s %s' % (got.shape, want.shape)))
def check_outputs(rec, want, m, lat, n, para, what):
    """the measured quantities, from the tables that were saved with them"""
    o, d = rec['out'], rec['data']
    chi, G = d['Chi']['SmoothT'], d['G']['SmoothT']
    CHECK(all(len(v) == n for v in o.values()), 'history', lambda: '%s: %d versions, lengths of the output %s' % (what, n, {k: len(v) for k, v in o.items()}))
    x = chi[0, :, 0]
    f = m.Beta / m.MaxTauBin
    sc = np.sum(np.abs(x)) + 1e-12
    V, S = m.Vol, m.NSublat
    uni = np.sum(x) * f / S
    def put(key, v, sc=sc): near(o[key][-1], v, 'output', '%s: %s' % (what, key), scale=sc)
    put('1-JP', want['det'], max(1.0, abs(want['det'])))
    put('UnifChi', uni)
    put('Mag^2 density', uni / V / S / m.Beta)
    put('SumRule', x[0, 0, 0, 0])
    if para['Gamma3']: # the same numbers of the vertex-corrected table
        y = d['BKChi']['SmoothT'][0, :, 0]
        sb = np.sum(np.abs(y)) + 1e-12
        put('BKUnifChi', np.sum(y) * f / S, sb)
        put('BK Mag^2 density', np.sum(y) * f / S / V / S / m.Beta, sb)
        put('BK_SumRule', y[0, 0, 0, 0], sb)
        R = coords(m.L)
        sy = sum(y[0, 0, i].sum() * (-1) ** sum(r) for i, r in enumerate(R)) * f
        put('BKStagChi', sy, sb)
        put('BK StagMag^2 density', sy / V / m.Beta, sb)
        put('BK_Energy', sum(y[0, 0, R.index(tuple((g if q == z else 0) % m.L[z] for z in range(len(m.L)))), 0] for q in range(len(m.L)) for g in (1, -1)), sb)
    B, C = np.array(lat.LatVec), coords(m.L)
    if lat.Name in ('Square', 'Chain'):
        st = sum(x[0, 0, i].sum() * (-1) ** sum(r) for i, r in enumerate(C)) * f
        put('StagChi', st)
        put('StagMag^2 density', st / V / m.Beta)
        e = 0
        for q in range(len(m.L)):
            for sg in (1, -1):
                r = [0] * len(m.L)
                r[q] = sg % m.L[q]
                e += x[0, 0, C.index(tuple(r)), 0]
        put('Energy', e)
    for i in range(S):
        u, w = G[UP, i, UP, i, 0], G[DOWN, i, DOWN, i, 0]
        g = np.max(np.abs(G)) + 1e-12
        end = lambda t: 1.5 * t[-1] - 0.5 * t[-2]
        put('<Sz_%d>' % i, -0.5 * (end(u) - end(w)), g)
        put('<n_%d>' % i, end(u) + end(w), g)
    if not para['Gamma3']:
        for a, b in (('BK_Energy', 'Energy'), ('BK_SumRule', 'SumRule'), ('BKUnifChi', 'UnifChi')): near(o[a][-1], o[b][-1], 'output', '%s: %s' % (what, a), scale=sc)
def run(s, para, only, new, script, stop, what):
    """the real loop and the model over the same script; returns the parameters and data left on disk"""
    m, lat = make(para)
    before = IO.LoadBigDict('Weight') if not new else None
    ref = Model(copy.deepcopy(para), only, new, before)
    dyson.ParaFile, dyson.WeightFile, dyson.MessageFile, dyson.OutputFile = '0_DYSON_para', 'Weight', 'Message', 'Dyson_Output'
    mine = copy.deepcopy(para)
    with quiet(), Scene([tuple(x) for x in script], stop, 'Message') as sc:
        try:
            dyson.Dyson(only, new, False, mine, m, lat)
            end = 'returned'
        except SystemExit: end = 'exit'
        except KeyboardInterrupt: end = 'exit'
    CHECK(sc.it >= len(script), 'ended', lambda: '%s: the loop ended in version %d of %d (%s)' % (what, sc.it + 1, len(script), end))
    seen = list(sc.seen)
    n = ok = 0
    last = None
    for i, (w, files) in enumerate(script):
        with quiet(): r = ref.step(w, files)
        rec = [x for x in seen if x['it'] == i]
        whati = '%s, version %d (%s)' % (what, ref.V, w)
        if r is None:
            CHECK(not rec, 'failed-announced', lambda: '%s: a failed version was announced: %s' % (whati, rec[0]['message']))
            continue
        CHECK(len(rec) == 1, 'announced', lambda: '%s: %d messages' % (whati, len(rec)))
        rec = rec[0]
        ok += 1
        CHECK(rec['message'] == {'Version': r['V'], 'Beta': para['Tau']['Beta'], 'SqueezeFactor': 1.0 + 3.0 / (r['V'] + 1.0)}, 'message', lambda: '%s: message %s' % (whati, rec['message']))
        d = rec['data']
        for k in ('SigmaDeltaT', 'G', 'Sigma', 'Polar', 'W', 'Chi'):
            t = 'DeltaT' if k == 'SigmaDeltaT' else 'SmoothT'
            near(d[k][t], r['data'][k], 'table', '%s: %s in the file' % (whati, k), scale=max(np.max(np.abs(r['data'][k])), 1e-6 if k != 'W' else 1e-9))
        near(d['W']['DeltaT'], r['data']['W0'], 'table', '%s: bare line in the file' % whati)
        if para['Gamma3']: near(d['GGGammaG']['SmoothT'], r['data']['gamma'], 'table', '%s: GGGammaG in the file' % whati, 1e-5)
        if para['Gamma3']:
            near(d['BKChi']['SmoothT'], r['data']['BKChi'], 'table', '%s: BKChi in the file' % whati, 1e-5)
            if r['data']['WW'] is not None: near(d['WWGammaW']['SmoothT'], r['data']['WW'], 'table', '%s: WWGammaW in the file' % whati, 1e-5)
        p = dict(rec['para']['Para'])
        CHECK(p == r['para'], 'para', lambda: '%s: parameters saved %s instead of %s' % (whati, {k: v for k, v in p.items() if v != r['para'].get(k)}, {k: v for k, v in r['para'].items() if v != p.get(k)}))
        check_outputs(rec, r, m, lat, ok, para, whati)
        last = d
    if last is not None:
        now = IO.LoadBigDict('Weight')
        for k in ('G', 'W', 'Sigma', 'Polar', 'Chi'): CHECK(np.array_equal(now[k]['SmoothT'], last[k]['SmoothT']), 'kept', lambda: '%s: %s in the file changed after the last successful version' % (what, k))
    return ok
@prop('loop', 'a version that fails between two that succeed, or a restart')
def loop(s):
    clean()
    gamma3 = s.flip(1, 5)
    para = gen_para(s, gamma3)
    snap = copy.deepcopy(para)
    m, _ = make(para)
    def script(mc):
        r = []
        for i in range(s.range(1, 4)):
            w = s.pick(['ok', 'ok', 'ok', 'deny', 'nofiles'] if mc else ['ok', 'ok', 'ok', 'deny'])
            r.append((w, gen_statis(s, m, gamma3) if mc else []))
        return r
    stops = ['Build', 'SigmaDeltaT_FirstOrder', 'G_Dyson', 'W_Dyson']
    name = lambda r: ' '.join(x[0] for x in r)
    r0, st = script(False), s.pick(stops)
    if all(x[0] != 'ok' for x in r0): r0.append(('ok', []))
    w = '%s %s, %d bins, Beta %s%s: first run [%s]' % (para['Lattice']['Name'], para['Lattice']['L'], para['Tau']['MaxTauBin'], para['Tau']['Beta'], ' with vertex functions' if gamma3 else '', name(r0))
    only = s.flip()
    run(s, para, only, True, r0, st, w)
    CHECK({k: v for k, v in para.items()} == snap, 'para-changed', w)
    nt = any(r0[i][0] != 'ok' and any(x[0] == 'ok' for x in r0[:i]) and any(x[0] == 'ok' for x in r0[i:]) for i in range(len(r0)))
    for k in range(s.range(0, 2)):
        if not os.path.exists('Weight.hkl'): break
        only = s.flip()
        r1, st = script(not only), s.pick(stops)
        w += '; restart %s [%s]' % ('without statistics' if only else 'with statistics', name(r1))
        with quiet(): para = parameter.LoadPara('0_DYSON_para')
        run(s, para, only, False, r1, st, w)
        nt = True
        s.tag('restarts')
    if nt: s.nontrivial(w)
@prop('collect', 'at least two processes with statistics')
def collect_only(s):
    """main.py --collect writes the sum of the statistics of all processes"""
    clean()
    para = gen_para(s, False)
    m, _ = make(para)
    parts = gen_statis(s, m, False)
    for q in range(s.below(2)): parts += gen_statis(s, m, False)
    no = parts[0]['Sigma']['Histogram']['SmoothT']['WeightAccu'].shape[0]
    parts = [d for d in parts if d['Sigma']['Histogram']['SmoothT']['WeightAccu'].shape[0] == no]
    place(parts)
    os.mkdir('infile')
    IO.SaveDict('infile/_in_DYSON_0', 'w', {'Job': {'Type': 'DYSON', 'PID': 0, 'WeightFile': 'Weight', 'MessageFile': 'Message', 'OutputFile': 'Dyson_Output', 'DysonOnly': False, 'SumRule': False}, 'Para': para})
    argv, ws = sys.argv, logger.workspace
    sys.argv = ['main.py'] + s.pick([['-f', 'infile/_in_DYSON_0'], ['-p', '0']]) + ['-c']
    logger.workspace = SCR
    w = lambda: '%s %s, %d processes, %s' % (para['Lattice']['Name'], para['Lattice']['L'], len(parts), ' '.join(sys.argv))
    try:
        with quiet(): runpy.run_path(os.path.abspath(dyson.__file__), run_name='__main__')
        code = None
    except SystemExit as e: code = e.code
    finally:
        sys.argv = argv
        logger.workspace = ws
    CHECK(code == 0, 'collect-exit', lambda: '%s: ended with %s' % (w(), code))
    d = IO.LoadBigDict('statis_total')
    for n in ('Sigma', 'Polar'):
        t, ps = d[n]['Histogram']['SmoothT'], [x[n]['Histogram']['SmoothT'] for x in parts]
        e = sum(x['WeightAccu'] for x in ps)
        CHECK(t['Norm'] == 1.0 and abs(t['NormAccu'] - sum(x['NormAccu'] for x in ps)) <= 1e-9 * t['NormAccu'] and close(t['WeightAccu'], e, 1e-12, scale=max(1e-9, np.max(np.abs(e)))), 'collect-sum', lambda: '%s: %s of %s, %s' % (w(), n, t['NormAccu'], worst(t['WeightAccu'], e)))
    if len(parts) > 1: s.nontrivial(w())
if __name__ == '__main__': main()
