"""D16 the measured quantities of the self-consistency loop"""
from common import *
import copy, shutil, tempfile
import measure, lattice as latmod, model, IO
from geometry import LATS, gen_size
from tables import gen_weight
out = open(os.devnull, 'w')
class quiet:
    def __enter__(self): self.o = sys.stdout; sys.stdout = out
    def __exit__(self, *a): sys.stdout = self.o
PI = np.pi
def table(s, m, spin, sym, cplx=True):
    """a table with generated entries, in a generated domain; and its entries in space and time"""
    w = weight.Weight('SmoothT', m, spin, sym, 'R', 'T')
    w.Data[...] = s.array(w.Data.shape, cplx=cplx, kind=s.pick([1, 2, 4, 5]))
    d = w.Data.copy()
    w.FFT(s.pick(['R', 'K']), s.pick(['T', 'W']))
    return w, d
@prop('observe', 'several measurements of several sites')
def observe(s):
    name = s.pick(sorted(LATS))
    dim, ns = LATS[name]
    L = gen_size(s, name, 3 if name == 'Triangular' else 2, 30)
    m = weight.IndexMap(NSublat=ns, L=L, Beta=s.pick([0.5, 1.0, 3.0]), MaxTauBin=s.range(2, 7), MaxTauBinTiny=1, BasisNum=1, Symmetry=[])
    with quiet(): lat = latmod.Lattice(name, m)
    ham = {'Name': 'J1J2' if name not in ('Kagome', 'Pyrochlore', '3DCheckerboard') else 'Heisenberg', 'Interaction': [1.0, 0.0, 0.0, 0.0], 'ExternalField': [0.0] * ns, 'Hopping': [0.0], 'Phase': [0.0], 'ChemicalPotential': [0.0] * ns}
    f = model.BareFactory(m, lat, ham, dict(DeltaField=[0.0] * ns, Interval=[0.0] * ns))
    with quiet(): f.Build()
    NN = f.NearestNeighbor
    with quiet(): obs = measure.Observable(m, lat)
    want = {}
    def put(k, v, sc): want.setdefault(k, []).append((v, sc))
    n = s.range(1, 3)
    dt = m.Beta / m.MaxTauBin
    C = coords(L)
    at = {r: i for i, r in enumerate(C)}
    vec = np.zeros((ns, ns, m.Vol, dim))
    for a in range(ns):
        for v, c, b in lat.GetSitesList(HasOffset=False, SubLatIn=a)[0]: vec[a, b, at[tuple(c)]] = v
    what = '%s %s, %d bins, Beta %s' % (name, L, m.MaxTauBin, m.Beta)
    for i in range(n):
        chi, x = table(s, m, 'NoSpin', 'Symmetric')
        same = s.flip(1, 3)
        bk, y = (chi, x) if same else table(s, m, 'NoSpin', 'Symmetric')
        G, g = table(s, m, 'TwoSpins', 'AntiSymmetric')
        det = s.array((5,), cplx=False, kind=4) + 1
        with quiet(): obs.Measure(chi, bk, det, G, NN)
        put('1-JP', det.min(), 1.0)
        for pre, z, st in (('', x, 'StagChi'), ('BK', y, 'BKStagChi')):
            z = z[0, :, 0]
            sc = np.sum(np.abs(z)) * max(1.0, dt) + 1e-12
            K = lambda k: np.sum(z.sum(axis=-1) * np.exp(-1j * vec.dot(np.array(k, dtype=float)))) * dt / ns
            u = K([0] * dim)
            put(pre + 'UnifChi', u, sc)
            put(('BK ' if pre else '') + 'Mag^2 density', u / m.Vol / ns / m.Beta, sc)
            put('BK_SumRule' if pre else 'SumRule', z[0, 0, 0, 0], sc)
            put('BK_Energy' if pre else 'Energy', sum(z[a, b, at[tuple(r)], 0] for a in range(ns) for b in range(ns) for r in NN[a][b]) / ns, sc)
            k = None
            if name in ('Chain', 'Assymetric_Triangular', 'Square', 'Cubic', 'Checkerboard', '3DCheckerboard', 'ValenceBond'): k = [PI] * dim
            elif name == 'Triangular': k = list(lat.GetKVecAlongPath(np.array(lat.Path[0]), np.array(lat.Path[1]), (0, 0)))[-1]
            if k is not None:
                put(st, K(k), sc)
                put(('BK StagMag^2 density' if pre else 'StagMag^2 density'), K(k) / m.Vol / ns / m.Beta, sc)
            if name == 'Pyrochlore' and not pre: put('Chi_X(4Pi,2Pi,0)', K((4 * PI, 2 * PI, 0)), sc)
            if name == 'ValenceBond' and not pre: put('VBS', (z[0, 1, at[(0, 0)]] - z[0, 1, at[(0, L[1] - 1)]]).sum() * dt, sc)
        sc = np.sum(np.abs(g)) + 1e-12
        for a in range(ns):
            e = lambda t: 1.5 * t[-1] - 0.5 * t[-2] # the value at the end of the time interval
            u, d = e(g[UP, a, UP, a, 0]), e(g[DOWN, a, DOWN, a, 0])
            put('<Sz_%d>' % a, -0.5 * (u - d), sc)
            put('<n_%d>' % a, u + d, sc)
        for w, t in ((chi, x), (bk, y), (G, g)):
            w.FFT('R', 'T')
            CHECK(close(w.Data, t, 1e-9, max(1e-12, np.max(np.abs(t)))), 'inputs', '%s: measuring changed a table' % what)
    sc = tempfile.mkdtemp(prefix='obs', dir=os.getcwd())
    try:
        obs.Save(os.path.join(sc, 'out'))
        got = IO.LoadDict(os.path.join(sc, 'out'))
        again = measure.Observable(m, lat)
        again.Load(os.path.join(sc, 'out'))
        again.Save(os.path.join(sc, 'out2'))
        CHECK(IO.LoadDict(os.path.join(sc, 'out2')) == got, 'reload', what)
    finally: shutil.rmtree(sc, ignore_errors=True)
    CHECK(sorted(got) == sorted(want), 'names', lambda: '%s: quantities %s' % (what, sorted(set(got) ^ set(want))))
    for k in sorted(want):
        CHECK(len(got[k]) == n, 'history', lambda: '%s: %d values of %s after %d measurements' % (what, len(got[k]), k, n))
        for i, (v, t) in enumerate(want[k]): CHECK(abs(got[k][i] - v) <= 1e-9 * t, 'value', lambda: '%s: %s is %s instead of %s in measurement %d' % (what, k, got[k][i], v, i + 1))
    if n > 1 and m.Vol > 1: s.nontrivial('%s, %d measurements' % (what, n))
    s.tag(name)
if __name__ == '__main__': main()
