"""D17 the pictures drawn of the results"""
import sys, types
class Axes:
    def __init__(self): self.drawn, self.said = [], {}
    def plot(self, *a, **k): self.drawn.append(('plot', a, k)); return [Any()]
    def scatter(self, *a, **k): self.drawn.append(('scatter', a, k)); return Any()
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **k: self.said.__setitem__(n, a)
class Any:
    def __call__(self, *a, **k): return Any()
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Any()
class Pictures(types.ModuleType):
    """stand-in for matplotlib.pyplot: remembers what is drawn and under which name it is saved"""
    def reset(self): self.saved, self.shown, self.axes, self.open, self.current = {}, [], [], {}, None
    def figure(self, n=None, *a, **k):
        n = n if n is not None else max([0] + list(self.open)) + 1
        self.open.setdefault(n, [])
        self.current, self.axes = n, self.open[n]
        return self
    def ax(self):
        if self.current is None: self.figure()
        if not self.axes: self.axes.append(Axes())
        return self.axes[-1]
    def subplot(self, *a, **k):
        if self.current is None: self.figure()
        self.axes.append(Axes())
        return self.axes[-1]
    def add_subplot(self, *a, **k): return self.subplot(*a, **k)
    def gca(self, *a, **k): return self.ax()
    def subplots(self, r=1, c=1, **k):
        self.figure()
        l = [self.subplot() for i in range(r * c)]
        return self, (l[0] if len(l) == 1 else l)
    def savefig(self, name, *a, **k): self.saved.setdefault(name, []).append(list(self.axes))
    def show(self, *a, **k): self.shown.append(list(self.axes))
    def close(self, what=None):
        if what == 'all': self.open.clear()
        elif isinstance(what, int): self.open.pop(what, None)
        else: self.open.pop(self.current, None)
        self.current = max(self.open) if self.open else None
        self.axes = self.open[self.current] if self.open else []
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if n in ('colorbar', 'get_cmap', 'legend'): return lambda *a, **k: Any()
        if n in ('suptitle', 'tight_layout', 'subplots_adjust', 'draw', 'ion', 'ioff', 'clf', 'rc', 'switch_backend'): return lambda *a, **k: Any()
        return lambda *a, **k: getattr(self.ax(), n)(*a, **k)
plt = Pictures('matplotlib.pyplot')
plt.reset()
mpl = types.ModuleType('matplotlib')
mpl.use, mpl.pyplot, mpl.__path__ = lambda *a, **k: None, plt, []
mpl.__getattr__ = lambda n: Any()
sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = mpl, plt
from common import *
import lattice as latmod, plot
from geometry import LATS, gen_size, duals
from observe import table
out = open(os.devnull, 'w')
class quiet:
    def __enter__(self): self.o = sys.stdout; sys.stdout = out
    def __exit__(self, *a): sys.stdout = self.o
def world(s, lo=1, vol=24, names=None):
    name = s.pick(sorted(names or LATS))
    dim, ns = LATS[name]
    L = gen_size(s, name, lo, vol)
    m = weight.IndexMap(NSublat=ns, L=L, Beta=s.pick([0.5, 1.0, 3.0]), MaxTauBin=s.range(2, 7), MaxTauBinTiny=1, BasisNum=1, Symmetry=[])
    with quiet(): lat = latmod.Lattice(name, m)
    return name, dim, ns, L, m, lat
def picture(s, what, name, f, *a):
    """draws; returns the areas of the one picture drawn"""
    plt.reset()
    save = s.flip(3, 4)
    with quiet(): f(*a, **({} if save and s.flip() else dict(DoesSave=save)))
    CHECK(not plt.open, 'open', lambda: '%s: %d figures left open' % (what, len(plt.open)))
    if save:
        CHECK(list(plt.saved) == [name] and len(plt.saved[name]) == 1 and not plt.shown, 'file', lambda: '%s: files %s instead of %s, %d shown' % (what, list(plt.saved), name, len(plt.shown)))
        return plt.saved[name][0]
    CHECK(not plt.saved and len(plt.shown) == 1, 'shown', lambda: '%s: files %s, %d shown' % (what, list(plt.saved), len(plt.shown)))
    return plt.shown[0]
def curves(ax, kind='plot'): return [(np.array(a[0], dtype=float).ravel(), np.array(a[1], dtype=float).ravel(), k) for n, a, k in ax.drawn if n == kind]
def close_to(a, b, sc): return abs(a - b) <= 1e-9 * sc
def unchanged(what, w, d):
    w.FFT('R', 'T')
    CHECK(close(w.Data, d, 1e-9, max(1e-12, np.max(np.abs(d)))), 'changed', lambda: '%s: drawing changed the table' % what)
@prop('times', 'a component of a table with several')
def times(s):
    """time dependence of one component, or of several sites"""
    nsub, L = s.range(1, 3), [s.range(1, 3) for i in range(s.range(1, 3))]
    m = weight.IndexMap(NSublat=nsub, L=L, Beta=s.pick([0.5, 1.0, 3.0, 10.0]), MaxTauBin=s.range(2, 12), MaxTauBinTiny=1, BasisNum=1, Symmetry=[])
    spin = s.pick(['NoSpin', 'TwoSpins', 'FourSpins'])
    w = weight.Weight('SmoothT', m, spin, s.pick(['Symmetric', 'AntiSymmetric']), 'R', 'T')
    w.Data[...] = s.array(w.Data.shape, kind=s.pick([1, 2, 4, 5]))
    d = w.Data.copy()
    n = d.shape[0]
    si, so, a, b = s.below(n), s.below(n), s.below(nsub), s.below(nsub)
    nm = s.pick(['G', 'Sigma', 'a b'])
    sites = [s.below(m.Vol)]
    what = '%s of %s, component %s' % (nm, show(m), (si, a, so, b, sites))
    if s.flip(1, 3):
        sites = [s.below(m.Vol) for i in range(s.range(2, 4))]
        axs = picture(s, what, nm + '.pdf', plot.PlotTimeForList, nm, w, si, a, so, b, sites)
    else: axs = picture(s, what, nm + '.pdf', plot.PlotTime, nm, w, si, a, so, b, sites[0])
    CHECK(len(axs) == 2, 'areas', lambda: '%s: %d areas' % (what, len(axs)))
    for ax, part in ((axs[0], 'real'), (axs[1], 'imag')):
        lab = str((ax.said.get('set_ylabel') or ax.said.get('ylabel') or ('',))[0])
        CHECK(part in lab, 'label', lambda: '%s: the %s part is called %s' % (what, part, lab))
        c = curves(ax)
        CHECK(len(c) == len(sites), 'curves', lambda: '%s: %d curves' % (what, len(c)))
        for (x, y, _), v in zip(c, sites):
            want = getattr(d[si, a, so, b, v, :], part)
            CHECK(close(y, want, 1e-12), 'curve', lambda: '%s: %s part %s instead of %s' % (what, part, y, want))
            t = (np.arange(m.MaxTauBin) + 0.5) * m.Beta / m.MaxTauBin   # axis exact to half a time bin
            CHECK(len(x) == len(t) and np.max(np.abs(x - t)) <= 0.5001 * m.Beta / m.MaxTauBin, 'time', lambda: '%s: times %s instead of %s' % (what, x, t))
    unchanged(what, w, d)
    arr = s.array((s.range(2, 9),), cplx=False, kind=1)
    x, y, _ = curves(picture(s, 'array', 'arr.jpg', plot.PlotArray, arr, m.Beta, 'arr')[0])[0]
    CHECK(close(y, arr, 1e-12) and close(x, np.linspace(0, m.Beta, len(arr)), 1e-9), 'array', lambda: 'array %s over %s drawn as %s over %s' % (arr, m.Beta, y, x))
    if d.size > m.MaxTauBin: s.nontrivial(what)
@prop('space', 'at least three sites')
def space(s):
    """values at the positions of the sites, and against the distance"""
    name, dim, ns, L, m, lat = world(s)
    w, d = table(s, m, s.pick(['NoSpin', 'TwoSpins']), s.pick(['Symmetric', 'AntiSymmetric']))
    n = d.shape[0]
    si, so = s.below(n), s.below(n)
    what = 'map of %s %s, spins %s' % (name, L, (si, so))
    sites = [(c, b) for c in coords(L) for b in range(ns)]
    at = {c: i for i, c in enumerate(coords(L))}
    pos = lambda c, b: np.array(c, dtype=float).dot(lat.LatVec) + lat.SubLatVec[b] - lat.SubLatVec[0]
    axs = picture(s, what, 'spatial_sub0.pdf', plot.PlotSpatial, w, lat, si, so)
    sc = [c for c in curves(axs[0], 'scatter')]
    CHECK(len(axs) == 1 and len(sc) == 1, 'areas', what)
    x, y, k = sc[0]
    z = np.array(k['c'], dtype=float).ravel()
    flat = [(c, b) for c, b in sites if dim < 3 or c[2] == 0]
    CHECK(len(x) == len(y) == len(z) == len(flat), 'sites', lambda: '%s: %d points for %d sites' % (what, len(x), len(flat)))
    box = np.array([lat.LatVec[i] * L[i] for i in range(dim)])
    tol = max(1e-12, np.max(np.abs(d)))
    shifts = [np.array(g, dtype=float).dot(box) - 2 * box.sum(axis=0) for g in np.ndindex(*[5] * dim)]
    if dim == 3: shifts = [v for v, g in zip(shifts, np.ndindex(5, 5, 5)) if g[2] == 2] # one layer of cells is shown
    def lacks(move):
        """the first site that is not shown when the whole lattice is moved"""
        left = list(range(len(x)))
        for c, b in flat:
            val = 0.0 if not any(c) and b == 0 else d[si, 0, so, b, at[c], 0].real
            ok = []
            for v in shifts:
                p = pos(c, b) + move + v
                q = p[1] if dim > 1 else 0.0
                ok += [i for i in left if abs(x[i] - p[0]) < 1e-6 and abs(y[i] - q) < 1e-6 and close_to(z[i], val, tol)]
                if ok: break
            if not ok: return '%s sublattice %d at %s with value %s' % (c, b, pos(c, b), val)
            left.remove(ok[0])
    # the lattice may be shown moved as a whole
    off = [l // 2 - 1 for l in L]
    moves = [np.array(off, dtype=float).dot(lat.LatVec)] + [np.array(c, dtype=float).dot(lat.LatVec) for c in coords(L)]
    first = lacks(moves[0])
    CHECK(first is None or any(lacks(v) is None for v in moves[1:]), 'map', lambda: '%s: site %s is not shown; points %s' % (what, first, [(round(float(x[i]), 4), round(float(y[i]), 4), z[i]) for i in range(len(x))][:6]))
    unchanged(what, w, d)
    norm = d[si, 0, so, 0, 0, 0]
    near = [(c, b) for c, b in sites if (any(c) or b) and all(v <= l // 2 for v, l in zip(c, L))]
    if near and abs(norm) > 1e-6 * tol:
        axs = picture(s, what, 'WeightvsR.pdf', plot.PlotWeightvsR, 'w', w, lat, si, so)
        x, y, _ = curves(axs[0])[0]
        want = sorted((float(np.linalg.norm(pos(c, b))), abs(d[si, 0, so, b, at[c], 0] / norm)) for c, b in near)
        CHECK(len(x) == len(want), 'distances', lambda: '%s: %d distances for %d sites' % (what, len(x), len(want)))
        left = list(zip(x, y))
        for r, v in want:
            ok = [p for p in left if abs(p[0] - r) < 1e-6 and close_to(p[1], v, tol / abs(norm))]
            CHECK(ok, 'distance', lambda: '%s: value %s at distance %s is not shown, left are %s' % (what, v, r, left[:5]))
            left.remove(ok[0])
        CHECK(all(x[i] <= x[i + 1] + 1e-12 for i in range(len(x) - 1)), 'sorted', what)
        unchanged(what, w, d)
    if len(sites) > 2: s.nontrivial(what)
    s.tag(name)
def transform(lat, L, z, ns):
    """K -> sum over displacements of z[a,b,r] exp(-i K (r+b-a)) / sublattices"""
    C = coords(L)
    vec, val = [], []
    for a in range(ns):
        for v, c, b in lat.GetSitesList(HasOffset=False, SubLatIn=a)[0]:
            vec.append(v); val.append(z[a, b, C.index(tuple(int(x) for x in c))])
    vec, val = np.array(vec, dtype=float), np.array(val)
    return lambda K: np.exp(-1j * np.array(K, dtype=float).dot(vec.T)).dot(val) / ns
def compare_map(what, x, y, z, K, must, may, val, sc):
    """points shown: all of must, nothing outside may; K maps points of the picture to wave vectors"""
    key = lambda p: (round(float(p[0]), 5) + 0.0, round(float(p[1]), 5) + 0.0)
    got = sorted(key(p) for p in zip(x, y))
    near = lambda p, S: any((round(p[0] + i * 1e-5, 5) + 0.0, round(p[1] + j * 1e-5, 5) + 0.0) in S for i in (-1, 0, 1) for j in (-1, 0, 1))
    g = set(got)
    for p in must: CHECK(near(p, g), 'missing', lambda: '%s: the point %s is not shown' % (what, p))
    S = set(may)
    for p in got: CHECK(near(p, S), 'extra', lambda: '%s: the point %s does not belong there' % (what, p))
    CHECK(len(g) >= len(set(must)), 'points', what)
    w = val(np.array([K(a, b) for a, b in zip(x, y)]))
    bad = np.argmax(np.abs(np.array(z) - w.real))
    CHECK(abs(z[bad] - w[bad].real) <= 1e-7 * sc, 'value', lambda: '%s: %s at %s instead of %s' % (what, z[bad], (x[bad], y[bad]), w[bad].real))
@prop('waves', 'at least two sites')
def waves(s):
    """susceptibility and bands over wave vectors, and along paths"""
    kind = s.pick(['map', 'map', 'path', 'band'])
    two = [n for n in LATS if LATS[n][0] == 2]
    if kind == 'map': name, dim, ns, L, m, lat = world(s, vol=12, names=two + ['Cubic', '3DCheckerboard'])
    elif kind == 'band': name, dim, ns, L, m, lat = world(s, vol=12, names=two)
    else: name, dim, ns, L, m, lat = world(s, lo=1, vol=16, names=[n for n in LATS if n not in ('Honeycomb', 'Kagome', 'Assymetric_Triangular')])
    what = '%s of %s %s, %d bins, Beta %s' % (kind, name, L, m.MaxTauBin, m.Beta)
    b = duals(lat)
    w, d = table(s, m, 'TwoSpins' if kind == 'band' else 'NoSpin', 'AntiSymmetric' if kind == 'band' else 'Symmetric')
    dt = m.Beta / m.MaxTauBin
    z = d[0, :, 0, :, :, -1] if kind == 'band' else d[0, :, 0].sum(axis=-1) * dt
    sc = np.sum(np.abs(d)) * max(1.0, dt) + 1e-12
    val = transform(lat, L, z, ns)
    def kvec(i): return sum(b[j] * i[j] / float(L[j]) for j in range(dim))
    if kind == 'path':
        axs = picture(s, what, 'chi_1D.pdf', plot.PlotChiAlongPath, w, lat)
        got = curves(axs[0])
        CHECK(len(got) == len(lat.IndependtBZCenter), 'zones', lambda: '%s: %d curves' % (what, len(got)))
        for (x, y, _), cen in zip(got, lat.IndependtBZCenter):
            CHECK(all(x[i] <= x[i + 1] + 1e-9 for i in range(len(x) - 1)), 'sorted', what)
            want, off = [], 0.0
            for i in range(len(lat.Path) - 1):
                p, q = np.array(lat.Path[i], dtype=float), np.array(lat.Path[i + 1], dtype=float)
                for k in lat.GetKVecAlongPath(p, q, cen):
                    want.append((off + float(np.linalg.norm(np.array(k) - np.array(cen) - p)), val(k).real))
                off += float(np.linalg.norm(q - p))
            left = list(zip(x, y))
            CHECK(len(left) == len(want), 'path_points', lambda: '%s: %d points instead of %d' % (what, len(left), len(want)))
            for p, v in want:
                ok = [e for e in left if abs(e[0] - p) < 1e-6 and abs(e[1] - v) <= 1e-7 * sc]
                CHECK(ok, 'path_value', lambda: '%s: %s at %s on the path is not shown; left %s' % (what, v, p, left[:4]))
                left.remove(ok[0])
        t = axs[0].said.get('xticks')
        corner = np.cumsum([0.0] + [float(np.linalg.norm(np.array(lat.Path[i + 1], dtype=float) - np.array(lat.Path[i], dtype=float))) for i in range(len(lat.Path) - 1)])
        CHECK(t is not None and close(np.array(t[0], dtype=float), corner, 1e-6) and list(t[1]) == list(lat.PathName), 'ticks', lambda: '%s: corners %s instead of %s' % (what, t, corner))
    else:
        axs = picture(s, what, ('BandK_%s.pdf' if kind == 'band' else 'chiK_%s.pdf') % name, plot.PlotBand if kind == 'band' else plot.PlotChi_2D, w, lat)
        got = curves(axs[0], 'scatter')
        CHECK(len(got) == 1, 'areas', what)
        x, y, k = got[0]
        c = np.array(k['c'], dtype=float).ravel()
        ks = [kvec(i if dim == 2 else i + (0,)) for i in ((p, q) for p in range(-2 * L[0], 2 * L[0] + 1) for q in range(-2 * L[1], 2 * L[1] + 1))]
        flat = lambda v: (round(float(v[0]), 5) + 0.0, round(float(v[1]), 5) + 0.0)
        if dim == 2:
            CHECK(len(x) <= len(ks), 'points', what)
            must, may = [flat(v) for v in ks if max(abs(v)) < 20 - 1e-6], [flat(v) for v in ks if max(abs(v)) < 20 + 1e-6]
            compare_map(what, x, y, c, lambda p, q: (p, q), must, may, val, sc)
        else:
            must = [flat(kvec((p, q, 0))) for p in range(-2 * L[0] + 1, 2 * L[0]) for q in range(-2 * L[1] + 1, 2 * L[1])]
            # the third component follows from lying in the plane of the first two reciprocal vectors
            M = np.linalg.inv(np.array([b[0][:2], b[1][:2]]).T)
            def K(p, q):
                u = M.dot([p, q])
                return u[0] * b[0] + u[1] * b[1]
            compare_map(what, x, y, c, K, must, [flat(v) for v in ks], val, sc)
    unchanged(what, w, d)
    if m.Vol * ns > 1: s.nontrivial(what)
    s.tag(kind)
@prop('pyrochlore', 'at least two unit cells')
def pyrochlore(s):
    """the two planes of wave vectors shown for the pyrochlore lattice"""
    name, dim, ns, L, m, lat = world(s, names=['Pyrochlore'], vol=4)
    L0 = L
    what = 'planes of %s %s, %d bins, Beta %s' % (name, L, m.MaxTauBin, m.Beta)
    w, d = table(s, m, 'NoSpin', 'Symmetric')
    dt = m.Beta / m.MaxTauBin
    val = transform(lat, L, d[0, :, 0].sum(axis=-1) * dt, ns)
    sc = np.sum(np.abs(d)) * max(1.0, dt) + 1e-12
    axs = picture(s, what, 'chiK_Pyrochlore.pdf', plot.PlotChi_2D, w, lat)
    CHECK(len(axs) == 2, 'areas', lambda: '%s: %d areas' % (what, len(axs)))
    b = duals(lat)
    g = np.array([[i, j, k] for i in range(-4 * L[0], 4 * L[0] + 1) for j in range(-4 * L[1], 4 * L[1] + 1) for k in range(-4 * L[2], 4 * L[2] + 1)], dtype=float)
    ks = (g / np.array(L, dtype=float)).dot(b)
    r2 = np.sqrt(2.0)
    for ax, plane, to, K in ((axs[0], np.abs(ks[:, 0] - ks[:, 1]), lambda v: (r2 * v[0], v[2]), lambda p, q: (p / r2, p / r2, q)), (axs[1], np.abs(ks[:, 2]), lambda v: (v[0], v[1]), lambda p, q: (p, q, 0.0))):
        sct = curves(ax, 'scatter')
        CHECK(len(sct) == 1, 'areas', what)
        x, y, k = sct[0]
        inside = ks[plane < 1e-6]
        flat = lambda v: tuple(round(float(e), 5) + 0.0 for e in to(v))
        lim = np.max(np.abs(inside[:, :2]), axis=1)
        compare_map(what, x, y, np.array(k['c'], dtype=float).ravel(), K, [flat(v) for v in inside[lim < 40 - 1e-6]], [flat(v) for v in inside[lim < 40 + 1e-6]], val, sc)
    unchanged(what, w, d)
    if m.Vol > 1: s.nontrivial(what)
if __name__ == '__main__': main()
