"""D05 lattice geometry and structure factors, D06 bare propagators and interactions"""
from common import *
import itertools
import lattice, model
from scipy.special import expit
LATS = {'Chain': (1, 1), 'Checkerboard': (2, 2), 'ValenceBond': (2, 2), 'Square': (2, 1), 'Triangular': (2, 1), 'Assymetric_Triangular': (2, 3),
        'Honeycomb': (2, 2), 'Kagome': (2, 3), 'Cubic': (3, 1), '3DCheckerboard': (3, 2), 'Pyrochlore': (3, 4)}
NAMES = sorted(LATS)
def make(name, L, nsub=None, beta=1.0, nbin=2):
    m = weight.IndexMap(Beta=beta, L=list(L), NSublat=LATS[name][1] if nsub is None else nsub, MaxTauBin=nbin, MaxTauBinTiny=nbin, BasisNum=1, Symmetry=False)
    return m, lattice.Lattice(name, m)
def gen_size(s, name, lo, vol):
    L = []
    for i in range(LATS[name][0]):
        L.append(s.range(lo, max(lo, min(5, vol // int(np.prod(L + [1]))))))
    return L
def duals(lat): return 2 * np.pi * np.linalg.inv(lat.LatVec).T
def cell_vec(lat, c, a, b): return np.array(c, dtype=float).dot(lat.LatVec) + lat.SubLatVec[b] - lat.SubLatVec[a]

@prop('D05', 'at least two sites, or a path with at least two wave vectors')
def D05(s):
    name = s.pick(NAMES)
    dim, nsub = LATS[name]
    L = gen_size(s, name, 1, 24)
    what = '%s %s' % (name, L)
    if s.flip(1, 12): # a request that does not fit the lattice
        if s.flip(): bad = lambda: make(name, L, nsub + s.range(1, 2))
        else: bad = lambda: make(name, L + [2] if s.flip() or dim == 1 else L[:-1])
        CHECK(refuses(bad), 'accepts', '%s accepted with the wrong dimension or number of sublattices' % what)
        return
    m, lat = make(name, L)
    CHECK(lat.Dim == dim and lat.NSublat == nsub and lat.LatVec.shape == (dim, dim) and lat.SubLatVec.shape == (nsub, dim), 'shape', what)
    CHECK(abs(np.linalg.det(lat.LatVec)) > 1e-6, 'degenerate', what + ': lattice vectors are dependent')
    d = lat.LatVec.dot(lat.ReciprocalLatVec.T)
    CHECK(np.allclose(d, 2 * np.pi * np.eye(dim), atol=1e-9), 'dual', lambda: '%s: lattice vectors times reciprocal vectors is %s' % (what, (d / 2 / np.pi).round(6).tolist()))
    R = coords(L)
    if s.flip(1, 3): return sites(s, name, L, m, lat, what, R)
    if s.flip(): return structure(s, name, L, m, lat, what, R)
    return path(s, name, L, m, lat, what)
def sites(s, name, L, m, lat, what, R):
    nsub = lat.NSublat
    # coordinates and indices
    seen = set()
    CHECK(tuple(tuple(int(x) for x in c) for c in m.GetAllCoordi()) == tuple(R), 'coords', what + ': list of coordinates')
    for i, c in enumerate(R):
        CHECK(int(m.CoordiIndex(c)) == i, 'index', lambda: '%s: index of %s is %s' % (what, c, m.CoordiIndex(c)))
        CHECK(tuple(int(x) for x in m.IndexToCoordi(i)) == c, 'coordi', lambda: '%s: coordinate of %d is %s' % (what, i, m.IndexToCoordi(i)))
        for b in range(nsub): seen.add(int(m.LatIndex(c, b)))
    CHECK(seen == set(range(len(R) * nsub)), 'latindex', what + ': sites do not map to distinct indices')
    inv = np.linalg.inv(lat.LatVec)
    box = np.array(L, dtype=float)
    for off in (False, True):
        a = s.below(nsub)
        pts, lines = lat.GetSitesList(HasOffset=off, SubLatIn=a)
        CHECK(len(pts) == len(R) * nsub, 'sites', '%s: %d sites' % (what, len(pts)))
        pos = []
        for i, (v, c, b) in enumerate(pts):
            CHECK(int(m.LatIndex(c, b)) == i, 'site_order', '%s: site %d is %s %s' % (what, i, c, b))
            # a displacement belongs to one cell of the periodic lattice
            x = (np.array(v) - lat.SubLatVec[b] + lat.SubLatVec[a]).dot(inv)
            CHECK(np.allclose(x, np.round(x), atol=1e-9), 'site_vec', lambda: '%s: site %s %s is at %s, %s cells' % (what, c, b, v, x))
            n = np.round(x).astype(int)
            CHECK(np.all(n >= 0) and np.all(n < box), 'site_box', lambda: '%s: site %s %s is in cell %s' % (what, c, b, n))
            shift = (np.array(L) // 2 - 1) if off else 0
            CHECK(np.array_equal(n, (np.array(c) + shift) % np.array(L)), 'site_cell', lambda: '%s: site %s is put in cell %s' % (what, c, n))
            pos.append(np.array(v).dot(inv) / box)
        # different sites are at different places of the periodic box
        pos = np.array(pos)
        df = pos[:, None] - pos[None]
        df = np.abs(df - np.round(df)).max(axis=2) + np.eye(len(pos))
        CHECK(df.min() > 1e-6, 'overlap', what + ': two sites at the same place')
        want = sorted(((int(m.LatIndex(c, b)), int(m.LatIndex(c, e))), b) for c in R for b in range(nsub) for e in range(b, nsub))
        CHECK(sorted(((int(x), int(y)), int(b)) for (x, y), b in lines) == want, 'lines', what + ': lines inside the unit cell')
    # displacements are periodic: any representative of one displacement gives the same vector
    for rep in range(3):
        c = s.pick(R)
        a, b = s.below(nsub), s.below(nsub)
        off = np.array([s.below(l) for l in L])
        v = np.array(lat.GetRealVec(c, a, b, off))
        w = np.array(lat.GetRealVec(tuple((c[i] + int(off[i])) % L[i] for i in range(len(L))), a, b, np.zeros(len(L), dtype=int)))
        u = np.array(lat.GetRealVec(tuple(c[i] - L[i] for i in range(len(L))), a, b, off))
        CHECK(np.allclose(v, w) and np.allclose(u, w), 'periodic', lambda: '%s: the displacement %s with offset %s is %s, %s or %s' % (what, c, off, v, w, u))
    if len(seen) > 1: s.nontrivial('sites ' + what), s.tag('sites')
def structure(s, name, L, m, lat, what, R):
    nsub, dim = lat.NSublat, lat.Dim
    data = s.array((nsub, nsub, m.Vol))
    keep = data.copy()
    b = duals(lat)
    kind = s.pick(['Integer', 'Real'])
    ks = []
    for i in range(s.range(1, 4)):
        if kind == 'Integer': ks.append(tuple(s.range(-2 * l, 2 * l) for l in L))
        else: ks.append(tuple(s.real(-10, 10) for l in L))
    bound = None
    if s.flip(1, 4): bound = [[-s.real(0, 12), s.real(0, 12)] for i in range(dim)]
    K, F = lat.FourierTransformation(data, ks, kind, bound) if bound is not None or s.flip() else lat.FourierTransformation(data, ks, kind)
    CHECK(np.array_equal(data, keep), 'input', what + ': the table was altered')
    want = []
    for k in ks:
        kv = np.array(k) if kind == 'Real' else np.array([k[i] / float(L[i]) for i in range(dim)]).dot(b)
        if bound is not None and any(abs(kv[i] - x) < 1e-9 for i in range(dim) for x in bound[i]): raise Discard()
        if bound is None or all(bound[i][0] <= kv[i] <= bound[i][1] for i in range(dim)):
            f = sum(keep[x, y, i] * np.exp(-1j * kv.dot(cell_vec(lat, c, x, y))) for x in range(nsub) for y in range(nsub) for i, c in enumerate(R))
            want.append((kv, f / nsub))
    CHECK(len(K) == len(want) and len(F) == len(want), 'number', '%s: %d wave vectors instead of %d' % (what, len(K), len(want)))
    sc = max(1.0, np.abs(keep).sum())
    for (kv, f), k, g in zip(want, K, F):
        CHECK(np.allclose(k, kv, atol=1e-9), 'wave_vector', lambda: '%s: wave vector %s instead of %s' % (what, k, kv))
        CHECK(abs(f - g) < 1e-9 * sc, 'structure', lambda: '%s: F(%s) is %s instead of %s' % (what, kv, g, f))
        if kind == 'Integer': # those of the finite periodic lattice
            for i in range(dim): CHECK(abs(np.exp(1j * np.dot(k, lat.LatVec[i]) * L[i]) - 1) < 1e-6, 'commensurate', lambda: '%s: %s is not a wave vector of the periodic lattice' % (what, k))
    if nsub == 1 and kind == 'Integer' and bound is None: # the transform of the tables
        w = weight.Weight('DeltaT', m, 'NoSpin', 'Symmetric', 'R', 'T')
        w.Data = keep.reshape(w.Shape).copy()
        w.FFT('K')
        for k, g in zip(ks, F):
            x = w.Data[0, 0, 0, 0, R.index(tuple(k[i] % L[i] for i in range(dim)))]
            CHECK(abs(x - g) < 1e-9 * sc, 'fft', lambda: '%s: structure factor %s, Fourier transform of the table %s' % (what, g, x))
    if m.Vol * nsub > 1 and np.any(keep) and want: s.nontrivial('structure factor %s %s' % (what, kind)), s.tag('structure')
def path(s, name, L, m, lat, what):
    b, dim = duals(lat), lat.Dim
    grid = np.array([[c[i] / float(L[i]) for i in range(dim)] for c in itertools.product(*[range(-l, l + 1) for l in L])]).dot(b)
    n = 0
    for call in range(s.range(1, 4)):
        center = np.zeros(dim)
        if s.flip() and hasattr(lat, 'IndependtBZCenter'): center = np.array(s.pick(lat.IndependtBZCenter), dtype=float).reshape(dim)
        elif s.flip(): center = np.array([s.range(-1, 1) for i in range(dim)]).dot(b)
        cen = s.pick([center, tuple(center), list(center)])
        if s.flip() and hasattr(lat, 'Path'):
            i = s.below(len(lat.Path) - 1)
            p, q = np.array(lat.Path[i]), np.array(lat.Path[i + 1])
        else: p, q = grid[s.below(len(grid))], grid[s.below(len(grid))]
        got = lat.GetKVecAlongPath(p, q, cen)
        g = grid + center
        a, z = p + center, q + center
        ex = np.linalg.norm(g - a, axis=1) + np.linalg.norm(g - z, axis=1) - np.linalg.norm(z - a)
        sure, may = g[np.abs(ex) < 0.9e-3], g[np.abs(ex) < 1.1e-3]
        got = [np.array(k).reshape(dim) for k in got]
        has = lambda k, l: any(np.allclose(k, x, atol=1e-7) for x in l)
        for k in sure: CHECK(has(k, got), 'path_missing', lambda: '%s: %s lies between %s and %s but is not listed (call %d)' % (what, k, a, z, call))
        for k in got: CHECK(has(k, may), 'path_extra', lambda: '%s: %s does not lie between %s and %s or is no wave vector of the lattice (call %d)' % (what, k, a, z, call))
        CHECK(len(sure) <= len(got) <= len(may), 'path_number', lambda: '%s: %d wave vectors instead of %d' % (what, len(got), len(sure)))
        n = max(n, len(got))
    if n > 1: s.nontrivial('path ' + what), s.tag('path')

# ---------------------------------------------------------------- bare tables
SX, SY, SZ = [np.array(x) for x in ([[0, .5], [.5, 0]], [[0, -.5j], [.5j, 0]], [[.5, 0], [0, -.5]])]
def pair(a, b): return np.einsum('ab,cd->abcd', a, b).reshape(4, 4)
SS = pair(SX, SX) + pair(SY, SY) + pair(SZ, SZ)
DENS = pair(np.eye(2), np.eye(2))
def shells(lat, n=3):
    out = []
    for a in range(lat.NSublat):
        for b in range(lat.NSublat):
            for c in itertools.product(*[range(-2, 3)] * lat.Dim):
                v = np.linalg.norm(cell_vec(lat, c, a, b))
                if v > 1e-9: out.append((v, a, b, c))
    ds = []
    for v in sorted(x[0] for x in out):
        if not ds or v > ds[-1] + 1e-6: ds.append(v)
    return [[x[1:] for x in out if abs(x[0] - d) < 1e-6] for d in ds[:n]]
def midpoint_is_site(lat, a, b, c):
    mid = lat.SubLatVec[a] + 0.5 * cell_vec(lat, c, a, b)
    for e in range(lat.NSublat):
        x = (mid - lat.SubLatVec[e]).dot(np.linalg.inv(lat.LatVec))
        if np.allclose(x, np.round(x), atol=1e-6): return True
    return False
def bonds(name, lat):
    """sites coupled by J1, J2, J3 seen from the geometry of the lattice"""
    if name == 'ValenceBond': # dimers along one direction
        nn = shells(lat)[0]
        return [[x for x in nn if not (x[0] != x[1] and any(x[2]))], [x for x in nn if x[0] != x[1] and any(x[2])], []]
    sh = shells(lat)
    j3 = []
    if name == 'Pyrochlore': j3 = [x for x in sh[2] if midpoint_is_site(lat, *x)]
    if name == 'Kagome': j3 = [x for x in sh[2] if not midpoint_is_site(lat, *x)]
    j2 = [] if name in ('Cubic', 'Assymetric_Triangular') else sh[1]
    return [sh[0], j2, j3]
def fold(m, c): return int(np.ravel_multi_index([x % l for x, l in zip(c, m.L)], m.L))
def spins_table(m, lst):
    w = np.zeros((4, m.NSublat, 4, m.NSublat, m.Vol), dtype=complex)
    for mat, bs in lst:
        for a, b, c in bs: w[:, a, :, b, fold(m, c)] += mat
    return w
@prop('D06', 'at least one coupling or hopping is not zero')
def D06(s):
    if s.flip(1, 4): return hopping(s)
    kitaev = s.flip(1, 8)
    name = 'Honeycomb' if kitaev else s.pick(NAMES)
    L = gen_size(s, name, 3 if name == 'Triangular' else 2, 27)
    beta, nbin = s.pick([1.0, 0.5, 2.0, 10.0]), s.range(1, 6)
    m, lat = make(name, L, beta=beta, nbin=nbin)
    ns = lat.NSublat
    modelname = 'Kitaev' if kitaev else s.pick(['Heisenberg', 'J1J2'])
    J = [s.pick([0.0, 1.0, -1.0, 0.5, 2]) for i in range(3 if kitaev else s.range(1 if modelname == 'Heisenberg' else 2, 4 if name == 'ValenceBond' else 3))]
    field = lambda: [s.pick([0.0, 0.0, 1.0, -0.5, 0.3, 2]) for i in range(s.range(ns, 4))]
    ham = dict(Name=modelname, Interaction=list(J), ExternalField=field())
    imw = s.flip(1, 6)
    if imw or s.flip(): ham['Description'] = ['ImW'] if imw else [s.pick(['Quench', ''])]
    delta = field()
    ann = dict(DeltaField=list(delta), Interval=[s.pick([-0.1, -0.5, 0.25, 0.0]) for x in delta])
    D, I = [float(x) for x in delta], list(ann['Interval'])
    what = '%s %s %s J=%s' % (modelname, name, L, J)
    f = model.BareFactory(m, lat, ham, ann)
    hist, old = [], None
    for step in range(s.range(1, 4)):
        op = s.pick(['build', 'decrease', 'revert', 'decrease']) if step else 'build'
        if op == 'decrease':
            r = f.DecreaseField(ann)
            moved = abs(D[0]) > 1e-5
            if moved: D = [x + y for x, y in zip(D, I)]
            CHECK(bool(r) == moved, 'decrease', '%s: field %s, decreasing returned %s' % (what, D, r))
        elif op == 'revert':
            f.RevertField(ann)
            I = [x / 2.0 for x in I]
            D = [x - y for x, y in zip(D, I)]
        hist.append(op)
        CHECK(close(ann['DeltaField'], D, 1e-12, 1.0) and close(ann['Interval'], I, 1e-12, 1.0), 'field_record', lambda: '%s: after %s the recorded field is %s (step %s), expected %s (%s)' % (what, hist, ann['DeltaField'], ann['Interval'], D, I))
        G, W = f.Build()
        check_spin_model(m, lat, name, modelname, J, ham, D, imw, G, W, what + ' after %s' % hist)
        if old is not None:
            CHECK(old[0] is not G and old[1] is not W and np.array_equal(old[0].Data, old[2]) and np.array_equal(old[1].Data, old[3]), 'rebuild', what + ': building again altered the tables handed out before')
        old = (G, W, G.Data.copy(), W.Data.copy())
    CHECK(ham['Interaction'] == J, 'input', what + ': the description of the model was altered')
    lines(s, m, lat, f, W, what)
    if any(J): s.nontrivial(what), s.tag(name)
def check_spin_model(m, lat, name, modelname, J, ham, D, imw, G, W, what):
    ns, N = m.NSublat, m.MaxTauBin
    CHECK((G.Name, G.NSpin, G.IsSymmetric) == ('SmoothT', 2, False) and (W.Name, W.NSpin) == ('DeltaT', 4), 'kind', what + ': kind of the tables')
    G.FFT('R', 'T'), W.FFT('R', 'T')
    CHECK(G.Data.shape == (2, ns, 2, ns, m.Vol, N) and W.Data.shape == (4, ns, 4, ns, m.Vol), 'shape', what)
    # one fermion per site: imaginary chemical potential i pi T / 2
    g = np.zeros(G.Data.shape, dtype=complex)
    tau = (np.arange(N) + 0.5) * m.Beta / N
    for a in range(ns):
        for sp in range(2):
            mu = (np.pi / 4 if imw else 1j * np.pi / 2) / m.Beta + (0.5 if sp == 0 else -0.5) * (D[a] + ham['ExternalField'][a])
            g[sp, a, sp, a, 0] = np.exp(mu * tau) / (1 + np.exp(mu * m.Beta))
    CHECK(close(G.Data, g, 1e-9), 'bare_g', lambda: '%s: bare line %s' % (what, worst(G.Data, g)))
    j = list(J) + [0.0] * 4
    if modelname == 'Kitaev':
        nn = shells(lat)[0]
        of = lambda c: [x for x in nn if (x[0] == 0 and x[2] == c) or (x[0] == 1 and x[2] == tuple(-y for y in c))]
        w = spins_table(m, [(j[0] * pair(SX, SX), of((0, 0))), (j[1] * pair(SY, SY), of((-1, 0))), (j[2] * pair(SZ, SZ), of((-1, -1)))])
    else:
        b = bonds(name, lat)
        w = spins_table(m, [(j[i] * SS, b[i]) for i in range(3)])
        if name == 'ValenceBond': w += spins_table(m, [(j[3] * SS, [(0, 1, (0, 0)), (1, 0, (0, 0))])])
    CHECK(close(W.Data, w, 1e-9, 1.0), 'bare_w', lambda: '%s: bare interaction %s' % (what, worst(W.Data, w)))
    swap = W.Data.transpose(2, 3, 0, 1, 4)[..., [fold(m, [-x for x in c]) for c in coords(m.L)]]
    CHECK(close(W.Data, swap, 1e-9, 1.0), 'exchange', lambda: '%s: not symmetric under exchange of the ends, %s' % (what, worst(W.Data, swap)))
    CHECK(np.max(np.abs(W.Data.imag)) < 1e-12, 'real', what + ': the bare interaction is not real')
def lines(s, m, lat, f, W, what):
    d = f.ToDict()
    pts, ln = lat.GetSitesList(SubLatIn=0)
    CHECK(len(d['Points']) == len(pts) and all(tuple(x[1]) == tuple(y[1]) and x[2] == y[2] and np.allclose(x[0], y[0]) for x, y in zip(d['Points'], pts)), 'points', what + ': points of the coordinates file')
    want = {}
    for a in range(m.NSublat):
        for b in range(m.NSublat):
            for i, c in enumerate(coords(m.L)):
                if abs(W.Data[3, a, 3, b, i]) > 1e-4: want[(int(m.LatIndex([0] * len(m.L), a)), int(m.LatIndex(c, b)))] = (a, b, c)
    got = {}
    for vec, ij, sub in d['Interaction']:
        ij = tuple(int(x) for x in ij)
        CHECK(ij in want and ij not in got and sub == want[ij][0], 'lines', lambda: '%s: line %s' % (what, ij))
        got[ij] = 1
        a, b, c = want[ij]
        x = (np.array(vec[1]) - np.array(vec[0]) - (cell_vec(lat, c, 0, b) - cell_vec(lat, [0] * len(m.L), 0, a))).dot(np.linalg.inv(lat.LatVec)) / np.array(m.L)
        CHECK(np.allclose(x, np.round(x), atol=1e-9), 'line_ends', lambda: '%s: the line %s runs from %s to %s' % (what, ij, vec[0], vec[1]))
    CHECK(len(got) == len(want), 'lines', '%s: %d interaction lines instead of %d' % (what, len(got), len(want)))

def hopping(s):
    name = s.pick(['Square', 'Honeycomb'])
    haldane = name == 'Honeycomb' and s.flip()
    L = [s.range(2, 4), s.range(2, 3)] if s.flip() else s.pick([[3, 3], [2, 2], [3, 2], [4, 3]])
    beta, N = s.pick([1.0, 0.5, 2.0, 10.0, 300.0, 3000.0]), s.range(1, 5)
    m, lat = make(name, L, beta=beta, nbin=N)
    ns, V = lat.NSublat, m.Vol
    t = [s.pick([0.0, 1.0, 0.5, -1.0]), s.pick([0.0, 0.0, 0.3, -0.2])]
    mu = s.pick([0.0, 0.1, -0.7, 2.0])
    h = [s.pick([0.0, 0.0, 0.2, -0.5]) for i in range(ns)]
    U = s.pick([0.0, 4.0, -1.5])
    ham = dict(Name='Haldane' if haldane else 'Hubbard', Interaction=[], Hopping=list(t), Phase=[0.0, 0.0, 0.0], ChemicalPotential=[mu], ExternalField=list(h))
    V1 = s.pick([0.0, 1.0, -0.5])
    if haldane: ham['ShortRangeInteraction'] = [V1] + ([s.pick([1.0, 0.5])] if s.flip() else [])
    else: ham['HubbardInteraction'] = s.pick([[U], U])
    what = '%s %s %s t=%s mu=%s h=%s beta=%s' % (ham['Name'], name, L, t, mu, h, beta)
    G, W = model.BareFactory(m, lat, ham, dict(DeltaField=[0.0] * ns)).Build()
    G.FFT('R', 'T'), W.FFT('R', 'T')
    R = coords(L)
    g = np.zeros((2, ns, 2, ns, V, N), dtype=complex)
    sh = shells(lat, 2)
    for sp in range(2):
        H = np.zeros((ns, V, ns, V))
        for i in range(2):
            for a, b, c in sh[i]:
                for r in R: H[a, fold(m, r), b, fold(m, [x + y for x, y in zip(r, c)])] -= t[i]
        for a in range(ns):
            for r in range(V): H[a, r, a, r] += -mu + (-h[a] if sp == UP else h[a])
        w, u = np.linalg.eigh(H.reshape(ns * V, ns * V))
        for k in range(N):
            tau = (k + 0.5) * beta / N
            f = np.where(w >= 0, np.exp(-np.abs(w) * tau), np.exp(-np.abs(w) * (beta - tau))) * expit(beta * np.abs(w))
            g[sp, :, sp, :, :, k] = (u * f).dot(u.T).reshape(ns, V, ns, V)[:, 0]
    CHECK(close(G.Data, g, 1e-8, 1.0), 'bare_g_hopping', lambda: '%s: bare line %s' % (what, worst(G.Data, g)))
    if haldane: w = spins_table(m, [(V1 * DENS, sh[0])])
    else:
        w = np.zeros((4, ns, 4, ns, V), dtype=complex)
        for a in range(ns): w[3, a, 0, a, 0] = w[0, a, 3, a, 0] = U
    CHECK(close(W.Data, w, 1e-9, 1.0), 'bare_w_density', lambda: '%s: bare interaction %s' % (what, worst(W.Data, w)))
    if any(t): s.nontrivial(what), s.tag('hopping')
if __name__ == '__main__': main()
