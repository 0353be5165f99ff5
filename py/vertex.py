"""D12 compressed vertex functions; D15 vertex function diagrams"""
from common import *
import gamma3_calc as g3, calculator as calc, basis
quiet_out = open(os.devnull, 'w')
class quiet:
    def __enter__(self): self.o = sys.stdout; sys.stdout = quiet_out
    def __exit__(self, *a): sys.stdout = self.o
def vmap(s, maxL=4, maxbin=6, sym=True, fit=False, tiny=False):
    """one sublattice in two dimensions, the only case vertex functions are used for"""
    names = s.pick([[], ['SU2'], ['SU2', 'ParticleHole', 'Square'], ['Square'], ['Triangular'], ['SU2', 'Triangular'], ['Checkerboard'], ['Square', 'Square']]) if sym else []
    a, b = s.range(1, maxL), s.range(1, maxL)
    if 'Triangular' in names: b = a
    n = s.range(1, maxbin)
    t = n
    if tiny:
        k = s.pick([1, 1, 2, 3])
        n = t * k
    return weight.IndexMap(Beta=s.pick([1.0, 0.5, 2.0, 7.3]), L=[a, b], NSublat=1, MaxTauBin=n, MaxTauBinTiny=t, BasisNum=s.range(1, n), Symmetry=names)
def vshow(m): return 'L=%s MaxTauBin=%d/%d Beta=%s Symmetry=%s' % (m.L, m.MaxTauBin, m.MaxTauBinTiny, m.Beta, m.Symmetry)
def group(m):
    """the point operations used for this lattice"""
    e = lambda x, y: (x, y)
    i = lambda x, y: (-x, -y)
    if 'Triangular' in m.Symmetry: return [e, i, lambda x, y: (-x - y, y), lambda x, y: (x + y, -y)]
    if 'Square' in m.Symmetry: return [e, i, lambda x, y: (-x, y), lambda x, y: (x, -y)]
    return [e]
def images(m):
    """for every operation the index of the image of every site"""
    c = coords(m.L)
    at = {r: i for i, r in enumerate(c)}
    return [np.array([at[tuple(v % l for v, l in zip(g(*r), m.L))] for r in c]) for g in group(m)]
def orbits(m):
    im = images(m)
    lab = -np.ones((m.Vol, m.Vol), dtype=int)
    out = []
    for a in range(m.Vol):
        for b in range(m.Vol):
            if lab[a, b] >= 0: continue
            o = sorted(set((int(p[a]), int(p[b])) for p in im))
            for x in o: lab[x] = len(out)
            out.append(o)
    return lab, out
@prop('maps', 'an orbit of several entries')
def maps(s):
    """the index, multiplicity and conjugation maps, enumerated completely"""
    m = vmap(s, maxL=5, maxbin=s.pick([4, 8, 20]))
    if s.flip(1, 60): # more bins than small integers are cached for
        m = weight.IndexMap(Beta=1.0, L=[1, 1], NSublat=1, MaxTauBin=s.pick([257, 258, 260, 300]), MaxTauBinTiny=s.pick([256, 257, 258, 259]), BasisNum=1, Symmetry=[])
    T = m.MaxTauBinTiny
    ts, tr, tf, tg, rs, rr, rf = [np.array(x) for x in g3.SymmetryMapping(m)]
    w = vshow(m)
    CHECK(ts.shape == tf.shape == tg.shape == (T, T) and rs.shape == rf.shape == (m.Vol, m.Vol), 'shapes', w)
    i, j = np.indices((T, T))
    lo, hi = np.minimum(i, j), np.maximum(i, j)
    CHECK(len(tr) == T * (T + 1) // 2 and sorted(set(ts.reshape(-1))) == list(range(len(tr))), 'bins', lambda: '%s: %d pairs of bins, numbers %s' % (w, len(tr), sorted(set(ts.reshape(-1)))[-3:]))
    r = tr[ts]
    CHECK(np.array_equal(np.sort(r, axis=-1), np.stack([lo, hi], axis=-1)), 'bins', lambda: '%s: pairs of bins are mixed up' % w)
    same = (r[..., 0] == i) & (r[..., 1] == j)
    CHECK(np.array_equal(tg == 0, same), 'flag', lambda: '%s: conjugation flags %s' % (w, np.argwhere((tg == 0) != same)[:4].tolist()))
    CHECK(np.array_equal(tf, np.where(i == j, 1, 2)), 'multiplicity', lambda: '%s: time multiplicities wrong at %s' % (w, np.argwhere(tf != np.where(i == j, 1, 2))[:4].tolist()))
    lab, orb = orbits(m)
    CHECK(len(rr) == len(orb) and sorted(set(rs.reshape(-1))) == list(range(len(rr))), 'sites', lambda: '%s: %d classes of sites instead of %d' % (w, len(rr), len(orb)))
    for k, o in enumerate(orb):
        n = set(int(rs[x]) for x in o)
        CHECK(len(n) == 1, 'orbit', lambda: '%s: equivalent pairs %s have numbers %s' % (w, o, n))
        CHECK(tuple(int(x) for x in rr[n.pop()]) in o, 'restore', lambda: '%s: representative of %s is elsewhere' % (w, o))
        CHECK(all(rf[x] == len(o) for x in o), 'multiplicity', lambda: '%s: multiplicities of %s: %s' % (w, o, [int(rf[x]) for x in o]))
    if max(len(o) for o in orb) > 1: s.nontrivial(w)
    s.tag((m.Symmetry or ['none'])[-1])
def expand(C, m, maps=None):
    """the full table a compact one stands for"""
    lab, orb = orbits(m)
    T = m.MaxTauBinTiny
    ts, tr, tf, tg, rs, rr, rf = maps or g3.SymmetryMapping(m)
    F = np.zeros((2, m.Vol, m.Vol, T, T), dtype=complex)
    for a in range(m.Vol):
        for b in range(m.Vol):
            for t in range(T):
                F[:, a, b, t, t:] = C[:, rs[a, b]][:, [ts[t, u] for u in range(t, T)]]
    for t in range(T):
        for u in range(t + 1, T): F[:, :, :, u, t] = -np.conj(np.swapaxes(F[:, :, :, t, u], 1, 2))
    return F
def symmetrize(F, m):
    im = images(m)
    A = sum(F[:, p][:, :, p] for p in im) / len(im)
    T = m.MaxTauBinTiny
    B = -np.conj(np.swapaxes(np.swapaxes(A, 1, 2), 3, 4))
    A = (A + B) / 2
    return A
@prop('compress', 'several independent entries')
def compress(s):
    """compressing and expanding symmetric and arbitrary tables"""
    m = vmap(s, maxL=s.pick([2, 3, 4]), maxbin=s.pick([2, 4, 6]))
    w = vshow(m)
    maps = g3.SymmetryMapping(m)
    nr, nt = len(maps[5]), len(maps[1])
    shape = (2, m.Vol, m.Vol, m.MaxTauBinTiny, m.MaxTauBinTiny)
    tab = lambda sh: s.array(sh, kind=s.pick([1, 2, 4, 4, 4])).astype(np.complex64)
    kind = s.below(3)
    if kind == 0: # any compact table
        C = tab((2, nr, nt))
        c0 = C.copy()
        F = g3.UnCompressGammaW(C, m)
        CHECK(F.shape == shape, 'shape', lambda: '%s: expanded shape %s' % (w, F.shape))
        e = expand(C, m, maps)
        CHECK(np.array_equal(F, e.astype(F.dtype)), 'expand', lambda: '%s: %s' % (w, worst(F, e)))
        f0 = F.copy()
        D = g3.CompressGammaW(F, m)
        CHECK(D.shape == C.shape and np.array_equal(D, C), 'recompress', lambda: '%s: %s' % (w, worst(D, C)))
        CHECK(np.array_equal(C, c0) and np.array_equal(F, f0), 'inputs', '%s: inputs changed' % w)
    elif kind == 1: # a table with the symmetries of the lattice
        F = symmetrize(s.array(shape, kind=s.pick([2, 4, 4])), m)
        F = F.astype(np.complex64) if s.flip() else F
        f0 = F.copy()
        D = g3.CompressGammaW(F, m)
        CHECK(D.shape == (2, nr, nt), 'shape', lambda: '%s: compact shape %s' % (w, D.shape))
        G = g3.UnCompressGammaW(D, m)
        CHECK(close(G, F, 3e-7), 'symmetric', lambda: '%s: symmetric table not reproduced: %s' % (w, worst(G, F)))
        CHECK(np.array_equal(F, f0), 'inputs', '%s: input changed' % w)
        s.tag('symmetric')
    else: # any table: the expanded form is symmetric, keeps one entry of every class and does not change again
        F = tab(shape)
        D = g3.CompressGammaW(F, m)
        G = g3.UnCompressGammaW(D, m)
        for p in images(m):
            CHECK(np.array_equal(G, G[:, p][:, :, p]), 'mirror', lambda: '%s: expanded table lacks a lattice symmetry' % w)
        t, u = np.triu_indices(m.MaxTauBinTiny, 1)
        CHECK(np.array_equal(G[:, :, :, u, t], -np.conj(np.swapaxes(G, 1, 2)[:, :, :, t, u])), 'hermitian', lambda: '%s: expanded table lacks the conjugation symmetry' % w)
        lab, orb = orbits(m)
        for o in orb:
            a, b = o[0]
            for q in range(2):
                for t in range(m.MaxTauBinTiny):
                    for u in range(t, m.MaxTauBinTiny):
                        CHECK(any(G[q, a, b, t, u] == F[q, x, y, t, u] for x, y in o), 'kept', lambda: '%s: entry %s of the expanded table is none of its class' % (w, (q, a, b, t, u)))
        CHECK(np.array_equal(g3.CompressGammaW(G, m), D), 'stable', '%s: compressing again changes the entries' % w)
    # tables already in the right form are left alone
    CHECK(np.array_equal(g3.CompressGammaW(D, m), D) and np.array_equal(g3.UnCompressGammaW(F, m), F), 'idempotent', w)
    if nr * nt > 1: s.nontrivial(w)
def ext(a, n, sign):
    """value at bin n of a table continued (anti)periodically beyond one period"""
    N = a.shape[-1]
    q, r = divmod(n, N)
    return a[..., r] * (sign ** (q % 2) if sign < 0 else 1)
def edges(a, sign):
    """values at the bin edges -N+1 .. N-1 as a function: average of the two neighbouring bins"""
    return lambda n: 0.5 * (ext(a, n - 1, sign) + ext(a, n, sign))
def gen_G(s, m):
    """propagator diagonal in spin and sublattice"""
    G = weight.Weight("SmoothT", m, "TwoSpins", "AntiSymmetric", "R", "T")
    a = s.array((2, m.Vol, m.MaxTauBin), kind=s.pick([2, 4, 4, 4]))
    for sp in (0, 1): G.Data[sp, 0, sp, 0] = a[sp]
    if s.flip(1, 5): # not used entries
        G.Data[0, 0, 1, 0] = G.Data[1, 0, 0, 0] = s.real(-1, 1)
    return G, a
def gen_W(s, m):
    W = weight.Weight("SmoothT", m, "FourSpins", "Symmetric", "R", "T")
    W.Data[...] = s.array(W.Data.shape, kind=s.pick([2, 4, 4]))
    return W
def domain(s, *ws):
    for w in ws:
        sp, tm = s.pick(['R', 'K']), s.pick(['T', 'W'])
        w.FFT(sp, tm)
def vtable(s, m): return s.array((2, m.Vol, m.MaxTauBin, m.MaxTauBin), kind=s.pick([1, 2, 4, 4, 4]))
def judge(got, want, key, what, tol=1e-10, factors=()):
    scale = np.max(np.abs(want)) if want.size else 1
    if factors: scale = max(scale, float(np.prod([np.max(np.abs(f)) for f in factors])))
    CHECK(got.shape == want.shape and np.all(np.isfinite(got)) and np.max(np.abs(got - want)) <= tol * max(scale, 1e-12), key, lambda: '%s: %s' % (what, worst(got, want)))
@prop('vertices', 'tables of several bins and sites')
def vertices(s):
    """the diagrams that attach lines to vertex functions, against sums over times and sites"""
    m = vmap(s, maxL=3, maxbin=6, sym=False)
    N, V, dt = m.MaxTauBin, m.Vol, m.Beta / m.MaxTauBin
    w = vshow(m)
    G, g = gen_G(s, m)
    g0 = g[:, 0]
    n = np.arange(N)
    tab = lambda f: np.array([[f(a - b) for b in n] for a in n])     # [a, b] -> f(a-b)
    gu, gd = [tab(edges(g0[sp], -1)) for sp in (UP, DOWN)]
    gg = {UP: gu, DOWN: gd}
    op = s.below(5)
    with quiet():
        if op == 0:
            domain(s, G)
            got = g3.SimpleGG(G, m)
            want = np.zeros((2, V, N, N), dtype=complex)
            for a in n:
                for b in n: want[UP, 0, a, b] = ext(g0[UP], a, -1) * ext(g0[UP], -b - 1, -1)
            judge(got, want, 'bubble', w, factors=(g, g))
        elif op == 1:
            W, T = gen_W(s, m), vtable(s, m)
            t0, wd = T.copy(), W.Data.copy()
            domain(s, W)
            got = g3.AddW_To_GGGammaG(T, W, m)
            sp = {(a, b): m.Spin2Index(a, b) for a in (UP, DOWN) for b in (UP, DOWN)}
            line = lambda i, o: tab(edges(wd[i, 0, o, 0, 0], 1))
            want = np.zeros(T.shape, dtype=complex)
            for a in (UP, DOWN):
                for b in (UP, DOWN): want[a] -= T[b] * line(sp[a, b], sp[b, a])
            judge(got, want, 'one interaction', w, factors=(T, wd))
            CHECK(np.array_equal(T, t0), 'inputs', w)
            W.FFT('R', 'T')
            CHECK(close(W.Data, wd, 1e-9), 'inputs', w)
        elif op == 2:
            T = vtable(s, m)
            t0 = T.copy()
            domain(s, G)
            got = g3.AddTwoG_To_GammaG(T, G, m)
            want = np.zeros(T.shape, dtype=complex)
            for a in (UP, DOWN): want[a] = dt ** 2 * np.einsum('ta,rab,bu->rtu', gg[a], T[a], gg[a])
            judge(got, want, 'two propagators', w, factors=(T, g, g, [m.Beta ** 2]))
            CHECK(np.array_equal(T, t0), 'inputs', w)
        elif op == 3:
            T = vtable(s, m)
            t0 = T.copy()
            domain(s, G)
            got = g3.AddG_To_GGGammaG(T, G, m)
            want = np.zeros((2, V, V, N, N), dtype=complex)
            sw = lambda x: np.swapaxes(x, -1, -2)
            a0 = -sum(sw(gg[a]) * T[a] + gg[a] * sw(T[a]) for a in (UP, DOWN))
            a1 = -(sw(gd) * T[UP] + gu * sw(T[DOWN]))
            for r in range(V): want[0, r, r], want[1, r, r] = a0[r], a1[r]
            judge(got, want, 'propagator loop', w, 3e-6, (g, T))
            CHECK(np.array_equal(T, t0), 'inputs', w)
        else:
            F = s.array((2, V, V, N, N), kind=s.pick([2, 4, 4]))
            if s.flip(): F = F.astype(np.complex64)
            f0 = F.copy()
            domain(s, G)
            got = g3.AddG_To_WWGammaW(F, G, m)
            d = np.einsum('srrab->srab', f0)
            want = np.zeros((2, V, N, N), dtype=complex)
            want[UP] = gu * d[0] + gd * d[1]
            want[DOWN] = -gd * np.conj(d[0]) - gu * np.conj(d[1])
            judge(got, want, 'closing', w, 1e-6, (g, f0))
            CHECK(np.array_equal(F, f0), 'inputs', w)
    G.FFT('R', 'T')
    CHECK(close(G.Data[(UP, DOWN), 0, (UP, DOWN), 0], g[[UP, DOWN]], 1e-9), 'inputs', '%s: propagator changed' % w)
    s.tag('diagram %d' % op)
    if N > 1 and V > 1: s.nontrivial('%s, diagram %d' % (w, op))
@prop('interactions', 'tables of several bins and sites')
def interactions(s):
    """attaching two interaction lines to a vertex function, full or compressed, against sums over times and sites"""
    m = vmap(s, maxL=s.pick([2, 3]), maxbin=4, tiny=True)
    V, T = m.Vol, m.MaxTauBinTiny
    w = vshow(m)
    W = gen_W(s, m)
    W0 = weight.Weight("DeltaT", m, "FourSpins", None, "R")
    W0.Data[...] = s.array(W0.Data.shape, kind=s.pick([0, 2, 4]))
    wd, w0d = W.Data.copy(), W0.Data.copy()
    domain(s, W)
    W0.FFT(s.pick(['R', 'K']))
    if s.flip(1, 3): # a compact table
        maps = g3.SymmetryMapping(m)
        C = s.array((2, len(maps[5]), len(maps[1])), kind=s.pick([2, 4, 4])).astype(np.complex64)
        F, arg = expand(C, m, maps), C.copy()
        s.tag('compact')
    else:
        F = s.array((2, V, V, T, T), kind=s.pick([1, 2, 4, 4])).astype(np.complex64)
        arg = F.copy()
    with quiet(): got = g3.AddTwoW_To_GammaW(arg, W0, W, m)
    uu = m.Spin2Index(UP, UP)
    f = edges(wd[uu, 0, uu, 0], 1)
    line = np.array([f(t * (m.MaxTauBin // T)) for t in range(T)]).T * m.Beta / T   # [r, t]
    line[:, 0] += w0d[uu, 0, uu, 0]
    c = coords(m.L)
    at = {r: i for i, r in enumerate(c)}
    d = np.array([[at[tuple((x - y) % l for x, y, l in zip(a, b, m.L))] for b in c] for a in c])
    t = (np.arange(T)[:, None] - np.arange(T)[None, :]) % T
    K = line[d][:, :, t]    # [r, r', t, t']
    want = np.einsum('adtp,begq,sdepq->sabtg', K, K, F, optimize=True)
    want[1] *= 4
    judge(got, -want, 'two interactions', w, 3e-5, (line, line, F))
    W.FFT('R', 'T')
    W0.FFT('R')
    CHECK(close(W.Data, wd, 1e-9) and close(W0.Data, w0d, 1e-9), 'inputs', '%s: lines changed' % w)
    if T > 1 and V > 1: s.nontrivial(w)
@prop('bethe', 'tables of several bins and sites')
def bethe(s):
    """the susceptibility from the vertex function equals that from the polarization made of it; spin correlations of it"""
    m = vmap(s, maxL=3, maxbin=5, sym=False)
    V, N = m.Vol, m.MaxTauBin
    w = vshow(m)
    T = vtable(s, m) * s.pick([0.05, 0.3, 1.0])
    T0 = T.copy()
    W0 = weight.Weight("DeltaT", m, "FourSpins", None, "R")
    W0.Data[...] = s.array(W0.Data.shape, kind=s.pick([0, 2, 4])) * s.pick([0.05, 0.3])
    w0d = W0.Data.copy()
    W0.FFT(s.pick(['R', 'K']))
    P = weight.Weight("SmoothT", m, "FourSpins", "Symmetric", "R", "T")
    uu, dd = m.Spin2Index(UP, UP), m.Spin2Index(DOWN, DOWN)
    for k in range(N):
        for a, b, x in ((uu, uu, UP), (dd, dd, UP), (dd, uu, DOWN), (uu, dd, DOWN)): P.Data[a, 0, b, 0, :, k] = T[x, :, k, k]
    with quiet(): got, det = g3.FullGGGammaG(T, W0, m)
    # chi = -P + P W0 chi in momentum and frequency; tables are sampled half a bin off, W0 is instantaneous
    p = to_domain(P.Data, m.L, False, True, 'K', 'W')[:, 0, :, 0]
    j = to_domain(w0d, m.L, False, False, 'K', 'T')[:, 0, :, 0]
    c = m.Beta / N * np.cos(np.pi * np.arange(N) / N)
    got.FFT('K', 'W')
    x = got.Data[:, 0, :, 0]
    r = x + p - c * np.einsum('abvt,bcv,cdvt->advt', p, j, x)
    if np.max(np.abs(x)) > 1e4 * np.max(np.abs(p)): raise Discard()
    CHECK(np.max(np.abs(r)) <= 1e-8 * max(np.max(np.abs(x)), 1e-12), 'susceptibility', lambda: '%s: Chi + P - P W0 Chi = %g of %g' % (w, np.max(np.abs(r)), np.max(np.abs(x))))
    got.FFT('R', 'T')
    with quiet(): chi = g3.Calculate_Chi(got, m)
    x = got.Data[:, 0, :, 0]
    judge(chi.Data[0, 0, 0, 0], 0.25 * (x[uu, uu] + x[dd, dd] - x[uu, dd] - x[dd, uu]), 'correlation', w, factors=(x,))
    CHECK(np.array_equal(T, T0), 'inputs', w)
    W0.FFT('R')
    CHECK(close(W0.Data, w0d, 1e-9), 'inputs', '%s: bare line changed' % w)
    if N > 1 and V > 1: s.nontrivial(w)
@prop('expansion', 'several basis functions')
def expansion(s):
    """vertex functions in the imaginary-time basis: functions in its span are reproduced, others projected"""
    m = weight.IndexMap(Beta=s.pick([1.0, 0.5, 2.0]), L=[1, s.range(1, 2)], NSublat=1, MaxTauBin=s.range(1, 12), MaxTauBinTiny=1, BasisNum=s.range(1, 8), Symmetry=[])
    B = g3.GetBoseBasis(m)
    nb, V, N = m.BasisNum, m.Vol, m.MaxTauBin
    w = '%s BasisNum=%d' % (vshow(m), nb)
    CHECK(B.shape == (nb, N), 'basis', lambda: '%s: %s' % (w, B.shape))
    c = s.array((2, V, V, nb, nb), kind=s.pick([1, 4]))
    F = g3.RestoreGammaW(c, m)
    judge(F, np.einsum('sabkl,km,ln->sabmn', c, B, B), 'restore', w)
    judge(g3.FitGammaW(F, m), c, 'fit', w, 1e-8)
    d = np.einsum('saakl->sakl', c)
    judge(g3.RestoreGammaW_diagonal(d, m), np.einsum('saamn->samn', F), 'restore', w)
    judge(g3.FitGammaW_diagonal(np.einsum('saamn->samn', F), m), d, 'fit', w, 1e-8)
    X = s.array((2, V, V, N, N), kind=s.pick([1, 4]))
    P = B.T.dot(B)
    judge(g3.RestoreGammaW(g3.FitGammaW(X, m), m), np.einsum('mp,nq,sabpq->sabmn', P, P, X), 'projection', w, 1e-8)
    if nb > 1: s.nontrivial(w)
if __name__ == '__main__': main()
