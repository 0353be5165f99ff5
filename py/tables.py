"""D01 solvers, D02 Fourier transforms, D08 mixing, roll back, export and index maps"""
from common import *
import solver.lu_slow as lu_slow
import fastlu
lu_fast = fastlu.load()
SOLVERS = [('lu_slow', lu_slow)] + ([('lu_fast', lu_fast)] if lu_fast else [])
SPINS = {'NoSpin': 1, 'TwoSpins': 2, 'FourSpins': 4}

def gen_matrix(s, n):
    """well conditioned, often in need of pivoting"""
    r = s.np()
    k = s.below(7)
    if k == 0: a = np.eye(n, dtype=complex) * s.pick([1.0, 1j, -2.0])
    elif k == 1: a = np.eye(n, dtype=complex)[r.permutation(n)]
    elif k == 2: # zero diagonal
        a = r.uniform(-1, 1, (n, n)) + 1j * r.uniform(-1, 1, (n, n))
        if n > 1: a[np.arange(n), np.arange(n)] = 0
    elif k == 3: a = np.triu(r.uniform(-1, 1, (n, n)) + 0j) + 2 * np.eye(n)
    elif k == 4: a = (np.tril(r.uniform(-1, 1, (n, n)) + 0j) + 2j * np.eye(n))[r.permutation(n)]
    elif k == 5: a = 10.0 ** r.uniform(-6, 6, (n, 1)) * (r.uniform(-1, 1, (n, n)) + 1j * r.uniform(-1, 1, (n, n)))
    else: a = r.uniform(-1, 1, (n, n)) + 1j * r.uniform(-1, 1, (n, n))
    return a, k
def layout(s, a):
    """the same numbers in another memory layout"""
    k = s.below(5)
    if k == 0: return np.array(a, order='C')
    if k == 1: return np.array(a, order='F')
    if k == 2:
        b = np.zeros([2 * x for x in a.shape], dtype=complex)
        v = b[::2, ::2, ::2]
        v[...] = a
        return v
    if k == 3: return np.array(a.transpose(2, 1, 0), order='C').transpose(2, 1, 0)
    b = np.array(a.transpose(1, 0, 2), order='F')
    return b.transpose(1, 0, 2)
@prop('D01', 'at least one slice is neither diagonal nor a permutation, or pivoting is needed')
def D01(s):
    if s.flip(1, 3): return d01_table(s)
    name, S = s.pick(SOLVERS)
    n, m = s.range(1, 9), s.range(1, 6)
    sl = [gen_matrix(s, n) for i in range(m)]
    A = np.stack([x[0] for x in sl], axis=2)
    rs = np.max(np.abs(A), axis=1)  # row scaling does not matter for solving
    if any(not np.all(rs[:, i] > 0) or np.linalg.cond(A[:, :, i] / rs[:, i][:, None]) > 1e5 for i in range(m)): raise Discard()
    B = s.array((n, n, m), kind=s.pick([1, 2, 5, 6]))
    b = layout(s, B)
    lu, piv = S.lu_factor(layout(s, A))
    CHECK(lu.shape == (n, n, m) and piv.shape == (n, m), 'shape', 'factor shapes %s %s' % (lu.shape, piv.shape))
    lu0, piv0 = lu.copy(), piv.copy()
    for rep in range(s.range(1, 2)):
        x = S.lu_solve(lu, piv, b)
        CHECK(x.shape == (n, n, m), 'shape', 'solution shape %s' % (x.shape,))
        for i in range(m):
            # residual relative to the size of the terms, row by row
            r = np.abs(A[:, :, i].dot(x[:, :, i]) - B[:, :, i])
            t = np.abs(A[:, :, i]).dot(np.abs(x[:, :, i])) + np.abs(B[:, :, i])
            big = np.max(t, axis=1, keepdims=True) + 1e-300
            CHECK(np.all(r <= 1e-9 * big), 'residual_' + name, lambda: '%s: slice %d of %dx%d systems has residual %g' % (name, i, n, n, np.max(r / big)))
        CHECK(np.array_equal(b, B), 'input', '%s.lu_solve altered the right-hand side' % name)
        CHECK(np.array_equal(lu, lu0) and np.array_equal(piv, piv0), 'factors', '%s.lu_solve altered the factorisation' % name)
    det = S.lu_det(lu, piv)
    for i in range(m):
        d = np.linalg.det(A[:, :, i] / rs[:, i][:, None]) * np.prod(rs[:, i])
        CHECK(abs(det[i] - d) <= 1e-9 * max(abs(d), abs(det[i])), 'det_' + name, '%s: determinant %s instead of %s' % (name, det[i], d))
    CHECK(np.array_equal(lu, lu0) and np.array_equal(piv, piv0), 'factors', '%s.lu_det altered the factorisation' % name)
    if s.flip(1, 6): # a singular slice must not pass as solved
        C = np.array(A, order='F')
        C[:, :, m - 1] = 0
        CHECK(refuses(lambda: S.lu_factor(C)), 'singular_' + name, '%s factorises the zero matrix' % name)
    # shapes that do not fit
    if s.flip(1, 6):
        CHECK(refuses(lambda: S.lu_factor(np.ones((n, n + 1, m), dtype=complex))), 'refuse', 'a non-square system is accepted')
        CHECK(refuses(lambda: S.lu_solve(lu, piv, np.ones((n, n, m + 1), dtype=complex))), 'refuse', 'a right-hand side of another length is accepted')
    if any(k >= 1 for a, k in sl) and n > 1: s.nontrivial('%s n=%d m=%d kinds=%s' % (name, n, m, [k for a, k in sl]))
    s.tag(name)
def gen_weight(s, m, kinds=('NoSpin', 'TwoSpins', 'FourSpins'), name=None, sym=None):
    spin = s.pick(list(kinds))
    name = name or s.pick(['SmoothT', 'SmoothT', 'DeltaT'])
    sym = sym or s.pick(['Symmetric', 'AntiSymmetric'])
    return weight.Weight(name, m, spin, sym, 'R', 'T'), spin, name, sym
def d01_table(s):
    m = gen_map(s, maxsub=2, maxbin=4, vol=6)
    w, spin, name, sym = gen_weight(s, m)
    n = SPINS[spin] * m.NSublat
    tot = int(np.prod(w.Shape[4:]))
    A = np.stack([gen_matrix(s, n)[0] for i in range(tot)], axis=2)
    if any(np.linalg.cond(A[:, :, i]) > 1e7 for i in range(tot)): raise Discard()
    shape = list(w.Shape)
    w.Data = A.reshape(shape).copy()
    if s.flip(1, 3) and name == 'SmoothT':
        a2 = w.Copy()
        (lu, piv), det = weight.LUFactor(a2.Data)
        CHECK(det.shape == tuple(shape[4:]), 'det_shape', 'determinants of shape %s' % (det.shape,))
        x = weight.Weight(name, m, spin, sym, 'R', 'T')
        B = s.array(shape, kind=6)
        b = B.copy()
        x.LUSolve((lu, piv), b)
        CHECK(np.array_equal(b, B), 'input', 'LUSolve altered the right-hand side')
        CHECK(list(x.Data.shape) == shape, 'shape', 'LUSolve leaves shape %s' % (x.Data.shape,))
        X = x.Data.reshape(n, n, tot)
        for i in range(tot):
            r = A[:, :, i].dot(X[:, :, i]) - B.reshape(n, n, tot)[:, :, i]
            CHECK(np.max(np.abs(r)) <= 1e-8 * (1 + np.linalg.norm(A[:, :, i]) * np.linalg.norm(X[:, :, i])), 'table_residual', 'LUSolve: residual %g at point %d' % (np.max(np.abs(r)), i))
            d = np.linalg.det(A[:, :, i])
            CHECK(abs(det.reshape(-1)[i] - d) <= 1e-8 * max(abs(d), 1e-300), 'table_det', 'LUFactor: determinant %s instead of %s' % (det.reshape(-1)[i], d))
    else:
        w.Inverse()
        CHECK(list(w.Data.shape) == shape, 'shape', 'Inverse leaves shape %s' % (w.Data.shape,))
        X = w.Data.reshape(n, n, tot)
        for i in range(tot):
            c = np.linalg.cond(A[:, :, i])
            r = A[:, :, i].dot(X[:, :, i]) - np.eye(n)
            CHECK(np.max(np.abs(r)) <= 1e-12 * c * n + 1e-12, 'inverse', 'Inverse: residual %g at point %d' % (np.max(np.abs(r)), i))
        w.Inverse()
        c = max(np.linalg.cond(A[:, :, i]) for i in range(tot))
        CHECK(np.max(np.abs(w.Data - A.reshape(shape))) <= 1e-12 * c * c * np.max(np.abs(A)) + 1e-12 or c > 1e4, 'inverse_twice', 'inverting twice differs by %g' % np.max(np.abs(w.Data - A.reshape(shape))))
    s.nontrivial('%s %s %s, %d matrices %dx%d' % (spin, name, show(m), tot, n, n))
    s.tag('table')
# ---------------------------------------------------------------- D02
def domain_name(w): return w.SpaceDomain + w.TimeDomain
@prop('D02', 'the table has a non-zero entry and at least one transform changed its domain')
def D02(s):
    m = gen_map(s, maxbin=9, big=True)
    w, spin, name, sym = gen_weight(s, m)
    hastau = name == 'SmoothT'
    anti = sym == 'AntiSymmetric'
    base = s.array(w.Shape, scale=s.pick([1.0, 1e-8, 1e6]))
    w.Data = base.copy()
    own = w.Data
    log = []
    space, tau = 'R', 'T'
    linear = s.flip(1, 4)
    if linear:
        v = weight.Weight(name, m, spin, sym, 'R', 'T')
        add = s.array(w.Shape)
        v.Data = add.copy()
        z = weight.Weight(name, m, spin, sym, 'R', 'T')
        fac = s.pick([2.0, -1j, 0.5 + 1j])
        z.Data = base * fac + add
    shape = tuple(w.Shape)
    moved = False
    for i in range(s.range(1, 7)):
        if s.flip(1, 12): w = w.Copy()
        op = s.pick([('K',), ('R',), ('W',), ('T',), ('K', 'W'), ('R', 'T'), ('R', 'W'), ('K', 'T'), ('W', 'K'), ()])
        log.append(op)
        w.FFT(*op)
        before = (space, tau)
        for o in op:
            if o in 'RK': space = o
            else: tau = o
        moved |= before != (space, tau)
        CHECK((w.SpaceDomain, w.TimeDomain) == (space, tau), 'domain', lambda: 'after %s the table says it is in %s instead of %s' % (log, domain_name(w), space + tau))
        CHECK(w.Data.shape == shape, 'shape', lambda: 'after %s the shape is %s' % (log, w.Data.shape))
        want = to_domain(base, m.L, anti, hastau, space, tau)
        sc = max(1e-300, np.sum(np.abs(base))) if (space, tau) != ('R', 'T') else max(1e-300, np.max(np.abs(base)))
        CHECK(close(w.Data, want, 1e-9, sc), 'sum_' + space + tau, lambda: '%s %s %s %s after %s: %s' % (name, spin, sym, show(m), log, worst(w.Data, want)))
        if linear:
            v.FFT(*op)
            z.FFT(*op)
            CHECK(close(z.Data, w.Data * fac + v.Data, 1e-9, max(1e-300, np.sum(np.abs(base)) * 3 + np.sum(np.abs(add)))), 'linear', lambda: 'after %s: %s' % (log, worst(z.Data, w.Data * fac + v.Data)))
    CHECK(np.array_equal(own, base), 'shared', lambda: 'transforming a table (%s) altered the array it was given' % (log,))
    if moved and np.any(base): s.nontrivial('%s %s %s %s %s' % (name, spin, sym, show(m), log))
    s.tag(name + ' ' + sym)
# ---------------------------------------------------------------- D08
def history(s):
    m = gen_map(s, maxbin=5, vol=8, maxsub=2, big=True)
    w, spin, name, sym = gen_weight(s, m, kinds=('TwoSpins', 'FourSpins'))
    anti, hastau = sym == 'AntiSymmetric', name == 'SmoothT'
    init = s.array(w.Shape)
    w.Data = init.copy()
    space, tau = 'R', 'T'
    acc, norm = np.zeros(w.Shape, dtype=complex), 0.0
    data = init          # expected content, in R,T
    last = None          # last mixing that can be undone
    log, donors, merges = [], [], 0
    for i in range(s.range(1, 8)):
        k = s.below(8)
        if k <= 3:
            n = weight.Weight(name, m, spin, sym, 'R', 'T')
            d = s.array(w.Shape)
            n.Data = d.copy()
            if s.flip(1, 3): n.FFT(*s.pick([('K',), ('W',), ('K', 'W')]))
            ratio = None if s.flip(1, 6) else s.pick([1.0, 0.5, 0.1, 3.0, 0.09, 2.0 / 12, 1e-4])
            log.append('mix %s' % ratio)
            w.Merge(ratio, n)
            donors.append((n, d))
            last = (ratio, d)
            if ratio is not None:
                acc, norm = acc + ratio * d, norm + ratio
            data = acc / norm if norm > 1e-3 else d
            merges += 1
        elif k == 4:
            log.append('undo')
            w.RollBack()
            if last is not None and last[0] is not None:
                acc, norm = acc - last[0] * last[1], norm - last[0]
                data = acc / norm if norm > 1e-3 else last[1]
            last = None
        elif k == 5:
            op = s.pick([('K',), ('R',), ('W',), ('T',), ('K', 'W'), ('R', 'T')])
            log.append(op)
            w.FFT(*op)
            for o in op:
                if o in 'RK': space = o
                else: tau = o
        elif k == 6:
            log.append('copy')
            old = w
            w = w.Copy()
            old.FFT(*s.pick([('K',), ('W',), ('R', 'T')]))
            old.Data = old.Data * 3
        else: # export and import
            log.append('export')
            t = w.ToDict()
            CHECK(list(t.keys()) == [name], 'export', 'exported keys %s' % list(t.keys()))
            c = t[name].copy()
            r = weight.Weight(name, m, spin, sym, space, tau).FromDict(t)
            CHECK(np.array_equal(r.Data, c), 'export', 'export and import: ' + worst(r.Data, c))
            r.FFT(*s.pick([('R', 'T'), ('K', 'W')]))
            CHECK(np.array_equal(w.Data, c), 'export_alias', lambda: 'transforming an imported copy changes the exporter after %s: %s' % (log, worst(w.Data, c)))
            CHECK(refuses(lambda: weight.Weight(name, m, spin, sym).FromDict({'Other': c})), 'export_missing', 'a dictionary without %s is accepted' % name)
        want = to_domain(data, m.L, anti, hastau, space, tau)
        sc = 1 + np.sum(np.abs(data)) + np.sum(np.abs(acc)) / max(norm, 1e-3)
        CHECK((w.SpaceDomain, w.TimeDomain) == (space, tau), 'domain', lambda: 'after %s the domain is %s' % (log, domain_name(w)))
        CHECK(close(w.Data, want, 1e-9, sc), 'mix', lambda: '%s %s %s after %s: %s' % (name, sym, show(m), log, worst(w.Data, want)))
    for n, d in donors:
        n.FFT('R', 'T')
        CHECK(close(n.Data, d, 1e-9, 1 + np.sum(np.abs(d))), 'donor', lambda: 'a table that was mixed in changed afterwards (%s): %s' % (log, worst(n.Data, d)))
    if merges > 1 or (merges and 'undo' in log): s.nontrivial('%s %s %s' % (name, sym, log))
    s.tag('history')
def indices(s):
    m = gen_map(s, maxL=7, maxsub=5, maxbin=64, vol=300)
    c = coords(m.L)
    CHECK([tuple(x) for x in m.GetAllCoordi()] == c, 'coordi_list', 'list of displacements of ' + show(m))
    for i, x in enumerate(c):
        CHECK(m.CoordiIndex(x) == i, 'coordi', 'displacement %s has index %s instead of %d for %s' % (x, m.CoordiIndex(x), i, show(m)))
        y = m.IndexToCoordi(i)
        CHECK(tuple(y) == x, 'coordi_back', 'index %d gives displacement %s instead of %s' % (i, y, x))
    lat = set()
    for x in c:
        for b in range(m.NSublat): lat.add(m.LatIndex(x, b))
    CHECK(lat == set(range(len(c) * m.NSublat)), 'lat_index', 'site indices are not a numbering of the lattice of ' + show(m))
    CHECK(m.Vol == len(c) and m.Dim == len(m.L), 'vol', 'volume %s' % m.Vol)
    CHECK(list(m.GetAllSublatTuple()) == [(i, j) for i in range(m.NSublat) for j in range(m.NSublat)] and list(m.GetLocalSublatTuple()) == [(i, i) for i in range(m.NSublat)], 'sublat', 'sublattice lists')
    # times: bin of a difference, shifted by beta when negative
    dt = m.Beta / m.MaxTauBin
    for i in range(s.range(1, 10)):
        b, f = s.below(m.MaxTauBin), s.real(0.01, 0.99)
        tau = (b + f) * dt
        t0 = s.real(0, m.Beta - tau)
        CHECK(m.TauIndex(t0, t0 + tau) == b, 'tau', 'difference %s of bin %d has index %s' % (tau, b, m.TauIndex(t0, t0 + tau)))
        t0 = s.real(m.Beta - tau, m.Beta)
        CHECK(m.TauIndex(t0, t0 + tau - m.Beta) == b, 'tau_negative', 'difference %s has index %s instead of %d' % (tau - m.Beta, m.TauIndex(t0, t0 + tau - m.Beta), b))
    for b in range(m.MaxTauBin):
        CHECK(m.TauIndex(0.0, m.IndexToTau(b)) == b and abs(m.IndexToTau(b) - (b + 0.5) * dt) < 1e-12 * m.Beta, 'tau_back', 'bin %d is at %s' % (b, m.IndexToTau(b)))
    CHECK(sorted(m.Spin2Index(a, b) for a in range(2) for b in range(2)) == [0, 1, 2, 3] and m.Spin2Index(0, 1) == 1, 'spin2', 'spin pair indices')
    # spin conservation: exactly the tuples that conserve the total spin
    two = set(m.GetConservedSpinTuple('TwoSpins'))
    CHECK(two == set((a, b) for a in range(2) for b in range(2) if a == b), 'spin_two', 'conserved pairs %s' % two)
    four = m.GetConservedSpinTuple('FourSpins')
    want = set(((a, b), (c, d)) for a in range(2) for b in range(2) for c in range(2) for d in range(2) if a + c == b + d)
    CHECK(len(four) == len(set(four)) and set(four) == want, 'spin_four', 'conserved quadruples %s' % four)
    for a in range(2):
        for b in range(2):
            CHECK(bool(m.IsConserved(2, (a, b))) == (a == b), 'conserved', 'IsConserved(2, %s)' % ((a, b),))
            for c2 in range(2):
                for d in range(2):
                    CHECK(bool(m.IsConserved(4, ((a, b), (c2, d)))) == (a + c2 == b + d), 'conserved', 'IsConserved(4, %s)' % (((a, b), (c2, d)),))
    s.nontrivial('index maps of ' + show(m))
    s.tag('indices')
@prop('D08', 'a history with two mixings or an undone mixing, or the complete index maps of a lattice')
def D08(s):
    if s.flip(1, 5): indices(s)
    else: history(s)
if __name__ == '__main__': main()
