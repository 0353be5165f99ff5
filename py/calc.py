"""D03 Dyson equations, D04 first order diagrams"""
from common import *
import calculator as calc
S2 = lambda a, b: 2 * a + b  # index of a pair of spins
LET = 'RT'
def gen_weight(s, m, name, spin, sym, scale=1.0, mask=None, kind=None):
    w = weight.Weight(name, m, spin, sym, 'R', 'T')
    d = s.array(w.Shape, scale=scale, kind=kind)
    if mask is not None: d = d * mask.reshape(mask.shape + (1,) * (d.ndim - mask.ndim))
    w.Data = d.copy()
    return w, d
def shake(s, *ws):
    """the routines must cope with tables in any domain"""
    for w in ws:
        for i in range(s.below(3)): w.FFT(s.pick(['R', 'K']), s.pick(['T', 'W']))
def current(w, d, m):
    """the table `d` (given in R,T) in the domain w says it is in"""
    anti = w.Name == 'SmoothT' and not w.IsSymmetric
    return to_domain(d, m.L, anti, w.Name == 'SmoothT', w.SpaceDomain, w.TimeDomain)
def intact(key, m, *pairs):
    for n, w, d in pairs:
        e = current(w, d, m)
        CHECK(close(w.Data, e, 1e-9, max(1.0, np.max(np.abs(e)))), key, lambda: 'the input %s changed: %s' % (n, worst(w.Data, e)))
def spin_diagonal(m):
    k = np.zeros((2, m.NSublat, 2, m.NSublat))
    for i in range(2): k[i, :, i, :] = 1
    return k
def spin_conserving(m):
    """spin flowing in equals spin flowing out"""
    k = np.zeros((4, m.NSublat, 4, m.NSublat))
    for a in np.ndindex(2, 2, 2, 2):
        if a[0] + a[2] == a[1] + a[3]: k[S2(a[0], a[1]), :, S2(a[2], a[3]), :] = 1
    return k
def smooth_smooth(a, b, dt, period):
    """int_0^beta a(t') b(t-t') dt' on the half-bin grid; the sum of two half-bin times is a full bin, so this
    returns the values at full bins 0..N-1 (i+k+1 for bins i and k, counted (anti)periodically)"""
    N = a.shape[-1]
    r = np.zeros(a.shape[:2] + a.shape[2:4] + (a.shape[4], N), dtype=complex)
    for i in range(N):
        for k in range(N):
            n, sg = i + k + 1, 1.0
            while n >= N: n, sg = n - N, sg * period
            r[..., n] += sg * np.einsum('abcdv,cdefv->abefv', a[..., i], b[..., k]) * dt
    return r
def smooth_delta(a, d): return np.einsum('abcdvt,cdefv->abefvt', a, d)
def full_to_half(f, period):
    """average of the two neighbouring full bins"""
    nxt = np.concatenate([f[..., 1:], period * f[..., :1]], axis=-1)
    return 0.5 * (f + nxt)
def full_half(f, b, dt, period):
    """convolution of values at full bins with values at half bins: half bins"""
    N = b.shape[-1]
    r = np.zeros_like(b)
    for i in range(N):
        for k in range(N):
            n, sg = i + k, 1.0
            while n >= N: n, sg = n - N, sg * period
            r[..., n] += sg * np.einsum('abcdv,cdefv->abefv', f[..., i], b[..., k]) * dt
    return r
def check_det(key, m, det, want, e):
    """`want`: determinants from the definition"""
    re, im = want.real, want.imag
    sc = max(1.0, np.max(np.abs(want)))
    if e is not None:
        CHECK(np.min(re) < 1e-9 * sc, key, lambda: 'refused although no determinant has a negative real part (smallest %s)' % np.min(re))
        CHECK(abs(e.value.real - np.min(re)) <= 1e-8 * sc, key, lambda: 'the reported minimum %s is not the smallest determinant %g' % (e.value, np.min(re)))
        return
    if np.min(re) < -1e-8 * sc and np.max(np.abs(im)) < 1e-6:
        CHECK(False, key, 'determinants are real and one is %g, yet the equation was accepted' % np.min(re))
    if det is not None: CHECK(close(det, want, 1e-8, sc), key, lambda: 'determinant: ' + worst(det, want))
def dets(den):
    n = den.shape[0] * den.shape[1]
    x = den.reshape(n, n, den.shape[4], den.shape[5])
    return np.array([[np.linalg.det(x[:, :, i, j]) for j in range(x.shape[3])] for i in range(x.shape[2])])
def ident(n, sub): return np.eye(n * sub).reshape(n, sub, n, sub)[..., None, None]
class FakeLat: pass

def gen_small(s, four):
    return gen_map(s, maxL=3, maxsub=2 if four else 3, maxbin=6 if four else 8, minbin=1, vol=6)
@prop('D03', 'at least two time bins and corrections that are not zero')
def D03(s):
    if s.flip(): return d03_g(s)
    m = gen_small(s, True)
    W0, w0 = gen_weight(s, m, 'DeltaT', 'FourSpins', None, s.pick([0.3, 1.0, 0.05]))
    P, p = gen_weight(s, m, 'SmoothT', 'FourSpins', 'Symmetric', s.pick([0.3, 1.0, 0.02]))
    if s.flip(1, 3): # tables as physics has them: real determinants
        for x in (w0, p): x.imag = 0
        w0 = np.einsum('abcdv->abcdv', w0)
        inv = [int(np.ravel_multi_index([(-c) % l for c, l in zip(r, m.L)], m.L)) for r in coords(m.L)]
        w0 = w0 + w0.transpose(2, 3, 0, 1, 4)[..., inv]
        p = p + p.transpose(2, 3, 0, 1, 4, 5)[..., inv, :]
        w0, p = w0 + w0[..., inv], p + p[..., inv, :]
        p = p + p[..., ::-1]
        W0.Data, P.Data = w0.copy(), p.copy()
        s.tag('physical')
    W0.Data, P.Data = np.array(W0.Data), np.array(P.Data)
    shake(s, W0, P)
    dt = m.Beta / m.MaxTauBin
    wk, pk = to_domain(w0, m.L, False, False, 'K', 'T'), to_domain(p, m.L, False, True, 'K', 'T')
    pw = to_domain(p, m.L, False, True, 'K', 'W')
    N = m.MaxTauBin
    den = ident(4, m.NSublat) - dt * np.cos(np.pi * np.arange(N) / N) * np.einsum('abcdv,cdefvt->abefvt', wk, pw)
    want = dets(den)
    e = None
    try: W, Chi, det = calc.W_Dyson(W0, P, m, FakeLat())
    except calc.DenorminatorTouchZero as x: e = x
    check_det('w_determinant', m, None if e else det, want, e)
    intact('w_input', m, ('W0', W0, w0), ('Polar', P, p))
    if e: return s.tag('refused')
    CHECK(W.Name == 'SmoothT' and W.NSpin == 4 and W.IsSymmetric and Chi.IsSymmetric, 'w_kind', 'the screened interaction is not a time dependent, periodic table of four spins')
    for w in (W, Chi):
        CHECK(list(w.Data.shape) == list(w.Shape), 'w_kind', 'shape %s' % (w.Data.shape,))
        w.FFT('K', 'T')
    if np.min(np.abs(want)) < 1e-3: raise Discard()
    # W(t) = W0 P(t) W0 + int W0 P(t') W(t-t')
    jp = np.einsum('abcdv,cdefvt->abefvt', wk, pk)
    first = np.einsum('abcdvt,cdefv->abefvt', jp, wk)
    second = full_to_half(smooth_smooth(jp, W.Data, dt, 1.0), 1.0)
    r = W.Data - first - second
    sc = max(np.max(np.abs(x)) for x in (W.Data, first, second)) + 1e-300
    CHECK(np.max(np.abs(r)) <= 1e-8 * sc, 'w_equation', lambda: 'W - W0 P W0 - W0 P W = %g of %g (%s)' % (np.max(np.abs(r)), sc, show(m)))
    pj = np.einsum('abcdvt,cdefv->abefvt', pk, wk)
    second = full_to_half(smooth_smooth(pj, Chi.Data, dt, 1.0), 1.0)
    r = Chi.Data + pk - second
    sc = max(np.max(np.abs(x)) for x in (Chi.Data, pk, second)) + 1e-300
    CHECK(np.max(np.abs(r)) <= 1e-8 * sc, 'chi_equation', lambda: 'Chi + P - P W0 Chi = %g of %g (%s)' % (np.max(np.abs(r)), sc, show(m)))
    if np.any(w0) and np.any(p) and N > 1: s.nontrivial(show(m) + ' W'), s.tag('W')
def d03_g(s):
    m = gen_small(s, False)
    G0, g0 = gen_weight(s, m, 'SmoothT', 'TwoSpins', 'AntiSymmetric', s.pick([0.5, 1.0]))
    Sd, sd = gen_weight(s, m, 'DeltaT', 'TwoSpins', 'AntiSymmetric', s.pick([0.3, 1.0, 0.05]))
    Si, si = gen_weight(s, m, 'SmoothT', 'TwoSpins', 'AntiSymmetric', s.pick([0.3, 1.0, 0.05]))
    shake(s, G0, Sd, Si)
    N, dt = m.MaxTauBin, m.Beta / m.MaxTauBin
    gw, sw = to_domain(g0, m.L, True, True, 'K', 'W'), to_domain(si, m.L, True, True, 'K', 'W')
    gk, sk = to_domain(g0, m.L, True, True, 'K', 'T'), to_domain(si, m.L, True, True, 'K', 'T')
    dk = to_domain(sd, m.L, True, False, 'K', 'T')
    den = ident(2, m.NSublat) - dt * (dt * np.einsum('abcdvt,cdefvt->abefvt', gw, sw) + np.cos(np.pi * (np.arange(N) + 0.5) / N) * smooth_delta(gw, dk))
    want = dets(den)
    e = None
    try: G = calc.G_Dyson(G0, Sd, Si, m)
    except calc.DenorminatorTouchZero as x: e = x
    check_det('g_determinant', m, None, want, e)
    intact('g_input', m, ('G0', G0, g0), ('SigmaDeltaT', Sd, sd), ('Sigma', Si, si))
    if e: return s.tag('refused')
    CHECK(G.Name == 'SmoothT' and G.NSpin == 2 and not G.IsSymmetric, 'g_kind', 'the dressed line is not a time dependent, antiperiodic table of two spins')
    CHECK(list(G.Data.shape) == list(G.Shape), 'g_kind', 'shape %s' % (G.Data.shape,))
    if np.min(np.abs(want)) < 1e-3: raise Discard()
    G.FFT('K', 'T')
    # G(t) = G0(t) + int int G0(t1) Sigma(t2) G(t-t1-t2) + int G0(t1) SigmaDelta G(t-t1)
    smooth = full_half(smooth_smooth(gk, sk, dt, -1.0), G.Data, dt, -1.0)
    inst = full_to_half(smooth_smooth(smooth_delta(gk, dk), G.Data, dt, -1.0), -1.0)
    r = G.Data - gk - smooth - inst
    sc = max(np.max(np.abs(x)) for x in (G.Data, gk, smooth, inst)) + 1e-300
    CHECK(np.max(np.abs(r)) <= 1e-8 * sc, 'g_equation', lambda: 'G - G0 - G0 Sigma G = %g of %g (%s)' % (np.max(np.abs(r)), sc, show(m)))
    if np.any(g0) and (np.any(si) or np.any(sd)) and N > 1: s.nontrivial(show(m) + ' G'), s.tag('G')

def lin(a, b, x, y): return a * x + b * y
@prop('D04', 'the tables that are multiplied are not zero')
def D04(s):
    k = s.below(6)
    m = gen_map(s, maxL=3, maxsub=2 if k == 3 else 3, maxbin=5 if k == 3 else 7, minbin=2, vol=8, big=k != 3)
    N, V, B = m.MaxTauBin, m.Vol, m.NSublat
    R = coords(m.L)
    neg = [R.index(tuple((-c) % l for c, l in zip(r, m.L))) for r in R]
    G, g = gen_weight(s, m, 'SmoothT', 'TwoSpins', 'AntiSymmetric', mask=spin_diagonal(m) if k != 4 else None)
    W0, w0 = gen_weight(s, m, 'DeltaT', 'FourSpins', None, mask=spin_conserving(m))
    # the line at vanishing negative time: antiperiodic, extrapolated from the two last half bins
    g0m = -(1.5 * g[..., N - 1] - 0.5 * g[..., N - 2])
    used = [('G', G, g)]
    hastau = True
    if k == 0:
        W, w = gen_weight(s, m, 'SmoothT', 'FourSpins', 'Symmetric', mask=spin_conserving(m))
        shake(s, G, W)
        out = calc.SigmaSmoothT_FirstOrder(G, W, m)
        e = np.zeros((2, B, 2, B, V, N), dtype=complex)
        for a in range(2):
            for b in range(2): e[a, :, a] -= g[b, :, b] * w[S2(a, b), :, S2(b, a)]
        used.append(('W', W, w)); nz = np.any(g) and np.any(w)
    elif k == 1:
        shake(s, G, W0)
        out = calc.SigmaDeltaT_FirstOrder(G, W0, m)
        e = np.zeros((2, B, 2, B, V), dtype=complex)
        for a in range(2):
            for b in range(2):
                e[a, :, a] -= g0m[b, :, b] * w0[S2(a, b), :, S2(b, a)]
                for A in range(B):
                    for C in range(B):
                        e[a, A, a, A, 0] += g0m[b, C, b, C, 0] * np.sum(w0[S2(a, a), A, S2(b, b), C])
        used.append(('W0', W0, w0)); nz = np.any(g) and np.any(w0); hastau = False
    elif k == 2:
        shake(s, G)
        out = calc.Polar_FirstOrder(G, m)
        e = np.zeros((4, B, 4, B, V, N), dtype=complex)
        for a in range(2):
            for b in range(2):
                for A in range(B):
                    for C in range(B):
                        for r in range(V):
                            for t in range(N):
                                back = -g[a, C, a, A, neg[r], N - 1 - t]  # from C back to A, by -r and -t
                                e[S2(a, b), A, S2(b, a), C, r, t] += (-1) * (-1) * back * g[b, A, b, C, r, t]
        nz = np.any(g)
    elif k == 3:
        P, p = gen_weight(s, m, 'SmoothT', 'FourSpins', 'Symmetric', mask=spin_conserving(m))
        shake(s, W0, P)
        out = calc.W_FirstOrder(W0, P, m)
        wk, pw = to_domain(w0, m.L, False, False, 'K', 'T'), to_domain(p, m.L, False, True, 'K', 'W')
        e = np.einsum('abcdv,cdefvt,efghv->abghvt', wk, pw, wk)
        used = [('W0', W0, w0), ('Polar', P, p)]; nz = np.any(w0) and np.any(p)
        got = out.Data.copy()
        CHECK((out.SpaceDomain, out.TimeDomain) == ('K', 'W'), 'domain', 'returned in %s,%s' % (out.SpaceDomain, out.TimeDomain))
        sc = max(1.0, np.max(np.abs(got)), np.max(np.abs(e)))
        CHECK(close(got, e, 1e-9, sc), 'w_first', lambda: 'W0 P W0: %s (%s)' % (worst(got, e), show(m)))
    elif k == 4:
        C, c = gen_weight(s, m, 'SmoothT', 'FourSpins', 'Symmetric')
        shake(s, G, C)
        out = calc.Add_ChiTensor_ZerothOrder(C, G, m)
        e = c.copy()
        for a in np.ndindex(2, 2, 2, 2):
            for A in range(B):
                for D in range(B): e[S2(a[0], a[1]), A, S2(a[2], a[3]), D] += g0m[a[0], A, a[1], A, 0] * g0m[a[2], D, a[3], D, 0]
        nz = np.any(g)
    else:
        C, c = gen_weight(s, m, 'SmoothT', 'FourSpins', 'Symmetric')
        shake(s, C)
        out = calc.Calculate_Chi(C, m)
        e = np.zeros((1, B, 1, B, V, N), dtype=complex)
        sz = {S2(0, 0): -0.5, S2(1, 1): 0.5}
        for i in sz:
            for j in sz: e[0, :, 0] += sz[i] * sz[j] * c[i, :, j]
        used = [('ChiTensor', C, c)]; nz = np.any(c)
        CHECK(out.NSpin == 1 and out.IsSymmetric, 'kind', 'the susceptibility has spin indices')
    names = ['SigmaSmoothT', 'SigmaDeltaT', 'Polar', 'W', 'ChiTensor+0th order', 'Chi']
    CHECK(out.Name == ('SmoothT' if hastau else 'DeltaT'), 'kind', '%s is a %s table' % (names[k], out.Name))
    if hastau: CHECK(out.IsSymmetric == (k > 0), 'kind', '%s has the wrong periodicity' % names[k])
    if k != 3:
        anti = k in (0, 1)
        ee = to_domain(e, m.L, anti, hastau, out.SpaceDomain, out.TimeDomain)
        sc = max(1.0, np.max(np.abs(out.Data)), np.max(np.abs(ee)))
        CHECK(close(out.Data, ee, 1e-9, sc), names[k], lambda: '%s: %s in %s,%s (%s)' % (names[k], worst(out.Data, ee), out.SpaceDomain, out.TimeDomain, show(m)))
    intact('input', m, *used)
    if nz: s.nontrivial('%s %s' % (names[k], show(m))), s.tag(names[k])
if __name__ == '__main__': main()
