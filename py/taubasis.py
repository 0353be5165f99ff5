"""D10 imaginary-time basis functions"""
from common import *
import copy, shutil
import basis, IO
def kernel(kind, w, t, beta):
    """exp(-w t) / (1 + exp(-beta w)), for bosons multiplied by w / tanh-like regular factor: w exp(-w t) / (1 - exp(-beta w))"""
    w, t = np.asarray(w, float)[:, None], np.asarray(t, float)[None, :]
    a = np.abs(w)
    e = np.where(w >= 0, np.exp(-a * t), np.exp(-a * (beta - t)))
    if kind == 'Fermi': return e / (1 + np.exp(-beta * a))
    d = -np.expm1(-beta * a)
    return np.where(a == 0, 1.0 / beta, a * e / np.where(d == 0, 1, d))
def grid(n, beta): return (np.arange(n) + 0.5) * beta / n
W = np.linspace(-100, 100, 1000)
@prop('orthonormal', 'at least two functions and four bins')
def orthonormal(s):
    """orthonormality, parity, optimality for the kernel, projection of functions in the span, and the stored form"""
    n = s.pick([1, 2, 3, 4, 5, 8, 12, 16, 24, 33, 64, 128]) if s.flip(7, 8) else s.range(1, 80)
    beta = s.pick([1.0, 0.5, 0.8, 0.1, 2.0, 4.0, 7.3, 16.0]) if s.flip(3, 4) else s.real(0.05, 20)
    kind = s.pick(['Fermi', 'Bose'])
    N = s.range(1, min(n, 32)) if s.flip(7, 8) else n
    what = '%s beta=%s MaxTauBin=%d N=%d' % (kind, beta, n, N)
    b = basis.SVDBasis(n, beta, kind)
    if s.flip(1, 4):
        b.GenerateBasis(s.range(1, n)) # generating again replaces
        copy.deepcopy(b.GetBasis())
        s.tag('again')
    b.GenerateBasis(N)
    d = b.GetBasis()
    CHECK(d['Beta'] == beta and d['MaxTauBin'] == n and d['BoseFermi'] == kind and d['Number'] == N, 'fields', lambda: '%s: %s' % (what, {k: d[k] for k in d if k != 'Basis'}))
    CHECK(len(d['Basis']) == N and all(len(x) == n for x in d['Basis']), 'shape', lambda: '%s: %s functions of lengths %s' % (what, len(d['Basis']), sorted(set(len(x) for x in d['Basis']))))
    B = np.array(d['Basis'], dtype=float)
    g = B.dot(B.T) - np.eye(N)
    CHECK(np.max(np.abs(g)) < 1e-9, 'orthonormal', lambda: '%s: overlap differs from the unit matrix by %s at %s' % (what, np.max(np.abs(g)), np.unravel_index(np.argmax(np.abs(g)), g.shape)))
    # projecting a function in the span onto the basis and back
    r = s.np()
    c = r.uniform(-1, 1, N)
    f = c.dot(B)
    CHECK(np.max(np.abs(B.dot(f) - c)) < 1e-9 and np.max(np.abs(B.T.dot(B.dot(f)) - f)) < 1e-9, 'project', what)
    K = kernel(kind, W, grid(n, beta), beta)
    sv = np.linalg.svd(K, compute_uv=False)
    s0 = sv[0]
    # the best N functions for the propagators of all frequencies on this grid
    best = np.sqrt(np.sum(sv[N:] ** 2))
    res = np.sqrt(np.sum((K - K.dot(B.T).dot(B)) ** 2))
    CHECK(res <= 1.5 * best + 1e-8 * s0, 'complete', lambda: '%s: propagators are represented up to %s, possible is %s (norm %s)' % (what, res, best, s0))
    # functions are even or odd under tau -> beta - tau, as long as their weights are well separated
    for i in range(N):
        gap = min([abs(sv[i] - sv[j]) for j in (i - 1, i + 1) if 0 <= j < len(sv)] + [sv[i]])
        if sv[i] < 1e-9 * s0 or gap < 1e-5 * sv[i]: break
        even, odd = np.max(np.abs(B[i] - B[i][::-1])), np.max(np.abs(B[i] + B[i][::-1]))
        tol = 1e-6 + 1e-10 * s0 / gap
        CHECK(min(even, odd) < tol, 'parity', lambda: '%s: function %d is neither even nor odd: %s %s' % (what, i, even, odd))
        parity = 'even' if even < odd else 'odd'
        s.tag(parity)
    if s.flip(1, 4):
        os.makedirs('b', exist_ok=True)
        name = os.path.join('b', s.pick(['FermiBasis.dat', 'BoseBasis.dat', 'x.txt']))
        b.Save(name)
        e = IO.LoadDict(name)
        CHECK({k: e[k] for k in e if k != 'Basis'} == {k: d[k] for k in d if k != 'Basis'} and np.array_equal(np.array(e['Basis']), B), 'stored', lambda: '%s: read back %s' % (what, {k: e[k] for k in e if k != 'Basis'}))
        s.tag('stored')
    if N >= 2 and n >= 4: s.nontrivial(what)
@prop('kernels', 'several frequencies of both signs')
def kernels(s):
    """the kernels against their definitions, without overflow, and their symmetry tau -> beta - tau, w -> -w"""
    beta = s.real(0.05, 20)
    n = s.range(1, 20)
    t = grid(n, beta) if s.flip() else np.array(sorted(s.real(0, beta) for i in range(n)))
    b = basis.SVDBasis(n, beta, 'Fermi')
    ws = [s.pick([1e-3, 0.1, 1, 10, 100, 50, 1000, 2e4]) * s.pick([-1, 1]) * s.real(0.5, 1) for i in range(s.range(1, 6))]
    for w in ws:
        for kind, f in (('Fermi', b.FermiKernel), ('Bose', b.BoseKernel)):
            with np.errstate(over='raise', invalid='raise'):
                a = f(w, t, beta)
                m = f(-w, beta - t, beta)
            e = kernel(kind, [w], t, beta)[0]
            scale = np.max(np.abs(e)) + 1e-300
            CHECK(np.all(np.isfinite(a)) and np.max(np.abs(a - e)) < 1e-9 * scale, 'kernel', lambda: '%s kernel at w=%s beta=%s: %s instead of %s' % (kind, w, beta, a, e))
            CHECK(np.max(np.abs(m - a)) < 1e-9 * scale, 'mirror', lambda: '%s kernel at w=%s beta=%s: mirror image differs' % (kind, w, beta))
    if len(ws) >= 3: s.nontrivial('beta=%s, %d times, frequencies %s' % (beta, n, [round(w, 3) for w in ws]))
if __name__ == '__main__': main()
