"""shared helpers of the Python harnesses (run against the translated tree of /repo)"""
import logging, math, os, sys
import numpy as np
from pbt import *
import weight, logger
logging.getLogger().setLevel(logging.CRITICAL)
for h in list(logging.getLogger().handlers): logging.getLogger().removeHandler(h)
UP, DOWN, IN, OUT = 1, 0, 0, 1
def close(a, b, tol=1e-9, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return False
    if a.size == 0: return True
    sc = scale if scale is not None else max(1e-300, np.max(np.abs(a)), np.max(np.abs(b)))
    d = np.abs(a - b)
    return bool(np.all(np.isfinite(d)) and np.max(d) <= tol * sc)
def worst(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return 'shapes %s %s' % (a.shape, b.shape)
    d = np.abs(a - b)
    i = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape)
    return 'entry %s: %s instead of %s' % (tuple(int(x) for x in i), a[i], b[i])
class Refused(Exception):
    pass
def refuses(f):
    try: f()
    except (Exception, SystemExit): return True
    return False
def gen_map(s, dims=(1, 2, 3), maxL=4, maxsub=3, maxbin=8, minbin=1, tiny=False, even=False, vol=24, big=False):
    dim = s.pick(list(dims))
    L = []
    for i in range(dim):
        m = max(1, min(maxL, vol // int(np.prod(L + [1]))))
        L.append(s.range(1, m))
    nsub = s.range(1, maxsub)
    nbin = s.range(minbin, maxbin)
    if big and s.flip(1, 12): # sizes used in production: many time bins or a long lattice
        if s.flip(): nbin, L, nsub = s.pick([33, 64, 65, 128, 129]), [1] * (dim - 1) + [s.range(1, 2)], 1
        else:
            L = [1] * dim
            L[s.below(dim)] = s.pick([9, 16, 17, 33])
            nsub, nbin = s.range(1, 2), s.range(minbin, 3)
    if even: nbin += nbin % 2
    beta = s.pick([1.0, 0.5, 0.1, 2.0, 7.3])
    return weight.IndexMap(Beta=beta, L=L, NSublat=nsub, MaxTauBin=nbin, MaxTauBinTiny=(s.range(1, nbin) if tiny else nbin), BasisNum=s.range(1, nbin), Symmetry=False)
def show(m):
    return 'L=%s NSublat=%d MaxTauBin=%d Beta=%s' % (m.L, m.NSublat, m.MaxTauBin, m.Beta)
def coords(L):
    """all displacements in index order, written out independently of the code"""
    return [tuple(int(x) for x in c) for c in np.ndindex(*[int(l) for l in L])]
def space_matrix(L):
    c = coords(L)
    return np.array([[np.exp(-2j * np.pi * sum(float(k[d] * r[d]) / L[d] for d in range(len(L)))) for r in c] for k in c])
def time_matrix(N, anti):
    """F[m] = sum_n f[n] exp(-i (2 pi m + pi [fermion]) (n+1/2)/N)"""
    n, m = np.arange(N), np.arange(N)
    return np.exp(-1j * np.outer(2 * np.pi * m + (np.pi if anti else 0), (n + 0.5) / N))
def to_domain(data, L, anti, hastau, space, tau):
    """direct sums; data in R,T"""
    d = np.array(data)
    if space == 'K': d = np.einsum('kr,abcdr...->abcdk...', space_matrix(L), d)
    if tau == 'W' and hastau: d = np.einsum('mn,abcdrn->abcdrm', time_matrix(d.shape[5], anti), d)
    return d
