"""Minimal property-based testing engine (same command line, choice sequences and replay files as cpp/pbt.h)."""
import json, math, os, random, signal, sys, time, traceback
import numpy as np
M64 = (1 << 64) - 1
def mix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)
class Fail(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key, self.msg = key, msg
class Discard(Exception):
    pass
def CHECK(cond, key, msg=''):
    if not cond:
        raise Fail(key, msg() if callable(msg) else msg)
class Src:
    def __init__(self, seed=None, choices=None, tier=0):
        self.rec, self.inp, self.pos = [], choices, 0
        self.rng = random.Random(mix(seed)) if choices is None else None
        self.is_nontrivial, self.desc, self.tags, self.tier = False, '', {}, tier
    def below(self, n):
        if self.inp is not None:
            v = self.inp[self.pos] if self.pos < len(self.inp) else 0
            self.pos += 1
            if v >= n: v %= n
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        if len(self.rec) > 400000: raise Discard()
        return v
    def range(self, a, b): return a + self.below(b - a + 1)
    def flip(self, num=1, den=2): return self.below(den) >= den - num
    def unit(self): return self.below(1 << 32) / 4294967296.0
    def real(self, a, b): return a + (b - a) * self.unit()
    def word(self): return self.below(1 << 32)
    def pick(self, v): return v[self.below(len(v))]
    def nontrivial(self, d=''):
        self.is_nontrivial = True
        if not self.desc: self.desc = str(d)
    def tag(self, t, n=1): self.tags[t] = self.tags.get(t, 0) + n
    def np(self): return np.random.RandomState(self.word())
    # tables: 0 zero, 1 a single entry, 2 a few entries, 3 dense
    def array(self, shape, cplx=True, scale=1.0, kind=None):
        shape = tuple(int(x) for x in shape)
        a = np.zeros(shape, dtype=complex if cplx else float)
        n = a.size
        k = self.below(8) if kind is None else kind
        if n == 0: return a
        f = a.reshape(-1)
        if k == 1 or k == 2:
            for i in range(1 if k == 1 else self.range(2, 5)):
                v = self.pick([1.0, -1.0, 0.5, 3.0]) * scale
                if cplx: v = v * self.pick([1, 1j, 1 + 1j, 2 - 1j])
                f[self.below(n)] += v
        elif k >= 3:
            r = self.np()
            f[:] = r.uniform(-1, 1, n) * scale
            if cplx and k != 3: f += 1j * r.uniform(-1, 1, n) * scale
        return a
DEFS = []
def prop(name, rule, weight=1.0):
    def deco(f):
        DEFS.append((name, rule, f, weight))
        return f
    return deco
def run1(f, s):
    try:
        f(s)
        return 0, '', ''
    except Fail as e:
        return 1, e.key, e.msg
    except Discard:
        return 2, '', ''
    except MemoryError:
        return 2, '', ''
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-4:]))
        return 1, 'exception', 'unexpected %s: %s at %s' % (type(e).__name__, str(e)[:800], where)
def shrink(f, v0, key, budget, tier):
    t0 = time.time()
    def fails(v):
        s = Src(choices=v, tier=tier)
        signal.alarm(60)
        k = run1(f, s)
        signal.alarm(0)
        return s.rec if k[0] == 1 and k[1] == key else None
    better = lambda a, b: (len(a), a) < (len(b), b)
    best, improved = list(v0), True
    late = lambda: time.time() - t0 > budget
    while improved and not late():
        improved = False
        chunk = max(1, len(best) // 2)
        while chunk >= 1 and not late():
            i = len(best) - 1
            while i >= 0 and not late():
                if i + chunk <= len(best):
                    r = fails(best[:i] + best[i + chunk:])
                    if r is not None and better(r, best): best, improved = r, True
                i -= max(1, chunk // 2)
            chunk //= 2
        i = 0
        while i < len(best) and not late():
            if best[i]:
                r = fails(best[:i] + [0] + best[i + 1:])
                if r is not None and better(r, best): best, improved = r, True
                else:
                    d = best[i] // 2
                    while d and i < len(best) and not late():
                        if best[i] >= d:
                            r = fails(best[:i] + [best[i] - d] + best[i + 1:])
                            if r is not None and better(r, best): best, improved = r, True
                        d //= 2
            i += 1
    return best
def on_alarm(*a):
    os.write(2, b'HANG: case exceeded its time limit\n')
    os._exit(97)
def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    signal.signal(signal.SIGALRM, on_alarm)
    tier = int(a.get('--tier', 0))
    report = os.fdopen(os.dup(2), 'w')
    if '--replay' in a or '--shrink' in a:
        lines = open(a.get('--replay') or a.get('--shrink')).read().split('\n')
        mode, *v = lines[1].split()
        v = [int(x) for x in v]
        for name, rule, f, w in DEFS:
            if name == lines[0]:
                s = Src(seed=v[0], tier=tier) if mode == 'SEED' else Src(choices=v, tier=tier)
                signal.alarm(60)
                k = run1(f, s)
                signal.alarm(0)
                if '--shrink' in a: os._exit(3)
                with open(a.get('--out', '/dev/null'), 'w') as o: o.write('%d\n%s\n%s\n' % k)
                report.write('replay %s: %s %s %s\n' % (name, 'FAIL' if k[0] == 1 else 'ok', k[1], k[2]))
                report.flush()
                os._exit(1 if k[0] == 1 else 0)
        os._exit(2)
    seed, secs = int(a['--seed']), float(a['--secs'])
    known = set(x for x in a.get('--known', '').split(',') if x)
    sel = a['--prop'].split(',')
    st = os.open(a['--status'], os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o644)
    ds = [d for d in DEFS if d[0] in sel or 'all' in sel]
    wsum, used, t0, res = sum(d[3] for d in ds), 0, time.time(), []
    for name, rule, f, w in ds:
        used += w
        end = t0 + secs * used / wsum
        evals = disc = nt = 0
        seen, samples, tags, hits, fail = set(), [], {}, {}, None
        i = 0
        while time.time() < end or not evals:
            i += 1
            cs = mix(mix(seed) ^ mix(i) ^ mix(int.from_bytes(name.encode()[:8], 'little'))) >> 1
            os.pwrite(st, ('%s\nSEED %d\n%-20s' % (name, cs, '')).encode(), 0)
            s = Src(seed=cs, tier=tier)
            signal.alarm(60)
            k = run1(f, s)
            signal.alarm(0)
            evals += 1
            for t, n in s.tags.items(): tags[t] = tags.get(t, 0) + n
            if k[0] == 2: disc += 1
            elif s.is_nontrivial:
                h = hash(tuple(s.rec))
                if h not in seen:
                    if len(seen) < 2000000: seen.add(h)
                    nt += 1
                if len(samples) < 3 and s.desc: samples.append(s.desc[:600])
            if k[0] == 1:
                if k[1] in known:
                    hits[k[1]] = k[2]
                    continue
                m = shrink(f, s.rec, k[1], 25, tier)
                s2 = Src(choices=m, tier=tier)
                k2 = run1(f, s2)
                if k2[0] != 1: m, k2 = s.rec, k
                fail = dict(key=k[1], msg=k2[2], choices=' '.join(map(str, m)))
                break
        res.append(dict(prop=name, rule=rule, evals=evals, discards=disc, nontriv=nt, samples=samples, tags=tags, known=hits, fail=fail))
        if fail: break
    with open(a['--out'], 'w') as o: json.dump(res, o)
    os._exit(0)
