"""D09 saved dictionaries read back equal and are never half-written"""
from common import *
import copy, pickle, resource, shutil
import IO, collect, hickle
HERE = os.getcwd()
WORDS = ['a', 'Sigma', 'x1', '', 'two words', "it's", 'say "hi"', 'back\\slash', 'line\nbreak', 'tab\t', "'''", '#no comment', '{', '}', "array([1])", 'nan', '\x7f', '0', 'None']
def gen_array(s):
    dt = s.pick(['complex128', 'float64', 'int64', 'bool', 'float32', 'complex64', 'int32', 'uint8'])
    shape = s.pick([(0,), (1,), (3,), (2, 2), (1, 1), (2, 1, 3), (7,), (), (40,), (30, 50)])
    a = np.zeros(shape, dtype=dt)
    if a.size and s.flip(3, 4):
        r = s.np()
        f = r.uniform(-1, 1, a.shape) * 10.0 ** r.randint(-12, 12, a.shape)
        if dt.startswith('complex'): f = f + 1j * r.uniform(-1, 1, a.shape)
        elif dt == 'bool': f = r.uniform(-1, 1, a.shape) > 0
        elif dt == 'uint8': f = np.abs(f) % 256
        elif 'int' in dt: f = np.clip(f * 1000, -2 ** 31, 2 ** 31 - 1)
        a = np.asarray(f).astype(dt)
        if s.flip(1, 6) and dt in ('float64', 'float32'):
            a = np.array(a); a.reshape(-1)[0] = s.pick([np.inf, -np.inf, np.nan])
    if s.flip(1, 6) and a.ndim > 1: a = a.T # not contiguous
    return a
def gen_leaf(s, big):
    k = s.below(12)
    if k == 0: return None
    if k == 1: return s.flip()
    if k == 2: return s.range(-5, 5)
    if k == 3: return s.pick([2 ** 31, -2 ** 31, 2 ** 63, 10 ** 30, -1]) * (1 if s.flip() else 3)
    if k == 4: return s.pick([0.0, 1.0, -0.1, 1e-300, 1e300, 0.1 + 0.2, float('inf'), 2.0 / 3])
    if k == 5: return s.real(-10, 10)
    if k == 6: return complex(s.real(-1, 1), s.pick([0.0, 1.0, 1.0 / 3]))
    if k == 7: return s.pick(WORDS) * (s.pick([1, 1, 1, 60]))
    if k == 8: return s.pick([np.float64(1.0 / 3), np.int64(7), np.complex128(1 - 2j), np.float64(1e22)])
    if k == 9: return ''.join(chr(s.range(32, 126)) for i in range(s.range(0, 5)))
    return gen_array(s)
def gen_value(s, depth, big):
    if depth <= 0 or s.flip(2, 3): return gen_leaf(s, big)
    k = s.below(3)
    n = s.pick([0, 1, 2, 3, 8])
    if k == 0: return [gen_value(s, depth - 1, big) for i in range(n)]
    if k == 1: return tuple(gen_value(s, depth - 1, big) for i in range(n))
    return gen_dict(s, depth - 1, big)
def gen_key(s, big):
    if big or s.flip(2, 3): return s.pick(['SmoothT', 'G', 'W', 'Norm', 'k%d' % s.below(50), 'a b', "q'"])
    return s.pick([0, 1, -3, (0, 1), ('Up', 2), 2.5, True])
def gen_dict(s, depth, big):
    return dict((gen_key(s, big), gen_value(s, depth, big)) for i in range(s.pick([0, 1, 2, 3, 6])))
def gen_root(s, big):
    d = gen_dict(s, s.range(0, 3), big)
    if big and s.flip(1, 3):
        d['WWGammaW'] = {'SmoothT': gen_array(s)} if s.flip(3, 4) else {'Other': 1}
        if s.flip(1, 3): d['WWGammaW']['Version'] = s.below(9)
    if big and s.flip(1, 3):
        d['GammaWStatis'] = {'WeightAccu': s.array((2, s.range(1, 4)), scale=s.pick([1, 1e-6, 1e12])), 'Norm': s.real(0, 9), 'Version': s.below(5)}
    return d
def same(a, b, where=''):
    """None if equal, including types, shapes and NaN; otherwise where they differ"""
    num = (int, float, complex, np.number, np.bool_)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)): return '%s: %r / %r' % (where, type(a), type(b))
        if a.dtype != b.dtype or a.shape != b.shape: return '%s: array %s%s / %s%s' % (where, a.dtype, a.shape, b.dtype, b.shape)
        if not np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'): return '%s: array contents' % where
        return None
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None: return None if type(a) == type(b) and a == b else '%s: %r / %r' % (where, a, b)
    if isinstance(a, num) and isinstance(b, num): return None if (a == b or (a != a and b != b)) and isinstance(a, complex) == isinstance(b, complex) and isinstance(a, (int, np.integer)) == isinstance(b, (int, np.integer)) else '%s: %r / %r' % (where, a, b)
    if type(a) != type(b): return '%s: %r / %r' % (where, type(a), type(b))
    if isinstance(a, dict):
        if set(map(repr, a)) != set(map(repr, b)): return '%s: keys %s / %s' % (where, list(a), list(b))
        for k in a:
            r = same(a[k], b[k], '%s[%r]' % (where, k))
            if r: return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return '%s: length %d / %d' % (where, len(a), len(b))
        for i in range(len(a)):
            r = same(a[i], b[i], '%s[%d]' % (where, i))
            if r: return r
        return None
    return None if a == b else '%s: %r / %r' % (where, a, b)
def expected_big(d):
    """what reading a large file has to return: the statistics of GammaW in single precision, GammaW tables complex"""
    d = copy.deepcopy(d)
    if 'GammaWStatis' in d: d['GammaWStatis']['WeightAccu'] = d['GammaWStatis']['WeightAccu'].astype(np.complex64).astype(complex)
    if 'WWGammaW' in d and 'SmoothT' in d['WWGammaW']: d['WWGammaW']['SmoothT'] = d['WWGammaW']['SmoothT'].astype(complex)
    return d
class Scratch:
    def __init__(self): self.d = os.path.join(HERE, 'scratch')
    def __enter__(self):
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(os.path.join(self.d, 'sub', 'deep'))
        os.chdir(self.d)
        return self
    def __exit__(self, *a):
        os.chdir(HERE)
        shutil.rmtree(self.d, ignore_errors=True)
def gen_name(s, d):
    where = s.pick(['', '', 'sub/', './', 'sub/deep/', d + '/', d + '/sub/', 'sub/../'])
    return where + s.pick(['Weight', 'x', '3_statis', 'a.b', '12_statis_total', 'p.txt', 'q.hkl', 'x.hkl.txt', 'Message', '_private', 'statis_total'])
def full(name, ext): return os.path.normpath(os.path.join(os.getcwd(), name if name.endswith(ext) else name + ext))
@prop('files', 'at least two saves and a load of an existing file')
def files(s):
    """histories of saves, loads and damage on several files, against a model of the file system"""
    with Scratch() as sc:
        model, nsave, nload, log = {}, 0, 0, []
        for step in range(s.range(2, 10)):
            known = sorted(model)
            op = s.pick(['save', 'save', 'load', 'load', 'damage', 'missing'])
            big = s.flip()
            ext = '.hkl' if big else '.txt'
            if known and s.flip(2, 3):
                path, big = s.pick(known)
                ext = '.hkl' if big else '.txt'
                name = path if s.flip() else os.path.relpath(path, sc.d)
                if s.flip() and not name[:-4].endswith(ext): name = name[:-4]
            else:
                name = gen_name(s, sc.d)
            p = full(name, ext)
            log.append('%s %s' % (op, os.path.basename(p)))
            if op == 'save':
                d = gen_root(s, big)
                snap = copy.deepcopy(d)
                if big: IO.SaveBigDict(name, d)
                else: IO.SaveDict(name, 'w', d)
                nsave += 1
                r = same(snap, d)
                CHECK(r is None, 'caller', 'saving changed the data of the caller: %s' % r)
                model[(p, big)] = ('good', expected_big(d) if big else d)
            elif op == 'damage' and model.get((p, big), ('none',))[0] == 'good':
                raw = open(p, 'rb').read()
                CHECK(len(raw) > 0, 'empty', 'an empty file was saved')
                k = s.below(3)
                if k == 0: raw = raw[:s.below(max(1, len(raw)))]
                elif k == 1 and not big: raw = raw + s.pick([b'}', b')', b'(', b' $', b'{'])
                elif not big: raw = s.pick([b'', b'Sigma', b'1 +', b'import os', b'{"a": }', b'__no_such__', b'1/0', b'[][3]'])
                else: raw = raw[:s.below(max(1, len(raw)))]
                open(p, 'wb').write(raw)
                model[(p, big)] = ('bad', None)
            else:
                state, want = model.get((p, big), ('none', None))
                f = IO.LoadBigDict if big else IO.LoadDict
                err = None
                try: got = f(name)
                except IOError as e: err = e
                if state == 'good':
                    CHECK(err is None, 'load', lambda: 'loading %s after "%s" failed: %s' % (name, '; '.join(log), err))
                    r = same(want, got)
                    CHECK(r is None, 'roundtrip', lambda: 'loaded from %s after "%s": %s' % (name, '; '.join(log), r))
                    nload += 1
                    if isinstance(got, dict): # what was loaded belongs to the caller
                        got.clear()
                        got['changed'] = 1
                        r = same(want, f(name))
                        CHECK(r is None, 'independent', lambda: 'second load of %s: %s' % (name, r))
                else:
                    CHECK(err is not None, 'error', lambda: 'loading the %s file %s raised no IOError' % ('damaged' if state == 'bad' else 'missing', name))
                    s.tag(state)
        for (p, big), (state, want) in sorted(model.items()):
            if state != 'good': continue
            got = (IO.LoadBigDict if big else IO.LoadDict)(p)
            r = same(want, got)
            CHECK(r is None, 'final', lambda: '%s at the end of "%s": %s' % (p, '; '.join(log), r))
        if nsave >= 2 and nload: s.nontrivial('; '.join(log))
HARNESS = tuple(os.path.dirname(os.path.abspath(f)) + os.sep for f in (__file__,))
def on_disk(d):
    r = []
    for e in sorted(os.listdir(d)):
        try: st = os.stat(os.path.join(d, e))
        except OSError: continue
        r.append((e, st.st_ino, st.st_size, st.st_mtime_ns))
    return r
def within(fn, hook, d='.'):
    """runs fn with hook(k) called before every step inside the file layer, and after every step of the functions it
    calls that changed a file of the folder d; returns the number of steps"""
    n, disk = [0], [on_disk(d)]
    base = (os.path.abspath(IO.__file__), os.path.abspath(hickle.__file__))
    def local(frame, event, arg):
        n[0] += 1
        hook(n[0])
        disk[0] = on_disk(d)
        return local
    def deeper(frame, event, arg):
        now = on_disk(d)
        if now != disk[0]:
            n[0] += 1
            hook(n[0])
            disk[0] = on_disk(d)
        return deeper
    def trace(frame, event, arg):
        f = os.path.abspath(frame.f_code.co_filename)
        if f in base: return local(frame, event, arg)
        if not f.startswith(HARNESS) and frame.f_code.co_filename[:1] != '<': return deeper
    sys.settrace(trace)
    try: fn()
    finally: sys.settrace(None)
    return n[0]
def state_of(name):
    try: return IO.LoadBigDict(name)
    except IOError as e: return e
def gen_versions(s, n):
    vs = []
    for i in range(n):
        d = gen_root(s, True)
        d['Version'] = i
        vs.append(d)
    return vs
def check_state(name, old, news, key, what):
    """the file holds the old version (or is missing if there was none) or one of the new ones, completely"""
    got = state_of(name)
    if isinstance(got, Exception):
        CHECK(old is None and not os.path.exists(full(name, '.hkl')), key, lambda: '%s: the file is not readable: %s' % (what, got))
        return None
    v = got.get('Version')
    for d in ([old] if old is not None else []) + news:
        if d['Version'] == v:
            r = same(expected_big(d), got)
            CHECK(r is None, key, lambda: '%s: version %s is incomplete: %s' % (what, v, r))
            return v
    CHECK(False, key, lambda: '%s: version %s' % (what, v))
def names(sc, s):
    return s.pick(['1_statis', '1_statis.hkl', os.path.join(sc.d, '1_statis'), 'sub/1_statis', './1_statis.hkl'])
def listed(d):
    collect.workspace = d
    return sorted(os.path.basename(x) for x in collect.GetFileList())
@prop('readers', 'the save was observed at no less than three points')
def readers(s):
    """at every step of a save a reader sees the previous or the new version, other files are saved meanwhile"""
    with Scratch() as sc:
        name = names(sc, s)
        vs = gen_versions(s, s.range(1, 3) + 1)
        first = s.flip(3, 4)
        if first: IO.SaveBigDict(name, vs[0])
        other = os.path.join(os.path.dirname(name), '2_statis')
        od = gen_versions(s, 1)[0]
        jump = s.range(1, 30)
        steps = 0
        last = [0 if first else None]
        for i in range(1, len(vs)):
            def hook(k):
                v = check_state(name, vs[i - 1] if first or i > 1 else None, [vs[i]], 'reader', 'read at step %d of save %d' % (k, i))
                CHECK(v is None if last[0] is None and v is None else v is not None and (last[0] is None or v >= last[0]), 'backwards', lambda: 'version %s after version %s' % (v, last[0]))
                last[0] = v
                if i == 1 and k == jump: IO.SaveBigDict(other, od) # another process saves in the same place
                fs = listed(os.path.dirname(full(name, '.hkl')))
                CHECK(all(f in ('1_statis.hkl', '2_statis.hkl') for f in fs), 'temporary', lambda: 'the merge would read %s at step %d of a save' % (fs, k))
            n = within(lambda: IO.SaveBigDict(name, vs[i]), hook, os.path.dirname(full(name, '.hkl')) or '.')
            steps += n
            v = check_state(name, None, [vs[i]], 'saved', 'after save %d' % i)
            if i == 1 and jump <= n:
                s.tag('two writers')
                check_state(other, None, [od], 'other', 'a file saved by another process at step %d of a save' % jump)
        if steps >= 3: s.nontrivial('%s, %d versions, %d points' % (name, len(vs), steps))
class Stop(KeyboardInterrupt):
    pass
@prop('crash', 'the save was interrupted')
def crash(s):
    """the process dies, is interrupted, or runs out of space at a generated point; afterwards everything goes on"""
    with Scratch() as sc:
        name = names(sc, s)
        vs = gen_versions(s, 3)
        first = s.flip(3, 4)
        if first: IO.SaveBigDict(name, vs[0])
        kind = s.pick(['die', 'interrupt', 'full'])
        k, hit = s.range(1, 45), False
        snap = copy.deepcopy(vs[1])
        if kind == 'die':
            pid = os.fork()
            if pid == 0:
                def hook(n):
                    if n == k: os._exit(7)
                try: within(lambda: IO.SaveBigDict(name, vs[1]), hook, os.path.dirname(full(name, '.hkl')) or '.')
                except BaseException: os._exit(9)
                os._exit(8)
            rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            CHECK(rc in (7, 8), 'child', 'save in a child process ended with %d' % rc)
            hit = rc == 7
        elif kind == 'interrupt':
            def hook(n):
                if n == k: raise Stop()
            try: within(lambda: IO.SaveBigDict(name, vs[1]), hook, os.path.dirname(full(name, '.hkl')) or '.')
            except Stop: hit = True
        else:
            size = s.pick([0, 1, 8, 40, 100, 500, 5000])
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
            try: IO.SaveBigDict(name, vs[1])
            except (IOError, OSError): hit = True
            finally: resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        what = '%s at %s' % (kind, size if kind == 'full' else k)
        v = check_state(name, vs[0] if first else None, [vs[1]], 'crash', what)
        CHECK(hit or v == 1, 'lost', '%s: save ended without error, but version %s is on disk' % (what, v))
        CHECK(kind != 'full' or not hit or v != 1, 'error', '%s: saved although an error was reported' % what)
        r = same(snap, vs[1])
        CHECK(r is None, 'caller', lambda: '%s changed the data of the caller: %s' % (what, r))
        fs = listed(os.path.dirname(full(name, '.hkl')))
        CHECK(fs == ([] if v is None else ['1_statis.hkl']), 'leftover', lambda: '%s: the merge would read %s' % (what, fs))
        IO.SaveBigDict(name, vs[2])
        check_state(name, None, [vs[2]], 'again', 'save after %s' % what)
        if hit: s.nontrivial('%s %s, version %s on disk' % (name, what, v))
        s.tag(kind if hit else kind + ' after the end')
if __name__ == '__main__': main()
