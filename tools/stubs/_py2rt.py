# Python-2 semantics for translated modules
import builtins as _b, sys as _sys
import numpy as _np
_int = (int, _np.integer)
def _isint(x):
    if isinstance(x, _np.ndarray):
        return x.dtype.kind in 'iub'
    return isinstance(x, (int, _np.integer, _np.bool_))
def _py2div(a, b):
    if _isint(a) and _isint(b):
        return a // b
    return a / b
def _py2idiv(a, b):
    if isinstance(a, _np.ndarray):
        if _isint(a) and _isint(b):
            a //= b
        else:
            _np.true_divide(a, b, out=a, casting='unsafe')
        return a
    if hasattr(type(a), '__itruediv__'):
        a /= b
        return a
    return _py2div(a, b)
def _py2haskey(d, k):
    f = getattr(type(d), 'has_key', None)
    return f(d, k) if f else k in d
def _py2list(o, attr):
    r = getattr(o, attr)()
    return _b.list(r) if isinstance(o, (dict,)) or type(r).__name__.endswith(('keys', 'values', 'items', 'View', 'ItemsView', 'KeysView', 'ValuesView')) else r
def map(f, *a):
    if f is None:
        return zip(*a) if len(a) > 1 else _b.list(a[0])
    return [f(*x) for x in _b.zip(*a)]
def filter(f, s):
    r = [x for x in s if (f(x) if f else x)]
    return ''.join(r) if isinstance(s, str) else (tuple(r) if isinstance(s, tuple) else r)
def zip(*a): return _b.list(_b.zip(*a))
def range(*a): return _b.list(_b.range(*a))
xrange = _b.range
from functools import reduce
unicode = str
basestring = str
long = int
raw_input = input
def open(name, mode='r', *a, **k): # Python 2 reads and writes bytes
    if 'b' not in mode and 'encoding' not in k: k.update(encoding='utf-8', errors='surrogateescape', newline='')
    return _b.open(name, mode, *a, **k)
def round(x, n=0):
    import math
    p = 10.0 ** n
    return math.copysign(math.floor(abs(x) * p + 0.5) / p, x)
for _n, _t in (('int', int), ('float', float), ('complex', complex), ('bool', bool), ('object', object)):
    if _n not in _np.__dict__:
        setattr(_np, _n, _t)
if not getattr(_np.set_printoptions, '_py2', False):
    _spo = _np.set_printoptions
    def _set_printoptions(*a, **k):
        t = k.get('threshold')
        if isinstance(t, float) and t != t:
            k['threshold'] = _sys.maxsize
        return _spo(*a, **k)
    _set_printoptions._py2 = True
    _np.set_printoptions = _set_printoptions
__all__ = ['map', 'filter', 'zip', 'range', 'xrange', 'reduce', 'unicode', 'basestring', 'long', 'raw_input', 'open', 'round']
