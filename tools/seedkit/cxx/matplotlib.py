# permissive stand-in: plotting is not under test
import sys, types
class _M(types.ModuleType):
    __path__ = []
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _A()
class _A(object):
    def __call__(self, *a, **k): return _A()
    def __getattr__(self, n): return _A()
    def __iter__(self): return iter((_A(), _A()))
    def __getitem__(self, i): return _A()
    def __setitem__(self, i, v): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
_m = _M('matplotlib')
sys.modules['matplotlib'] = _m
for _n in ('pyplot', 'cm', 'colors', 'patches', 'lines', 'ticker', 'animation'):
    _s = _M('matplotlib.' + _n)
    sys.modules['matplotlib.' + _n] = _s
    _m.__dict__[_n] = _s
