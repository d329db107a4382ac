"""Runs the repository's own source files, unmodified, with builtins and imported libraries that
understand symbolic values.  Nothing of the source is dropped or rewritten: each file under
<repo>/CommDspy is compiled as it stands on disk."""
import builtins as _bi
import importlib
import os
import types
import z3
import numpy as _np
from . import core as c
from . import arr, npshim, loops
from .arr import Arr, CArr, SArr, A, is_c
from .core import S, Unsupported

REPO = os.environ.get('PV_REPO', '/repo')


# ---- builtins ------------------------------------------------------------------------------------
def b_len(x):
    if isinstance(x, Arr):
        if len(x.shape) == 0:
            raise TypeError('len() of unsized object')
        d = x.shape[0]
        return S(d.t, 'i') if isinstance(d, S) else d
    if isinstance(x, S):
        raise TypeError('object of type int has no len()')
    if hasattr(x, '_pv_len'):
        return x._pv_len()
    return _bi.len(x)


def _idx(x):
    if isinstance(x, Arr):
        x = x.as_scalar()
    if isinstance(x, S):
        if x.k == 'f':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return S(x.t, 'i')
    if isinstance(x, (float, _np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(x)


class b_range_meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (range, loops.SymRange))


class b_range(metaclass=b_range_meta):
    def __new__(cls, *a):
        a = [_idx(x) for x in a]
        if not any(isinstance(x, S) for x in a):
            return range(*a)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if isinstance(step, S):
            raise Unsupported('symbolic range step')
        d = c.sub(stop, start)
        if step != 1:
            n = c.neg(c.floordiv(c.neg(d), step))
        else:
            n = d
        return loops.SymRange(start, step, n)


def b_enumerate(x, start=0):
    if isinstance(x, SArr) and isinstance(x.shape[0], S) or isinstance(x, (loops.SymRange, loops.SymMap)):
        n, el = loops.seq(x)
        return loops.SymMap(n, lambda k: (c.add(k, start), el(k)))
    return _bi.enumerate(x, start)


def b_zip(*xs, **kw):
    if any(loops.is_symseq(x) for x in xs):
        ss = [loops.seq(x) for x in xs]
        n = ss[0][0]
        for m, _ in ss[1:]:
            if not arr.dim_eq(n, m):
                n = m if c.CTX.branch(c.boolt(c.lt(m, n))) else n
        return loops.SymMap(n, lambda k: tuple(e(k) for _, e in ss))
    return _bi.zip(*xs, **kw)


def b_reversed(x):
    if loops.is_symseq(x):
        n, el = loops.seq(x)
        return loops.SymMap(n, lambda k: el(c.sub(c.sub(n, 1), k)))
    if isinstance(x, Arr):
        return iter([x[i] for i in range(x.shape[0] - 1, -1, -1)])
    return _bi.reversed(x)


def _minmax(a, k, mx):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SArr) and isinstance(x.shape[0], S):
            return arr.reduce_minmax(x, None, mx)
        a = list(x)
    if 'key' in k:
        return (_bi.max if mx else _bi.min)(a, **k)
    if not a:
        if 'default' in k:
            return k['default']
        raise ValueError('min() iterable argument is empty')
    r = a[0]
    for v in a[1:]:
        t = (v > r) if mx else (v < r)
        if isinstance(t, S) and t.k == 'b' and _big(v) != _big(r) and not c.CTX.known(t.t) and not c.CTX.known(z3.Not(t.t)):
            # no fork against a large constant: a new name for the minimum / maximum
            m = S(c.CTX.fresh('mm'), 'i')
            c.CTX.assume(c.eq(m, c.ite(t, v, r)))
            r = m
        elif t:                  # forks when symbolic
            r = v
    return r


def _big(v):
    return isinstance(v, int) and not isinstance(v, bool) and v > 64


def b_min(*a, **k): return _minmax(a, k, False)
def b_max(*a, **k): return _minmax(a, k, True)


def b_sum(x, start=0):
    if isinstance(x, Arr):
        if x.ndim == 1:
            r = arr.reduce_sum(x)
            return c.add(r, start) if not (is_c(start) and start == 0) else r
        return arr.reduce_sum(x, 0)
    if loops.is_symseq(x):
        n, el = loops.seq(x)
        return c.CTX.sum_term(n, el, 'i')
    return _bi.sum(x, start)


def b_any(x):
    if isinstance(x, SArr):
        return arr.reduce_any(x)
    return _bi.any(x)


def b_all(x):
    if isinstance(x, SArr):
        return arr.reduce_all(x)
    return _bi.all(x)


def b_round(x, nd=None):
    if isinstance(x, S):
        return c.coerce(c.rnd(x), 'i')
    return _bi.round(x) if nd is None else _bi.round(x, nd)


def b_pow(a, b, m=None):
    r = a ** b
    return r if m is None else r % m


def b_divmod(a, b):
    return a // b, a % b


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return _bi.any(b_isinstance(x, e) for e in t)
    if isinstance(x, S) and isinstance(t, type) and issubclass(t, _np.generic):
        return {'i': issubclass(_np.int64, t), 'f': issubclass(_np.float64, t), 'b': issubclass(_np.bool_, t)}[x.k]
    return isinstance(x, t)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)

    def __eq__(cls, o):
        return o is list or o is cls

    def __hash__(cls):
        return hash(list)


class b_list(list, metaclass=_ListMeta):
    def __new__(cls, x=()):
        if loops.is_symseq(x):
            if isinstance(x, SArr):
                return x.copy()
            n, el = loops.seq(x)
            return arr.SArr((n,), lambda i: el(i[0]), 'i')
        return list(x)


def b_print(*a, **k):
    pass


class _Dummy:
    pass


LIBS = {'numpy', 'scipy', 'math', 'sklearn'}


class Repo:
    """one loaded copy of the package"""

    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.builtins = dict(_bi.__dict__)
        self.builtins.update({
            '__import__': self.imp, 'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip,
            'reversed': b_reversed, 'min': b_min, 'max': b_max, 'sum': b_sum, 'any': b_any, 'all': b_all,
            'abs': lambda x: c.absv(x) if isinstance(x, S) else _bi.abs(x), 'round': b_round, 'pow': b_pow,
            'divmod': b_divmod, 'int': npshim.ShimInt, 'float': npshim.ShimFloat, 'bool': npshim.ShimBool,
            'type': npshim.shim_type, 'isinstance': b_isinstance, 'list': b_list, 'print': b_print,
        })
        self.codes = set()
        self.load('CommDspy')

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def exists(self, name):
        p = os.path.join(self.root, *name.split('.'))
        return os.path.isdir(p) or os.path.exists(p + '.py')

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        f, pkg = self.path(name)
        m = types.ModuleType(name)
        m.__file__ = f
        if pkg:
            m.__path__ = [os.path.dirname(f)]
        m.__package__ = name if pkg else parent
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        if os.path.exists(f):
            with open(f) as fh:
                src = fh.read()
        elif pkg:
            src = ''
        else:
            del self.modules[name]
            raise ModuleNotFoundError(name)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile(src, f, 'exec')
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent:
            setattr(self.modules[parent], name.rpartition('.')[2], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            base = base[:len(base) - level + 1]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'CommDspy':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and self.exists(name + '.' + f):
                        self.load(name + '.' + f)
                return m
            return self.modules['CommDspy']
        if top in LIBS:
            m = npshim.shim_module(name)
            if m is None:
                m = importlib.import_module(name)
            if fromlist:
                return m
            return npshim.shim_module(top) or importlib.import_module(top)
        importlib.import_module(name)
        if fromlist:
            return importlib.import_module(name)
        return importlib.import_module(top)

    def get(self, path):
        """'CommDspy.tx.prbs_gen' -> object, by attribute access from the package root"""
        parts = path.split('.')
        o = self.modules['CommDspy']
        done = 'CommDspy'
        for p in parts[1:]:
            done += '.' + p
            if not hasattr(o, p) and isinstance(o, types.ModuleType) and self.exists(done):
                self.load(done)
            o = getattr(o, p)
        return o

    def substitute(self, func, repl):
        """replace a function object by its contract in every module namespace; returns undo"""
        undo = []
        for m in self.modules.values():
            for k, v in list(m.__dict__.items()):
                if v is func:
                    m.__dict__[k] = repl
                    undo.append((m, k, v))
        return undo
