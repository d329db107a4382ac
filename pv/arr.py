"""Arrays.  CArr: concrete shape (object ndarray holding numbers / symbolic scalars, so numpy
itself supplies slicing, views, broadcasting and aliasing).  SArr: at least one symbolic
dimension; elements are given by an index -> value function over a mutable store, views are index
maps onto that store, so writes through a view are seen by every alias."""
import numpy as _np
import z3
from . import core as c
from .core import S, Unsupported, ite, py


# ---------------------------------------------------------------------------------------------
def dtkind(dt):
    if dt is None:
        return 'f'
    if isinstance(dt, KindTag):
        return dt.kind
    d = getattr(dt, 'dtype', dt)
    try:
        d = _np.dtype(d)
    except TypeError:
        raise Unsupported('dtype %r' % (dt,))
    k = d.kind
    if k == 'i' and d.itemsize >= 8:
        return 'i'
    if k == 'f' and d.itemsize >= 8:
        return 'f'
    if k == 'b':
        return 'b'
    raise Unsupported('dtype %r' % (dt,))


BENIGN = ('copy', 'subok', 'casting', 'like', 'device', 'stable', 'equal_nan', 'assume_a', 'check_finite', 'overwrite_a', 'overwrite_b', 'cond', 'lapack_driver')


def kwguard(k):
    """keyword arguments the shim does not implement are refused, not ignored"""
    for n, v in k.items():
        if v is None or v is False or n in BENIGN or n == 'order' and v in ('C', 'K', 'A'):
            continue
        raise Unsupported('argument %s' % n)


def redguard(f):
    """reductions: dtype (wide ones only) is applied to the result, everything not declared is refused"""
    import functools
    import inspect
    ps = inspect.signature(f).parameters
    names = [n for n, q in ps.items() if q.kind in (q.POSITIONAL_OR_KEYWORD, q.KEYWORD_ONLY)]

    @functools.wraps(f)
    def g(*a, **k):
        dt = k.pop('dtype', None)
        kwguard({n: v for n, v in k.items() if n not in names})
        kwguard({n: k[n] for n in ('out', 'where', 'initial') if n in k})
        if len(a) > 2:
            raise Unsupported('positional arguments')
        r = f(*a, **{n: v for n, v in k.items() if n in names})
        if dt is not None:
            q = dtkind(dt)
            r = r.astype(q2np(q)) if isinstance(r, Arr) else c.coerce(r, q)
        return r
    return g


def q2np(q):
    return NPD[q]


class KindTag:
    def __init__(self, kind):
        self.kind = kind


NPD = {'i': _np.dtype('int64'), 'f': _np.dtype('float64'), 'b': _np.dtype('bool')}


def obj(x):
    """object ndarray of python scalars / S"""
    if isinstance(x, CArr):
        return x.o
    a = _np.asarray(x)
    if a.dtype == object:
        return a
    if a.dtype.kind not in 'iufb':
        raise Unsupported('array of dtype %s' % a.dtype)
    out = _np.empty(a.shape, dtype=object)
    out[...] = a.tolist() if a.ndim == 0 else a.astype(object)
    return out


def akind(o):
    k = None
    for v in o.flat:
        kk = c.kind_of(v)
        k = kk if k is None else c.joink(k, kk)
    return k or 'f'


def A(x, kind=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, SArr) or (isinstance(e, (list, tuple)) and _has_sarr(e)) for e in x):
            return stack([A(e) for e in x], 0)
        x = _delist(x)
        if len(x) == 0:
            return CArr(_np.empty((0,), dtype=object), kind or 'f')
        try:
            shape = _shape(x)
        except ValueError:
            raise ValueError('inhomogeneous array')
        kk = _npkind(x)
        o = _np.empty(shape, dtype=object)
        _fill(o, x, ())
        ak = akind(o) if o.size else 'f'
        ak = c.joink(ak, kk) if kk else ak
        if ak == 'f':
            for i, v in enumerate(o.flat):
                o.flat[i] = c.coerce(v, 'f')
        return CArr(o, ak)
    if isinstance(x, S):
        o = _np.empty((), dtype=object)
        o[()] = x
        return CArr(o, x.k)
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            return CArr(x, akind(x))
        return CArr(obj(x), dtkind(x.dtype))
    if isinstance(x, (bool, int, float, _np.generic)):
        o = _np.empty((), dtype=object)
        o[()] = py(x)
        return CArr(o, c.kind_of(x))
    if isinstance(x, range):
        return A(list(x))
    if hasattr(x, '_pv_list'):
        return A(x._pv_list())
    try:
        from collections.abc import Iterable
        if isinstance(x, Iterable) and not isinstance(x, (dict, str, set)):
            return A(list(x))
    except TypeError:
        pass
    raise Unsupported('array from %r' % (type(x),))


def _npkind(x):
    return None


def _has_sarr(x):
    return any(isinstance(e, SArr) or (isinstance(e, (list, tuple)) and _has_sarr(e)) for e in x)


def _delist(x):
    out = []
    for e in x:
        if isinstance(e, CArr):
            out.append(e.o if e.o.ndim else e.o[()])
        elif isinstance(e, _np.ndarray):
            out.append(obj(e))
        elif isinstance(e, (list, tuple)):
            out.append(_delist(e))
        elif isinstance(e, range):
            out.append(list(e))
        elif hasattr(e, '_pv_list'):
            out.append(_delist(e._pv_list()))
        else:
            out.append(py(e))
    return out


def _shape(x):
    if isinstance(x, _np.ndarray):
        return x.shape
    if isinstance(x, list):
        if not x:
            return (0,)
        s = [_shape(e) for e in x]
        if any(t != s[0] for t in s):
            raise ValueError('inhomogeneous')
        return (len(x),) + s[0]
    return ()


def _fill(o, x, idx):
    if isinstance(x, _np.ndarray):
        for i in _np.ndindex(*x.shape):
            o[idx + i] = x[i]
    elif isinstance(x, list):
        for j, e in enumerate(x):
            _fill(o, e, idx + (j,))
    else:
        o[idx] = x


_SC = {'i': _np.int64, 'f': _np.float64, 'b': _np.bool_}


def sc(v, kind):
    """a scalar read from an array is a numpy scalar"""
    if isinstance(v, (S, _np.generic)):
        return v
    if kind == 'i' and not -2 ** 63 <= v < 2 ** 63:
        return v
    return _SC[kind](v)


def unwrap(v):
    """0-d results become scalars"""
    if isinstance(v, CArr) and v.o.ndim == 0:
        return v.o[()]
    return v


# ---------------------------------------------------------------------------------------------
def dim_eq(a, b):
    """are two dimensions equal (structurally or provably)?"""
    if a is b:
        return True
    if isinstance(a, MaskDim) or isinstance(b, MaskDim):
        return isinstance(a, MaskDim) and isinstance(b, MaskDim) and a.same(b)
    if not isinstance(a, S) and not isinstance(b, S):
        return int(a) == int(b)
    return c.CTX.known(c.boolt(c.eq(a, b)))


def dim_prod(dims):
    r = 1
    for d in dims:
        r = c.mul(r, d)
    return sdim(r)


def sdim(d):
    if isinstance(d, MaskDim):
        return d
    if isinstance(d, S):
        t = z3.simplify(c.num(d)[0])
        if z3.is_int_value(t):
            return t.as_long()
        return S(t, 'i')
    return int(d)


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if not isinstance(e, S) and e == 1:
                continue
            if not isinstance(d, S) and d == 1:
                d = e
                continue
            if dim_eq(d, e):
                if isinstance(d, S) and not isinstance(e, S):
                    d = e
                continue
            # unknown: fork on equality; a symbolic dimension may also be 1
            if c.CTX.branch(c.boolt(c.eq(d, e))):
                continue
            if isinstance(e, S) and c.CTX.branch(c.boolt(c.eq(e, 1))):
                raise Unsupported('symbolic dimension equal to 1 broadcast')
            if isinstance(d, S) and c.CTX.branch(c.boolt(c.eq(d, 1))):
                raise Unsupported('symbolic dimension equal to 1 broadcast')
            raise ValueError('operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def bidx(idx, arr):
    """indices of operand `arr` for result index idx"""
    r = len(arr.shape)
    sub = idx[len(idx) - r:]
    return tuple(0 if (not isinstance(d, S) and d == 1) else i for d, i in zip(arr.shape, sub))


def ikey(idx):
    return tuple(i if not isinstance(i, S) else ('t', i.t.get_id()) for i in idx)


class MaskDim(S):
    """length of a boolean-mask selection; positions along it are named by their original index"""
    __slots__ = ('mask', 'mid')

    def __init__(self, mask):
        cnt = c.CTX.sum_term(mask.shape[0], lambda k: c.coerce(mask.at((k,)), 'i'), 'i') \
            if isinstance(mask.shape[0], S) else _csum([c.coerce(mask.at((k,)), 'i') for k in range(mask.shape[0])])
        t, k = c.num(cnt)
        super().__init__(t, 'i')
        self.mask = mask

    def same(self, o):
        if self.mask is o.mask:
            return True
        n, m = self.mask.shape[0], o.mask.shape[0]
        if not dim_eq(n, m):
            return False
        return forall_known((n,), lambda i: c.eq(c.coerce(self.mask.at(i), 'b'), c.coerce(o.mask.at(i), 'b')))


def _csum(xs):
    r = 0
    for x in xs:
        r = c.add(r, x)
    return r


def range_facts(shape, idx):
    out = []
    for d, i in zip(shape, idx):
        if isinstance(d, MaskDim):
            out += [c.ge(i, 0), c.lt(i, d.mask.shape[0]), c.coerce(d.mask.at((i,)), 'b')]
        else:
            out += [c.ge(i, 0), c.lt(i, d)]
    return out


def sk_idx(shape, name='q'):
    idx = []
    for d in shape:
        if isinstance(d, S):
            idx.append(S(c.CTX.fresh(name), 'i'))
        else:
            idx.append(None)
    return idx


def _combos(shape, name='q'):
    """all concrete positions along concrete dims x skolem positions along symbolic dims"""
    import itertools
    axes = []
    for d in shape:
        if isinstance(d, S):
            axes.append([S(c.CTX.fresh(name), 'i')])
        else:
            axes.append(list(range(d)))
    return list(itertools.product(*axes))


def forall_known(shape, fn):
    ctx = c.CTX
    combos = _combos(shape)
    if len(combos) > 600:
        return False
    for idx in combos:
        g = fn(idx)
        if not isinstance(g, S):
            if not g:
                rf = [c.boolt(f) for f in range_facts(shape, idx)]
                if ctx._check(*rf) == z3.unsat:
                    continue
                return False
            continue
        rf = [c.boolt(f) for f in range_facts(shape, idx)]
        if ctx._check(z3.Not(c.boolt(g)), *rf) != z3.unsat:
            return False
    return True


def require_all(shape, fn, exc):
    """code raises `exc` unless fn holds everywhere"""
    ctx = c.CTX
    if ctx.spec_mode or forall_known(shape, fn):
        return
    if ctx.choose(2) == 0:
        idx = tuple(S(ctx.fresh('bad'), 'i') if isinstance(d, S) else None for d in shape)
        if any(i is None for i in idx):
            full = []
            for i, d in zip(idx, shape):
                if i is None:
                    i = S(ctx.fresh('bad'), 'i')
                full.append(i)
            idx = tuple(full)
        for f in range_facts(shape, idx):
            ctx.assume(f)
        for i in idx:
            ctx.trigger(i)
        ctx.assume(c.Not(fn(idx)))
        if ctx._check() == z3.unsat:
            raise c.PathEnd('infeasible')
        raise exc
    if len(shape) == 1:
        ctx.add_forall(lambda k: c.Or(c.lt(k, 0), c.ge(k, shape[0]), fn((k,))))
    else:
        ctx.trace.append('multi-dim requirement')


def all_term(shape, fn):
    """S bool: fn holds at every index"""
    ctx = c.CTX
    combos = _combos(shape)
    if not any(isinstance(d, S) for d in shape):
        return c.And(*[fn(i) for i in combos]) if combos else True
    b = ctx.fresh('all', 'b')
    nsym = sum(isinstance(d, S) for d in shape)
    if nsym == 1 and len(combos) <= 64:
        def fact(k):
            fs = []
            for idx in combos:
                i2 = tuple(k if isinstance(d, S) else i for d, i in zip(shape, idx))
                fs.append(c.Or(c.Not(c.And(*range_facts(shape, i2))), fn(i2)))
            return c.Or(S(z3.Not(b), 'b'), *[c.And(*fs)])
        ctx.add_forall(fact)
    ws = []
    alts = []
    for n, idx in enumerate(combos):
        if len(combos) > 64:
            raise Unsupported('all() over a large mixed shape')
        i2 = tuple(S(ctx.fresh('w'), 'i') if isinstance(d, S) else i for d, i in zip(shape, idx))
        for i in i2:
            if isinstance(i, S):
                ws.append(i)
        alts.append(c.And(*(range_facts(shape, i2) + [c.Not(fn(i2))])))
    ctx.assume(z3.Or(b, *[c.boolt(a) for a in alts]))
    for w in ws:
        ctx.trigger(w)
    return S(b, 'b')


# ---------------------------------------------------------------------------------------------
class Store:
    __slots__ = ('shape', 'get', 'cache', 'ver', 'name')

    def __init__(self, shape, get, name=None):
        self.shape = shape
        self.get = get
        self.cache = {}
        self.ver = 0
        self.name = name

    def read(self, idx):
        k = ikey(idx)
        r = self.cache.get(k)
        if r is None:
            v = self.get(idx)
            self.cache[k] = (v, idx)
            return v
        return r[0]

    def write(self, get):
        self.get = get
        self.cache = {}
        self.ver += 1


class Arr:
    _is_arr = True
    __array_ufunc__ = None
    __array_priority__ = 1e5

    # -- operators ----------------------------------------------------------------------------
    def __add__(self, o): return binop(c.add, self, o)
    def __radd__(self, o): return binop(c.add, o, self)
    def __sub__(self, o): return binop(c.sub, self, o)
    def __rsub__(self, o): return binop(c.sub, o, self)
    def __mul__(self, o): return binop(c.mul, self, o)
    def __rmul__(self, o): return binop(c.mul, o, self)
    def __truediv__(self, o): return binop(c.truediv, self, o, 'f')
    def __rtruediv__(self, o): return binop(c.truediv, o, self, 'f')
    def __floordiv__(self, o): return binop(c.floordiv, self, o)
    def __rfloordiv__(self, o): return binop(c.floordiv, o, self)
    def __mod__(self, o): return binop(c.mod, self, o)
    def __rmod__(self, o): return binop(c.mod, o, self)
    def __pow__(self, o): return binop(c.power, self, o)
    def __rpow__(self, o): return binop(c.power, o, self)
    def __and__(self, o): return binop(c.bitand, self, o)
    def __rand__(self, o): return binop(c.bitand, o, self)
    def __or__(self, o): return binop(c.bitor, self, o)
    def __ror__(self, o): return binop(c.bitor, o, self)
    def __xor__(self, o): return binop(c.bitxor, self, o)
    def __rxor__(self, o): return binop(c.bitxor, o, self)
    def __lshift__(self, o): return binop(c.lshift, self, o)
    def __rlshift__(self, o): return binop(c.lshift, o, self)
    def __rshift__(self, o): return binop(c.rshift, self, o)
    def __rrshift__(self, o): return binop(c.rshift, o, self)
    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(o, self)
    def __neg__(self): return unop(c.neg, self)
    def __pos__(self): return unop(lambda v: v, self)
    def __abs__(self): return unop(c.absv, self)
    def __invert__(self): return unop(c.invert, self)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return binop(c.eq, self, o, 'b')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return binop(c.ne, self, o, 'b')

    def __lt__(self, o): return binop(c.lt, self, o, 'b')
    def __le__(self, o): return binop(c.le, self, o, 'b')
    def __gt__(self, o): return binop(c.gt, self, o, 'b')
    def __ge__(self, o): return binop(c.ge, self, o, 'b')
    __hash__ = None

    def _iop(self, f, o):
        r = binop(f, self, o)
        if self.kind in 'ib' and r.kind == 'f' or self.kind == 'b' and r.kind == 'i':
            # numpy: same-kind casting error
            raise TypeError('Cannot cast ufunc output')
        self[...] = r
        return self

    def __iadd__(self, o): return self._iop(c.add, o)
    def __isub__(self, o): return self._iop(c.sub, o)
    def __imul__(self, o): return self._iop(c.mul, o)
    def __imod__(self, o): return self._iop(c.mod, o)
    def __ifloordiv__(self, o): return self._iop(c.floordiv, o)

    def __itruediv__(self, o):
        if self.kind != 'f':
            raise TypeError('Cannot cast ufunc output')
        return self._iop(c.truediv, o)

    def __ipow__(self, o): return self._iop(c.power, o)
    def __ixor__(self, o): return self._iop(c.bitxor, o)
    def __iand__(self, o): return self._iop(c.bitand, o)
    def __ior__(self, o): return self._iop(c.bitor, o)

    # -- attributes ---------------------------------------------------------------------------
    @property
    def dtype(self):
        return NPD[self.kind]

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return dim_prod(self.shape)

    @property
    def T(self):
        return transpose(self)

    @property
    def real(self):
        return self

    @property
    def flat(self):
        return reshape(self, (-1,))

    # -- methods ------------------------------------------------------------------------------
    def astype(self, dt, copy=True, **kw):
        k = dtkind(dt)
        return unop(lambda v: c.coerce(v, k), self, k)

    def copy(self, *a, **k): return unop(lambda v: v, self)

    def reshape(self, *s, **kw):
        kwguard(kw)
        if len(s) == 1:
            s = s[0]
        return reshape(self, s)

    def ravel(self, order='C'):
        kwguard({'order': order})
        return reshape(self, (-1,))

    def flatten(self, order='C'):
        kwguard({'order': order})
        return reshape(self, (-1,)).copy()

    def transpose(self, *ax):
        return transpose(self, ax if ax and ax[0] is not None else None)

    def squeeze(self, axis=None): return squeeze(self, axis)
    def dot(self, o): return dot(self, o)
    @redguard
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return reduce_sum(self, axis, keepdims)
    @redguard
    def mean(self, axis=None, **k): return mean(self, axis)
    @redguard
    def prod(self, axis=None, **k): return reduce_fold(self, axis, c.mul, 1)
    @redguard
    def min(self, axis=None, **k): return reduce_minmax(self, axis, False)
    @redguard
    def max(self, axis=None, **k): return reduce_minmax(self, axis, True)
    @redguard
    def argmin(self, axis=None, **k): return argext(self, axis, False)
    @redguard
    def argmax(self, axis=None, **k): return argext(self, axis, True)
    @redguard
    def any(self, axis=None, **k): return reduce_any(self, axis)
    @redguard
    def all(self, axis=None, **k): return reduce_all(self, axis)
    @redguard
    def cumsum(self, axis=None, **k): return cumsum(self, axis)
    def conj(self): return self.copy()
    conjugate = conj

    def tolist(self):
        if isinstance(self, CArr):
            return self.o.tolist()
        return self

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if all(is_c(d) for d in self.shape) and int(_np.prod(self.shape)) == 1:
            return self.o.reshape(-1)[0]
        raise ValueError('can only convert an array of size 1 to a Python scalar')

    def fill(self, v):
        self[...] = v

    def _pv_vals(self):
        if len(self.shape) != 1 or not is_c(self.shape[0]):
            raise Unsupported('coefficient vector of symbolic length')
        return [self.at((j,)) for j in range(self.shape[0])]

    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def round(self, decimals=0):
        if decimals != 0:
            raise Unsupported('decimals')
        return unop(c.rnd, self) if self.kind == 'f' else self.copy()

    def clip(self, lo=None, hi=None, **k):
        kwguard(k)
        r = self
        if lo is not None:
            r = binop(c.maxv, r, lo)
        if hi is not None:
            r = binop(c.minv, r, hi)
        return r

    def as_scalar(self):
        if len(self.shape) == 0:
            return self.o[()]
        if all(is_c(d) for d in self.shape) and int(_np.prod(self.shape)) == 1:
            return self.o.reshape(-1)[0]
        if any(isinstance(d, S) for d in self.shape):
            raise Unsupported('truth value of a symbolic-size array')
        if int(_np.prod(self.shape)) == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __bool__(self):
        return bool(self.as_scalar())

    def __float__(self): return float(self.as_scalar())
    def __int__(self): return int(self.as_scalar())
    def __index__(self):
        if len(self.shape) == 0:
            v = self.o[()]
            return v.__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __contains__(self, v):
        return bool(reduce_any(binop(c.eq, self, v, 'b'), None))

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, S):
            raise Unsupported('len() of a symbolic-size array')
        return n

    def __format__(self, spec):
        if spec:
            raise TypeError('unsupported format string passed to numpy.ndarray.__format__')
        return '<array>'

    def __iter__(self):
        if len(self.shape) == 0:
            raise TypeError('iteration over a 0-d array')
        n = self.shape[0]
        if isinstance(n, S):
            from . import loops
            return loops.SymIter(n, lambda k: self._row(k))
        return iter([self[i] for i in range(n)])

    def _row(self, k):
        return self[k]


def is_c(d):
    return not isinstance(d, S)


class CArr(Arr):
    def __init__(self, o, kind):
        assert isinstance(o, _np.ndarray) and o.dtype == object
        self.o = o
        self.kind = kind
        self.ro = False

    @property
    def shape(self):
        return self.o.shape

    @property
    def store(self):
        return None

    def at(self, idx):
        if any(isinstance(i, S) for i in idx):
            return select(self.o, idx)
        return self.o[tuple(idx)]

    def freeze(self):
        return CArr(self.o.copy(), self.kind)

    def __repr__(self):
        return 'CArr(%s, %s)' % (self.o.tolist(), self.kind)

    def _pv_rows(self):
        return [self[i] for i in range(self.shape[0])]

    def __getitem__(self, key):
        return c_getitem(self, key)

    def __setitem__(self, key, val):
        c_setitem(self, key, val)

    def concrete(self):
        """real numpy array, or None when some element is symbolic"""
        for v in self.o.flat:
            if isinstance(v, S):
                return None
        return _np.array(self.o.tolist(), dtype=NPD[self.kind]).reshape(self.o.shape)


def select(o, idx):
    """element of an object array at a (partly) symbolic index"""
    idx = list(idx)
    for ax, i in enumerate(idx):
        if isinstance(i, S):
            n = o.shape[ax]
            if n == 0:
                raise Unsupported('selecting from an empty axis')
            if n > 4096:
                raise Unsupported('symbolic index into a large constant table')
            vals = []
            for j in range(n):
                vals.append(select(o, idx[:ax] + [j] + idx[ax + 1:]))
            # compress runs of equal values
            r = vals[-1]
            if n > 64:
                return _tab(vals, i)
            for j in range(n - 2, -1, -1):
                r = ite(c.eq(i, j), vals[j], r)
            return r
    return o[tuple(idx)]


def _tab(vals, i, lo=0):
    if len(vals) == 1 or all(not isinstance(v, S) and v == vals[0] for v in vals):
        return vals[0]
    m = len(vals) // 2
    return ite(c.lt(i, lo + m), _tab(vals[:m], i, lo), _tab(vals[m:], i, lo + m))


class SArr(Arr):
    def __init__(self, shape, get=None, kind='f', store=None, fwd=None, inv=None, name=None):
        self.shape = tuple(shape)
        self.kind = kind
        self.store = store if store is not None else Store(self.shape, get, name)
        self.fwd = fwd
        self.inv = inv

    def at(self, idx):
        idx = tuple(idx)
        if self.fwd is not None:
            idx = self.fwd(idx)
        return self.store.read(idx)

    def freeze(self):
        s = Store(self.store.shape, self.store.get, self.store.name)
        s.cache = self.store.cache
        return SArr(self.shape, kind=self.kind, store=s, fwd=self.fwd, inv=self.inv)

    def view(self, shape, fwd, inv):
        """fwd: view idx -> self idx; inv: self idx -> (cond, view idx)"""
        f0, i0 = self.fwd, self.inv
        f = fwd if f0 is None else (lambda idx: f0(fwd(idx)))
        if inv is None or (f0 is not None and i0 is None):
            i = None
        elif f0 is None:
            i = inv
        else:
            def i(b):
                c1, x = i0(b)
                c2, y = inv(x)
                return c.And(c1, c2), y
        return SArr(shape, kind=self.kind, store=self.store, fwd=f, inv=i)

    def __repr__(self):
        return 'SArr(shape=%s, %s)' % (self.shape, self.kind)

    def __getitem__(self, key):
        return s_getitem(self, key)

    def __setitem__(self, key, val):
        s_setitem(self, key, val)

    def concrete(self):
        return None


def sym_list(lst, n):
    """[a, b] * n with symbolic n"""
    vals = _delist(list(lst))
    m = len(vals)
    o = A(vals)
    if m == 1:
        v = vals[0]
        if isinstance(v, _np.ndarray):
            raise Unsupported('repeating a list of arrays symbolically')
        n2 = c.ite(c.ge(n, 0), n, 0) if not c.CTX.known(c.boolt(c.ge(n, 0))) else n
        return SArr((sdim(n2),), lambda i: v, o.kind)
    return SArr((sdim(c.mul(n, m)),), lambda i: o.at((c.mod(i[0], m),)), o.kind)


# ---------------------------------------------------------------------------------------------
# elementwise
# ---------------------------------------------------------------------------------------------
def _rk(f, ka, kb, force):
    if force:
        return force
    if f in (c.bitand, c.bitor, c.bitxor) and ka == 'b' and kb == 'b':
        return 'b'
    if f is c.truediv:
        return 'f'
    if f in (c.maxv, c.minv):
        return c.joink(ka, kb)
    return c.joink(c.joink(ka, kb), 'i')


def _weak(x):
    """python scalars do not promote int arrays to float unless they are floats: same as kind join"""
    return c.kind_of(x)


def binop(f, a, b, force=None):
    a = A(a)
    b = A(b)
    k = _rk(f, a.kind, b.kind, force)
    if isinstance(a, CArr) and isinstance(b, CArr):
        # division by zero inside numpy arrays is not an exception
        try:
            bc = _np.broadcast(a.o, b.o)
        except ValueError:
            raise ValueError('operands could not be broadcast together')
        out = _np.empty(bc.shape, dtype=object)
        of = out.reshape(-1) if out.ndim else None
        if out.ndim == 0:
            v = f(a.o[()], b.o[()])
            return c.coerce(v, k) if k != 'f' or not isinstance(v, S) else v
        for n, (x, y) in enumerate(bc):
            of[n] = _ck(f(x, y), k)
        return CArr(out, k)
    a, b = a.freeze(), b.freeze()
    shp = bshape(a.shape, b.shape)
    return SArr(shp, lambda i: _ck(f(a.at(bidx(i, a)), b.at(bidx(i, b))), k), k)


def _ck(v, k):
    if isinstance(v, S):
        if v.k == k:
            return v
        return c.coerce(v, k)
    if k == 'f' and isinstance(v, int):
        return float(v) if abs(v) < 2 ** 53 else v
    return v


def unop(f, a, force=None):
    a = A(a)
    k = force or (a.kind if f not in (c.neg,) else c.joink(a.kind, 'i'))
    if isinstance(a, CArr):
        if a.o.ndim == 0:
            return _ck(f(a.o[()]), k)
        out = _np.empty(a.o.shape, dtype=object)
        of = out.reshape(-1)
        for n, x in enumerate(a.o.flat):
            of[n] = _ck(f(x), k)
        return CArr(out, k)
    a = a.freeze()
    return SArr(a.shape, lambda i: _ck(f(a.at(i)), k), k)


def where(cond, x, y):
    cond, x, y = A(cond).freeze(), A(x).freeze(), A(y).freeze()
    k = c.joink(x.kind, y.kind)
    shp = bshape(cond.shape, x.shape, y.shape)
    g = lambda i: _ck(ite(c.coerce(cond.at(bidx(i, cond)), 'b'), _ck(x.at(bidx(i, x)), k), _ck(y.at(bidx(i, y)), k)), k)
    return build(shp, g, k)


def build(shape, get, kind):
    """array from an index function (concrete when the shape is)"""
    shape = tuple(sdim(d) for d in shape)
    if all(is_c(d) for d in shape):
        o = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            o[i] = get(i)
        if not shape:
            return o[()]
        return CArr(o, kind)
    return SArr(shape, get, kind)


# ---------------------------------------------------------------------------------------------
# indexing
# ---------------------------------------------------------------------------------------------
def norm_index(i, n):
    """scalar index -> in-range index (forks to IndexError)"""
    ctx = c.CTX
    if isinstance(i, CArr):
        i = i.as_scalar()
    if isinstance(i, MaskDim):
        i = S(i.t, 'i')
    if not isinstance(i, S):
        i = int(py(i))
        if not isinstance(n, S):
            if not -n <= i < n:
                raise IndexError('index %d is out of bounds for axis with size %d' % (i, n))
            return i + n if i < 0 else i
        if ctx.spec_mode:
            return c.add(i, n) if i < 0 else i
        bad = c.lt(n, -i) if i < 0 else c.le(n, i)
        if ctx.branch(c.boolt(bad)):
            raise IndexError('index out of bounds')
        return c.add(n, i) if i < 0 else i
    if i.k == 'f':
        raise IndexError('only integers are valid indices')
    if ctx.spec_mode:
        return i
    if ctx.branch(c.boolt(c.lt(i, 0))):
        i = c.add(i, n)
        if ctx.branch(c.boolt(c.lt(i, 0))):
            raise IndexError('index out of bounds')
        return i
    if ctx.branch(c.boolt(c.ge(i, n))):
        raise IndexError('index out of bounds')
    return i


def _clampk(v, lo, hi):
    """clamp v into [lo, hi] using what the path condition knows"""
    ctx = c.CTX
    if ctx.known(c.boolt(c.lt(v, lo))):
        return lo
    if ctx.known(c.boolt(c.gt(v, hi))):
        return hi
    r = v
    if not ctx.known(c.boolt(c.ge(v, lo))):
        r = ite(c.lt(v, lo), lo, r)
    if not ctx.known(c.boolt(c.le(v, hi))):
        r = ite(c.gt(v, hi), hi, r)
    return r


def norm_slice(s, n):
    """-> (start, step, length) with python slice semantics"""
    ctx = c.CTX
    def nz(x):
        if isinstance(x, CArr):
            x = x.as_scalar()
        if isinstance(x, MaskDim):
            x = S(x.t, 'i')
        if isinstance(x, S):
            if x.k == 'f':
                raise TypeError('slice indices must be integers or None or have an __index__ method')
            return x
        if x is None:
            return None
        p = py(x)
        if isinstance(p, float):
            raise TypeError('slice indices must be integers or None or have an __index__ method')
        return int(p)
    start, stop, step = nz(s.start), nz(s.stop), nz(s.step)
    if step is None:
        step = 1
    if isinstance(step, S):
        v = ctx.value_of(step)
        if v is None:
            if not ctx.branch(c.boolt(c.gt(step, 0))):
                raise Unsupported('symbolic negative slice step')
        else:
            step = int(v)
    if not any(isinstance(x, S) for x in (start, stop, n, step)):
        a, b, st = slice(start, stop, step).indices(int(n))
        return a, st, len(range(a, b, st))
    pos = isinstance(step, S) or step > 0
    if not pos:
        # negative step: bounds default to n-1 .. -1
        if start is None:
            a = c.sub(n, 1)
        else:
            a = _negadj(start, n)
            a = _clampk(a, -1, c.sub(n, 1))
        if stop is None:
            b = -1
        else:
            b = _negadj(stop, n)
            b = _clampk(b, -1, c.sub(n, 1))
        d = c.sub(a, b)
        st = -step
        ln = d if st == 1 else c.floordiv(c.add(d, st - 1), st)
        ln = _clampk(ln, 0, n)
        return a, step, sdim(ln)
    a = 0 if start is None else _clampk(_negadj(start, n), 0, n)
    b = n if stop is None else _clampk(_negadj(stop, n), 0, n)
    d = c.sub(b, a)
    if isinstance(step, S) or step != 1:
        d = c.floordiv(c.add(d, c.sub(step, 1)), step)
    if not ctx.known(c.boolt(c.ge(d, 0))):
        d = ite(c.lt(d, 0), 0, d)
    return a, step, sdim(d)


def _negadj(v, n):
    ctx = c.CTX
    if not isinstance(v, S):
        return c.add(v, n) if v < 0 else v
    if ctx.known(c.boolt(c.ge(v, 0))):
        return v
    if ctx.known(c.boolt(c.lt(v, 0))):
        return c.add(v, n)
    return ite(c.lt(v, 0), c.add(v, n), v)


def parse_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    nreal = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Arr) and k.kind == 'b' and k.ndim >= 1:
            nreal += k.ndim
        else:
            nreal += 1
    seen = False
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (ndim - nreal)
            seen = True
        else:
            out.append(k)
    if not seen:
        out += [slice(None)] * (ndim - nreal)
    if nreal > ndim:
        raise IndexError('too many indices for array: array is %d-dimensional, but %d were indexed' % (ndim, nreal))
    res = []
    for k in out:
        if isinstance(k, (list, range)) or isinstance(k, _np.ndarray):
            k = A(k)
        if isinstance(k, tuple):
            k = A(list(k))
        if isinstance(k, CArr) and k.o.ndim == 0:
            k = k.o[()]
        if isinstance(k, (bool, _np.bool_)):
            raise Unsupported('boolean scalar index')
        if isinstance(k, (float, _np.floating)):
            raise IndexError('only integers, slices (`:`), ellipsis, None and integer or boolean arrays are valid indices')
        if isinstance(k, Arr) and k.kind == 'f' and not (isinstance(k, CArr) and k.o.size == 0):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        res.append(k)
    return res


def _conc_key(k):
    """concrete numpy key for a CArr index, or None"""
    if isinstance(k, CArr):
        r = k.concrete()
        if r is None and k.kind == 'b' and k.o.size <= c.CTX.split_masks:
            # case split on every element of a short mask
            r = _np.zeros(k.o.shape, dtype=bool)
            for i in _np.ndindex(*k.o.shape):
                v = k.o[i]
                r[i] = c.CTX.branch(c.boolt(v)) if isinstance(v, S) else bool(v)
        if r is None:
            return None
        if r.size == 0 and r.dtype.kind == 'f':
            r = r.astype(int)
        return r
    if isinstance(k, slice):
        vals = []
        for x in (k.start, k.stop, k.step):
            if isinstance(x, CArr):
                x = x.as_scalar()
            if isinstance(x, S):
                x2 = c.CTX.value_of(x)
                if x2 is None:
                    return None
                x = int(x2)
            if isinstance(x, (float, _np.floating)):
                raise TypeError('slice indices must be integers or None or have an __index__ method')
            vals.append(x)
        return slice(*vals)
    if isinstance(k, S) or isinstance(k, SArr):
        return None
    return k


def c_getitem(self, key):
    ks = parse_key(key, self.o.ndim)
    cks = [_conc_key(k) for k in ks]
    if all(not (x is None and k is not None) for x, k in zip(cks, ks)):
        r = self.o[tuple(cks)]
        if isinstance(r, _np.ndarray):
            return CArr(r, self.kind)
        return sc(r, self.kind)
    # scalar symbolic indices only -> select
    if all(k is None or isinstance(k, (S, int, _np.integer)) or isinstance(k, slice) for k in ks) and \
            all(cks[i] is not None for i, k in enumerate(ks) if isinstance(k, slice)):
        ax = 0
        nk = []
        for k in ks:
            if k is None:
                nk.append(None)
                continue
            if isinstance(k, S):
                k = norm_index(k, self.o.shape[ax])
            nk.append(k)
            ax += 1
        symax = [i for i, k in enumerate(nk) if isinstance(k, S)]
        if any(k is None for k in nk):
            raise Unsupported('newaxis with symbolic index')
        cs = [slice(None) if isinstance(k, S) else (cks[i] if isinstance(k, slice) else k) for i, k in enumerate(nk)]
        # keep integer axes as length-1 slices so that axes stay aligned
        cs2 = [x if isinstance(x, slice) else slice(x, x + 1) if x != -1 else slice(-1, None) for x in cs]
        sub = self.o[tuple(cs2)]
        keep = [i for i, k in enumerate(nk) if isinstance(k, slice)]
        shp = tuple(sub.shape[i] for i in keep)
        def get(idx):
            full = []
            it = iter(idx)
            for i, k in enumerate(nk):
                full.append(next(it) if isinstance(k, slice) else (k if isinstance(k, S) else 0))
            return select(sub, full)
        return build(shp, get, self.kind)
    # boolean masks with symbolic elements, symbolic-size index arrays, symbolic slices
    return s_getitem(as_sarr(self), key)


def as_sarr(a):
    """closure view of a CArr (reads the live object array; writes go back to it)"""
    s = SArr(a.o.shape, None, a.kind, store=_CStore(a))
    return s


class _CStore(Store):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a
        self.shape = a.o.shape
        self.cache = {}
        self.ver = 0
        self.name = None
        self.get = lambda idx: a.at(idx)

    def read(self, idx):
        return self.get(idx)

    def write(self, get):
        o = self.a.o
        new = _np.empty(o.shape, dtype=object)
        for i in _np.ndindex(*o.shape):
            new[i] = get(i)
        o[...] = new
        self.get = lambda idx: self.a.at(idx)


def c_setitem(self, key, val):
    ks = parse_key(key, self.o.ndim)
    cks = [_conc_key(k) for k in ks]
    v = A(val)
    if all(not (x is None and k is not None) for x, k in zip(cks, ks)):
        tgt = self.o[tuple(cks)]
        if isinstance(v, CArr):
            vo = v.o
            if isinstance(tgt, _np.ndarray):
                if not _np.shares_memory(tgt, self.o) and vo.ndim == 0:
                    self.o[tuple(cks)] = c.coerce(vo[()], self.kind) if self.kind != 'f' else _ck(vo[()], 'f')
                    return
                if vo.ndim == 0:
                    tgt[...] = _ck(c.coerce(vo[()], self.kind), self.kind)
                    return
                vv = _np.empty(vo.shape, dtype=object)
                for i in _np.ndindex(*vo.shape):
                    vv[i] = _ck(c.coerce(vo[i], self.kind), self.kind)
                self.o[tuple(cks)] = vv
                return
            if vo.size != 1:
                raise ValueError('setting an array element with a sequence.')
            if vo.ndim > 0:
                # numpy 2: deprecated but allowed
                pass
            self.o[tuple(cks)] = _ck(c.coerce(vo.reshape(-1)[0], self.kind), self.kind)
            return
        # symbolic-size value into concrete region: shapes must agree
        if isinstance(tgt, _np.ndarray):
            shp = bshape(tgt.shape, v.shape)
            vf = v.freeze()
            r = build(tgt.shape, lambda i: _ck(c.coerce(vf.at(bidx(i, vf)), self.kind), self.kind), self.kind)
            self.o[tuple(cks)] = r.o
            return
        raise Unsupported('symbolic-size value assigned to an element')
    s_setitem(as_sarr(self), key, val)


def s_getitem(self, key):
    # boolean scalar-array expression etc.
    ks = parse_key(key, len(self.shape))
    adv = [i for i, k in enumerate(ks) if isinstance(k, Arr)]
    if adv:
        return adv_getitem(self, ks, adv)
    return basic_view(self, ks, scalar=True)


def basic_view(self, ks, scalar=False):
    plan = []   # per source axis: ('i', index) | ('s', start, step, outaxis)
    shape = []
    ax = 0
    newax = []
    for k in ks:
        if k is None:
            newax.append(len(shape))
            shape.append(1)
            continue
        n = self.shape[ax]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                plan.append(('s', 0, 1, len(shape)))
                shape.append(n)
            else:
                if isinstance(n, MaskDim):
                    raise Unsupported('slicing a mask selection')
                a, st, ln = norm_slice(k, n)
                plan.append(('s', a, st, len(shape)))
                shape.append(ln)
        else:
            if isinstance(n, MaskDim):
                raise Unsupported('position in a mask selection')
            plan.append(('i', norm_index(k, n)))
        ax += 1

    def fwd(idx):
        out = []
        for p in plan:
            if p[0] == 'i':
                out.append(p[1])
            else:
                _, a, st, o = p
                i = idx[o]
                out.append(i if (is_c(a) and a == 0 and is_c(st) and st == 1) else c.add(a, i if is_c(st) and st == 1 else c.mul(i, st)))
        return tuple(out)

    def inv(b):
        conds = []
        idx = [0] * len(shape)
        for p, i in zip(plan, b):
            if p[0] == 'i':
                conds.append(c.eq(i, p[1]))
            else:
                _, a, st, o = p
                full = is_c(a) and a == 0 and is_c(st) and st == 1
                j = i if full else c.sub(i, a)
                if not (is_c(st) and st == 1):
                    if is_c(st) and st == -1:
                        j = c.neg(j)
                    else:
                        conds.append(c.eq(c.mod(j, st), 0))
                        j = c.floordiv(j, st)
                if not full or not dim_same(shape[o], None):
                    pass
                if not (full and shape[o] is not None and _same_dim_obj(shape[o], self.shape, plan, p)):
                    conds += [c.ge(j, 0), c.lt(j, shape[o])]
                idx[o] = j
        return (c.And(*conds) if conds else True), tuple(idx)

    if not shape and scalar:
        return self.at(fwd(()))
    v = self.view(tuple(shape), fwd, inv)
    return concretize(v)


def dim_same(a, b):
    return True


def _same_dim_obj(d, shape, plan, p):
    ax = plan.index(p)
    e = shape[ax]
    return d is e or (is_c(d) and is_c(e) and d == e) or (isinstance(d, S) and isinstance(e, S) and d.t.eq(e.t))


def concretize(v):
    """SArr whose view shape is concrete: keep as SArr view (aliasing) -- reads work on both"""
    return v


def adv_getitem(self, ks, adv):
    fself = self.freeze() if not isinstance(self.store, _CStore) else as_sarr(self.store.a.freeze())
    # ---- boolean masks
    if len(adv) == 1 and ks[adv[0]].kind == 'b':
        m = ks[adv[0]]
        ax = sum(1 for k in ks[:adv[0]] if k is not None)
        if m.ndim == 1:
            if not dim_eq(m.shape[0], self.shape[ax]):
                if not c.CTX.branch(c.boolt(c.eq(m.shape[0], self.shape[ax]))):
                    raise IndexError('boolean index did not match indexed array')
            if any(not (k is m or (isinstance(k, slice) and k == slice(None))) for k in ks):
                raise Unsupported('mask combined with other indices')
            d = mask_dim(m)
            shape = list(self.shape)
            shape[ax] = d
            return SArr(tuple(shape), lambda i: fself.at(i), self.kind)
        if m.ndim == len(self.shape):
            raise Unsupported('multi-dimensional mask selection')
        raise Unsupported('mask index')
    if any(ks[i].kind == 'b' for i in adv):
        raise Unsupported('mixed boolean index')
    arrs = [ks[i] for i in adv]
    # integers mixed with advanced indices act as advanced scalars
    bs = bshape(*[a.shape for a in arrs])
    # bounds
    axes = []
    ax = 0
    pos = []
    for k in ks:
        if k is None:
            pos.append(None)
            continue
        pos.append(ax)
        ax += 1
    frz = {}
    for i in adv:
        a = ks[i].freeze()
        n = self.shape[pos[i]]
        if isinstance(n, MaskDim):
            raise Unsupported('integer index into mask selection')
        require_all(a.shape, lambda idx, a=a, n=n: c.And(c.lt(a.at(idx), n), c.ge(a.at(idx), c.neg(n))),
                    IndexError('index out of bounds'))
        if c.CTX.spec_mode or forall_known(a.shape, lambda idx, a=a: c.ge(a.at(idx), 0)):
            frz[i] = a
        else:
            frz[i] = build(a.shape, lambda idx, a=a, n=n: ite(c.lt(a.at(idx), 0), c.add(a.at(idx), n), a.at(idx)), 'i')
    contiguous = all(isinstance(ks[i], (Arr, int, S, _np.integer)) for i in range(adv[0], adv[-1] + 1))
    scal_adv = [i for i, k in enumerate(ks) if isinstance(k, (int, S, _np.integer)) and not isinstance(k, Arr)]
    if scal_adv:
        lo, hi = min(adv + scal_adv), max(adv + scal_adv)
        contiguous = all(not (k is None or isinstance(k, slice)) for k in ks[lo:hi + 1])
    shape = []
    plan = []
    placed = False
    if not contiguous:
        shape += list(bs)
        placed = True
        advstart = 0
    for i, k in enumerate(ks):
        if k is None:
            shape.append(1)
        elif isinstance(k, slice):
            n = self.shape[pos[i]]
            if k == slice(None):
                plan.append(('s', 0, 1, len(shape)))
                shape.append(n)
            else:
                a, st, ln = norm_slice(k, n)
                plan.append(('s', a, st, len(shape)))
                shape.append(ln)
        elif isinstance(k, Arr):
            if not placed:
                advstart = len(shape)
                shape += list(bs)
                placed = True
            plan.append(('a', frz[i]))
        else:
            plan.append(('i', norm_index(k, self.shape[pos[i]])))
    nb = len(bs)

    def get(idx):
        bi = idx[advstart:advstart + nb]
        out = []
        for p in plan:
            if p[0] == 'i':
                out.append(p[1])
            elif p[0] == 'a':
                out.append(p[1].at(bidx(bi, p[1])))
            else:
                out.append(c.add(p[1], c.mul(idx[p[3]], p[2])))
        return fself.at(tuple(out))
    return build(tuple(shape), get, self.kind)


_MASKS = {}


def mask_dim(m):
    key = id(m)
    ctx = c.CTX
    store = ctx.sumkeys
    k = ('mask', key)
    if k in store:
        return store[k][0]
    d = MaskDim(m.freeze())
    store[k] = (d, m)
    return d


def s_setitem(self, key, val):
    ks = parse_key(key, len(self.shape))
    v = A(val).freeze()
    adv = [i for i, k in enumerate(ks) if isinstance(k, Arr)]
    kind = self.kind
    store = self.store
    f0, i0 = self.fwd, self.inv
    if self.fwd is not None and self.inv is None:
        raise Unsupported('write through a non-invertible view')
    old = store.get

    def commit(newat):
        """newat(idx) -> (cond, value) in self index space"""
        def get(b):
            if f0 is None:
                cond, val = newat(b)
            else:
                c1, x = i0(b)
                if not isinstance(c1, S) and not c1:
                    return old(b)
                cond, val = newat(x)
                cond = c.And(c1, cond)
            if not isinstance(cond, S):
                return _ck(c.coerce(val(), kind), kind) if cond else old(b)
            c.CTX.guards.append(c.boolt(cond))       # the value is only used where cond holds
            try:
                nv = _ck(c.coerce(val(), kind), kind)
            finally:
                c.CTX.guards.pop()
            return ite(cond, nv, old(b))
        store.write(get)

    if not adv:
        view = basic_view(SArr(self.shape, lambda i: 0, kind), ks)
        if isinstance(view, SArr):
            vshape, inv = view.shape, view.inv
        else:
            vshape = ()
            idx0 = None
        if not isinstance(view, SArr):
            # scalar position
            pos = []
            ax = 0
            for k in ks:
                if k is None:
                    continue
                pos.append(norm_index(k, self.shape[ax]))
                ax += 1
            vs = unwrap(v)
            if isinstance(vs, Arr):
                if all(is_c(d) for d in vs.shape) and int(_np.prod(vs.shape)) == 1:
                    vs = vs.at(tuple(0 for _ in vs.shape))
                else:
                    raise ValueError('setting an array element with a sequence.')
            commit(lambda x: (c.And(*[c.eq(i, p) for i, p in zip(x, pos)]), lambda: vs))
            return
        check_assign(vshape, v.shape)

        def newat(x):
            cond, vi = inv(x)
            return cond, (lambda: v.at(bidx2(vi, v)))
        commit(newat)
        return
    if len(adv) == 1 and ks[adv[0]].kind == 'b':
        m = ks[adv[0]].freeze()
        morig = ks[adv[0]]
        if m.ndim == len(self.shape) and len(ks) == 1:
            bshape(self.shape, m.shape)
            if v.ndim == 0:
                vs = v.at(())
                commit(lambda x: (c.coerce(m.at(x), 'b'), lambda: vs))
                return
            if m.ndim == 1 and v.ndim == 1:
                d = v.shape[0]
                md = mask_dim(morig)
                if isinstance(d, MaskDim) and d.same(md):
                    commit(lambda x: (c.coerce(m.at(x), 'b'), lambda: v.at(x)))
                    return
            raise Unsupported('masked assignment of an unrelated array')
        if m.ndim == 1:
            ax = adv[0]
            if any(i != ax and not (isinstance(k, slice) and k == slice(None)) for i, k in enumerate(ks)):
                # A[intarr, mask] = scalar : paired selection
                raise Unsupported('mask combined with other indices in assignment')
            if not dim_eq(m.shape[0], self.shape[ax]):
                raise IndexError('boolean index did not match')
            if v.ndim == 0:
                vs = v.at(())
                commit(lambda x: (c.coerce(m.at((x[ax],)), 'b'), lambda: vs))
                return
            md = mask_dim(morig)
            ts = list(self.shape)
            ts[ax] = md
            bs = bshape(tuple(ts), v.shape)
            commit(lambda x: (c.coerce(m.at((x[ax],)), 'b'), lambda: v.at(bidx2(x, v))))
            return
        raise Unsupported('mask assignment')
    # A[idx, mask] = scalar with idx along the same mask selection
    if len(adv) == 2 and len(ks) == 2 and ks[1].kind == 'b' and ks[0].kind == 'i' and v.ndim == 0:
        m = ks[1].freeze()
        md = mask_dim(ks[1])
        ia = ks[0].freeze()
        if ia.ndim == 1 and isinstance(ia.shape[0], MaskDim) and ia.shape[0].same(md):
            vs = v.at(())
            commit(lambda x: (c.And(c.coerce(m.at((x[1],)), 'b'), c.eq(ia.at((x[1],)), x[0])), lambda: vs))
            return
    # integer index arrays of concrete size: sequential writes
    arrs = [ks[i] for i in adv]
    bs = bshape(*[a.shape for a in arrs])
    if all(is_c(d) for d in bs) and all(k is not None for k in ks):
        nb = len(bs)
        n = 0
        rest_shape_checked = False
        import itertools
        for bi in itertools.product(*[range(d) for d in bs]):
            nk = []
            for k in ks:
                if isinstance(k, Arr):
                    nk.append(k.at(bidx(bi, k)))
                else:
                    nk.append(k)
            nslice = sum(1 for k in nk if isinstance(k, slice))
            if v.ndim == 0:
                s_setitem(self, tuple(nk), v.at(()))
            elif v.ndim <= nslice:
                s_setitem(self, tuple(nk), v)
            else:
                lead = v.ndim - nslice
                li = bi[len(bi) - lead:]
                li = tuple(0 if (is_c(d) and d == 1) else i for d, i in zip(v.shape[:lead], li))
                s_setitem(self, tuple(nk), v[li] if li else v)
        return
    # identity index (arange) along a symbolic axis
    if len(adv) == 1 and len(ks) == 1 and arrs[0].ndim == 1 and len(self.shape) == 1:
        ia = arrs[0].freeze()
        n = ia.shape[0]
        if forall_known((n,), lambda i: c.eq(ia.at(i), c.add(ia.at((0,)), i[0]))):
            base = ia.at((0,))
            vv = v
            commit(lambda x: (c.And(c.ge(c.sub(x[0], base), 0), c.lt(c.sub(x[0], base), n)),
                              lambda: vv.at(bidx2((c.sub(x[0], base),), vv))))
            return
    raise Unsupported('assignment through a symbolic-size index array')


def bidx2(idx, v):
    """broadcast index for assignment (v may have leading 1 dims)"""
    r = len(v.shape)
    if r > len(idx):
        idx = (0,) * (r - len(idx)) + tuple(idx)
    return bidx(tuple(idx), v)


def check_assign(target, vshape):
    vs = list(vshape)
    while len(vs) > len(target) and is_c(vs[0]) and vs[0] == 1:
        vs.pop(0)
    if len(vs) > len(target):
        raise ValueError('could not broadcast input array')
    for d, e in zip(target[len(target) - len(vs):], vs):
        if is_c(e) and e == 1:
            continue
        if dim_eq(d, e):
            continue
        if not c.CTX.branch(c.boolt(c.eq(d, e))):
            raise ValueError('could not broadcast input array from shape')


# ---------------------------------------------------------------------------------------------
# shape manipulation
# ---------------------------------------------------------------------------------------------
def ravel_idx(shape, idx):
    f = 0
    for d, i in zip(shape, idx):
        f = c.add(c.mul(f, d), i)
    if isinstance(f, S) and len(shape) > 1:
        c.CTX.sumkeys[('rv', f.t.get_id())] = (tuple(shape[1:]), tuple(idx), f)
    return f


def _dims_same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if is_c(x) and is_c(y):
            if x != y:
                return False
        elif isinstance(x, S) and isinstance(y, S):
            if not x.t.eq(y.t):
                return False
        else:
            return False
    return True


def unravel_idx(shape, f):
    if len(shape) == 1:
        return (f,)
    if isinstance(f, S):
        r = c.CTX.sumkeys.get(('rv', f.t.get_id()))
        if r is not None and _dims_same(r[0], shape[1:]):
            return r[1]
    out = []
    for d in reversed(shape[1:]):
        if is_c(d) and d == 1:
            out.append(0)
            continue
        out.append(c.mod(f, d))
        f = c.floordiv(f, d)
    out.append(f)
    return tuple(reversed(out))


def norm_shape(s):
    if isinstance(s, Arr):
        if isinstance(s, CArr):
            s = list(s.o.reshape(-1))
        else:
            raise Unsupported('symbolic-rank shape')
    if isinstance(s, (int, S, _np.integer)):
        s = [s]
    return [sdim(x) if isinstance(x, S) else (int(py(x)) if not isinstance(py(x), float) else _badshape()) for x in s]


def _badshape():
    raise TypeError("'float' object cannot be interpreted as an integer")


def reshape(a, s, order='C', **kw):
    if order not in ('C', None):
        raise Unsupported('reshape order')
    a = A(a)
    s = norm_shape(s)
    ctx = c.CTX
    if isinstance(a, CArr) and all(is_c(d) for d in s):
        return CArr(a.o.reshape(tuple(s)), a.kind)
    if any(isinstance(d, MaskDim) for d in a.shape):
        if len(a.shape) == 1 and len(s) == 1:
            return a
        raise Unsupported('reshape of a mask selection')
    tot = a.size
    unk = [i for i, d in enumerate(s) if is_c(d) and d == -1]
    if len(unk) > 1:
        raise ValueError('can only specify one unknown dimension')
    if unk:
        rest = [d for i, d in enumerate(s) if i != unk[0]]
        # cancel common factors
        src = list(a.shape)
        rr = []
        for d in rest:
            for j, e in enumerate(src):
                if (is_c(d) and is_c(e) and d == e) or (isinstance(d, S) and isinstance(e, S) and d.t.eq(e.t)):
                    src.pop(j)
                    break
            else:
                rr.append(d)
        num_, den = dim_prod(src), dim_prod(rr)
        if is_c(den) and den == 1:
            q = num_
        else:
            if is_c(den) and den == 0:
                raise ValueError('cannot reshape array of size into shape')
            if isinstance(den, S) and ctx.branch(c.boolt(c.eq(den, 0))):
                raise ValueError('cannot reshape array of size into shape')
            if not ctx.spec_mode and ctx.branch(c.boolt(c.ne(c.mod(num_, den), 0))):
                raise ValueError('cannot reshape array of size into shape')
            q = c.floordiv(num_, den)
        s[unk[0]] = sdim(q)
    else:
        p = dim_prod(s)
        if not dim_eq(p, tot):
            if not ctx.branch(c.boolt(c.eq(p, tot))):
                raise ValueError('cannot reshape array of size into shape')
    shape, src = tuple(s), a.shape
    if isinstance(a, CArr):
        fa = a
        return SArr(shape, None, a.kind, store=_CStore(a), fwd=lambda i: unravel_idx(src, ravel_idx(shape, i)),
                    inv=lambda b: (True, unravel_idx(shape, ravel_idx(src, b))))
    if _dims_same(shape, src):
        return a.view(shape, lambda i: i, lambda b: (True, b))
    return a.view(shape, lambda i: unravel_idx(src, ravel_idx(shape, i)),
                  lambda b: (True, unravel_idx(shape, ravel_idx(src, b))))


def transpose(a, axes=None):
    a = A(a)
    n = len(a.shape)
    if axes is None or axes == ():
        axes = tuple(reversed(range(n)))
    elif len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = tuple(axes[0])
    if isinstance(a, CArr):
        return CArr(a.o.transpose(axes), a.kind)
    axes = tuple(x % n for x in axes)
    invp = [axes.index(i) for i in range(n)]
    return a.view(tuple(a.shape[x] for x in axes), lambda i: tuple(i[invp[k]] for k in range(n)),
                  lambda b: (True, tuple(b[x] for x in axes)))


def squeeze(a, axis=None):
    a = A(a)
    if isinstance(a, CArr):
        return CArr(_np.squeeze(a.o, axis=axis), a.kind)
    drop = []
    for i, d in enumerate(a.shape):
        if axis is not None and i not in ([x % len(a.shape) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]):
            continue
        if is_c(d):
            if d == 1:
                drop.append(i)
            elif axis is not None:
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        else:
            if c.CTX.branch(c.boolt(c.eq(d, 1))):
                drop.append(i)
    keep = [i for i in range(len(a.shape)) if i not in drop]
    shp = tuple(a.shape[i] for i in keep)

    def fwd(idx):
        out = []
        it = iter(idx)
        for i in range(len(a.shape)):
            out.append(0 if i in drop else next(it))
        return tuple(out)
    v = a.view(shp, fwd, lambda b: (True, tuple(b[i] for i in keep)))
    return v


def flip(a, axis=None):
    a = A(a)
    if isinstance(a, CArr):
        return CArr(_np.flip(a.o, axis), a.kind)
    axes = range(len(a.shape)) if axis is None else ([axis] if not isinstance(axis, (tuple, list)) else axis)
    axes = [x % len(a.shape) for x in axes]
    key = tuple(slice(None, None, -1) if i in axes else slice(None) for i in range(len(a.shape)))
    return a[key]


def expand(a, axis):
    a = A(a)
    n = len(a.shape) + 1
    axis = axis % n
    key = [slice(None)] * len(a.shape)
    key.insert(axis, None)
    return a[tuple(key)]


def concatenate(parts, axis=0):
    ps = [A(p) for p in parts]
    if axis is None:
        ps = [reshape(p, (-1,)) for p in ps]
        axis = 0
    nd = len(ps[0].shape)
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if any(len(p.shape) != nd for p in ps):
        raise ValueError('all the input array dimensions must match')
    axis = axis % nd
    k = ps[0].kind
    for p in ps[1:]:
        k = c.joink(k, p.kind)
    if all(isinstance(p, CArr) for p in ps):
        try:
            o = _np.concatenate([p.o for p in ps], axis=axis)
        except ValueError as e:
            raise ValueError(str(e))
        for i, v in enumerate(o.flat):
            o.flat[i] = _ck(v, k)
        return CArr(o, k)
    shp = list(ps[0].shape)
    for p in ps[1:]:
        for i, (d, e) in enumerate(zip(shp, p.shape)):
            if i != axis and not dim_eq(d, e):
                if not c.CTX.branch(c.boolt(c.eq(d, e))):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    offs = [0]
    for p in ps:
        offs.append(c.add(offs[-1], p.shape[axis]))
    shp[axis] = sdim(offs[-1])
    fs = [p.freeze() for p in ps]
    live = [j for j, p in enumerate(ps) if not (is_c(p.shape[axis]) and p.shape[axis] == 0)]

    def get(idx):
        i = idx[axis]
        def val(j):
            x = list(idx)
            x[axis] = c.sub(i, offs[j])
            return fs[j].at(tuple(x))
        r = None
        for j in reversed(live):
            if r is None:
                if not isinstance(i, S) and is_c(offs[j]) and i < offs[j]:
                    continue
                r = val(j)
                continue
            cond = c.lt(i, offs[j + 1])
            if not isinstance(cond, S):
                if cond:
                    if not isinstance(i, S) and is_c(offs[j]) and i < offs[j]:
                        continue
                    r = val(j)
                continue
            r = ite(cond, _ck(val(j), k), _ck(r, k))
        return _ck(r, k)
    return build(tuple(shp), get, k)


def stack(parts, axis=0):
    ps = [A(p) for p in parts]
    return concatenate([expand(p, axis) for p in ps], axis)


def tile(a, reps):
    a = A(a)
    r = norm_shape(reps)
    nd = max(len(r), len(a.shape))
    r = [1] * (nd - len(r)) + r
    while len(a.shape) < nd:
        a = expand(a, 0)
    if isinstance(a, CArr) and all(is_c(x) for x in r):
        return CArr(_np.tile(a.o, r), a.kind)
    f = a.freeze()
    r = [x if is_c(x) or c.CTX.known(c.boolt(c.ge(x, 0))) else ite(c.lt(x, 0), 0, x) for x in r]
    shp = tuple(sdim(c.mul(d, x)) for d, x in zip(a.shape, r))
    src = a.shape

    def m(i, d, x):
        if is_c(x) and x == 1:
            return i
        if is_c(d) and d == 1:
            return 0
        if isinstance(d, S):
            # i - d*q with q = i div d
            return c.mod(i, d)
        return c.mod(i, d)
    return build(shp, lambda i: f.at(tuple(m(j, d, x) for j, d, x in zip(i, src, r))), a.kind)


def repeat(a, n, axis=None):
    a = A(a)
    if isinstance(n, Arr) or isinstance(n, (list, tuple)):
        n = A(n)
        if isinstance(n, CArr) and n.o.size == 1:
            n = n.as_scalar()
        else:
            raise Unsupported('repeat with counts')
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    axis = axis % len(a.shape)
    if isinstance(a, CArr) and is_c(n):
        return CArr(_np.repeat(a.o, int(py(n)), axis), a.kind)
    f = a.freeze()
    shp = list(a.shape)
    shp[axis] = sdim(c.mul(shp[axis], n))

    def get(idx):
        x = list(idx)
        x[axis] = c.floordiv(x[axis], n)
        return f.at(tuple(x))
    return build(tuple(shp), get, a.kind)


def roll(a, shift, axis=None):
    a = A(a)
    if axis is None:
        if a.ndim > 1:
            return reshape(roll(reshape(a, (-1,)), shift, 0), a.shape)
        axis = 0
    axis = axis % a.ndim
    f = a.freeze()
    n = a.shape[axis]

    def get(idx):
        x = list(idx)
        x[axis] = c.mod(c.sub(x[axis], shift), n)
        return f.at(tuple(x))
    return build(a.shape, get, a.kind)


# ---------------------------------------------------------------------------------------------
# reductions
# ---------------------------------------------------------------------------------------------
def _axes(a, axis):
    n = len(a.shape)
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, list)):
        return [x % n for x in axis]
    ax = int(axis)
    if not -n <= ax < n:
        raise ValueError('axis %d is out of bounds for array of dimension %d' % (ax, n))
    return [ax % n]


def _reduce(a, axis, conc, symb, kind, keepdims=False):
    """conc(list of values) for concrete reduced axes; symb(dim, fn(k)) for one symbolic reduced axis"""
    a = A(a).freeze()
    ax = _axes(a, axis)
    rest = [i for i in range(len(a.shape)) if i not in ax]
    import itertools

    def get(idx):
        def rd(vals):
            full = [None] * len(a.shape)
            for i, v in zip(rest, idx):
                full[i] = v
            for i, v in zip(ax, vals):
                full[i] = v
            return a.at(tuple(full))
        sym = [i for i in ax if isinstance(a.shape[i], S)]
        if not sym:
            return conc([rd(v) for v in itertools.product(*[range(a.shape[i]) for i in ax])])
        if len(sym) == 1:
            if any(isinstance(a.shape[i], MaskDim) for i in sym):
                raise Unsupported('reduction along a mask selection')
            con = [i for i in ax if i not in sym]
            combos = list(itertools.product(*[range(a.shape[i]) for i in con]))

            def body(k):
                out = []
                for cb in combos:
                    vals = []
                    it = iter(cb)
                    for i in ax:
                        vals.append(k if i in sym else next(it))
                    out.append(rd(vals))
                return out
            return symb(a.shape[sym[0]], body)
        # several symbolic axes: flatten
        fl = reshape(a, (-1,))
        if len(ax) != len(a.shape):
            raise Unsupported('reduction over several symbolic axes')
        return symb(fl.shape[0], lambda k: [fl.at((k,))])
    shp = tuple(a.shape[i] for i in rest)
    r = build(shp, get, kind) if shp else get(())
    if keepdims:
        raise Unsupported('keepdims')
    return r


def reduce_sum(a, axis=None, keepdims=False, dtype=None):
    a = A(a)
    k = c.joink(a.kind, 'i')

    def conc(vs):
        r = 0.0 if k == 'f' else 0
        for v in vs:
            r = c.add(r, c.coerce(v, k) if c.kind_of(v) == 'b' else v)
        return _ck(r, k)

    def symb(n, body):
        return c.CTX.sum_term(n, lambda q: conc(body(q)), k)
    r = _reduce(a, axis, conc, symb, k)
    if keepdims:
        return expand(r, axis)
    return r


def mean(a, axis=None):
    a = A(a)
    ax = _axes(a, axis)
    n = dim_prod([a.shape[i] for i in ax])
    s = reduce_sum(a, axis)
    if isinstance(s, Arr):
        return binop(c.truediv, s, n, 'f')
    return c.truediv(s, n)


def var(a, axis=None, ddof=0):
    a = A(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported('var along an axis')
    m = mean(a)
    d = binop(c.sub, a, m)
    return c.truediv(reduce_sum(binop(c.mul, d, d)), c.sub(a.size, ddof))


def reduce_fold(a, axis, f, unit):
    a = A(a)

    def conc(vs):
        r = unit
        for v in vs:
            r = f(r, v)
        return r

    def symb(n, body):
        raise Unsupported('fold over a symbolic axis')
    return _reduce(a, axis, conc, symb, c.joink(a.kind, 'i'))


def reduce_minmax(a, axis, mx):
    a = A(a)

    def conc(vs):
        if not vs:
            raise ValueError('zero-size array to reduction operation which has no identity')
        r = vs[0]
        for v in vs[1:]:
            r = (c.maxv if mx else c.minv)(r, v)
        return r

    def symb(n, body):
        ctx = c.CTX
        if ctx.branch(c.boolt(c.le(n, 0))):
            raise ValueError('zero-size array to reduction operation which has no identity')
        bv = body(S(z3.Int('bv!'), 'i'))
        srt = 'f' if any(c.num(v)[0].sort() == z3.RealSort() for v in bv) else 'i'
        m = S(ctx.fresh('ext', srt), a.kind)
        op = c.ge if mx else c.le
        ctx.add_forall(lambda k: c.Or(c.lt(k, 0), c.ge(k, n), c.And(*[op(m, v) for v in body(k)])))
        w = S(ctx.fresh('w'), 'i')
        ctx.assume(c.And(c.ge(w, 0), c.lt(w, n), c.Or(*[c.eq(m, v) for v in body(w)])))
        ctx.trigger(w)
        return m
    return _reduce(a, axis, conc, symb, a.kind)


def argext(a, axis, mx):
    a = A(a)

    def conc(vs):
        if not vs:
            raise ValueError('attempt to get argmin of an empty sequence')
        best, bi = vs[0], 0
        for j, v in enumerate(vs[1:], 1):
            cond = c.gt(v, best) if mx else c.lt(v, best)
            bi = ite(cond, j, bi)
            best = ite(cond, v, best)
        return bi

    def symb(n, body):
        ctx = c.CTX
        if ctx.branch(c.boolt(c.le(n, 0))):
            raise ValueError('attempt to get argmin of an empty sequence')
        i = S(ctx.fresh('arg'), 'i')
        ctx.assume(c.And(c.ge(i, 0), c.lt(i, n)))
        ctx.args.append(i)
        best = body(i)
        if len(best) != 1:
            raise Unsupported('argmin over mixed axes')
        best = best[0]
        ge_, gt_ = (c.ge, c.gt) if mx else (c.le, c.lt)
        ctx.add_forall(lambda k: c.Or(c.lt(k, 0), c.ge(k, n),
                                      c.And(ge_(best, body(k)[0]), c.Or(c.ge(k, i), gt_(best, body(k)[0])))))
        ctx.trigger(i)
        return i
    return _reduce(a, axis, conc, symb, 'i')


def reduce_all(a, axis=None):
    a = A(a)
    conc = lambda vs: c.And(*[c.coerce(v, 'b') for v in vs]) if vs else True
    if axis is None and any(isinstance(d, S) for d in a.shape):
        f = a.freeze()
        return all_term(a.shape, lambda i: c.coerce(f.at(i), 'b'))
    return _reduce(a, axis, conc, lambda n, body: all_term((n,), lambda i: c.And(*[c.coerce(v, 'b') for v in body(i[0])])), 'b')


def reduce_any(a, axis=None):
    a = A(a)
    if axis is None and any(isinstance(d, S) for d in a.shape):
        f = a.freeze()
        return c.Not(all_term(a.shape, lambda i: c.Not(c.coerce(f.at(i), 'b'))))
    conc = lambda vs: c.Or(*[c.coerce(v, 'b') for v in vs]) if vs else False
    return _reduce(a, axis, conc, lambda n, body: c.Not(all_term((n,), lambda i: c.Not(c.Or(*[c.coerce(v, 'b') for v in body(i[0])])))), 'b')


def recurrence(x, b, a, zi, n, kind, tag='lfilter'):
    """y[k] = (sum b_i x[k-i] - sum_j a_j y[k-j]) / a0 + (k < len(zi) ? zi[k]/.. : 0), x[k]=0 for k<0"""
    ctx = c.CTX
    xf = x.freeze()

    def xat(k):
        if not isinstance(k, S):
            return xf.at((k,)) if k >= 0 else 0
        return ite(c.ge(k, 0), xf.at((k,)), 0)
    # share the symbol between identical recurrences
    bv = S(z3.Int('bv!'), 'i')
    old = ctx.spec_mode
    ctx.spec_mode = True
    try:
        xt = c.num(xf.at((bv,)))[0]
    finally:
        ctx.spec_mode = old
    co = tuple(c.num(v)[0].get_id() for v in list(b) + list(a) + list(zi or []))
    key = ('rec', len(b), len(a), xt.get_id(), co)
    intv = xt.sort() == z3.IntSort() and all(c.num(v)[0].sort() == z3.IntSort() for v in list(b) + list(a) + list(zi or [])) \
        and c.is_const(a[0], 1)

    def make():
        f = ctx.freshfn('rec', 'i' if intv else 'f')
        done = {}

        def at(k):
            kt = c.num(k)[0]
            y = S(f(kt), kind)
            if kt.get_id() not in done:
                done[kt.get_id()] = kt
                rhs = 0.0
                for i, bi in enumerate(b):
                    rhs = c.add(rhs, c.mul(bi, xat(c.sub(k, i))))
                for j, aj in enumerate(a):
                    if j == 0:
                        continue
                    kj = c.sub(k, j)
                    yj = S(f(c.num(kj)[0]), kind)
                    rhs = c.sub(rhs, c.mul(aj, ite(c.ge(kj, 0), yj, 0.0)))
                if zi:
                    for m, z in enumerate(zi):
                        rhs = c.add(rhs, ite(c.eq(k, m), z, 0.0))
                if c.is_const(a[0], 1):
                    ctx.assume(z3.Implies(kt >= 0, y.t == c.num(rhs)[0]))
                else:
                    ctx.assume(z3.Implies(kt >= 0, c.num(c.mul(a[0], y))[0] == c.num(rhs)[0]))
            return y
        ctx.recs.append((at, lambda k: xat(k), co))
        return (at, (xt, list(b), list(a), list(zi or [])))
    return ctx.rec_term(key, make)[0]


def cumsum(a, axis=None):
    a = A(a)
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    axis = axis % a.ndim
    k = c.joink(a.kind, 'i')
    n = a.shape[axis]
    f = a.freeze()
    if is_c(n):
        def get(idx):
            i = idx[axis]
            if isinstance(i, S):
                raise Unsupported('cumsum at a symbolic position')
            r = 0
            for j in range(i + 1):
                x = list(idx)
                x[axis] = j
                r = c.add(r, f.at(tuple(x)))
            return _ck(r, k)
        return build(a.shape, get, k)
    if a.ndim != 1:
        raise Unsupported('cumsum of a matrix along a symbolic axis')
    c.CTX.assumed.add('numpy.cumsum')
    y = recurrence(unop(lambda v: c.coerce(v, k), a, k), [1], [1, -1], None, n, k)
    return SArr(a.shape, lambda i: y(i[0]), k)


def dot(a, b):
    a, b = A(a), A(b)
    k = c.joink(c.joink(a.kind, b.kind), 'i')
    if a.ndim == 0 or b.ndim == 0:
        return binop(c.mul, a, b)
    n = a.shape[-1]
    m = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if not dim_eq(n, m):
        if not c.CTX.branch(c.boolt(c.eq(n, m))):
            raise ValueError('shapes not aligned')
    if isinstance(n, S) and is_c(m):
        n = m
    fa, fb = a.freeze(), b.freeze()
    ra = len(a.shape) - 1

    def get(idx):
        ia, ib = idx[:ra], idx[ra:]

        def term(q):
            bi = ib[:-1] + (q,) + ib[-1:] if b.ndim > 1 else (q,)
            return c.mul(fa.at(tuple(ia) + (q,)), fb.at(tuple(bi)))
        if is_c(n):
            r = 0.0 if k == 'f' else 0
            for q in range(n):
                r = c.add(r, term(q))
            return _ck(r, k)
        return c.CTX.sum_term(n, term, k)
    bs = (b.shape[:-2] + b.shape[-1:]) if b.ndim > 1 else ()
    shp = tuple(a.shape[:-1]) + tuple(bs)
    if not shp:
        return get(())
    return build(shp, get, k)


def diff(a, n=1, axis=-1):
    a = A(a)
    if n != 1:
        raise Unsupported('diff order')
    axis = axis % a.ndim
    hi = [slice(None)] * a.ndim
    lo = [slice(None)] * a.ndim
    hi[axis] = slice(1, None)
    lo[axis] = slice(None, -1)
    return binop(c.sub, a[tuple(hi)], a[tuple(lo)])


def unique(a):
    a = A(a)
    if a.concrete() is not None:
        return A(_np.unique(a.concrete()))
    ctx = c.CTX
    ctx.assumed.add('numpy.unique')
    x = reshape(a, (-1,)).freeze()
    n = x.shape[0]
    u = S(ctx.fresh('nuniq'), 'i')
    bv = c.num(x.at((S(z3.Int('bv!'), 'i'),)))[0] if (isinstance(n, S)) else None
    if bv is None:
        isreal = any(c.num(v)[0].sort() == z3.RealSort() for v in x.o)
    else:
        isreal = bv.sort() == z3.RealSort()
    U = ctx.freshfn('uniq', 'f' if isreal else 'i')
    p = ctx.freshfn('upos')
    q = ctx.freshfn('usrc')
    nt = c.num(n)[0]
    ctx.assume(z3.And(u.t >= 0, u.t <= nt, z3.Implies(nt >= 1, u.t >= 1)))
    acc = {}

    def touch(it):
        if it.get_id() in acc:
            return
        for jt in list(acc.values()):
            rng = z3.And(it >= 0, jt >= 0, it < u.t, jt < u.t)
            ctx.assume(z3.Implies(z3.And(rng, it < jt), U(it) < U(jt)))
            ctx.assume(z3.Implies(z3.And(rng, jt < it), U(jt) < U(it)))
        acc[it.get_id()] = it
        src = q(it)
        v = c.num(x.at((S(src, 'i'),)))[0]
        ctx.assume(z3.Implies(z3.And(it >= 0, it < u.t), z3.And(src >= 0, src < nt, v == U(it))))

    def get(idx):
        it = c.num(idx[0])[0]
        touch(it)
        return S(U(it), a.kind)
    for j in range(3):
        touch(z3.IntVal(j))
        ctx.trigger(S(z3.IntVal(j), 'i'))

    def fact(k):
        kt = c.num(k)[0]
        touch(p(kt))
        return z3.Implies(z3.And(kt >= 0, kt < nt),
                          z3.And(p(kt) >= 0, p(kt) < u.t, U(p(kt)) == c.num(x.at((k,)))[0]))
    if is_c(n):
        for j in range(n):
            ctx.assume(fact(j))
    else:
        ctx.add_forall(fact)
    return SArr((u,), get, a.kind)


def input_array(name, shape, kind, lo=None, hi=None):
    """fresh symbolic array; element bounds are preconditions"""
    ctx = c.CTX
    shape = tuple(sdim(d) for d in shape)
    srt = {'i': 'i', 'f': 'f', 'b': 'b'}[kind]
    f = z3.Function(name, *([z3.IntSort()] * max(1, len(shape)) + [{'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}[srt]]))

    def get(idx):
        t = f(*[c.num(i)[0] for i in idx])
        if lo is not None:
            ctx.assume(t >= lo if not isinstance(lo, float) else t >= z3.RealVal(str(c.frac(lo))))
        if hi is not None:
            ctx.assume(t <= hi if not isinstance(hi, float) else t <= z3.RealVal(str(c.frac(hi))))
        return S(t, kind)
    if all(is_c(d) for d in shape):
        a = build(shape, get, kind)
        return a
    return SArr(shape, get, kind, name=name)
