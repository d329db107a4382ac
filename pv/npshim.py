"""Stand-ins for numpy / scipy / math used when the repository's code runs on symbolic values.

A call whose arguments are all concrete goes to the real library (so the stand-in has nothing to
say about it); a call on symbolic values uses the element-wise definitions below, which are the
assumed contracts on the numerical libraries."""
import types
import collections as _collections
import math as _math
import numpy as _np
import z3
from . import core as c
from . import arr
from .arr import Arr, CArr, SArr, A, KindTag, build, is_c
from .core import S, Unsupported, ite, py


class NotConcrete(Exception):
    pass


def toreal(x):
    """real numpy/python object for a concrete value"""
    if isinstance(x, S):
        raise NotConcrete
    if isinstance(x, CArr):
        r = x.concrete()
        if r is None:
            raise NotConcrete
        return r
    if isinstance(x, Arr):
        raise NotConcrete
    if isinstance(x, list):
        return [toreal(e) for e in x]
    if isinstance(x, tuple):
        return tuple(toreal(e) for e in x)
    if isinstance(x, dict):
        return {k: toreal(v) for k, v in x.items()}
    if isinstance(x, _collections.deque):
        return [toreal(e) for e in x]
    if isinstance(x, slice):
        return slice(toreal(x.start), toreal(x.stop), toreal(x.step))
    if isinstance(x, KindTag):
        return arr.NPD[x.kind]
    if isinstance(x, type) and issubclass(x, (ShimInt, ShimFloat, ShimBool)):
        return x.dtype
    return x


def fromreal(x):
    if isinstance(x, _np.ndarray):
        if x.dtype.kind in 'iufb':
            return CArr(arr.obj(x), arr.dtkind(x.dtype))
        raise Unsupported('array of dtype %s' % x.dtype)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(fromreal(e) for e in x)
    if isinstance(x, list):
        return [fromreal(e) for e in x]
    return x


def concrete_call(f, a, k):
    a2 = [toreal(x) for x in a]
    k2 = {n: toreal(v) for n, v in k.items()}
    with _np.errstate(all='ignore'):
        return fromreal(f(*a2, **k2))


# ---- types visible to the code ------------------------------------------------------------------
class _M(type):
    def __instancecheck__(cls, x):
        return _isinst(x, cls)

    def __eq__(cls, o):
        return cls is o or o is getattr(cls, 'real', None)

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return id(cls)


def _isinst(x, cls):
    if issubclass(cls, ShimInt):
        if isinstance(x, S):
            return x.k == 'i'
        return isinstance(x, int)
    if issubclass(cls, ShimFloat):
        if isinstance(x, S):
            return x.k == 'f'
        return isinstance(x, float)
    if issubclass(cls, ShimBool):
        if isinstance(x, S):
            return x.k == 'b'
        return isinstance(x, (bool, _np.bool_))
    return False


def _scalar(x):
    if isinstance(x, Arr):
        if x.ndim and not (all(is_c(d) for d in x.shape) and int(_np.prod(x.shape)) == 1):
            if any(isinstance(d, S) for d in x.shape):
                raise Unsupported('scalar conversion of symbolic-size array')
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return x.as_scalar()
    return x


class ShimInt(int, metaclass=_M):
    dtype = _np.dtype('int64')
    real = int

    def __new__(cls, x=0, *a):
        x = _scalar(x)
        if isinstance(x, S):
            return c.coerce(x, 'i')
        return int(py(x), *a) if a else int(py(x))


class ShimFloat(float, metaclass=_M):
    dtype = _np.dtype('float64')
    real = float

    def __new__(cls, x=0.0):
        x = _scalar(x)
        if isinstance(x, S):
            return c.coerce(x, 'f')
        return float(py(x))


class ShimBool(metaclass=_M):
    dtype = _np.dtype('bool')
    real = bool

    def __new__(cls, x=False):
        if isinstance(x, S):
            return c.coerce(x, 'b')
        return bool(x)


KTYPE = {'i': ShimInt, 'f': ShimFloat, 'b': ShimBool}


def shim_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, S):
        return KTYPE[x.k]
    if isinstance(x, Arr):
        return Arr
    if isinstance(x, bool):
        return ShimBool
    if type(x) is int or isinstance(x, _np.integer):
        return ShimInt
    if type(x) is float or isinstance(x, _np.floating):
        return ShimFloat
    return type(x)


# ---- element-wise functions -----------------------------------------------------------------------
def _u(f, kind=None):
    def g(x, *a, **k):
        arr.kwguard(k)
        if any(v is not None for v in a):
            raise Unsupported('positional arguments')
        if isinstance(x, S):
            r = f(x)
            return r
        if isinstance(x, Arr) or isinstance(x, (list, tuple)):
            x = A(x)
            return arr.unop(f, x, kind(x.kind) if callable(kind) else kind)
        return f(x)
    return g


def _b(f, force=None):
    def g(x, y, *a, **k):
        arr.kwguard(k)
        if any(v is not None for v in a):
            raise Unsupported('positional arguments')
        if not isinstance(x, (Arr, list, tuple)) and not isinstance(y, (Arr, list, tuple)):
            return f(x, y)
        return arr.binop(f, x, y, force)
    return g


def _un(name):
    def f(v):
        if not isinstance(v, S):
            with _np.errstate(all='ignore'):
                return float(getattr(_np, name)(v))
        c.CTX.assumed.add('numpy.' + name)
        return c.unint(name, v)
    return f


def _sqrt(v):
    if not isinstance(v, S):
        return float(_np.sqrt(v))
    return c.unint('sqrt', v)


def _sinc(v):
    """sinc at an integer is exact: 1 at 0; elsewhere an uninterpreted value"""
    if not isinstance(v, S):
        return float(_np.sinc(v))
    c.CTX.assumed.add('numpy.sinc')
    r = c.unint('sinc', v)
    t = c.num(v)[0]
    rt = c.num(r)[0]
    c.CTX.assume(z3.Implies(t == 0, rt == 1))
    if t.sort() == z3.IntSort():
        c.CTX.assume(z3.Implies(t != 0, rt == 0))
    else:
        c.CTX.assume(z3.Implies(z3.And(z3.IsInt(t), t != 0), rt == 0))
    return r


def _log10(v):
    return _un('log10')(v)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    arr.kwguard(k)
    def f(x, y):
        if not isinstance(x, S) and not isinstance(y, S):
            return bool(_np.isclose(x, y, rtol, atol))
        return c.le(c.absv(c.sub(x, y)), c.add(atol, c.mul(rtol, c.absv(y))))
    return _b(f, 'b')(a, b)


def log_b(f):
    return _b(lambda x, y: f(c.coerce(x, 'b'), c.coerce(y, 'b')), 'b')


# ---- creation ---------------------------------------------------------------------------------------
def _dt(dtype, default):
    return default if dtype is None else arr.dtkind(dtype)


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    arr.kwguard(k)
    if isinstance(x, Arr):
        r = x.copy()
    elif isinstance(x, (list, tuple)) and _has_none(x):
        return fromnone(x)
    else:
        r = A(x)
        if isinstance(r, CArr) and r is not x:
            r = CArr(r.o.copy(), r.kind)
    if dtype is not None:
        r = A(r).astype(dtype)
    r = A(r)
    while ndmin > r.ndim:
        r = arr.expand(r, 0)
    return r


def _has_none(x):
    return any(e is None or (isinstance(e, (list, tuple)) and _has_none(e)) for e in x)


def fromnone(x):
    raise Unsupported('array of None')


def asarray(x, dtype=None, **k):
    arr.kwguard(k)
    if isinstance(x, Arr):
        if dtype is None or arr.dtkind(dtype) == x.kind:
            return x
        return x.astype(dtype)
    return np_array(x, dtype)


def full(shape, v, dtype=None, **k):
    arr.kwguard(k)
    kk = _dt(dtype, c.kind_of(_scalar(v)))
    s = arr.norm_shape(shape)
    for d in s:
        if isinstance(d, S):
            if not c.CTX.spec_mode and c.CTX.branch(c.boolt(c.lt(d, 0))):
                raise ValueError('negative dimensions are not allowed')
        elif d < 0:
            raise ValueError('negative dimensions are not allowed')
    v = arr._ck(c.coerce(_scalar(v), kk), kk)
    return A(build(tuple(s), lambda i: v, kk))


def zeros(shape, dtype=None, **k):
    arr.kwguard(k)
    return full(shape, 0, dtype or 'float64')


def ones(shape, dtype=None, **k):
    arr.kwguard(k)
    return full(shape, 1, dtype or 'float64')


def empty(shape, dtype=None, **k):
    arr.kwguard(k)
    return full(shape, 0, dtype or 'float64')




def zeros_like(a, dtype=None, **k):
    arr.kwguard(k)
    a = A(a)
    return full(list(a.shape), 0, KindTag(a.kind) if dtype is None else dtype)


def ones_like(a, dtype=None, **k):
    arr.kwguard(k)
    a = A(a)
    return full(list(a.shape), 1, KindTag(a.kind) if dtype is None else dtype)


def full_like(a, v, dtype=None, **k):
    arr.kwguard(k)
    a = A(a)
    return full(list(a.shape), v, KindTag(a.kind) if dtype is None else dtype)


def arange(*a, dtype=None, **k):
    arr.kwguard(k)
    a = [_scalar(x) for x in a]
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    kk = 'i'
    for x in (start, stop, step):
        kk = c.joink(kk, c.kind_of(x))
    if is_c(step) and step == 1 or kk == 'i':
        d = c.sub(stop, start)
        if is_c(step) and step == 1 and kk == 'i':
            n = d
        else:
            if kk == 'f':
                n = c.coerce(c.ceil(c.truediv(d, step)), 'i')
            else:
                n = c.neg(c.floordiv(c.neg(d), step))
    else:
        n = c.coerce(c.ceil(c.truediv(d if False else c.sub(stop, start), step)), 'i')
    if isinstance(n, S):
        if not c.CTX.known(c.boolt(c.ge(n, 0))):
            if c.CTX.spec_mode:
                n = ite(c.lt(n, 0), 0, n)
            elif c.CTX.branch(c.boolt(c.lt(n, 0))):
                n = 0
    else:
        n = max(0, int(n))
    k2 = kk if dtype is None else arr.dtkind(dtype)
    return A(build((n,), lambda i: arr._ck(c.add(start, c.mul(i[0], step)), k2), k2))


def linspace(a, b, num=50, endpoint=True, **k):
    arr.kwguard(k)
    n = num
    if isinstance(n, S):
        raise Unsupported('linspace of symbolic length')
    if n == 1:
        return A([c.coerce(a, 'f')])
    st = c.truediv(c.sub(b, a), (n - 1) if endpoint else n)
    return A(build((n,), lambda i: c.coerce(c.add(a, c.mul(i[0], st)), 'f') if not (endpoint and i[0] == n - 1) else c.coerce(b, 'f'), 'f'))


def eye(n, m=None, dtype=None, **k):
    arr.kwguard(k)
    m = n if m is None else m
    kk = _dt(dtype, 'f')
    return A(build((n, m), lambda i: arr._ck(c.coerce(c.eq(i[0], i[1]), kk), kk), kk))


# ---- shape ----------------------------------------------------------------------------------------------
def vstack(parts, **k):
    arr.kwguard(k)
    ps = [A(p) for p in parts]
    ps = [p if p.ndim > 1 else arr.reshape(p, (1, -1)) if p.ndim == 0 else arr.expand(p, 0) for p in ps]
    return arr.concatenate(ps, 0)


def hstack(parts, **k):
    arr.kwguard(k)
    ps = [A(p) for p in parts]
    ps = [p if p.ndim > 0 else arr.reshape(p, (1,)) for p in ps]
    return arr.concatenate(ps, 0 if ps[0].ndim == 1 else 1)


def column_stack(parts):
    ps = [A(p) for p in parts]
    ps = [p if p.ndim > 1 else arr.expand(p, 1) for p in ps]
    return arr.concatenate(ps, 1)


def append(a, v, axis=None):
    if axis is None:
        return arr.concatenate([arr.reshape(A(a), (-1,)), arr.reshape(A(v), (-1,))])
    return arr.concatenate([a, v], axis)


def take(a, idx, axis=None, **k):
    arr.kwguard(k)
    a = A(a)
    if axis is None:
        return arr.reshape(a, (-1,))[idx]
    key = [slice(None)] * a.ndim
    key[axis] = idx
    return a[tuple(key)]


def pad(a, width, mode='constant', constant_values=0, **k):
    arr.kwguard(k)
    a = A(a)
    if mode != 'constant':
        raise Unsupported('pad mode')
    if isinstance(width, Arr):
        width = width.tolist()
    if not isinstance(width, (list, tuple)):
        width = [(width, width)] * a.ndim
    elif not isinstance(width[0], (list, tuple, Arr)):
        width = [tuple(width) if len(width) == 2 else (width[0], width[0])] * a.ndim
    for ax, (l, r) in enumerate(width):
        sh = list(a.shape)
        parts = []
        for w in (l, r):
            sh[ax] = w
            parts.append(full(list(sh), constant_values, KindTag(a.kind)))
        a = arr.concatenate([parts[0], a, parts[1]], ax)
    return a


def atleast_1d(x):
    x = A(x)
    return x if x.ndim else arr.reshape(x, (1,))


def atleast_2d(x):
    x = A(x)
    return x if x.ndim > 1 else arr.reshape(x, (1, -1))


def outer(a, b):
    a, b = arr.reshape(A(a), (-1,)), arr.reshape(A(b), (-1,))
    return arr.binop(c.mul, arr.expand(a, 1), arr.expand(b, 0))


def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    return arr.where(cond, *xy)


def nonzero(a):
    raise Unsupported('nonzero of a symbolic array')


def count_nonzero(a, axis=None):
    return arr.reduce_sum(A(a).astype('bool').astype('int64'), axis)


def array_equal(a, b, **k):
    arr.kwguard(k)
    a, b = A(a), A(b)
    if a.ndim != b.ndim:
        return False
    for d, e in zip(a.shape, b.shape):
        if not arr.dim_eq(d, e) and not c.CTX.branch(c.boolt(c.eq(d, e))):
            return False
    return arr.reduce_all(arr.binop(c.eq, a, b, 'b'))


def np_mean(a, axis=None, **k):
    arr.kwguard(k)
    a = A(a)
    return arr.mean(a, axis)


def vdot(a, b):
    return arr.dot(a, b)


def matmul(a, b):
    return arr.dot(a, b)


def allclose(a, b, **k):
    return arr.reduce_all(A(isclose(a, b, **k)))


def np_convolve(a, b, mode='full', method=None):
    a, b = A(a), A(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('convolve of matrices')
    if isinstance(a, SArr) and isinstance(b, CArr):
        a, b = b, a
    if not is_c(a.shape[0]):
        raise Unsupported('convolve of two symbolic-size arrays')
    m, n = a.shape[0], b.shape[0]
    if m == 0:
        raise Unsupported('convolve with an empty array')
    c.CTX.assumed.add('convolve')
    k = c.joink(c.joink(a.kind, b.kind), 'i')
    fa, fb = a.freeze(), b.freeze()
    if isinstance(n, S):
        if not c.CTX.spec_mode and not c.CTX.known(c.boolt(c.ge(n, m))) and not c.CTX.branch(c.boolt(c.ge(n, m))):
            if mode == 'valid':
                # roles swap: length m - n + 1
                if c.CTX.branch(c.boolt(c.eq(n, 0))):
                    raise Unsupported('convolve with an empty array')
                raise Unsupported('valid convolution with a short symbolic operand')
            if mode == 'same':
                raise Unsupported('same convolution with a short symbolic operand')

    def full_at(i):
        r = 0.0 if k == 'f' else 0
        for q in range(m):
            j = c.sub(i, q)
            inside = c.And(c.ge(j, 0), c.lt(j, n))
            if not isinstance(inside, S) and not inside:
                continue
            v = c.mul(fa.at((q,)), fb.at((j,)))
            r = c.add(r, v if not isinstance(inside, S) else ite(inside, v, 0))
        return arr._ck(r, k)
    if mode == 'full':
        return A(build((c.sub(c.add(n, m), 1),), lambda i: full_at(i[0]), k))
    if mode == 'valid':
        if is_c(n) and n < m:
            return np_convolve(b, a, mode)

        def valid_at(i):
            r = 0.0 if k == 'f' else 0
            for q in range(m):
                r = c.add(r, c.mul(fa.at((q,)), fb.at((c.sub(c.add(i, m - 1), q),))))
            return arr._ck(r, k)
        return A(build((c.add(c.sub(n, m), 1),), lambda i: valid_at(i[0]), k))
    if mode == 'same':
        off = (m - 1) // 2
        return A(build((n,), lambda i: full_at(c.add(i[0], off)), k))
    raise ValueError('mode')


def _dims(a):
    return a.shape[0]


def correlate(a, b, mode='full', method=None):
    a, b = A(a), A(b)
    if mode != 'valid':
        raise Unsupported('correlate mode')
    c.CTX.assumed.add('correlate')
    n, m = a.shape[0], b.shape[0]
    k = c.joink(c.joink(a.kind, b.kind), 'i')
    fa, fb = a.freeze(), b.freeze()
    if not c.CTX.branch(c.boolt(c.ge(n, m))):
        raise Unsupported('correlate with a longer second operand')

    def at(i):
        if is_c(m):
            r = 0
            for q in range(m):
                r = c.add(r, c.mul(fa.at((c.add(i, q),)), fb.at((q,))))
            return arr._ck(r, k)
        return c.CTX.sum_term(m, lambda q: c.mul(fa.at((c.add(i, q),)), fb.at((q,))), k)
    return A(build((c.add(c.sub(n, m), 1),), lambda i: at(i[0]), k))


def lfilter(b, a, x, axis=-1, zi=None):
    b = [_scalar(v) for v in A(atleast_1d(b))._pv_vals()]
    a = [_scalar(v) for v in A(atleast_1d(a))._pv_vals()]
    x = A(x)
    c.CTX.assumed.add('scipy.signal.lfilter')
    if zi is not None:
        zi = A(zi)
        L = max(len(a), len(b)) - 1
        if isinstance(zi.shape[0], S) and c.CTX.branch(c.boolt(c.ne(zi.shape[0], L))) or is_c(zi.shape[0]) and zi.shape[0] != L:
            raise ValueError('Unexpected shape for zi')
        z = [zi.at((j,)) for j in range(L)]
    else:
        L = max(len(a), len(b)) - 1
        z = None
    # normalise by a[0]
    if not c.is_const(a[0], 1):
        a0 = a[0]
        b = [c.truediv(v, a0) for v in b]
        a = [1.0] + [c.truediv(v, a0) for v in a[1:]]
    if x.ndim != 1:
        if zi is not None:
            raise Unsupported('lfilter of a matrix with zi')
        axis = axis % x.ndim
        if not is_c(x.shape[axis]):
            rest = [i for i in range(x.ndim) if i != axis]
            if any(not is_c(x.shape[i]) for i in rest) or x.ndim != 2:
                raise Unsupported('lfilter of a matrix')
            rows = []
            for r in range(x.shape[rest[0]]):
                key = [slice(None)] * 2
                key[rest[0]] = r
                rows.append(lfilter(b, a, x[tuple(key)]))
            return arr.stack(rows, rest[0])
        f = x.freeze()

        def get(idx):
            idx = list(idx)
            i = idx[axis]
            if isinstance(i, S):
                raise Unsupported('lfilter row position')
            ys = []
            for q in range(i + 1):
                v = 0.0
                for j, bj in enumerate(b):
                    if q - j >= 0:
                        x2 = list(idx)
                        x2[axis] = q - j
                        v = c.add(v, c.mul(bj, f.at(tuple(x2))))
                for j in range(1, len(a)):
                    if q - j >= 0:
                        v = c.sub(v, c.mul(a[j], ys[q - j]))
                ys.append(v)
            return arr._ck(ys[i], 'f')
        return A(build(x.shape, get, 'f'))
    n = x.shape[0]
    f = x.freeze()
    if len(a) == 1 or all(c.is_const(v, 0) for v in a[1:]):
        def y(k):
            r = 0.0
            for j, bj in enumerate(b):
                kj = c.sub(k, j)
                ok = c.ge(kj, 0)
                if not isinstance(ok, S):
                    if ok:
                        r = c.add(r, c.mul(bj, f.at((kj,))))
                    continue
                r = c.add(r, ite(ok, c.mul(bj, f.at((kj,))), 0))
            if z:
                for m, zm in enumerate(z):
                    e = c.eq(k, m)
                    if not isinstance(e, S):
                        if e:
                            r = c.add(r, zm)
                        continue
                    r = c.add(r, ite(e, zm, 0))
            return arr._ck(r, 'f')
    elif is_c(n):
        ys = []
        for q in range(n):
            v = 0.0
            for j, bj in enumerate(b):
                if q - j >= 0:
                    v = c.add(v, c.mul(bj, f.at((q - j,))))
            for j in range(1, len(a)):
                if q - j >= 0:
                    v = c.sub(v, c.mul(a[j], ys[q - j]))
            if z and q < len(z):
                v = c.add(v, z[q])
            ys.append(v)

        def y(k):
            return arr._ck(ys[k], 'f')
    else:
        y0 = arr.recurrence(x, b, a, z, n, 'f')

        def y(k):
            return y0(k)
    out = A(build((n,), lambda i: y(i[0]), 'f'))
    if zi is None:
        return out
    # final state: z_m = sum_{i>m} (b_i x[n-1-(i-m-1)] - a_i y[n-1-(i-m-1)]) + zi[n+m]
    zf = []
    for m in range(L):
        r = 0.0
        for i in range(m + 1, L + 1):
            k = c.sub(c.sub(n, 1), i - m - 1)
            ok = c.ge(k, 0)
            if not isinstance(ok, S) and not ok:
                continue
            v = 0.0
            if i < len(b):
                v = c.add(v, c.mul(b[i], f.at((k,))))
            if i < len(a):
                v = c.sub(v, c.mul(a[i], y(k)))
            r = c.add(r, v if not isinstance(ok, S) else ite(ok, v, 0.0))
        # zi[n+m]
        if is_c(n):
            if n + m < L:
                r = c.add(r, z[n + m])
        else:
            for q in range(m, L):
                r = c.add(r, ite(c.eq(n, q - m), z[q], 0.0))
        zf.append(arr._ck(r, 'f'))
    return out, A(zf) if zf else zeros([0])


def hankel(col, row=None):
    col = A(col)
    row = zeros_like(col) if row is None else A(row)
    col, row = arr.reshape(col, (-1,)), arr.reshape(row, (-1,))
    c.CTX.assumed.add('scipy.linalg.hankel')
    n, m = col.shape[0], row.shape[0]
    f = arr.concatenate([col, row[1:]])
    f = f.freeze()
    return A(build((n, m), lambda i: f.at((c.add(i[0], i[1]),)), f.kind))


def toeplitz(col, row=None):
    col = A(col)
    row = col if row is None else A(row)
    n, m = col.shape[0], row.shape[0]
    fc, fr = col.freeze(), row.freeze()
    k = c.joink(col.kind, row.kind)
    return A(build((n, m), lambda i: ite(c.ge(i[0], i[1]), fc.at((c.sub(i[0], i[1]),)), fr.at((c.sub(i[1], i[0]),))), k))


def polyroots(roots):
    """coefficients of the product of (x - r), lowest power first"""
    co = [1.0]
    for r in roots:
        r = _scalar(r)
        n = [0.0] + co
        for i, v in enumerate(co):
            n[i] = c.sub(n[i], c.mul(r, v))
        co = n
    return co


class _PolyObj:
    def __init__(self, coef):
        self.coef = A(coef)

    def __call__(self, x):
        r = 0.0
        for v in reversed(self.coef._pv_vals()):
            r = c.add(c.mul(r, x), v)
        return r


class Polynomial:
    """numpy.polynomial.Polynomial: construction only"""
    def __new__(cls, coef):
        try:
            return cls._back(_np.polynomial.Polynomial(toreal(coef)))
        except NotConcrete:
            c.CTX.assumed.add('numpy Polynomial')
            return _PolyObj(coef)

    @staticmethod
    def _back(p):
        return _PolyObj(fromreal(p.coef))

    @staticmethod
    def fromroots(roots, **k):
        try:
            return Polynomial._back(_np.polynomial.Polynomial.fromroots(toreal(roots)))
        except NotConcrete:
            c.CTX.assumed.add('numpy Polynomial.fromroots')
            return _PolyObj(polyroots(roots if not isinstance(roots, Arr) else roots._pv_vals()))


def np_poly(roots):
    c.CTX.assumed.add('numpy poly')
    return A(polyroots(A(roots)._pv_vals())[::-1])


def _pconv(a, b):
    r = [0.0] * (len(a) + len(b) - 1)
    for i, u in enumerate(a):
        for j, v in enumerate(b):
            r[i + j] = c.add(r[i + j], c.mul(u, v))
    return r


def bilinear(b, a, fs=1.0):
    """b(s)/a(s) at s = 2 fs (z-1)/(z+1), both multiplied by (z+1)^n and divided by the leading coefficient of the denominator"""
    b, a = atleast_1d(b)._pv_vals(), atleast_1d(a)._pv_vals()
    c.CTX.assumed.add('scipy.signal.bilinear')
    for v in (b, a):
        if len(v) > 1 and not (isinstance(v[0], S) and c.CTX.nonzero(c.num(v[0])[0]) or not isinstance(v[0], S) and v[0] != 0):
            raise Unsupported('bilinear with a leading zero')
    n = max(len(a), len(b)) - 1
    fac = c.mul(2.0, _scalar(fs))

    def sub(co):
        tot = [0.0] * (n + 1)
        for q, v in enumerate(co[::-1]):
            t = [v]
            for _ in _range(n - q):
                t = _pconv(t, [1.0, 1.0])
            for _ in _range(q):
                t = _pconv(t, [fac, c.neg(fac)])
            tot = [c.add(u, w) for u, w in zip(tot, t)]
        return tot
    nb, na = sub(b), sub(a)
    # (a zero leading denominator coefficient gives a shorter filter)
    if isinstance(na[0], S) and not c.CTX.nonzero(c.num(na[0])[0]):
        raise Unsupported('bilinear: leading denominator coefficient')
    return A([c.truediv(v, na[0]) for v in nb]), A([c.truediv(v, na[0]) for v in na])


def welch(x, **k):
    """power spectrum of x (left opaque; the call is recorded)"""
    ctx = c.CTX
    ctx.assumed.add('scipy.signal.welch: the spectrum is quadratic in the signal')
    n = k.get('nfft')
    if isinstance(n, S) or n is None:
        raise Unsupported('welch without a fixed nfft')
    fn, fp = ctx.freshfn('freq', 'f'), ctx.freshfn('psd', 'f')
    m = n // 2 + 1
    y = (SArr((m,), lambda i: S(fn(c.num(i[0])[0]), 'f'), 'f'), SArr((m,), lambda i: S(fp(c.num(i[0])[0]), 'f'), 'f'))
    ctx.calls.setdefault('welch', []).append((A(x).freeze(), k, y))
    return y


def _normal(a, b, lam=0.0):
    """a minimiser of |a x - b|^2 + lam |x|^2: some x with a'(a x - b) + lam x = 0"""
    a, b = A(a), A(b)
    if a.ndim != 2 or b.ndim != 1 or isinstance(a.shape[1], S):
        raise Unsupported('least squares of this shape')
    m, n = a.shape
    if not arr.dim_eq(m, b.shape[0]) and not c.CTX.branch(c.boolt(c.eq(m, b.shape[0]))):
        raise ValueError('Incompatible dimensions')
    ctx = c.CTX
    fa, fb = a.freeze(), b.freeze()
    o = _np.empty((n,), dtype=object)
    for j in _range(n):
        o[j] = S(ctx.fresh('ls', 'f'), 'f')

    def res(r):
        v = 0.0
        for q in _range(n):
            v = c.add(v, c.mul(fa.at((r, q)), o[q]))
        return c.sub(v, fb.at((r,)))
    for j in _range(n if isinstance(m, S) else 0):          # (with a fixed number of rows the problem is only recorded)
        body = lambda r, j=j: c.mul(fa.at((r, j)), res(r))
        t = ctx.sum_term(m, body, 'f')
        ctx.assume(c.eq(c.add(t, c.mul(lam, o[j])) if not c.is_const(lam, 0) else t, 0))
    x = CArr(o, 'f')
    ctx.calls.setdefault('least squares', []).append((fa, fb, x.freeze()))
    return x


def lstsq(a, b, rcond=None, **k):
    arr.kwguard(k)
    c.CTX.assumed.add('numpy.linalg.lstsq')
    x = _normal(a, b)
    return x, A([S(c.CTX.fresh('ssr', 'f'), 'f')]), S(c.CTX.fresh('rank'), 'i'), None


def _nolasso():
    raise Unsupported('Lasso')


class Ridge:
    """sklearn.linear_model.Ridge"""

    def __init__(self, alpha=1.0, *, fit_intercept=True, **k):
        if k:
            raise Unsupported('Ridge options')
        self.alpha, self.icpt = _scalar(alpha), fit_intercept

    def fit(self, a, b):
        if self.icpt:
            raise Unsupported('Ridge with an intercept')
        c.CTX.assumed.add('sklearn Ridge without intercept')
        self.coef_ = _normal(a, b, self.alpha)
        self.intercept_ = 0.0
        return self


def histogram(a, bins=10, range=None, density=None, weights=None):
    """counts per bin [e_b, e_b+1), the last bin closed; edges as numpy computes them"""
    x = A(a)
    if density or weights is not None or range is None or not isinstance(bins, (int, _np.integer)):
        raise Unsupported('histogram of symbolic samples')
    lo, hi = [_scalar(v) for v in (range if isinstance(range, (list, tuple)) else A(range)._pv_vals())]
    if isinstance(lo, S) or isinstance(hi, S):
        raise Unsupported('histogram range')
    lo, hi = float(lo), float(hi)
    if lo > hi or bins < 1:
        raise ValueError('histogram arguments')
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    e = _np.linspace(lo, hi, bins + 1)
    c.CTX.assumed.add('numpy.histogram')
    f = arr.reshape(x, (-1,)).freeze()
    n = f.shape[0]

    def inside(v, b):
        up = c.le(v, float(e[b + 1])) if b == bins - 1 else c.lt(v, float(e[b + 1]))
        return c.coerce(c.And(c.ge(v, float(e[b])), up), 'i')
    out = _np.empty((bins,), dtype=object)
    for b in _range(bins):
        if isinstance(n, S):
            out[b] = c.CTX.sum_term(n, lambda k, b=b: inside(f.at((k,)), b), 'i')
        else:
            r = 0
            for k in _range(n):
                r = c.add(r, inside(f.at((k,)), b))
            out[b] = r
    return CArr(out, 'i'), fromreal(e)


def searchsorted(a, v, side='left', sorter=None):
    t = A(a)
    if t.ndim != 1 or isinstance(t.shape[0], S) or sorter is not None:
        raise Unsupported('searchsorted')
    ts = [t.at((k,)) for k in _range(t.shape[0])]
    for x, y in zip(ts, ts[1:]):
        if not c.CTX.known(c.boolt(c.le(x, y))):
            raise Unsupported('searchsorted in an array not known to be sorted')
    c.CTX.assumed.add('numpy.searchsorted')

    def pos(x):
        r = 0
        for q in ts:
            r = c.add(r, c.coerce(c.lt(q, x) if side == 'left' else c.le(q, x), 'i'))
        return r
    if not isinstance(v, (Arr, list, tuple, _np.ndarray)):
        return pos(v)
    f = A(v).freeze()
    return A(build(f.shape, lambda i: pos(f.at(i)), 'i'))


_range = range


# ---- the modules -------------------------------------------------------------------------------------------
class Shim(types.ModuleType):
    def __init__(self, name, real, table, missing_ok=True):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table

    def __getattr__(self, name):
        t = self.__dict__['_table']
        real = self.__dict__['_real']
        if name in t:
            v = t[name]
            if callable(v) and not isinstance(v, type) and not getattr(v, '_view', False) and hasattr(real, name):
                v = _dispatch(getattr(real, name), v, name)
            self.__dict__[name] = v
            return v
        if name.startswith('__'):
            raise AttributeError(name)
        r = getattr(real, name)     # AttributeError if the library does not have it
        if isinstance(r, types.ModuleType):
            v = shim_module(r.__name__)
            if v is None:
                v = Shim(r.__name__, r, {})
        elif isinstance(r, type) and issubclass(r, _np.generic):
            v = r
        elif isinstance(r, type) and issubclass(r, BaseException):
            v = r
        elif callable(r):
            v = _dispatch(r, None, name)
        else:
            v = r
        self.__dict__[name] = v
        return v


def view(f):
    f._view = True
    return f


def _dispatch(real, shim, name):
    def f(*a, **k):
        try:
            return concrete_call(real, a, k)
        except NotConcrete:
            pass
        if shim is None:
            raise Unsupported('library function %s on symbolic values' % name)
        return shim(*a, **k)
    f.__name__ = name
    f._shim = True
    return f


def _kmin(k):
    return c.joink(k, 'i')


@view
def v_reshape(a, s=None, order='C', shape=None, newshape=None, **k):
    arr.kwguard(dict(k, order=order))
    return arr.reshape(a, s if s is not None else shape if shape is not None else newshape)
@view
def v_ravel(a, order='C'):
    arr.kwguard({'order': order})
    return arr.reshape(a, (-1,))
@view
def v_squeeze(a, axis=None): return arr.squeeze(a, axis)
@view
def v_transpose(a, axes=None): return arr.transpose(a, axes)
@view
def v_swapaxes(a, i, j):
    n = A(a).ndim
    ax = list(range(n))
    ax[i], ax[j] = ax[j], ax[i]
    return arr.transpose(a, tuple(ax))
@view
def v_expand_dims(a, axis): return arr.expand(a, axis)
@view
def v_flip(a, axis=None): return arr.flip(a, axis)
@view
def v_fliplr(a):
    a = A(a)
    if a.ndim < 2:
        raise ValueError('Input must be >= 2-d.')
    return arr.flip(a, 1)
@view
def v_flipud(a): return arr.flip(a, 0)
@view
def v_asarray(x, dtype=None, **k): return asarray(x, dtype, **k)
@view
def v_array(x, dtype=None, **k): return np_array(x, dtype, **k)
@view
def v_atleast_1d(x): return atleast_1d(x)
@view
def v_atleast_2d(x): return atleast_2d(x)
@view
def v_copy(x, **k):
    arr.kwguard(k)
    return A(x).copy()


@view
def v_copyto(dst, src, **k):
    arr.kwguard(k)
    dst[...] = src


@view
def v_put(a, idx, v, **k):
    arr.kwguard(k)
    A(a).reshape(-1)[idx] = v


@view
def v_shape(a): return A(a).shape if not isinstance(a, S) else ()


@view
def v_size(a): return A(a).size


@view
def v_ndim(a): return A(a).ndim


@view
def v_broadcast_to(a, shape, **k):
    arr.kwguard(k)
    f = A(a).freeze()
    return build(tuple(arr.norm_shape(shape)), lambda i: f.at(arr.bidx(i, f)), f.kind)


@view
def result_type(*a):
    k = None
    for x in a:
        try:
            q = arr.dtkind(x) if isinstance(x, (type, str, _np.dtype, KindTag)) else c.kind_of(x) if not isinstance(x, (Arr, _np.ndarray, list, tuple)) else A(x).kind
        except TypeError:
            raise Unsupported('result_type of %r' % (x,))
        k = q if k is None else c.joink(k, q)
    return KindTag(k)


class _Random:
    """numpy.random: the values drawn are arbitrary; what the code asked for is recorded"""

    def __getattr__(self, name):
        def f(*a, **k):
            ctx = c.CTX
            if ctx is None:
                return fromreal(getattr(_np.random, name)(*a, **k))
            if name == 'normal':
                loc = a[0] if len(a) > 0 else k.get('loc', 0.0)
                scale = a[1] if len(a) > 1 else k.get('scale', 1.0)
                size = a[2] if len(a) > 2 else k.get('size')
            elif name == 'randn':
                loc, scale, size = 0.0, 1.0, list(a)
            elif name == 'standard_normal':
                loc, scale, size = 0.0, 1.0, (a[0] if a else k.get('size'))
            else:
                raise Unsupported('numpy.random.' + name)
            if size is None:
                size = ()
            size = arr.norm_shape(size) if size != () else []
            fn = ctx.freshfn('gauss', 'f', max(1, len(size)))
            g = A(build(tuple(size), lambda i: S(fn(*[c.num(j)[0] for j in i]), 'f'), 'f')) if size else None
            ctx.draws.append((tuple(size), g, loc, scale))
            ctx.assumed.add('numpy.random.' + name)
            if g is None:
                raise Unsupported('scalar random draw')
            # loc + scale * standard normal
            return arr.binop(c.add, arr.binop(c.mul, g, scale), loc)
        return f


@view
def np_var(a, axis=None, dtype=None, out=None, ddof=0, **k):
    arr.kwguard(k)
    try:
        return concrete_call(_np.var, (a, axis), {'ddof': ddof})
    except NotConcrete:
        return arr.var(a, axis, ddof)


NP = {
    'ndarray': Arr, 'int_': ShimInt, 'float_': ShimFloat, 'bool_': ShimBool, 'random': _Random(),
    'array': v_array, 'asarray': v_asarray, 'ascontiguousarray': v_asarray, 'asanyarray': v_asarray, 'copy': v_copy,
    'reshape': v_reshape, 'ravel': v_ravel, 'squeeze': v_squeeze, 'transpose': v_transpose, 'swapaxes': v_swapaxes,
    'expand_dims': v_expand_dims, 'flip': v_flip, 'fliplr': v_fliplr, 'flipud': v_flipud,
    'atleast_1d': v_atleast_1d, 'atleast_2d': v_atleast_2d, 'shape': v_shape, 'size': v_size, 'ndim': v_ndim,
    'broadcast_to': v_broadcast_to, 'copyto': v_copyto, 'result_type': result_type, 'promote_types': result_type, 'put': v_put,
    'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full, 'zeros_like': zeros_like, 'ones_like': ones_like,
    'empty_like': zeros_like, 'full_like': full_like, 'arange': arange, 'linspace': linspace, 'eye': eye, 'identity': eye,
    'concatenate': arr.concatenate, 'stack': arr.stack, 'vstack': vstack, 'hstack': hstack, 'column_stack': column_stack,
    'append': append, 'take': take, 'pad': pad, 'tile': arr.tile, 'repeat': arr.repeat, 'roll': arr.roll,
    'sum': arr.redguard(lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: arr.reduce_sum(a, axis, keepdims)),
    'mean': arr.redguard(np_mean), 'average': arr.redguard(np_mean), 'var': arr.redguard(np_var),
    'prod': arr.redguard(lambda a, axis=None, **k: arr.reduce_fold(a, axis, c.mul, 1)),
    'min': arr.redguard(lambda a, axis=None, **k: arr.reduce_minmax(a, axis, False)),
    'max': arr.redguard(lambda a, axis=None, **k: arr.reduce_minmax(a, axis, True)),
    'amin': arr.redguard(lambda a, axis=None, **k: arr.reduce_minmax(a, axis, False)),
    'amax': arr.redguard(lambda a, axis=None, **k: arr.reduce_minmax(a, axis, True)),
    'argmin': arr.redguard(lambda a, axis=None, **k: arr.argext(a, axis, False)),
    'argmax': arr.redguard(lambda a, axis=None, **k: arr.argext(a, axis, True)),
    'any': arr.redguard(lambda a, axis=None, **k: arr.reduce_any(a, axis)),
    'all': arr.redguard(lambda a, axis=None, **k: arr.reduce_all(a, axis)),
    'cumsum': arr.redguard(lambda a, axis=None, **k: arr.cumsum(a, axis)),
    'diff': arr.diff, 'dot': arr.dot, 'matmul': matmul, 'vdot': vdot, 'inner': arr.dot, 'outer': outer,
    'where': where, 'nonzero': nonzero, 'unique': arr.unique, 'count_nonzero': count_nonzero, 'array_equal': array_equal,
    'isclose': isclose, 'allclose': allclose, 'convolve': np_convolve,
    'abs': _u(c.absv), 'absolute': _u(c.absv), 'fabs': _u(c.absv, 'f'), 'sign': _u(c.sign), 'negative': _u(c.neg),
    'square': _u(lambda v: c.mul(v, v), _kmin), 'conj': _u(lambda v: v), 'conjugate': _u(lambda v: v), 'real': _u(lambda v: v),
    'round': _u(lambda v: c.rnd(v) if c.kind_of(v) == 'f' else v), 'around': _u(lambda v: c.rnd(v) if c.kind_of(v) == 'f' else v),
    'rint': _u(c.rnd, 'f'), 'floor': _u(lambda v: c.floor(v) if c.kind_of(v) == 'f' else v),
    'ceil': _u(lambda v: c.ceil(v) if c.kind_of(v) == 'f' else v),
    'sqrt': _u(_sqrt, 'f'), 'exp': _u(_un('exp'), 'f'), 'log': _u(_un('log'), 'f'), 'log10': _u(_un('log10'), 'f'),
    'log2': _u(_un('log2'), 'f'), 'sin': _u(_un('sin'), 'f'), 'cos': _u(_un('cos'), 'f'), 'sinc': _u(_sinc, 'f'),
    'isreal': _u(lambda v: True, 'b'), 'isnan': _u(lambda v: False, 'b'), 'isfinite': _u(lambda v: True, 'b'),
    'logical_not': _u(lambda v: c.Not(c.coerce(v, 'b')), 'b'), 'invert': _u(c.invert),
    'add': _b(c.add), 'subtract': _b(c.sub), 'multiply': _b(c.mul), 'divide': _b(c.truediv, 'f'), 'true_divide': _b(c.truediv, 'f'),
    'floor_divide': _b(c.floordiv), 'mod': _b(c.mod), 'remainder': _b(c.mod), 'power': _b(c.power),
    'minimum': _b(c.minv), 'maximum': _b(c.maxv), 'equal': _b(c.eq, 'b'), 'not_equal': _b(c.ne, 'b'),
    'less': _b(c.lt, 'b'), 'less_equal': _b(c.le, 'b'), 'greater': _b(c.gt, 'b'), 'greater_equal': _b(c.ge, 'b'),
    'logical_and': log_b(c.And), 'logical_or': log_b(c.Or), 'logical_xor': _b(lambda x, y: c.ne(c.coerce(x, 'b'), c.coerce(y, 'b')), 'b'),
    'bitwise_and': _b(c.bitand), 'bitwise_or': _b(c.bitor), 'bitwise_xor': _b(c.bitxor),
    'left_shift': _b(c.lshift), 'right_shift': _b(c.rshift),
    'clip': lambda a, lo=None, hi=None: A(a).clip(lo, hi),
    'histogram': histogram, 'poly': np_poly, 'searchsorted': searchsorted,
}

MATH = {
    'ceil': lambda x: c.coerce(c.ceil(x), 'i'), 'floor': lambda x: c.coerce(c.floor(x), 'i'),
    'sqrt': _u(_sqrt, 'f'), 'exp': _un('exp'), 'log': _un('log'), 'log10': _un('log10'), 'log2': _un('log2'),
    'fabs': c.absv,
}

_MODS = {}


def shim_module(name):
    if name in _MODS:
        return _MODS[name]
    m = None
    if name == 'numpy':
        m = Shim('numpy', _np, NP)
    elif name == 'numpy.linalg':
        m = Shim('numpy.linalg', _np.linalg, {'lstsq': lstsq})
    elif name == 'numpy.polynomial':
        import numpy.polynomial as p
        m = Shim(name, p, {'Polynomial': Polynomial})
    elif name == 'numpy.random':
        m = NP['random']
    elif name == 'scipy':
        import scipy
        import scipy.signal
        import scipy.linalg
        import scipy.interpolate
        m = Shim('scipy', scipy, {})
    elif name == 'scipy.signal':
        import scipy.signal as p
        m = Shim(name, p, {'lfilter': lfilter, 'convolve': np_convolve, 'fftconvolve': np_convolve, 'bilinear': bilinear, 'welch': welch, 'correlate': correlate})
    elif name == 'scipy.linalg':
        import scipy.linalg as p
        m = Shim(name, p, {'hankel': hankel, 'toeplitz': toeplitz, 'lstsq': lstsq})
    elif name == 'scipy.interpolate':
        import scipy.interpolate as p
        m = Shim(name, p, {})
    elif name == 'sklearn.linear_model':
        import sklearn.linear_model as p
        m = types.SimpleNamespace(**{k: v for k, v in vars(p).items() if not k.startswith('__')})
        m.Lasso = lambda *a, **k: _nolasso() if c.CTX is not None else p.Lasso(*a, **k)
        m.Ridge = lambda *a, **k: (Ridge if c.CTX is not None else p.Ridge)(*a, **k)
    elif name == 'math':
        m = Shim('math', _math, MATH)
    _MODS[name] = m
    return m
