"""Verification-condition generator: symbolic values, path exploration, obligations.

The functions of /repo are executed by CPython itself, unmodified; every value that
depends on an input is an `S` (a z3 term).  A branch on a symbolic condition explores
both sides (by re-execution), so the union of the explored paths is the function's
verification condition for all inputs.
"""
import sys
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import time
from fractions import Fraction
import numpy as _np
import z3


# an id that was asked for stays taken: the term is kept alive, so memo tables keyed by ids never confuse two terms
_KEEP = {}
_get_id = z3.AstRef.get_id


def _kept_id(self):
    i = _get_id(self)
    if i not in _KEEP:
        _KEEP[i] = self
    return i


for _k in (z3.AstRef, z3.ExprRef, z3.QuantifierRef):
    if 'get_id' in vars(_k):
        _k.get_id = _kept_id
_HARD = {}


def hard(t):
    """does t multiply or divide symbolic reals or apply a library function?"""
    i = t.get_id()
    if i in _HARD:
        return _HARD[i][0]
    k = t.decl().kind() if z3.is_app(t) else None
    ch = t.children()
    r = False
    if k == z3.Z3_OP_UNINTERPRETED and ch and t.decl().name().startswith('u_'):
        r = True
    elif k == z3.Z3_OP_MUL and sum(1 for x in ch if not (z3.is_rational_value(x) or z3.is_int_value(x))) > 1:
        r = True
    elif k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
        r = True
    else:
        r = any(hard(x) for x in ch)
    if len(_HARD) > 200000:
        _HARD.clear()
    _HARD[i] = (r, t)
    return r


class PathEnd(BaseException):
    """This path is finished (loop preservation checked, or infeasible)."""


class Unsupported(BaseException):
    """The code uses something the engine has no model for."""


class Restart(BaseException):
    """Exploration has to start again (loop frame or invariant set changed)."""


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ----------------------------------------------------------------------------------------------
# scalars
# ----------------------------------------------------------------------------------------------
_NUM = (bool, int, float, _np.generic)


def is_sym(x):
    return isinstance(x, S)


def py(x):
    """numpy scalar -> python scalar"""
    if isinstance(x, _np.generic):
        return x.item()
    return x


def frac(x):
    x = py(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return Fraction(x)
    return Fraction(x)


def lift(x):
    """-> (term, kind)"""
    if isinstance(x, S):
        return x.t, x.k
    x = py(x)
    if isinstance(x, bool):
        return z3.BoolVal(x), 'b'
    if isinstance(x, int):
        return z3.IntVal(x), 'i'
    if isinstance(x, float):
        f = frac(x)
        if f.denominator == 1:
            return z3.IntVal(f.numerator), 'f'
        return z3.RealVal(str(f)), 'f'
    if isinstance(x, Fraction):
        return z3.RealVal(str(x)), 'f'
    raise Unsupported('cannot lift %r' % (type(x),))


def num(x):
    """-> (Int or Real term, kind) with booleans turned into 0/1"""
    t, k = lift(x)
    if k == 'b':
        return z3.If(t, z3.IntVal(1), z3.IntVal(0)), 'i'
    return t, k


def mk(t, k):
    if z3.is_int_value(t):
        v = t.as_long()
        return float(v) if (k == 'f' and abs(v) < 2 ** 53) else v
    if k == 'b':
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        v = float(f)
        if Fraction(v) == f:
            return v
    return S(t, k)


def kind_of(x):
    if isinstance(x, S):
        return x.k
    x = py(x)
    if isinstance(x, bool):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, (float, Fraction)):
        return 'f'
    raise Unsupported('kind of %r' % (type(x),))


def joink(a, b):
    o = 'bif'
    return o[max(o.index(a), o.index(b))]


def is_const(x, v):
    return not isinstance(x, S) and isinstance(py(x), (bool, int, float)) and py(x) == v


def add(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) + py(b)
    k = joink(joink(kind_of(a), kind_of(b)), 'i')
    if is_const(a, 0) and kind_of(b) == k:
        return b
    if is_const(b, 0) and kind_of(a) == k:
        return a
    ta, _ = num(a)
    tb, _ = num(b)
    return mk(_lin(ta + tb), k)


def _lin(t):
    return t


def sub(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) - py(b)
    k = joink(joink(kind_of(a), kind_of(b)), 'i')
    if is_const(b, 0) and kind_of(a) == k:
        return a
    ta, _ = num(a)
    tb, _ = num(b)
    if ta.eq(tb):
        return 0.0 if k == 'f' else 0
    return mk(ta - tb, k)


def mul(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) * py(b)
    if isinstance(a, list) or isinstance(b, list):
        raise Unsupported('list repetition')
    k = joink(joink(kind_of(a), kind_of(b)), 'i')
    for x, y in ((a, b), (b, a)):
        if is_const(x, 0):
            return 0.0 if k == 'f' else 0
        if is_const(x, 1) and kind_of(y) == k:
            return y
    # boolean / 0-1 selector times value
    if isinstance(a, S) and a.k == 'b':
        return ite(a, coerce(b, k), 0.0 if k == 'f' else 0)
    if isinstance(b, S) and b.k == 'b':
        return ite(b, coerce(a, k), 0.0 if k == 'f' else 0)
    ta, _ = num(a)
    tb, _ = num(b)
    # distribute over if-then-else with small constants to stay linear
    if not _isval(ta) and not _isval(tb):
        for x, y in ((ta, tb), (tb, ta)):
            if z3.is_app_of(x, z3.Z3_OP_ITE) and _leafy(x):
                return mk(_push(x, y), k)
    return mk(ta * tb, k)


def _isval(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def _leafy(t, depth=0):
    if _isval(t):
        return True
    if depth > 6:
        return False
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return _leafy(t.arg(1), depth + 1) and _leafy(t.arg(2), depth + 1)
    return False


def _push(x, y):
    if _isval(x):
        if z3.is_int_value(x):
            v = x.as_long()
            if v == 0:
                return z3.IntVal(0) if y.sort() == z3.IntSort() else z3.RealVal(0)
            if v == 1:
                return y
        return x * y
    a, b = _push(x.arg(1), y), _push(x.arg(2), y)
    if a.sort() != b.sort():
        a, b = _r(a), _r(b)
    return z3.If(x.arg(0), a, b)


def _r(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def truediv(a, b, numpy=True):
    if not is_sym(a) and not is_sym(b):
        pa, pb = py(a), py(b)
        if pb == 0:
            if numpy:
                with _np.errstate(all='ignore'):
                    return float(_np.float64(pa) / _np.float64(pb))
            return pa / pb
        return pa / pb
    if is_const(b, 1):
        return coerce(a, 'f')
    ta, _ = num(a)
    tb, _ = num(b)
    if not _isval(tb):
        if CTX.guards and CTX.known(z3.Implies(z3.And(*CTX.guards), tb != 0)):
            pass
        elif hard(tb == 0) and CTX.nonzero(tb):
            pass
        elif CTX.nanok and numpy and not CTX.spec_mode and not CTX.known(tb == 0):
            CTX.assumed.add('a quotient by zero is some value no checked result depends on')
        elif CTX.branch(tb == 0):
            if numpy:
                raise Unsupported('division by zero gives inf/nan')
            raise ZeroDivisionError('division by zero')
    elif is_const(b, 0):
        raise Unsupported('division by zero gives inf/nan')
    if _isval(tb):
        f = Fraction(str(tb.as_fraction())) if z3.is_rational_value(tb) else Fraction(tb.as_long())
        inv = 1 / f
        if inv.denominator == 1 and ta.sort() == z3.IntSort():
            return mk(ta * z3.IntVal(inv.numerator), 'f')
        return mk(_r(ta) * z3.RealVal(str(inv)), 'f')
    return mk(_r(ta) / _r(tb), 'f')


def floordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) // py(b)
    k = joink(joink(kind_of(a), kind_of(b)), 'i')
    ta, _ = num(a)
    tb, _ = num(b)
    if ta.sort() == z3.IntSort() and tb.sort() == z3.IntSort():
        s = _sign(tb)
        if s > 0:
            return mk(ta / tb, k)
        return mk((-ta) / (-tb), k)
    return mk(z3.ToInt(_r(ta) / _r(tb)), k)


def _sign(tb):
    """1 / -1; forks on a symbolic divisor whose sign is not known"""
    if z3.is_int_value(tb):
        v = tb.as_long()
        if v == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return 1 if v > 0 else -1
    if CTX.branch(tb > 0):
        return 1
    if CTX.branch(tb == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    return -1


def mod(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) % py(b)
    k = joink(joink(kind_of(a), kind_of(b)), 'i')
    ta, _ = num(a)
    tb, _ = num(b)
    if ta.sort() == z3.IntSort() and tb.sort() == z3.IntSort():
        s = _sign(tb)
        if s > 0:
            return mk(ta % tb, k)
        return mk(-((-ta) % (-tb)), k)
    q = z3.ToInt(_r(ta) / _r(tb))
    return mk(_r(ta) - _r(tb) * z3.ToReal(q), k)


def neg(a):
    if not is_sym(a):
        return -py(a)
    t, k = num(a)
    return mk(-t, joink(k, 'i'))


_PW = {}


def power(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) ** py(b)
    if not is_sym(b):
        e = py(b)
        if isinstance(e, float) and e.is_integer():
            e = int(e)
            a = coerce(a, 'f')
        if isinstance(e, int):
            if 0 <= e <= 12:
                r = 1.0 if kind_of(a) == 'f' else 1
                for _ in range(e):
                    r = mul(r, a)
                return r
            if -4 <= e < 0:
                return truediv(1.0, power(a, -e))
        if e == 0.5:
            return unint('sqrt', a)
        return unint('pow', a, e)
    base = py(a) if not is_sym(a) else None
    if base == -1:
        t, k = num(b)
        if t.sort() == z3.IntSort():
            return mk(z3.If(t % 2 == 0, z3.IntVal(1), z3.IntVal(-1)), kind_of(a))
    if base == 2 and num(b)[0].sort() == z3.IntSort():
        t = num(b)[0]
        f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
        r = f(t)
        CTX.assume(z3.Implies(t >= 0, r >= t + 1))
        CTX.assume(z3.And(z3.Implies(t == 0, r == 1), z3.Implies(t >= 1, z3.And(r == 2 * f(t - 1), f(t - 1) >= 1))))
        return mk(r, 'i')
    r = unint('pow', a, b)
    if base is not None and base > 0:
        CTX.assume(num(r)[0] > 0)
    return r


def unint(name, *args):
    """uninterpreted real function (library function known only up to equality of arguments)"""
    ts = []
    for a in args:
        t, _ = num(a)
        ts.append(_r(t))
    f = z3.Function('u_' + name, *([z3.RealSort()] * (len(ts) + 1)))
    r = f(*ts)
    if name in ('exp',):
        CTX.assume(r > 0)
    if name == 'sqrt':
        CTX.assume(z3.Implies(ts[0] >= 0, z3.And(r >= 0, r * r == ts[0])))
    if name in ('cos', 'sin'):
        CTX.assume(z3.And(r <= 1, r >= -1))
        CTX.assume(z3.Implies(ts[0] == 0, r == (1 if name == 'cos' else 0)))
    return mk(r, 'f')


def coerce(v, kind):
    """astype for one element"""
    if not is_sym(v):
        v = py(v)
        if kind == 'i':
            if isinstance(v, (float, Fraction)):
                return int(v)
            return int(v)
        if kind == 'f':
            return float(v) if not isinstance(v, Fraction) else v
        if kind == 'b':
            return bool(v)
        return v
    if kind == v.k:
        return v
    if kind == 'b':
        t, _ = num(v)
        return mk(t != 0, 'b')
    t, _ = num(v)
    if kind == 'i' and t.sort() == z3.RealSort():
        return mk(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), 'i')
    return mk(t, kind)


def ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    tc = c.t if c.k == 'b' else (num(c)[0] != 0)
    if a is b:
        return a
    ka, kb = kind_of(a), kind_of(b)
    if ka == 'b' and kb == 'b':
        return mk(z3.If(tc, lift(a)[0], lift(b)[0]), 'b')
    ta, _ = num(a)
    tb, _ = num(b)
    if ta.sort() != tb.sort():
        ta, tb = _r(ta), _r(tb)
    if ta.eq(tb):
        return mk(ta, joink(ka, kb))
    return mk(z3.If(tc, ta, tb), joink(ka, kb))


def _cmp(op):
    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            return bool(op(py(a), py(b)))
        ka, kb = kind_of(a), kind_of(b)
        if ka == 'b' and kb == 'b' and op in (_eq, _ne):
            return mk(op(lift(a)[0], lift(b)[0]), 'b')
        ta, _ = num(a)
        tb, _ = num(b)
        if ta.eq(tb):
            return bool(op(0, 0))
        return mk(op(ta, tb), 'b')
    return f


def _eq(x, y): return x == y
def _ne(x, y): return x != y
def _lt(x, y): return x < y
def _le(x, y): return x <= y
def _gt(x, y): return x > y
def _ge(x, y): return x >= y


eq, ne, lt, le, gt, ge = map(_cmp, (_eq, _ne, _lt, _le, _gt, _ge))


def boolt(x):
    """z3 Bool for a truth value"""
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, S):
        return x.t if x.k == 'b' else (num(x)[0] != 0)
    if hasattr(x, 'as_scalar'):
        return boolt(x.as_scalar())
    return z3.BoolVal(bool(x))


def And(*xs):
    ts = [boolt(x) for x in xs]
    return mk(z3.And(*ts) if len(ts) != 1 else ts[0], 'b') if any(is_sym(x) for x in xs) else all(bool(x) for x in xs)


def Or(*xs):
    ts = [boolt(x) for x in xs]
    return mk(z3.Or(*ts) if len(ts) != 1 else ts[0], 'b') if any(is_sym(x) for x in xs) else any(bool(x) for x in xs)


def Not(x):
    return mk(z3.Not(boolt(x)), 'b') if is_sym(x) else (not x)


def bitand(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) & py(b)
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return And(a, b)
    if is_sym(a) and is_sym(b):
        for u, v in ((a, b), (b, a)):
            r = _ite_leaves(v, lambda q: bitand(u, q))
            if r is not None:
                return r
        return _bits2(a, b, lambda x, y: z3.If(z3.And(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0)))
    if is_sym(b):
        a, b = b, a
    m = int(py(b))
    t, _ = num(a)
    if m < 0:
        raise Unsupported('& with a negative mask')
    r = 0
    i = 0
    while m >> i:
        if (m >> i) & 1:
            r = add(r, mk(((t / z3.IntVal(1 << i)) % 2) * (1 << i), 'i'))
        i += 1
    return r


def _ite_leaves(v, f, depth=80):
    """f mapped over the constant leaves of a nested conditional; None when a leaf is not a constant"""
    t = num(v)[0]
    if z3.is_int_value(t):
        return f(t.as_long())
    if not z3.is_app_of(t, z3.Z3_OP_ITE) or not depth:
        return None
    x = _ite_leaves(S(t.arg(1), 'i'), f, depth - 1)
    if x is None:
        return None
    y = _ite_leaves(S(t.arg(2), 'i'), f, depth - 1)
    if y is None:
        return None
    return ite(mk(t.arg(0), 'b'), x, y)


def _bits2(a, b, f):
    ta, tb = num(a)[0], num(b)[0]
    if CTX.known(z3.And(ta >= 0, ta <= 1, tb >= 0, tb <= 1)):
        return mk(f(ta, tb), 'i')
    raise Unsupported('bitwise operation on non-bit symbolic integers')


def bitor(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) | py(b)
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return Or(a, b)
    return _bits2(a, b, lambda x, y: z3.If(z3.Or(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0)))


def bitxor(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) ^ py(b)
    if kind_of(a) == 'b' and kind_of(b) == 'b':
        return mk(z3.Xor(boolt(a), boolt(b)), 'b')
    return _bits2(a, b, lambda x, y: z3.If(x != y, z3.IntVal(1), z3.IntVal(0)))


def lshift(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) << py(b)
    if is_sym(b):
        return mul(a, power(2, b))
    return mul(a, 1 << int(py(b)))


def rshift(a, b):
    if not is_sym(a) and not is_sym(b):
        return py(a) >> py(b)
    if is_sym(b):
        return floordiv(a, power(2, b))
    return floordiv(a, 1 << int(py(b)))


def invert(a):
    if not is_sym(a):
        p = py(a)
        return (not p) if isinstance(p, bool) else ~p
    if a.k == 'b':
        return Not(a)
    return sub(neg(a), 1)


def absv(a):
    if not is_sym(a):
        return abs(py(a))
    t, k = num(a)
    return mk(z3.If(t >= 0, t, -t), joink(k, 'i'))


def sign(a):
    if not is_sym(a):
        p = py(a)
        return _np.sign(p).item()
    t, k = num(a)
    return mk(z3.If(t > 0, z3.IntVal(1), z3.If(t < 0, z3.IntVal(-1), z3.IntVal(0))), joink(k, 'i'))


def minv(a, b):
    return ite(le(a, b), a, b)


def maxv(a, b):
    return ite(ge(a, b), a, b)


def floor(a):
    if not is_sym(a):
        p = py(a)
        return float(_np.floor(p))
    t, _ = num(a)
    return mk(t if t.sort() == z3.IntSort() else z3.ToInt(t), 'f')


def ceil(a):
    if not is_sym(a):
        return float(_np.ceil(py(a)))
    t, _ = num(a)
    return mk(t if t.sort() == z3.IntSort() else -z3.ToInt(-t), 'f')


def rnd(a):
    """round half to even"""
    if not is_sym(a):
        return float(_np.round(py(a)))
    t, _ = num(a)
    if t.sort() == z3.IntSort():
        return mk(t, 'f')
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    h = z3.RealVal('1/2')
    return mk(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))), 'f')


class S:
    """symbolic scalar"""
    __slots__ = ('t', 'k')
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, t, k):
        self.t = t
        self.k = k

    def __add__(self, o): return _b(add, self, o)
    def __radd__(self, o): return _b(add, o, self)
    def __sub__(self, o): return _b(sub, self, o)
    def __rsub__(self, o): return _b(sub, o, self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return self.__rmul__(o)
        return _b(mul, self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from . import arr
            return arr.sym_list(o, self)
        return _b(mul, o, self)

    def __truediv__(self, o): return _b(truediv, self, o)
    def __rtruediv__(self, o): return _b(truediv, o, self)
    def __floordiv__(self, o): return _b(floordiv, self, o)
    def __rfloordiv__(self, o): return _b(floordiv, o, self)
    def __mod__(self, o): return _b(mod, self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return _b(mod, o, self)

    def __pow__(self, o): return _b(power, self, o)
    def __rpow__(self, o): return _b(power, o, self)
    def __and__(self, o): return _b(bitand, self, o)
    __rand__ = __and__
    def __or__(self, o): return _b(bitor, self, o)
    __ror__ = __or__
    def __xor__(self, o): return _b(bitxor, self, o)
    __rxor__ = __xor__
    def __lshift__(self, o): return _b(lshift, self, o)
    def __rlshift__(self, o): return _b(lshift, o, self)
    def __rshift__(self, o): return _b(rshift, self, o)
    def __rrshift__(self, o): return _b(rshift, o, self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return absv(self)
    def __invert__(self): return invert(self)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return _b(eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return _b(ne, self, o)

    def __lt__(self, o): return _b(lt, self, o)
    def __le__(self, o): return _b(le, self, o)
    def __gt__(self, o): return _b(gt, self, o)
    def __ge__(self, o): return _b(ge, self, o)

    def __bool__(self):
        return CTX.branch(boolt(self))

    def __hash__(self):
        raise Unsupported('symbolic value used as a key')

    def __index__(self):
        v = CTX.value_of(self)
        if v is None:
            raise Unsupported('symbolic value used where a concrete integer is needed')
        return int(v)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        v = CTX.value_of(self)
        if v is None:
            raise Unsupported('symbolic value converted to a concrete float')
        return float(v)

    def __round__(self, nd=None):
        return coerce(rnd(self), 'i') if nd is None else NotImplemented

    def __floor__(self): return coerce(floor(self), 'i')
    def __ceil__(self): return coerce(ceil(self), 'i')
    def __repr__(self): return 'S(%s)' % self.t
    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    # numpy-scalar like interface
    @property
    def dtype(self):
        return _np.dtype({'i': 'int64', 'f': 'float64', 'b': 'bool'}[self.k])

    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def ndim(self): return 0
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def T(self): return self

    def astype(self, dt, **kw):
        from . import arr
        return coerce(self, arr.dtkind(dt))

    def item(self): return self
    def copy(self): return self
    def conj(self): return self
    conjugate = conj
    def is_integer(self): return True if self.t.sort() == z3.IntSort() else eq(self, floor(self))

    def sum(self, *a, **k): return self
    def any(self, *a): return coerce(self, 'b')
    all = any

    def dot(self, o):
        return self * o


def _b(f, a, b):
    o = b if isinstance(a, S) else a
    if not isinstance(o, (S,) + _NUM + (Fraction,)):
        if isinstance(o, _np.ndarray) or hasattr(o, '_is_arr') or isinstance(o, (list, tuple)):
            from . import arr
            return arr.binop(f, a, b)
        if isinstance(o, complex):
            raise Unsupported('complex')
        if hasattr(o, 't') and hasattr(o, 'k'):
            pass
        else:
            return NotImplemented
    return f(a, b)


# ----------------------------------------------------------------------------------------------
# context: one verification task (a scenario case), explored path by path
# ----------------------------------------------------------------------------------------------
class Obl:
    __slots__ = ('name', 'status', 'model', 'secs', 'path', 'backend', 'detail')

    def __init__(self, name, status, model=None, secs=0.0, path=None, backend='z3', detail=''):
        self.name, self.status, self.model, self.secs, self.path = name, status, model, secs, path
        self.backend, self.detail = backend, detail


def _padd(a, b, k=1):
    r = dict(a)
    for m, v in b.items():
        w = r.get(m, 0) + k * v
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


def _pmul(a, b):
    if len(a) * len(b) > 200000:
        raise OverflowError
    r = {}
    for m, v in a.items():
        for q, w in b.items():
            e = dict(m)
            for x, p in q:
                e[x] = e.get(x, 0) + p
            k = tuple(sorted(e.items()))
            z = r.get(k, 0) + v * w
            if z:
                r[k] = z
            else:
                r.pop(k, None)
    return r


_ONE = {(): Fraction(1)}


def ratpoly(t, dens, memo):
    """t as numerator / denominator, polynomials with exact coefficients over the atoms of t; divisors go to dens"""
    i = t.get_id()
    if i in memo:
        return memo[i][0]
    k = t.decl().kind() if z3.is_app(t) else None
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        r = ({(): f} if f else {}, _ONE)
    elif z3.is_int_value(t):
        f = Fraction(t.as_long())
        r = ({(): f} if f else {}, _ONE)
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        n, d = ratpoly(t.arg(0), dens, memo)
        for q in range(1, t.num_args()):
            a, b = ratpoly(t.arg(q), dens, memo)
            sg = 1 if k == z3.Z3_OP_ADD else -1
            if b == d:
                n = _padd(n, a, sg)
            else:
                n, d = _padd(_pmul(n, b), _pmul(a, d), sg), _pmul(d, b)
        r = (n, d)
    elif k == z3.Z3_OP_UMINUS:
        n, d = ratpoly(t.arg(0), dens, memo)
        r = ({m: -v for m, v in n.items()}, d)
    elif k == z3.Z3_OP_MUL:
        n, d = _ONE, _ONE
        for q in range(t.num_args()):
            a, b = ratpoly(t.arg(q), dens, memo)
            n, d = _pmul(n, a), _pmul(d, b)
        r = (n, d)
    elif k == z3.Z3_OP_DIV:
        n, d = ratpoly(t.arg(0), dens, memo)
        a, b = ratpoly(t.arg(1), dens, memo)
        dens[t.arg(1).get_id()] = t.arg(1)
        if not a:
            raise OverflowError
        r = (_pmul(n, b), _pmul(d, a))
    elif k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() <= 8:
        a, b = ratpoly(t.arg(0), dens, memo)
        n, d = _ONE, _ONE
        for _ in range(t.arg(1).numerator_as_long()):
            n, d = _pmul(n, a), _pmul(d, b)
        r = (n, d)
    elif k == z3.Z3_OP_TO_REAL:
        r = ratpoly(t.arg(0), dens, memo) if z3.is_app(t.arg(0)) and t.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) else ({((t.arg(0).get_id(), 1),): Fraction(1)}, _ONE)
    else:
        r = ({((i, 1),): Fraction(1)}, _ONE)
    memo[i] = (r, t)
    return r


def _eqt(a, b):
    return _r(a) == _r(b) if a.sort() != b.sort() else a == b


class Ctx:
    def __init__(self, rlimit=40_000_000, max_paths=400, deadline=None):
        self.rlimit = rlimit
        self.max_paths = max_paths
        self.deadline = deadline
        self.obls = []          # of finished paths
        self.loopinfo = {}      # persistent per exploration
        self.solver_time = 0.0
        self.queries = 0
        self.spec_mode = False
        self.paths = 0
        self.loops_cut = set()
        self.inv_templates = []
        self.assumed = set()    # names of assumed library contracts used
        self.used_contracts = set()
        self.reset([])

    # -- one run -------------------------------------------------------------------------------
    def reset(self, prefix):
        self.calls = {}
        self.prefix = prefix
        self.decisions = []
        self.counter = 0
        self.solver = z3.Solver()
        self.solver.set('rlimit', 4_000_000)
        self.solver.set('timeout', 20000)
        self.facts = []
        self.guards = []
        self.light = z3.Solver()        # the facts without nonlinear or uninterpreted real terms
        self.light.set('rlimit', 400_000)
        self.light.set('timeout', 2000)
        self.heavy = False
        self.factset = set()
        self.known_cache = {}
        self.sums = []
        self.sumlist = []
        self.sumlens = []
        self.recs = []
        self.args = []
        self.nanok = getattr(self, 'nanok', False)
        self.split_masks = getattr(self, 'split_masks', 0)     # boolean masks up to this size are split by case
        self.foralls = []
        self.skolems = []
        self.sumkeys = {}
        self.inv_templates = []
        self.pairdone = set()
        self.run_obls = []
        self.inputs = {}
        self.draws = []
        self.inst_depth = 0
        self.spec_mode = False
        self.trace = []

    def fresh(self, name, sort='i'):
        self.counter += 1
        n = '%s!%d' % (name, self.counter)
        return {'i': z3.Int, 'f': z3.Real, 'b': z3.Bool}[sort](n)

    def freshfn(self, name, sort='i', arity=1):
        self.counter += 1
        rs = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}[sort]
        return z3.Function('%s!%d' % (name, self.counter), *([z3.IntSort()] * arity + [rs]))

    def assume(self, t):
        t = boolt(t)
        if z3.is_true(t):
            return
        i = t.get_id()
        if i in self.factset:
            return
        self.factset.add(i)
        self.facts.append(t)
        self.solver.add(t)
        if hard(t):
            self.heavy = True
        else:
            self.light.add(t)

    def lightly(self, t):
        """t follows from the easy facts alone (sound: fewer facts)"""
        return self.heavy and not hard(t) and self.light.check(z3.Not(t)) == z3.unsat

    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t0 = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t0
        self.queries += 1
        return r

    def feasible(self, t):
        if self.lightly(z3.Not(t)):
            return False
        return self._check(t) != z3.unsat

    def known(self, t):
        t = boolt(t)
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        key = (t.get_id(), len(self.facts))
        if key in self.known_cache:
            return self.known_cache[key][0]
        r = self.lightly(t) or self._check(z3.Not(t)) == z3.unsat
        self.known_cache[key] = (r, t)
        return r

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.spec_mode:
            # specifications may not fork silently on the first side only: allowed when decided
            if self.lightly(z3.Not(c)):
                return False
            if self.known(c):
                return True
            if self.known(z3.Not(c)):
                return False
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if t and f:
                self.pending.append(self.decisions + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd('infeasible')
        self.decisions.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """nondeterministic choice 0..n-1, all explored"""
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            d = 0
            for j in range(n - 1, 0, -1):       # taken in increasing order
                self.pending.append(self.decisions + [('c', j)])
            d = ('c', 0)
        self.decisions.append(d)
        return d[1]

    def value_of(self, s):
        t = z3.simplify(num(s)[0])
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        # determined by the path condition?
        if self._check() == z3.sat:
            v = self.solver.model().eval(t, model_completion=True)
            if (z3.is_int_value(v) or z3.is_rational_value(v)) and self._check(t != v) == z3.unsat:
                return v.as_long() if z3.is_int_value(v) else Fraction(str(v.as_fraction()))
        return None

    # -- quantified facts ------------------------------------------------------------------------
    def add_forall(self, fn, tag=None):
        """fn(k: S) -> fact, holding for every integer k (fn includes its own range guard)"""
        self.foralls.append([fn, set(), tag])
        for sk in list(self.skolems):
            self._inst(self.foralls[-1], sk)

    def _inst(self, fa, sk):
        if sk.get_id() in fa[1]:
            return
        fa[1].add(sk.get_id())
        self.inst_depth += 1
        try:
            self.assume(boolt(fa[0](S(sk, 'i'))))
        finally:
            self.inst_depth -= 1

    def trigger(self, t):
        """make an index term available to all quantified facts"""
        t = z3.simplify(num(t)[0])
        if any(t.eq(s) for s in self.skolems):
            return
        self.skolems.append(t)
        for fa in list(self.foralls):
            self._inst(fa, t)

    def touch(self, t):
        """an array about which quantified facts are known is read at t"""
        if self.inst_depth == 0 and len(self.skolems) < 400:
            self.trigger(t)

    def skolem(self, name='k', n=None):
        t = self.fresh(name)
        s = S(t, 'i')
        if n is not None:
            self.assume(t >= 0)
            self.assume(boolt(lt(s, n)))
        self.trigger(s)
        return s

    # -- sums and recurrences ----------------------------------------------------------------------
    def sum_term(self, n, body, kind):
        """sum of body(k) for 0 <= k < n, n symbolic"""
        bv = z3.Int('bv!')
        old = self.spec_mode
        self.spec_mode = True
        try:
            b0 = body(S(bv, 'i'))
        finally:
            self.spec_mode = old
        nt = z3.simplify(num(n)[0])
        for q in self.sumlens:
            if q.eq(nt):
                break
            if self.known(nt == q):
                nt = q
                break
        else:
            self.sumlens.append(nt)
        bt, bk = num(b0)
        k = joink(joink(kind, bk), 'i')
        key = ('sum', nt.get_id(), bt.get_id())
        if key in self.sumkeys:
            return self.sumkeys[key][0]
        bt = self.inrange(bt, z3.And(bv >= 0, bv < nt))
        # bodies equal as polynomials over the same atoms have one sum
        bn = bt
        for _ in range(4):
            b2 = z3.simplify(bn, som=True)
            if b2.eq(bn):
                break
            bn = b2
        nkey = ('sumn', nt.get_id(), bn.get_id())
        if nkey in self.sumkeys:
            self.sumkeys[key] = self.sumkeys[nkey][:1] + (nt, bt)
            return self.sumkeys[key][0]
        srt = 'i' if bt.sort() == z3.IntSort() else 'f'
        if z3.is_int_value(bn) or z3.is_rational_value(bn):
            s = ite(S(nt > 0, 'b'), S(nt * bn if srt == 'i' else z3.ToReal(nt) * bn, k), 0)
            self.sumkeys[key] = self.sumkeys[nkey] = (s, nt, bt, bn)
            for s0, n0, b0_, nt0, bt0 in self.sumlist:
                if bt0.sort() == bt.sort() and (nt0.eq(nt) or self.known(nt == nt0)):
                    self.solver.push()
                    self.solver.set('rlimit', 150_000)
                    try:
                        self.solver.add(bv >= 0, bv < nt, bt0 != bt)
                        same = self.solver.check() == z3.unsat
                    finally:
                        self.solver.pop()
                        self.solver.set('rlimit', 4_000_000)
                    if same:
                        self.assume(_eqt(num(s)[0], num(s0)[0]))
            return s
        # bodies proved equal on the whole range have one sum
        if (old or len(self.sums) > 10) and len(self.sumlist) <= 40:
            for s0, n0, b0_, nt0, bt0 in self.sumlist:
                if bt0.sort() != bt.sort() or not (nt0.eq(nt) or self.known(nt == nt0)):
                    continue
                self.solver.push()
                self.solver.set('rlimit', 150_000)
                try:
                    self.solver.add(bv >= 0, bv < nt, bt != bt0)
                    same = self.solver.check() == z3.unsat
                finally:
                    self.solver.pop()
                    self.solver.set('rlimit', 4_000_000)
                if same:
                    self.sumkeys[key] = self.sumkeys[nkey] = (s0, nt, bt, bn)
                    return s0
        s = S(self.fresh('sum', srt), k)
        self.sumlist.append((s, n, body, nt, bt))
        self.sumkeys[key] = (s, nt, bt)
        self.sumkeys[nkey] = (s, nt, bn)
        self.assume(z3.Implies(nt <= 0, s.t == 0))
        self.assume(z3.Implies(nt == 1, s.t == num(body(0))[0]))
        if srt == 'i':
            self.solver.push()
            try:
                self.solver.add(bv >= 0, bv < nt)
                self.solver.set('rlimit', 400_000)
                nonneg = self._check(bt < 0) == z3.unsat
                le1 = self._check(bt > 1) == z3.unsat
            finally:
                self.solver.pop()
                self.solver.set('rlimit', 4_000_000)
            if nonneg:
                self.assume(s.t >= 0)
                self.add_forall(lambda k, s=s, n=n, body=body: Or(lt(k, 0), ge(k, n), ge(s, body(k))))
            if le1:
                self.assume(z3.Implies(nt >= 0, s.t <= nt))
        else:
            q = z3.Solver()
            q.set('rlimit', 300_000)
            q.add(bt < 0)
            if q.check() == z3.unsat:
                self.assume(s.t >= 0)       # a sum of nonnegative terms
        self.sums.append((s, n, body))
        return s

    def inrange(self, t, rng):
        """t with the case distinctions decided that rng settles (one side impossible there)"""
        t = z3.simplify(t)
        for _ in range(8):
            conds, seen, todo = [], set(), [t]
            while todo:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_app_of(e, z3.Z3_OP_ITE):
                    conds.append(e.arg(0))
                todo += e.children()
            sub = []
            for q in conds[:60]:
                if hard(q) or z3.is_true(q) or z3.is_false(q):
                    continue
                if self.light.check(rng, q) == z3.unsat:
                    sub.append((q, z3.BoolVal(False)))
                elif self.light.check(rng, z3.Not(q)) == z3.unsat:
                    sub.append((q, z3.BoolVal(True)))
            if not sub:
                return t
            t = z3.simplify(z3.substitute(t, *sub))
        return t

    def rec_term(self, key, make):
        """share one function symbol between syntactically equal recurrences"""
        if key in self.sumkeys:
            return self.sumkeys[key]
        r = make()
        self.sumkeys[key] = r
        return r

    def extensionality(self):
        """pairwise extensionality of sums: equal length and equal bodies => equal sums"""
        out = []
        for i in range(len(self.sums)):
            for j in range(i):
                if (i, j) in self.pairdone:
                    continue
                self.pairdone.add((i, j))
                s, n, b = self.sums[i]
                t, m, c = self.sums[j]
                if len(self.sums) > 14:
                    continue
                gap = z3.simplify(num(n)[0] - num(m)[0])
                if z3.is_int_value(gap) and gap.as_long() != 0:
                    continue
                self.counter += 1
                sk = z3.Int('ext!%d_%d' % (i, j))
                k = S(sk, 'i')
                self.skolems.append(sk)
                for fa in list(self.foralls):
                    self._inst(fa, sk)
                d = And(ge(k, 0), lt(k, n), ne(b(k), c(k)))
                self.assume(z3.Or(s.t == t.t, num(n)[0] != num(m)[0], boolt(d)))
        for i in range(len(self.recs)):
            for j in range(i):
                if ('r', i, j) in self.pairdone:
                    continue
                self.pairdone.add(('r', i, j))
                f, x, key = self.recs[i]
                g, y, key2 = self.recs[j]
                if key != key2 or len(self.recs) > 8:
                    continue

                def fact(k, f=f, g=g, x=x, y=y, i=i, j=j):
                    # outputs at k agree if the inputs agree at all indices 0..k
                    w = z3.Function('rext!%d_%d' % (i, j), z3.IntSort(), z3.IntSort())(num(k)[0])
                    d = And(ge(S(w, 'i'), 0), le(S(w, 'i'), k), ne(x(S(w, 'i')), y(S(w, 'i'))))
                    return z3.Or(num(f(k))[0] == num(g(k))[0], boolt(d), num(k)[0] < 0)
                self.add_forall(fact)

    # -- obligations -----------------------------------------------------------------------------------
    def nonzero(self, t):
        """t is not zero: by the signs of its terms, or by the solver"""
        t = z3.simplify(t)
        if hard(t == 0):
            try:
                atoms = {}
                n, d = ratpoly(self.inrange(t, z3.BoolVal(True)), {}, atoms)
                if n and len({v > 0 for v in n.values()}) == 1 and len({v > 0 for v in d.values()}) == 1:
                    ids = {x for q in (n, d) for m in q for x, _ in m}
                    if all(self.known(atoms[x][1] > 0) if x in atoms else self.known(self._intatom(atoms, x) > 0) for x in ids):
                        return True
            except (OverflowError, RecursionError, KeyError):
                pass
        return self.known(t != 0)

    @staticmethod
    def _intatom(atoms, x):
        for _, e in atoms.values():
            if z3.is_app_of(e, z3.Z3_OP_TO_REAL) and e.arg(0).get_id() == x:
                return e.arg(0)
        raise KeyError(x)

    def ratid(self, goal):
        """equations that are identities of rational functions in their atoms, by exact arithmetic"""
        parts = goal.children() if z3.is_and(goal) else [goal]
        if len(parts) > 64 or not all(z3.is_eq(g) and g.arg(0).sort() == z3.RealSort() for g in parts):
            return False
        for g in parts:
            dens = {}
            try:
                t = self.inrange(g.arg(0) - g.arg(1), z3.BoolVal(True))
                n, _ = ratpoly(t, dens, {})
            except (OverflowError, RecursionError):
                return False
            if n or not all(self.nonzero(d) for d in dens.values()):
                return False
        return True

    def prove(self, name, goal, local=()):
        """obligation: facts and local assumptions entail goal"""
        t0 = time.time()
        goal = boolt(goal)
        if z3.is_true(z3.simplify(goal)):
            self.run_obls.append(Obl(name, 'proved', None, 0.0, list(self.decisions), 'simplify'))
            return True
        if hard(goal) and self.ratid(goal):
            self.run_obls.append(Obl(name, 'proved', None, time.time() - t0, list(self.decisions), 'exact rational arithmetic'))
            self.queries += 1
            return True
        if len(self.sums) > 1 and self._quick(goal, [boolt(x) for x in local]):
            self.run_obls.append(Obl(name, 'proved', None, time.time() - t0, list(self.decisions), 'z3'))
            self.solver_time += time.time() - t0
            self.queries += 1
            return True
        self.extensionality()
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        status, model, backend = self._decide_parts(goal, [boolt(x) for x in local])
        dt = time.time() - t0
        self.solver_time += dt
        self.queries += 1
        self.run_obls.append(Obl(name, status, model, dt, list(self.decisions), backend))
        return status == 'proved'

    def decide_local(self, goal, local):
        t = z3.simplify(boolt(goal))
        if z3.is_true(t):
            return True
        self.extensionality()
        return self._decide(t, [boolt(x) for x in local], quick=True)[0] == 'proved'

    def _quick(self, goal, local):
        if self.heavy:
            s = self.light
            s.push()
            s.add(*local)
            s.add(z3.Not(goal))
            try:
                if s.check() == z3.unsat:
                    return True
            finally:
                s.pop()
        s = self.solver
        s.push()
        s.add(*local)
        s.add(z3.Not(goal))
        s.set('rlimit', 1_000_000)
        s.set('timeout', 5000)
        try:
            return s.check() == z3.unsat
        finally:
            s.pop()
            s.set('rlimit', 4_000_000)
            s.set('timeout', 20000)

    def _decide_parts(self, goal, local):
        """a conjunction that is not decided at once is decided conjunct by conjunct"""
        parts = goal.children() if z3.is_and(goal) else []
        if len(parts) < 2 or len(parts) > 64:
            return self._decide(goal, local)
        s = self.solver
        s.push()
        s.add(*local)
        s.add(z3.Not(goal))
        s.set('rlimit', self.rlimit)
        s.set('timeout', 3000)
        try:
            r = s.check()
            if r == z3.unsat:
                return 'proved', None, 'z3'
            if r == z3.sat:
                return 'refuted', s.model(), 'z3'
        finally:
            s.pop()
            s.set('rlimit', 4_000_000)
            s.set('timeout', 20000)
        back = 'z3'
        for g in parts:
            st, m, bk = self._decide_parts(g, local)
            if st != 'proved':
                return st, m, bk
            back = bk if bk != 'z3' else back
        return 'proved', None, back

    def _decide(self, goal, local=(), quick=False):
        s = self.solver
        s.push()
        s.add(*local)
        s.add(z3.Not(goal))
        s.set('rlimit', self.rlimit // (4 if quick else 1))
        s.set('timeout', 10000)
        try:
            r = s.check()
            if r == z3.unsat:
                return 'proved', None, 'z3'
            if r == z3.sat:
                m = s.model()
                return 'refuted', m, 'z3'
        finally:
            s.pop()
            s.set('rlimit', 4_000_000)
            s.set('timeout', 20000)
        # further attempts: fresh non-incremental solvers, other strategies
        s2 = None
        for name, opts, limit in (('z3-fresh', {}, 15000), ('z3-arith2', {'arith.solver': 2}, 15000), ('z3-seed', {'random_seed': 7}, 60000)):
            s2 = z3.Solver() if not opts else z3.SimpleSolver()
            for k, v in opts.items():
                s2.set(k, v)
            s2.set('rlimit', self.rlimit // (4 if quick else 1))
            s2.set('timeout', limit)
            for f in self.facts:
                s2.add(f)
            s2.add(*local)
            s2.add(z3.Not(goal))
            if self.deadline and time.time() > self.deadline:
                break
            r = s2.check()
            if r == z3.unsat:
                return 'proved', None, name
            if r == z3.sat:
                return 'refuted', s2.model(), name
            if quick:
                return 'unknown', None, 'z3'
        if quick:
            return 'unknown', None, 'z3'
        r = cvc5_unsat(s2)
        if r:
            return 'proved', None, 'cvc5'
        return 'unknown', None, 'z3+cvc5'

    # -- exploration -------------------------------------------------------------------------------------
    def explore(self, run):
        """run(): executes one path; called until no pending path is left"""
        restarts = 0
        while True:
            self.pending = [[]]
            self.obls = []
            self.paths = 0
            self.completed = 0
            try:
                while self.pending:
                    prefix = self.pending.pop()
                    self.reset(prefix)
                    set_ctx(self)
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise Unsupported('more than %d paths' % self.max_paths)
                    try:
                        run()
                        self.completed += 1
                    except PathEnd:
                        pass
                    self.obls.extend(self.run_obls)
                return
            except Restart:
                restarts += 1
                if restarts > 60:
                    raise Unsupported('loop invariant inference did not stabilise')
            finally:
                set_ctx(None)


def cvc5_unsat(s2, timeout_ms=20000):
    try:
        import cvc5
    except Exception:
        return False
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout_ms))
        slv.setLogic('ALL')
        parser = cvc5.InputParser(slv)
        text = s2.to_smt2()
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'vc')
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if out and out.strip() == 'unsat':
                return True
        return False
    except Exception:
        return False
