"""Contracts: a Case gives inputs (requires), a call of the public API, and a postcondition
(ensures).  The same text is used in three ways: to generate proof obligations from the symbolic
execution of the real source, to judge a concrete run of the real code (replay, co-simulation,
bounded stand-in)."""
import collections
import itertools
import json
import math
import random
import signal
import time
import traceback
import types
from fractions import Fraction
import numpy as np
import z3
from . import core as c
from . import arr
from .arr import Arr, CArr, SArr, A, is_c
from .core import S, Unsupported, PathEnd, Restart


class MissingInput(AttributeError):
    """the harness asked for an input it did not make: never the fault of the code under contract"""


class NS(types.SimpleNamespace):
    def __getattr__(self, k):
        raise MissingInput('NS has no %s' % k)

    def __getitem__(self, k):
        return getattr(self, k)


class Case:
    def __init__(self, name, make, run, post, params=None, raises=None, templates=None, subst=(), sym=True, conc=True,
                 trials=60, thorough=None, edge=None, funcs=(), rlimit=None, note='', deadline=150, tol=1e-9, mutcheck=True,
                 max_paths=400, symparams=None, split_masks=0, bound='', nanok=False, sizes=5000):
        self.nanok = nanok
        self.sizes = sizes        # largest size tried next to numbers of the source
        self.split_masks = split_masks
        self.bound = bound
        self.name, self.make, self.run, self.post = name, make, run, post
        self.params = params or [{}]
        self.symparams = symparams        # parameters used for the proof (default: all)
        self.raises, self.templates, self.subst = raises, templates, tuple(subst)
        self.sym, self.conc, self.trials = sym, conc, trials
        self.edge = edge
        self.funcs = list(funcs)
        self.rlimit, self.note, self.deadline, self.tol, self.mutcheck = rlimit, note, deadline, tol, mutcheck
        self.max_paths = max_paths
        self.thorough = thorough or trials * 15


# ---------------------------------------------------------------------------------------------------
# inputs
# ---------------------------------------------------------------------------------------------------
class SymI:
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.decl = []        # (kind, name, ...) for concretisation

    def int(self, name, lo=0, hi=None, **k):
        t = z3.Int(name)
        if lo is not None:
            self.ctx.assume(c.boolt(c.ge(S(t, 'i'), lo)))
        if hi is not None:
            self.ctx.assume(c.boolt(c.le(S(t, 'i'), hi)))
        self.decl.append(('int', name, t, lo, hi))
        return S(t, 'i')

    def real(self, name, lo=None, hi=None, **k):
        t = z3.Real(name)
        if lo is not None:
            self.ctx.assume(t >= z3.RealVal(str(c.frac(lo))))
        if hi is not None:
            self.ctx.assume(t <= z3.RealVal(str(c.frac(hi))))
        self.decl.append(('real', name, t, lo, hi))
        return S(t, 'f')

    def require(self, cond):
        self.ctx.assume(cond)

    def trigger(self, *ts):
        for t in ts:
            self.ctx.trigger(t)

    def ints(self, name, shape, lo=None, hi=None, **k):
        return self._arr(name, shape, 'i', lo, hi)

    def bits(self, name, shape, **k):
        return self._arr(name, shape, 'i', 0, 1)

    def reals(self, name, shape, lo=None, hi=None, **k):
        return self._arr(name, shape, 'f', lo, hi)

    def _arr(self, name, shape, kind, lo, hi):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        shape = tuple(arr.sdim(d) for d in shape)
        a = arr.input_array(name, shape, kind, lo, hi)
        self.decl.append(('arr', name, shape, kind, lo, hi))
        return a

    def const(self, v):
        """concrete array/dict/list seen by the code"""
        from . import npshim
        if isinstance(v, dict):
            return {k: self.const(e) for k, e in v.items()}
        if isinstance(v, np.ndarray):
            return npshim.fromreal(v.copy())
        if isinstance(v, list):
            return [self.const(e) for e in v]
        return v

    def const_input(self, v):
        return self.const(v)

    def seq(self, name, neg, step, kind='i'):
        return SymSeq(self.ctx, name, neg, step, kind)

    def seqbits(self, s, n):
        """array of the first n terms of a 0/1 sequence"""
        def get(i):
            v = s.raw_neg(i[0]) if isinstance(i[0], S) else s.at(i[0])
            if isinstance(i[0], S):
                self.ctx.touch(i[0])
            self.ctx.assume(c.Or(c.lt(i[0], 0), c.eq(v, 0), c.eq(v, 1)))
            return v
        return A(arr.SArr((n,), get, 'i'))

    def concretize(self, m):
        """input values of a model: name -> python value / nested list"""
        out = {}

        def ev(t):
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                return float(f)
            if z3.is_algebraic_value(v):
                a = v.approx(20)
                return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            raise ValueError('no value')

        def clamp(v, lo, hi):
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
            return v
        for d in self.decl:
            if d[0] in ('int', 'real'):
                out[d[1]] = ev(d[2])
            else:
                _, name, shape, kind, lo, hi = d
                shp = [ev(x.t) if isinstance(x, S) else x for x in shape]
                if np.prod([max(s, 0) for s in shp]) > 30000:
                    raise ValueError('input too large')
                f = z3.Function(name, *([z3.IntSort()] * max(1, len(shape)) + [z3.RealSort() if kind == 'f' else z3.IntSort()]))
                a = np.zeros([max(0, s) for s in shp], dtype=float if kind == 'f' else int)
                for i in np.ndindex(*a.shape):
                    a[i] = clamp(ev(f(*[z3.IntVal(q) for q in i])), lo, hi)
                out[name] = a
        return out

    def sizes(self):
        return [d[2] for d in self.decl if d[0] == 'int'] + [x.t for d in self.decl if d[0] == 'arr' for x in d[2] if isinstance(x, S)]


class SymSeq:
    """specification sequence: f(k) = neg(k) for k < 0, step(f, k) for k >= 0"""

    def __init__(self, ctx, name, neg, step, kind):
        self.ctx = ctx
        self.f = z3.Function(name, z3.IntSort(), z3.RealSort() if kind == 'f' else z3.IntSort())
        self.kind, self.neg, self.step = kind, neg, step
        self.done = {}

    def raw(self, k):
        if not isinstance(k, S) and k < 0:
            return self.neg(k)
        t = self.f(c.num(k)[0])
        if isinstance(k, S):
            return S(t, self.kind)
        return S(t, self.kind)

    def at(self, k):
        ctx = self.ctx
        kt = c.num(k)[0]
        key = kt.get_id()
        v = self.raw(k)
        if key not in self.done and not (not isinstance(k, S) and k < 0):
            self.done[key] = kt
            old = ctx.spec_mode
            ctx.spec_mode = True
            try:
                r = self.step(self.raw_neg, k)
                n = self.neg(k) if isinstance(k, S) else None
            finally:
                ctx.spec_mode = old
            vt = c.num(v)[0]
            ctx.assume(z3.Implies(kt >= 0, c.boolt(c.eq(v, r))))
            if n is not None:
                ctx.assume(z3.Implies(kt < 0, c.boolt(c.eq(v, n))))
        return v

    def raw_neg(self, k):
        """value at k inside a definition: initial values are spelled out"""
        if not isinstance(k, S):
            return self.neg(k) if k < 0 else self.raw(k)
        v = self.raw(k)
        kt = c.num(k)[0]
        key = ('n', kt.get_id())
        if key not in self.done:
            self.done[key] = kt
            self.ctx.assume(z3.Implies(kt < 0, c.boolt(c.eq(v, self.neg(k)))))
        return v


class ConSeq:
    def __init__(self, neg, step):
        self.memo, self.neg, self.step = {}, neg, step

    def at(self, k):
        k = int(k)
        if k < 0:
            return self.neg(k)
        if k not in self.memo:
            for j in range(len(self.memo), k + 1):
                self.memo[j] = self.step(lambda q: self.neg(int(q)) if q < 0 else self.memo[int(q)], j)
        return self.memo[k]
    raw = at


class ConI:
    """concrete inputs: random, or given values (replay)"""
    symbolic = False

    def __init__(self, rng=None, values=None, big=False, hints=None, sizes=()):
        self.rng, self.values = rng, values
        self.big = big
        self.hints = hints or {}      # scalar inputs to use; arrays stay random
        self.sizes = list(sizes)      # sizes worth trying
        self.used = collections.OrderedDict()

    def _get(self, name, gen):
        if self.values is not None:
            if name not in self.values:
                raise KeyError('replay value for %s' % name)
            v = self.values[name]
        elif name in self.hints and not isinstance(self.hints[name], np.ndarray):
            v = self.hints[name]
        else:
            v = gen()
        self.used[name] = v.copy() if isinstance(v, np.ndarray) else v
        return v

    def int(self, name, lo=0, hi=None, small=12, large=None, vals=None, **k):
        def gen():
            r = self.rng
            if vals is not None and r.random() < 0.5:
                return r.choice(vals)
            l = lo if lo is not None else -small
            h = l + small if hi is None else hi
            if self.sizes and r.random() < 0.5:
                q = [v for v in self.sizes if v >= l and (hi is None or v <= hi)]
                if q:
                    return r.choice(q)
            if self.big and large is not None:
                h = large if hi is None else min(hi, large)
            if r.random() < 0.15:
                return l
            return r.randint(l, h)
        return int(self._get(name, gen))

    def real(self, name, lo=None, hi=None, small=4, vals=None, **k):
        def gen():
            r = self.rng
            if vals is not None and r.random() < 0.5:
                return r.choice(vals)
            l = lo if lo is not None else -small
            h = hi if hi is not None else small
            if r.random() < 0.5:
                return math.floor(r.uniform(l, h) * 16) / 16 if math.floor(r.uniform(l, h) * 16) / 16 >= l and False else min(max(math.floor(r.uniform(l, h) * 16) / 16, l), h)
            return r.uniform(l, h)
        return float(self._get(name, gen))

    def require(self, cond):
        if not cond:
            raise Skip()

    def _shape(self, shape):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        return tuple(int(d) for d in shape)

    def ints(self, name, shape, lo=None, hi=None, small=6, **k):
        shape = self._shape(shape)
        l = lo if lo is not None else -small
        h = hi if hi is not None else l + 2 * small

        def gen():
            r = self.rng
            mode = r.random()
            v = r.randint(l, h)
            if mode < 0.12:
                return np.full(shape, v, dtype=int)
            # mostly one value, long runs, or anything
            keep, fresh = (0.93, False) if mode < 0.24 else (0.9, True) if mode < 0.36 else (0, True)
            a = np.empty(shape, dtype=int)
            w = v
            for i in np.ndindex(*shape):
                if r.random() >= keep:
                    w = r.randint(l, h)
                    if fresh:
                        v = w
                else:
                    w = v
                a[i] = w
            return a
        return np.array(self._get(name, gen), dtype=int).reshape(shape)

    def bits(self, name, shape, **k):
        return self.ints(name, shape, 0, 1)

    def reals(self, name, shape, lo=None, hi=None, small=4, grid=None, **k):
        shape = self._shape(shape)
        l = lo if lo is not None else -small
        h = hi if hi is not None else small

        def gen():
            r = self.rng
            g = r.choice([1, 2, 4, 16, None]) if grid is None else grid
            scale = 1.0
            if lo is None and hi is None and grid is None:
                q = r.random()
                scale = 1024.0 if q < 0.08 else 2.0 ** -10 if q < 0.14 else 1.0
            sparse = 0.8 if l <= 0 <= h and grid is None and r.random() < 0.1 else 0
            a = np.empty(shape, dtype=float)
            for i in np.ndindex(*shape):
                v = r.uniform(l, h)
                if g:
                    v = min(max(round(v * g) / g, l), h)
                a[i] = v * scale if not sparse or r.random() > sparse else 0.0
            return a
        return np.array(self._get(name, gen), dtype=float).reshape(shape)

    def const(self, v):
        if isinstance(v, dict):
            return {k: self.const(e) for k, e in v.items()}
        if isinstance(v, np.ndarray):
            return v.copy()
        if isinstance(v, list):
            return [self.const(e) for e in v]
        return v
    const_input = const

    def seq(self, name, neg, step, kind='i'):
        return ConSeq(neg, step)

    def seqbits(self, s, n):
        return np.array([s.at(k) for k in range(n)], dtype=int)


class Skip(Exception):
    pass


# ---------------------------------------------------------------------------------------------------
# postcondition environments
# ---------------------------------------------------------------------------------------------------
class BaseE:
    pass


class SymE(BaseE):
    symbolic = True

    def __init__(self, ctx, inputs):
        self.ctx = ctx
        self.inp = inputs
        self.fail = []

    # values
    def eq(self, a, b): return c.eq(_s(a), _s(b))
    def ne(self, a, b): return c.Not(c.eq(_s(a), _s(b)))
    def le(self, a, b): return c.le(_s(a), _s(b))
    def lt(self, a, b): return c.lt(_s(a), _s(b))
    def ge(self, a, b): return c.ge(_s(a), _s(b))
    def gt(self, a, b): return c.gt(_s(a), _s(b))
    def and_(self, *a): return c.And(*a)
    def or_(self, *a): return c.Or(*a)
    def not_(self, a): return c.Not(a)
    def implies(self, a, b): return c.Or(c.Not(a), b)
    def ite(self, q, a, b): return c.ite(q, _s(a), _s(b))
    def abs(self, a): return c.absv(_s(a))
    def isbit(self, a): return c.Or(c.eq(_s(a), 0), c.eq(_s(a), 1))
    def min(self, *a):
        r = a[0]
        for v in a[1:]:
            r = c.minv(r, v)
        return r
    def max(self, *a):
        r = a[0]
        for v in a[1:]:
            r = c.maxv(r, v)
        return r
    def div(self, a, b): return c.floordiv(_s(a), b)
    def mod(self, a, b): return c.mod(_s(a), b)
    def tdiv(self, a, b): return c.truediv(_s(a), b)

    def qdiv(self, a, b):
        """quotient used only where b is not zero"""
        if not isinstance(b, S):
            return c.truediv(_s(a), b)
        return c.mk(c._r(c.num(_s(a))[0]) / c._r(c.num(b)[0]), 'f')

    def sum(self, n, f, kind='f'):
        if is_c(n):
            r = 0
            for k in range(int(n)):
                r = c.add(r, _s(f(k)))
            return r
        return self.ctx.sum_term(n, lambda k: _s(f(k)), kind)

    def at(self, a, *idx):
        a = A(a)
        return a.at(tuple(_s(i) for i in idx))

    def len(self, a):
        a = A(a)
        return a.shape[0]

    def shape(self, a):
        if not isinstance(a, Arr) and not isinstance(a, (list, tuple)):
            return ()
        return A(a).shape

    def known(self, cond): return self.ctx.known(c.boolt(cond))

    # obligations
    def check(self, cond, name='post'):
        self._prove(name, cond, [])

    def _prove(self, name, goal, local):
        ctx = self.ctx
        if not ctx.prove(name, goal, local):
            ob = ctx.run_obls[-1]
            ob.model = self._models(goal, local) if ob.status == 'refuted' else []

    def _models(self, goal, local, want=6, rlimit=6_000_000, secs=60):
        """inputs of counterexamples, short ones first"""
        out = []
        s = self.ctx.solver
        sizes = self.inp.sizes()
        t0 = time.time()
        s.push()
        try:
            s.add(z3.Not(c.boolt(goal)), *[c.boolt(x) for x in local])
            for bound in (2, 3, 5, 8, 30, 300, None):
                if time.time() - t0 > secs:
                    break
                s.push()
                try:
                    if bound is not None:
                        for t in sizes:
                            s.add(t <= bound)
                    s.set('rlimit', rlimit)
                    s.set('timeout', secs * 1000)
                    if s.check() == z3.sat:
                        try:
                            m = self.inp.concretize(s.model())
                        except (ValueError, ArithmeticError):
                            continue
                        out.append(m)
                finally:
                    s.pop()
                if len(out) >= want or (out and not sizes and bound != 2):
                    break
        finally:
            s.pop()
            s.set('rlimit', 4_000_000)
            s.set('timeout', 20000)
        return out

    def _small(self, goal, local, ob):
        m = self._models(goal, local, 1, 1_000_000, 6)
        return m[0] if m else None

    def exists(self, n, conds, name):
        """some r, 0 <= r < n, satisfies every condition (dims, fn) of conds(r); the witness is taken among the
        positions of extrema found by the code"""
        ctx = self.ctx
        cands = list(ctx.args) + [0]
        for cand in cands:
            ok = True
            for dims, fn in [((), lambda: c.And(c.ge(cand, 0), c.lt(cand, n)))] + conds(cand):
                ks = [S(ctx.fresh('k'), 'i') for d in dims]
                for k in ks:
                    ctx.trigger(k)
                loc = [q for k, d in zip(ks, dims) for q in (c.ge(k, 0), c.lt(k, d))]
                if not ctx.decide_local(fn(*ks), loc):
                    ok = False
                    break
            if ok or cand is cands[-1]:
                if not ok:
                    cand = cands[0]
                self.check(c.And(c.ge(cand, 0), c.lt(cand, n)), name)
                for dims, fn in conds(cand):
                    self.forall(tuple(dims), fn, name)
                return ok

    def link(self, n, rel, name='link'):
        """lemma: rel(r, k) for all 0 <= k < n, for some recurrence r produced by the code, by induction on k"""
        ctx = self.ctx
        for at, _, _ in list(ctx.recs):
            k = S(ctx.fresh('k'), 'i')
            ctx.trigger(k)
            ctx.trigger(c.add(k, 1))
            try:
                base, step, hyp = rel(at, 0), rel(at, c.add(k, 1)), rel(at, k)
            except Unsupported:
                continue
            if not ctx.decide_local(base, []):
                continue
            if not ctx.decide_local(step, [c.ge(k, 0), c.lt(c.add(k, 1), n), hyp]):
                continue
            ctx.prove(name + ' (base)', base)
            ctx.prove(name + ' (induction step)', step, [c.ge(k, 0), c.lt(c.add(k, 1), n), hyp])
            ctx.add_forall(lambda j, at=at: c.Or(c.lt(j, 0), c.ge(j, n), rel(at, j)))
            return True
        return False

    def forall(self, dims, fn, name='post', limit=4000):
        if not isinstance(dims, (tuple, list)):
            dims = (dims,)
        ctx = self.ctx
        axes = []
        local = []
        for d in dims:
            if isinstance(d, S):
                k = S(ctx.fresh('k'), 'i')
                if isinstance(d, arr.MaskDim):
                    local += [c.ge(k, 0), c.lt(k, d.mask.shape[0]), c.coerce(d.mask.at((k,)), 'b')]
                else:
                    local += [c.ge(k, 0), c.lt(k, d)]
                axes.append([k])
            else:
                axes.append(range(int(d)))
        for l in local:
            pass
        n = 0
        goals = []
        nsk = len(ctx.skolems)
        for idx in itertools.product(*axes):
            for i in idx:
                if isinstance(i, S):
                    ctx.trigger(i)
            n += 1
            if n > limit:
                raise Unsupported('postcondition over too many positions')
            goals.append(fn(*idx))
        if not goals:
            return
        # discharge in groups
        B = 16
        for q in range(0, len(goals), B):
            self._prove(name, c.And(*goals[q:q + B]), local)
        del ctx.skolems[nsk:]

    def same_shape(self, a, shape, name='shape'):
        sh = self.shape(a)
        if len(sh) != len(shape):
            self.check(False, name + ' (number of dimensions %d instead of %d)' % (len(sh), len(shape)))
            return False
        for d, e in zip(sh, shape):
            self.check(c.eq(d, e) if not isinstance(d, arr.MaskDim) else c.eq(S(d.t, 'i'), e), name)
        return True

    def trigger(self, *ts):
        for t in ts:
            self.ctx.trigger(t)

    def assume_lemma(self, cond):
        self.ctx.assume(cond)


def _s(v):
    if isinstance(v, Arr):
        return v.as_scalar()
    return v


class ConE(BaseE):
    symbolic = False

    def __init__(self, tol=1e-9):
        self.tol = tol
        self.fail = []
        self.n = 0

    def eq(self, a, b):
        a, b = _f(a), _f(b)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if isinstance(a, complex) or isinstance(b, complex):
            return abs(a - b) <= self.tol * (1 + abs(b))
        if a == b:
            return True
        if math.isfinite(b) and abs(b) > 1e200 and abs(a) > 1e200:
            raise Skip()            # a diverging recursion about to leave the range of the floats
        if not (math.isfinite(a) and math.isfinite(b)):
            return False
        return abs(a - b) <= self.tol * (1 + max(abs(a), abs(b)))

    def ne(self, a, b): return not self.eq(a, b)
    def le(self, a, b): return _f(a) <= _f(b) + self.tol * (1 + abs(_f(b)))
    def lt(self, a, b): return _f(a) < _f(b)
    def ge(self, a, b): return self.le(b, a)
    def gt(self, a, b): return self.lt(b, a)
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or b
    def ite(self, q, a, b): return a if q else b
    def abs(self, a): return abs(a)
    def isbit(self, a): return _f(a) in (0, 1)
    def min(self, *a): return min(a)
    def max(self, *a): return max(a)
    def div(self, a, b): return a // b
    def mod(self, a, b): return a % b
    def tdiv(self, a, b): return a / b
    def qdiv(self, a, b): return a / b if b else 0.0

    def sum(self, n, f, kind='f'):
        r = 0
        for k in range(int(n)):
            r = r + f(k)
        return r

    def at(self, a, *idx):
        a = np.asarray(a)
        for d, i in zip(a.shape, idx):
            if not 0 <= i < d:
                return 0
        v = a[tuple(int(i) for i in idx)]
        return v.item() if isinstance(v, np.generic) or (isinstance(v, np.ndarray) and v.size == 1) else v

    def len(self, a): return len(a)
    def shape(self, a): return np.shape(a)
    def known(self, cond): return bool(cond)

    def check(self, cond, name='post'):
        self.n += 1
        if not cond:
            self.fail.append(name)

    def forall(self, dims, fn, name='post', limit=4000):
        if not isinstance(dims, (tuple, list)):
            dims = (dims,)
        for idx in itertools.product(*[range(int(d)) for d in dims]):
            self.n += 1
            if not fn(*idx):
                self.fail.append('%s at %s' % (name, list(idx)))
                return

    def same_shape(self, a, shape, name='shape'):
        self.n += 1
        if tuple(np.shape(a)) != tuple(int(s) for s in shape):
            self.fail.append('%s: %s instead of %s' % (name, tuple(np.shape(a)), tuple(int(s) for s in shape)))
            return False
        return True

    def exists(self, n, conds, name):
        self.n += 1
        for r in range(int(n)):
            if all(fn(*k) for dims, fn in conds(r) for k in itertools.product(*[range(int(d)) for d in dims])):
                return True
        self.fail.append(name)

    def trigger(self, *ts): pass
    def link(self, n, rel, name=''): return True
    def assume_lemma(self, cond): pass


def _f(v):
    if isinstance(v, np.ndarray):
        if v.size != 1:
            return float('nan')
        v = v.reshape(-1)[0]
    if isinstance(v, np.generic):
        v = v.item()
    return v


# ---------------------------------------------------------------------------------------------------
# running a case
# ---------------------------------------------------------------------------------------------------
def pcopy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: pcopy(e) for k, e in v.items()}
    if isinstance(v, list):
        return [pcopy(e) for e in v]
    if isinstance(v, tuple):
        return tuple(pcopy(e) for e in v)
    if isinstance(v, Arr):
        return v.freeze()
    return v


def freeze_ns(x):
    return NS(**{k: pcopy(v) for k, v in vars(x).items()})


EXC = (ValueError, TypeError, IndexError, KeyError, AttributeError, ZeroDivisionError, UnboundLocalError, NameError,
       AssertionError, ArithmeticError, RuntimeError, NotImplementedError, LookupError, StopIteration, ImportError, OSError)


class Outcome:
    def __init__(self, val=None, exc=None):
        self.val, self.exc = val, exc


def judge(E, case, x, out, p):
    """apply the postcondition to an outcome"""
    want = case.raises(x, p) if callable(case.raises) and not isinstance(case.raises, type) else case.raises
    if want is not None and want is not False and not isinstance(want, type):
        # symbolic/concrete condition: raises ValueError exactly when it holds
        if out.exc is not None:
            E.check(want if isinstance(out.exc, ValueError) else False,
                    'raises ValueError only when documented (got %s)' % type(out.exc).__name__)
        else:
            E.check(E.not_(want), 'raises ValueError when documented')
            case.post(E, x, out.val, p)
        return
    if want is not None and want is not False:
        E.check(out.exc is not None and isinstance(out.exc, want), 'raises %s (got %s)' % (
            want.__name__, 'a result' if out.exc is None else type(out.exc).__name__))
        return
    if out.exc is not None:
        E.check(False, 'returns normally (raised %s: %s)' % (type(out.exc).__name__, str(out.exc)[:120]))
        return
    case.post(E, x, out.val, p)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_concrete(case, p, P, values=None, rng=None, big=False, mut=None, seconds=60, model=False, hints=None, sizes=()):
    """-> (failures, inputs used, checks) ; P(path) -> callable of the real package"""
    I = ConI(rng, values, big, hints, sizes)
    x = case.make(I, p)
    x0 = freeze_ns(x)
    if mut is not None:
        P = Watch(P)
    np.random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        try:
            with np.errstate(all='ignore'):
                out = Outcome(val=case.run(P, x, p))
        except MissingInput:
            raise Skip()
        except EXC as e:
            out = Outcome(exc=e)
    except Timeout:
        if model:
            raise Skip()
        return ['does not finish within %d s' % seconds], I.used, 1
    except MemoryError:
        raise Skip()
    finally:
        signal.alarm(0)
    E = ConE(case.tol)
    if mut is not None:
        mut(E, x0, x, P.calls)
    else:
        try:
            judge(E, case, x0, out, p)
        except MissingInput:
            raise Skip()
        except (TypeError, ValueError, IndexError, AttributeError, KeyError, OverflowError) as e:
            E.fail.append('result has an unexpected form (%s: %s)' % (type(e).__name__, str(e)[:100]))
    return E.fail, I.used, E.n


def mut_check(E, x0, x, calls):
    for k, v in vars(x).items():
        _mut(E, k, getattr(x0, k), v)
    for name, before, after, res in calls:
        for k in before:
            _mut(E, '%s of %s' % (k, name), before[k], after[k])
        alias_check(E, res, name)


class Watch:
    """P with the arguments of every call recorded before and after it"""

    def __init__(self, P):
        self.P, self.calls = P, []

    def __getattr__(self, k):
        return getattr(self.P, k)

    def __call__(self, path):
        f = self.P(path)
        if not isinstance(f, types.FunctionType):
            return f

        def call(*a, **k):
            args = dict(enumerate(a))
            args.update(k)
            args = {'argument %s' % q: v for q, v in args.items() if isinstance(v, (np.ndarray, Arr, list, dict, tuple))}
            before = {q: pcopy(v) for q, v in args.items()}
            res = None
            try:
                res = f(*a, **k)
            finally:
                if len(self.calls) < 60:
                    self.calls.append((path, before, {q: pcopy(v) for q, v in args.items()}, res))
            return res
        return call


def _arrays(y, depth=0):
    if isinstance(y, (np.ndarray, Arr)):
        return [y] if len(y.shape) else []
    if isinstance(y, (tuple, list)) and depth < 3:
        return [a for v in y for a in _arrays(v, depth + 1)]
    return []


def alias_check(E, y, name):
    """writing to one returned array leaves the other returned arrays as they are"""
    r = list({id(a): a for a in _arrays(y)}.values())
    if len(r) < 2 or len(r) > 40:
        return
    for i, a in enumerate(r):
        rest = [b for j, b in enumerate(r) if j != i]
        if isinstance(a, np.ndarray):
            E.n += 1
            rest = [b for b in rest if isinstance(b, np.ndarray) and np.shares_memory(a, b)]
            if not rest or not a.flags.writeable:
                continue
            keep, old = [b.copy() for b in rest], a.copy()
            a[...] = ~a if a.dtype == bool else a + 1
            if any(not np.array_equal(u, v) for u, v in zip(keep, rest)):
                E.fail.append('writing to array %d returned by %s changes another returned array' % (i, name))
            a[...] = old
            continue
        rest = [b for b in rest if isinstance(b, Arr) and (
            a.store is b.store if a.store is not None else b.store is None and np.shares_memory(a.o, b.o))]
        if not rest:
            E.check(True, 'array %d returned by %s has storage of its own' % (i, name))
            continue
        keep, old = [b.freeze() for b in rest], a.freeze()
        a[...] = old == 0 if a.kind == 'b' else old + 1
        for u, v in zip(keep, rest):
            E.forall(tuple(u.shape), lambda *k, u=u, v=v: c.eq(u.at(k), v.at(k)), 'array %d returned by %s is independent of the others' % (i, name))
        a[...] = old


def _mut(E, name, a, b):
    if isinstance(b, np.ndarray):
        E.check(a.shape == b.shape and bool(np.all((a == b) | (a != a) & (b != b))), 'argument %s modified' % name)
    elif isinstance(b, Arr):
        ok = len(a.shape) == len(b.shape)
        if not ok:
            E.check(False, 'argument %s modified' % name)
            return
        E.forall(tuple(a.shape), lambda *i: c.eq(a.at(i), b.at(i)), 'argument %s unchanged' % name)
    elif isinstance(b, dict):
        for k in b:
            _mut(E, '%s[%s]' % (name, k), a[k], b[k])
    elif isinstance(b, (list, tuple)):
        if len(a) != len(b):
            E.check(False, 'argument %s modified' % name)
            return
        for i, (u, v) in enumerate(zip(a, b)):
            if isinstance(v, (np.ndarray, Arr, list, dict)):
                _mut(E, '%s[%d]' % (name, i), u, v)
            elif not isinstance(v, S) and isinstance(v, (int, float)):
                E.check(u == v, 'argument %s modified' % name)


class SymResult:
    def __init__(self):
        self.status = 'proved'
        self.obls = []
        self.reason = ''
        self.paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.bad = []       # (name, status, inputs)
        self.witnesses = []
        self.assumed = set()
        self.contracts = set()
        self.loops = set()
        self.secs = 0.0
        self.nprove = 0


def run_symbolic(case, p, repo_factory, mut=False, deadline=None, contracts=None):
    """prove the case for parameter p; repo_factory() -> loader.Repo"""
    res = SymResult()
    t0 = time.time()
    ctx = c.Ctx(rlimit=case.rlimit or 20_000_000, max_paths=case.max_paths, deadline=t0 + (deadline or case.deadline))
    ctx.split_masks = case.split_masks
    ctx.nanok = case.nanok
    repo = repo_factory()

    def P(path):
        return repo.get('CommDspy.' + path)

    undo = []

    def one():
        I = SymI(ctx)
        ctx.draws = []
        x = case.make(I, p)
        x0 = freeze_ns(x)
        if case.templates:
            ctx.inv_templates = case.templates(x0, p)
        W = Watch(P) if mut else P
        try:
            out = Outcome(val=case.run(W, x, p))
        except EXC as e:
            out = Outcome(exc=e)
            out.tb = traceback.format_exc()
        if ctx._check() == z3.unsat:
            raise PathEnd()
        # witness of this path for co-simulation
        w = None
        E = SymE(ctx, I)
        if len(res.witnesses) < 40:
            w = E._small(z3.BoolVal(False), [], None)
            if w is not None:
                res.witnesses.append(w)
        ctx.spec_mode = True
        n0 = len(ctx.run_obls)
        try:
            if mut:
                mut_check(E, x0, x, W.calls)
            else:
                judge(E, case, x0, out, p)
        finally:
            ctx.spec_mode = False
        for ob in ctx.run_obls[n0:]:
            if ob.status != 'proved' and out.exc is not None:
                ob.detail = getattr(out, 'tb', '')

    try:
        for name in case.subst:
            f = None
            try:
                mod, _, fn = name.rpartition('.')
                m = repo.modules.get(mod)       # the module may be shadowed by a function of its name
                f = getattr(m, fn) if m is not None and hasattr(m, fn) else repo.get(name)
            except AttributeError:
                continue
            if contracts and name in contracts and isinstance(f, types.FunctionType):
                undo += repo.substitute(f, contracts[name](repo, f))
                res.contracts.add(name)
        ctx.explore(one)
        res.status = 'proved'
        for ob in ctx.obls:
            if ob.status != 'proved':
                res.bad.append((ob.name, ob.status, ob.model, ob.detail))
        if res.bad:
            res.status = 'refuted' if any(b[1] == 'refuted' for b in res.bad) else 'unknown'
        elif not ctx.obls:
            res.status = 'unsupported'
            res.reason = 'no obligation generated'
    except Unsupported as e:
        res.status = 'unsupported'
        res.reason = str(e)
    except RecursionError:
        res.status = 'unsupported'
        res.reason = 'recursion'
    except z3.Z3Exception as e:
        res.status = 'unsupported'
        res.reason = 'z3: %s' % str(e)[:150]
    except (SystemExit, KeyboardInterrupt):
        raise
    except Exception as e:      # engine error: never an alarm
        res.status = 'unsupported'
        res.reason = 'engine: %s: %s' % (type(e).__name__, str(e)[:150])
        res.trace = traceback.format_exc()
    finally:
        for m, k, v in undo:
            m.__dict__[k] = v
    res.obls = ctx.obls
    res.paths = ctx.paths
    res.solver_time = ctx.solver_time
    res.queries = ctx.queries
    res.assumed = ctx.assumed
    res.loops = ctx.loops_cut
    res.secs = time.time() - t0
    return res
