"""Loops over a symbolic number of iterations.

`for` over a symbolic-length sequence reaches SymIter.__next__, which sees the frame of the loop.
The loop is cut in the usual way:
   no iteration | first iteration from the exact state | an arbitrary later iteration from a
   havocked state satisfying the invariants | exit from a havocked state satisfying them.
What to havoc is found by comparing the state before and after an iteration (locals of the frame
and everything reachable from them); whenever an iteration is seen to change something not yet in
the set, the exploration restarts with the larger set.  Invariants are candidates instantiated on
the changed locations; a candidate that an iteration does not establish or preserve is dropped and
the exploration restarts (Houdini), so what is finally assumed has been proved inductive.
"""
import collections
import ctypes
import dis
import sys
import types
import numpy as _np
import z3
from . import core as c
from . import arr
from .arr import Arr, CArr, SArr, A, is_c
from .core import S, Unsupported, PathEnd, Restart

_FOR = dis.opmap['FOR_ITER']


class SymRange:
    def __init__(self, start, step, n):
        self.start, self.step = start, step
        if not c.CTX.known(c.boolt(c.ge(n, 0))):
            if c.CTX.branch(c.boolt(c.lt(n, 0))):
                n = 0
        self.n = n

    def el(self, k):
        return c.add(self.start, c.mul(k, self.step))

    def __iter__(self):
        if is_c(self.n):
            return iter([self.el(i) for i in range(self.n)])
        return SymIter(self.n, self.el)

    def _pv_len(self):
        return self.n

    def __getitem__(self, i):
        return self.el(arr.norm_index(i, self.n))


class SymMap:
    def __init__(self, n, el):
        self.n, self._el = n, el

    def el(self, k):
        return self._el(k)

    def __iter__(self):
        if is_c(self.n):
            return iter([self.el(i) for i in range(self.n)])
        return SymIter(self.n, self.el)

    def _pv_len(self):
        return self.n


def is_symseq(x):
    return isinstance(x, (SymRange, SymMap)) or (isinstance(x, SArr) and len(x.shape) > 0 and isinstance(x.shape[0], S))


def seq(x):
    if isinstance(x, (SymRange, SymMap)):
        return x.n, x.el
    if isinstance(x, Arr):
        return x.shape[0], (lambda k: x[k] if not isinstance(k, S) else _row(x, k))
    x = list(x)
    return len(x), (lambda k: x[k])


def _row(x, k):
    old = c.CTX.spec_mode
    c.CTX.spec_mode = True
    try:
        return x[k]
    finally:
        c.CTX.spec_mode = old


def set_local(frame, name, val):
    frame.f_locals[name] = val
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


# ---- state ---------------------------------------------------------------------------------------
SKIP = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, types.MethodType, SymRange, SymMap)


class Snap:
    """flat picture of a frame: path -> (kind, payload)"""

    def __init__(self, frame):
        self.vars = {}       # path -> value (identity)
        self.cont = {}       # path -> content token of a mutable container
        self.objs = {}       # path -> object
        seen = {}
        for n, v in list(frame.f_locals.items()):
            self.visit(('l', n), v, seen, 0)

    def visit(self, path, v, seen, depth):
        self.vars[path] = v
        if depth > 6 or isinstance(v, SKIP) or isinstance(v, (S, str, bytes, int, float, bool, type(None), _np.generic)):
            return
        if id(v) in seen:
            return
        seen[id(v)] = path
        if isinstance(v, SArr):
            st = v.store
            if id(st) in seen:
                return
            seen[id(st)] = path
            if isinstance(st, arr._CStore):
                self.objs[path] = st.a
                self.cont[path] = ('c', st.a.o, st.a.o.copy())
                return
            self.objs[path] = st
            self.cont[path] = ('s', st, st.ver, st.get)
        elif isinstance(v, CArr):
            base = v.o
            while isinstance(base.base, _np.ndarray):
                base = base.base
            if id(base) in seen:
                return
            seen[id(base)] = path
            self.objs[path] = v
            self.cont[path] = ('c', base, base.copy())
        elif isinstance(v, (list, collections.deque)):
            self.objs[path] = v
            self.cont[path] = ('q', v, list(v))
            for i, e in enumerate(v):
                self.visit(path + (i,), e, seen, depth + 1)
        elif isinstance(v, tuple):
            for i, e in enumerate(v):
                self.visit(path + (i,), e, seen, depth + 1)
        elif isinstance(v, dict):
            self.objs[path] = v
            self.cont[path] = ('d', v, dict(v))
            for k, e in v.items():
                self.visit(path + (('k', k),), e, seen, depth + 1)
        elif hasattr(v, '__dict__') and not isinstance(v, SymIter):
            for k, e in list(vars(v).items()):
                self.visit(path + (('a', k),), e, seen, depth + 1)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, S) and isinstance(b, S):
        return a.t.eq(b.t)
    if isinstance(a, (int, float, bool, _np.generic)) and isinstance(b, (int, float, bool, _np.generic)):
        return type(a) is type(b) and a == b
    return False


def diff(a, b):
    """changed locations between two snapshots of the same frame:
       ('var', path) rebinding of a local / attribute / element;  ('cont', path) contents changed"""
    out = {}
    for p, v in b.vars.items():
        if p not in a.vars:
            if len(p) == 2:      # new local
                out[('var', p)] = v
            elif isinstance(p[-1], tuple) and p[-1][0] == 'a':
                # attribute of an object that existed before?
                if p[:-1] in a.vars and a.vars[p[:-1]] is b.vars.get(p[:-1]):
                    out[('var', p)] = v
            continue
        if len(p) == 2 or (isinstance(p[-1], tuple) and p[-1][0] == 'a'):
            if len(p) > 2 and a.vars.get(p[:-1]) is not b.vars.get(p[:-1]):
                continue
            if not same_val(a.vars[p], v):
                out[('var', p)] = v
    for p, tok in a.cont.items():
        k = tok[0]
        if k == 's':
            if tok[1].ver != tok[2]:
                out[('cont', p)] = tok[1]
        elif k == 'c':
            now = tok[1]
            if any(not same_val(x, y) for x, y in zip(now.flat, tok[2].flat)):
                out[('cont', p)] = now
        elif k == 'q':
            now = list(tok[1])
            if len(now) != len(tok[2]) or any(not same_val(x, y) for x, y in zip(now, tok[2])):
                out[('cont', p)] = tok[1]
        elif k == 'd':
            now = tok[1]
            if set(now) != set(tok[2]) or any(not same_val(now[x], tok[2][x]) for x in now):
                out[('cont', p)] = tok[1]
    return out


# ---- havoc ------------------------------------------------------------------------------------------
def template(v):
    """shape description used to make an arbitrary value of the same form"""
    if isinstance(v, MaskErr):
        raise Unsupported('mask')
    if isinstance(v, S) or isinstance(v, (int, float, bool, _np.generic)):
        return ('s', c.kind_of(v))
    if isinstance(v, Arr):
        if any(isinstance(d, S) for d in v.shape):
            return ('A', v.kind, tuple(('S', d.t) if isinstance(d, S) else d for d in v.shape))
        return ('a', v.kind, v.shape)
    if isinstance(v, collections.deque):
        return ('q', v.maxlen, tuple(template(e) for e in v))
    if isinstance(v, list):
        return ('L', tuple(template(e) for e in v))
    if isinstance(v, tuple):
        return ('T', tuple(template(e) for e in v))
    if v is None or isinstance(v, (str, SKIP)):
        return ('k', v)
    raise Unsupported('loop-carried value of type %s' % type(v).__name__)


class MaskErr:
    pass


def tkey(t):
    """comparable form of a template"""
    if t[0] == 'A':
        return ('A', t[1], tuple(str(d[1]) if isinstance(d, tuple) else d for d in t[2]))
    if t[0] in 'qLT':
        return (t[0],) + tuple(x if not isinstance(x, tuple) else tuple(tkey(e) for e in x) for x in t[1:])
    if t[0] == 'k':
        return ('k', id(t[1]))
    return t


def jointpl(a, b):
    if tkey(a) == tkey(b):
        return a
    if a[0] == 's' and b[0] == 's':
        return ('s', c.joink(a[1], b[1]))
    if a[0] == b[0] == 'a' and a[2] == b[2]:
        return ('a', c.joink(a[1], b[1]), a[2])
    if a[0] == b[0] and a[0] in 'LT' and len(a[1]) == len(b[1]):
        return (a[0], tuple(jointpl(x, y) for x, y in zip(a[1], b[1])))
    if a[0] == b[0] == 'q' and len(a[2]) == len(b[2]):
        return ('q', a[1], tuple(jointpl(x, y) for x, y in zip(a[2], b[2])))
    raise Unsupported('loop-carried value changes its form')


def fresh_of(t, name):
    ctx = c.CTX
    if t[0] == 's':
        return S(ctx.fresh(name, t[1] if t[1] != 'f' else 'f'), t[1])
    if t[0] == 'a':
        o = _np.empty(t[2], dtype=object)
        for i in _np.ndindex(*t[2]):
            o[i] = S(ctx.fresh(name, t[1]), t[1])
        return CArr(o, t[1])
    if t[0] == 'A':
        shp = tuple(S(d[1], 'i') if isinstance(d, tuple) else d for d in t[2])
        fn = ctx.freshfn(name, t[1], len(shp))

        def get(i):
            for j in i:
                if isinstance(j, S):
                    ctx.touch(j)
            return S(fn(*[c.num(j)[0] for j in i]), t[1])
        return SArr(shp, get, t[1])
    if t[0] == 'q':
        return collections.deque([fresh_of(e, name) for e in t[2]], maxlen=t[1])
    if t[0] == 'L':
        return [fresh_of(e, name) for e in t[1]]
    if t[0] == 'T':
        return tuple(fresh_of(e, name) for e in t[1])
    if t[0] == 'k':
        return t[1]
    raise Unsupported('havoc')


def resolve(frame, path):
    o = frame.f_locals.get(path[1])
    for p in path[2:]:
        if isinstance(p, tuple):
            o = o[p[1]] if p[0] == 'k' else getattr(o, p[1])
        else:
            o = o[p]
    return o


def assign(frame, path, val):
    if len(path) == 2:
        set_local(frame, path[1], val)
        return
    o = resolve(frame, path[:-1])
    p = path[-1]
    if isinstance(p, tuple) and p[0] == 'a':
        setattr(o, p[1], val)
    else:
        raise Unsupported('havoc of a container element')


# ---- the iterator --------------------------------------------------------------------------------------
class LoopInfo:
    def __init__(self):
        self.mod = {}        # loc -> template (for 'var') or None (for 'cont')
        self.dead = set()    # invariant candidates found not inductive
        self.noinv = False


class SymIter:
    def __init__(self, n, el):
        self.n, self.el = n, el
        self.phase = 0

    def __iter__(self):
        return self

    def __next__(self):
        ctx = c.CTX
        f = sys._getframe(1)
        if self.phase == 0:
            code = f.f_code
            i = f.f_lasti
            if code.co_code[i] != _FOR:
                raise Unsupported('symbolic-length sequence consumed outside a for statement')
            if _in_comprehension(code, i):
                raise Unsupported('comprehension over a symbolic-length sequence')
            return self.enter(f, (code.co_filename, code.co_name, code.co_firstlineno, i))
        self.step_end(f)

    # -- entry
    def enter(self, f, site):
        ctx = c.CTX
        occ = ctx.calls[('loop', site)] = ctx.calls.get(('loop', site), 0) + 1      # executions of the same statement keep separate invariants
        site = site + (occ,)
        self.site = site
        info = self.info = ctx.loopinfo.setdefault(site, LoopInfo())
        n = self.n
        ctx.loops_cut.add('%s:%s' % (site[0].split('/CommDspy/')[-1], site[1]))
        self.init = Snap(f)
        self.initv = {}
        for loc in info.mod:
            self.initv[loc] = self.content(f, loc, frozen=True)
        case = ctx.choose(4)
        if case == 0:
            if not ctx.feasible(c.boolt(c.le(n, 0))):
                raise PathEnd()
            ctx.assume(c.le(n, 0))
            raise StopIteration
        ctx.assume(c.ge(n, 1))
        if ctx._check() == z3.unsat:
            raise PathEnd()
        if case == 1:
            self.phase = 'first'
            self.k = 0
            self.start = self.init
            r = self.el(0)
            return r
        if case == 2:
            self.phase = 'iter'
            k = S(ctx.fresh('it'), 'i')
            self.k = k
            ctx.assume(c.And(c.ge(k, 1), c.lt(k, n)))
            if ctx._check() == z3.unsat:
                raise PathEnd()
            ctx.trigger(k)
            ctx.trigger(c.sub(k, 1))
            self.havoc(f)
            self.assume_inv(f, k)
            self.start = Snap(f)
            return self.el(k)
        self.havoc(f)
        ctx.trigger(c.sub(n, 1))
        self.assume_inv(f, n)
        if ctx._check() == z3.unsat:
            raise PathEnd()
        raise StopIteration

    def step_end(self, f):
        ctx = c.CTX
        end = Snap(f)
        info = self.info
        d = diff(self.start, end)
        grew = False
        for loc, v in d.items():
            if loc[0] == 'var':
                t = template(v)
                old = info.mod.get(loc)
                if old is None:
                    info.mod[loc] = t
                    grew = True
                else:
                    j = jointpl(old, t)
                    if tkey(j) != tkey(old):
                        info.mod[loc] = j
                        grew = True
            elif loc not in info.mod:
                info.mod[loc] = ('cont',)
                grew = True
        if grew:
            raise Restart()
        k1 = c.add(self.k, 1)
        ctx.trigger(self.k)
        bad = False
        for name, cand in self.candidates(f, k1, assume=False):
            if name in info.dead:
                continue
            if not self.check(cand):
                info.dead.add(name)
                bad = True
        if bad:
            raise Restart()
        for name, cand in self.candidates(f, k1, assume=False):
            if name not in info.dead:
                ctx.run_obls.append(c.Obl('loop invariant %s in %s %s' % (name[1], self.site[1], 'established' if self.phase == 'first' else 'preserved'),
                                          'proved', None, 0.0, None, 'z3'))
        raise PathEnd()

    def check(self, cand):
        ctx = c.CTX
        nsk = len(ctx.skolems)
        old = ctx.spec_mode
        try:
            ctx.spec_mode = True
            try:
                local, goals = cand()
            finally:
                ctx.spec_mode = old
            return all(ctx.decide_local(g, local) for g in goals)
        except Unsupported:
            return False
        finally:
            del ctx.skolems[nsk:]

    # -- havoc and invariants
    def content(self, f, loc, frozen=False):
        try:
            v = resolve(f, loc[1])
        except Exception:
            return None
        if frozen and isinstance(v, Arr):
            return v.freeze()
        if frozen and isinstance(v, collections.deque):
            return list(v)
        if frozen and isinstance(v, list):
            return list(v)
        return v

    def havoc(self, f):
        ctx = c.CTX
        info = self.info
        # contents first (paths refer to the present bindings)
        for loc, t in info.mod.items():
            if loc[0] != 'cont':
                continue
            try:
                v = resolve(f, loc[1])
            except Exception:
                raise Unsupported('loop location not found')
            nm = str(loc[1][-1] if not isinstance(loc[1][-1], tuple) else loc[1][-1][1])
            if isinstance(v, SArr) and not isinstance(v.store, arr._CStore):
                st = v.store
                fn = ctx.freshfn('h_' + nm, v.kind, max(1, len(st.shape)))
                kk = v.kind
                def get(i, fn=fn, kk=kk):
                    for j in i:
                        if isinstance(j, S):
                            ctx.touch(j)
                    return S(fn(*[c.num(j)[0] for j in i]), kk)
                st.write(get)
            elif isinstance(v, CArr) or isinstance(v, SArr):
                base = (v.o if isinstance(v, CArr) else v.store.a.o)
                while isinstance(base.base, _np.ndarray):
                    base = base.base
                for i in _np.ndindex(*base.shape):
                    base[i] = S(ctx.fresh('h_' + nm, v.kind), v.kind)
            elif isinstance(v, (list, collections.deque)):
                key = ('elt', loc[1])
                ts = [template(e) for e in v]
                # element kinds after one iteration may be wider: numbers become reals
                new = [fresh_of(('s', 'f') if tt[0] == 's' else tt, 'h_' + nm) for tt in ts]
                for i, e in enumerate(new):
                    v[i] = e
            else:
                raise Unsupported('loop changes a %s' % type(v).__name__)
        for loc, t in info.mod.items():
            if loc[0] == 'var':
                nm = str(loc[1][-1] if not isinstance(loc[1][-1], tuple) else loc[1][-1][1])
                assign(f, loc[1], fresh_of(t, 'h_' + nm))

    def candidates(self, f, k, assume):
        """[(key, thunk -> list of goals)] -- or facts to assume"""
        ctx = c.CTX
        out = []
        n = self.n
        for loc in sorted(self.info.mod, key=str):
            v = self.content(f, loc)
            iv = self.initv.get(loc)
            for name, fn in builtin_candidates(loc, v, iv, k, n) + ctx_templates(v, iv, k, n):
                key = (loc, name)
                out.append((key, fn))
        return out

    def assume_inv(self, f, k):
        ctx = c.CTX
        for key, fn in self.candidates(f, k, True):
            if key in self.info.dead:
                continue
            fn_assume(fn)


def fn_assume(fn):
    r = fn.assume()
    return r


class Inv:
    """universally quantified statement over index ranges: forall j in [lo,hi): body(j)
       (ranges=None: a plain fact)"""

    def __init__(self, body, rng=None):
        self.body, self.rng = body, rng

    def __call__(self):
        ctx = c.CTX
        if self.rng is None:
            return [], [self.body()]
        lo, hi = self.rng
        j = S(ctx.fresh('j'), 'i')
        ctx.trigger(j)
        return [c.And(c.ge(j, lo), c.lt(j, hi))], [self.body(j)]

    def assume(self):
        ctx = c.CTX
        old = ctx.spec_mode
        ctx.spec_mode = True
        try:
            if self.rng is None:
                ctx.assume(self.body())
                return
            lo, hi = self.rng
            body = self.body

            def fact(j):
                o2 = ctx.spec_mode
                ctx.spec_mode = True
                try:
                    return c.Or(c.lt(j, lo), c.ge(j, hi), body(j))
                finally:
                    ctx.spec_mode = o2
            ctx.add_forall(fact)
        finally:
            ctx.spec_mode = old


def builtin_candidates(loc, v, iv, k, n):
    out = []
    if isinstance(v, S) or isinstance(v, (int, float, _np.generic)) and not isinstance(v, bool):
        out.append(('last index', Inv(lambda: c.eq(v, c.sub(k, 1)))))
        if isinstance(iv, (S, int, float, _np.generic)):
            out.append(('unchanged', Inv(lambda: c.eq(v, iv))))
            out.append(('counts up', Inv(lambda: c.eq(v, c.add(iv, k)))))
            out.append(('counts down', Inv(lambda: c.eq(v, c.sub(iv, k)))))
        out.append(('is bit', Inv(lambda: c.And(c.ge(v, 0), c.le(v, 1)))))
    if isinstance(v, SArr) and loc[0] == 'cont' and isinstance(iv, Arr) and len(v.shape) >= 1:
        if len(v.shape) == 1 and isinstance(v.shape[0], S):
            out.append(('rest untouched', Inv(lambda j: c.eq(v.at((j,)), iv.at((j,))), (k, v.shape[0]))))
            out.append(('elements are bits', Inv(lambda j: c.And(c.ge(v.at((j,)), 0), c.le(v.at((j,)), 1)), (0, v.shape[0]))))
    return out


def ctx_templates(v, iv, k, n):
    """candidates supplied by the contract: functions (value, initial value, k, n) -> [(name, Inv)]"""
    ctx = c.CTX
    out = []
    for t in ctx.inv_templates:
        try:
            r = t(v, iv, k, n)
        except (Unsupported, AttributeError, TypeError, IndexError, KeyError):
            continue
        out += r or []
    return out


_COMP = {}


def _in_comprehension(code, i):
    key = (code, i)
    if key in _COMP:
        return _COMP[key]
    r = False
    ins = list(dis.get_instructions(code))
    for q, x in enumerate(ins):
        if x.offset == i:
            end = x.argval
            for y in ins[q + 1:]:
                if y.offset >= end:
                    break
                if y.opname in ('LIST_APPEND', 'SET_ADD', 'MAP_ADD', 'YIELD_VALUE'):
                    r = True
            break
    _COMP[key] = r
    return r
