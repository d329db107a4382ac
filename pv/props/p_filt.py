"""C19 FFE/DFE, C20 filter objects, C21 channel, pulse shaping and CTLE filtering."""
import itertools
import numpy as np
from pv import core as c
from pv import arr
from pv.arr import A, SArr, CArr
from pv.core import S
from pv.loops import Inv
from pv.spec import Case, NS

CASES = {'C19': [], 'C20': [], 'C21': []}
LEV = {None: [-3., -1., 1., 3.], 'nrz': [-1., 1.], 'pam3': [-1., 0., 1.], 'odd': [-2., -0.5, 3.]}


def near(v, levels):
    """nearest level, the lower one on a tie"""
    r = levels[0]
    if not isinstance(v, S) and not any(isinstance(l, S) for l in levels):
        for l in levels[1:]:
            if abs(v - l) < abs(v - r):
                r = l
        return r
    for l in levels[1:]:
        r = c.ite(c.lt(c.absv(c.sub(v, l)), c.absv(c.sub(v, r))), l, r)
    return r


# ---- C19 -------------------------------------------------------------------------------------------
def vals(v, n):
    return [A(v).at((i,)) for i in range(n)] if not isinstance(v, np.ndarray) else [float(e) for e in v]


def taps(I, p, name, key):
    t = p.get(key)
    if t is None:
        return None
    if isinstance(t, int):
        return I.reals(name, t, -2, 2, grid=8)
    return I.const(np.array(t, dtype=float))


def eq_mk(I, p):
    osr, ph = p.get('osr', 1), p.get('phase', 0)
    if p.get('chunks'):
        m1 = I.int('m1', 1, small=7)
        m2 = I.int('m2', 1, small=7)
        n = (m1 + m2) * osr
    else:
        n = I.int('n', 1, small=14, large=50)
        m1 = None
    x = NS(n=n, x=I.reals('x', n) if not p.get('int') else I.ints('x', n))
    x.f = taps(I, p, 'f', 'ffe')
    x.d = taps(I, p, 'd', 'dfe')
    x.levels = I.const(np.array(LEV[p['levels']])) if p.get('levels') else None
    x.cut = None if m1 is None else m1 * osr
    L = A(x.f).shape[0] if I.symbolic else len(x.f)
    D = 0 if x.d is None else (A(x.d).shape[0] if I.symbolic else len(x.d))
    x.zf = I.reals('zf', L - p.get('short', 0)) if p.get('zf') else None
    x.zd = I.reals('zd', D) if p.get('zd') else None
    fr = (lambda a: a.freeze() if isinstance(a, arr.Arr) else a.copy() if isinstance(a, np.ndarray) else a)
    xs, fs, zfs = fr(x.x), vals(fr(x.f), L), fr(x.zf)
    ds = [] if x.d is None else vals(fr(x.d), D)
    zds = fr(x.zd)
    lv = LEV[p.get('levels')]

    def past(k):
        """input sample at k, the given memory before the start"""
        if not I.symbolic:
            if k >= 0:
                return float(xs[k]) if k < len(xs) else 0.0
            return float(zfs[k]) if zfs is not None and -k <= len(zfs) else 0.0
        neg = 0.0
        if zfs is not None:
            m = zfs.shape[0]
            for i in range(1, m + 1):
                neg = c.ite(c.eq(k, -i), zfs.at((m - i,)), neg)
        return c.ite(c.ge(k, 0), xs.at((k,)), neg)

    def dec(s, q):
        """decision of symbol q; the given memory before the start"""
        if not I.symbolic:
            if q >= 0:
                return near(s(ph + osr * q), lv)
            return float(zds[-1 - q]) if zds is not None and -1 - q < D else 0.0
        neg = 0.0
        if zds is not None:
            for i in range(D):
                neg = c.ite(c.eq(q, -1 - i), zds.at((i,)), neg)
        return c.ite(c.ge(q, 0), near(s(c.add(c.mul(q, osr), ph)), lv), neg)

    def last(k):
        """last symbol decided before sample k"""
        v = (k - 1 - osr // 2 - ph) // osr
        return c.maxv(v, -1) if isinstance(v, S) else max(v, -1)

    def step(s, k):
        v = 0.0
        for l, t in enumerate(fs):
            v = v + t * past(k - l)
        q = last(k)
        for j, t in enumerate(ds):
            v = v - t * dec(s, q - j)
        return v
    x.s = I.seq('s', lambda k: 0.0, step, 'f')
    x.spec = NS(dec=dec, last=last, D=D, L=L, lv=lv, past=past)
    return x


def eq_tpl(x, p):
    s, sp = x.s, x.spec
    osr = p.get('osr', 1)
    out = []
    for off, nm in ((0, ''),) if x.cut is None else ((0, ''), (x.cut, ' (continued)')):
        def t(v, iv, k, n, off=off, nm=nm):
            if isinstance(v, SArr) and len(v.shape) == 1 and isinstance(v.shape[0], S):
                def body(j):
                    s.at(c.add(c.sub(k, 1), off))
                    return c.eq(v.at((j,)), s.raw(c.add(j, off)))

                def body2(j):
                    s.at(c.add(c.sub(k, 1), off))
                    return c.eq(v.at((j,)), near(s.raw(c.add(j, off)), sp.lv))
                return [('slicer inputs so far' + nm, Inv(body, (0, k))), ('decisions so far' + nm, Inv(body2, (0, k)))]
            if isinstance(v, CArr) and v.shape == (sp.D,):
                q = sp.last(c.add(k, off))
                return [('decision memory' + nm, Inv(lambda: c.And(*[c.eq(v.o[j], sp.dec(s.raw, c.sub(q, j))) for j in range(sp.D)])))]
            return []
        out.append(t)
    return out


def eq_kw(x, p):
    k = {}
    if x.levels is not None:
        k['levels'] = x.levels
    if p.get('osr', 1) != 1:
        k['osr'] = p['osr']
        k['phase'] = p.get('phase', 0)
    if x.d is not None:
        k['dfe_taps'] = x.d
    return k


def eq_run(P, x, p):
    f = P('rx.ffe_dfe')
    k = eq_kw(x, p)
    if not p.get('chunks'):
        if x.zf is not None:
            k['zi_ffe'] = x.zf
        if x.zd is not None:
            k['zi_dfe'] = x.zd
        return (f(x.x, ffe_taps=x.f, **k),)
    r1 = f(x.x[:x.cut], ffe_taps=x.f, **k, **({'zi_ffe': x.zf} if x.zf is not None else {}), **({'zi_dfe': x.zd} if x.zd is not None else {}))
    z = {}
    if x.d is not None:
        z['zi_dfe'] = r1[-1]
        if x.spec.L > 1:
            z['zi_ffe'] = r1[1]
    else:
        z['zi_ffe'] = r1[1]
    r2 = f(x.x[x.cut:], ffe_taps=x.f, **k, **z)
    return r1, r2


def eq_post(E, x, r, p):
    sp = x.spec
    want = 1 + (sp.L > 1) + (sp.D > 0)
    ys = []
    for one in r:
        if want == 1:
            ys.append(one)
            continue
        E.check(isinstance(one, tuple) and len(one) == want, 'slicer input and one memory per filter used')
        if not (isinstance(one, tuple) and len(one) == want):
            return
        ys.append(one[0])
    if x.cut is None:
        if E.same_shape(ys[0], (x.n,)):
            E.forall(x.n, lambda k: E.eq(E.at(ys[0], k), x.s.at(k)), 'equalizer equation')
        return
    if E.same_shape(ys[0], (x.cut,)) and E.same_shape(ys[1], (x.n - x.cut,)):
        E.forall(x.cut, lambda k: E.eq(E.at(ys[0], k), x.s.at(k)), 'equalizer equation, first chunk')
        E.forall(x.n - x.cut, lambda k: E.eq(E.at(ys[1], k), x.s.at(k + x.cut)), 'second chunk continues the first')


F3 = [0.25, 1.0, -0.5]
EQP = [{'ffe': 1}, {'ffe': 2}, {'ffe': 3}, {'ffe': 3, 'zf': True}, {'ffe': 3, 'zf': True, 'short': 1}, {'ffe': 5, 'zf': True, 'int': True},
       {'ffe': [1.0], 'dfe': [0.5]}, {'ffe': [1.0], 'dfe': [0.5, -0.25], 'zd': True}, {'ffe': F3, 'dfe': [0.5]}, {'ffe': F3, 'dfe': [0.5], 'int': True},
       {'ffe': F3, 'dfe': [0.5, 0.25], 'zf': True, 'zd': True}, {'ffe': F3, 'dfe': [0.5, 0.25, -1.], 'zd': True, 'levels': 'nrz'},
       {'ffe': [0.5, 1.0], 'dfe': [0.5, 0.25], 'zf': True, 'zd': True, 'short': 1, 'levels': 'odd'}, {'ffe': 2, 'dfe': 1, 'zf': True, 'zd': True, 'levels': 'nrz'}, {'ffe': 1, 'dfe': 2, 'zd': True}]
OSR = [{'ffe': F3, 'dfe': [0.5, 0.25], 'osr': o, 'phase': ph, 'levels': 'nrz', 'zd': z, 'zf': z} for o in (2, 3, 4) for ph in range(o) for z in (False, True)]
CH = [dict(q, chunks=True) for q in EQP[1:] if q.get('ffe') != [1.0] or True] + [dict(q, chunks=True) for q in OSR if q['phase'] + q['osr'] // 2 < q['osr']]
EF = ['rx.ffe_dfe_model.ffe_dfe', 'rx.slicer.slicer', 'auxiliary.buffer']


def bad_mk(I, p):
    n = I.int('n', 1, small=8)
    return NS(x=I.reals('x', n), f=I.reals('f', p['L']), d=I.reals('d', p['D']) if p['D'] else None, zf=I.reals('zf', p['zf']) if p['zf'] is not None else None,
              zd=I.reals('zd', p['zd']) if p['zd'] is not None else None)


def bad_run(P, x, p):
    k = {'ffe_taps': x.f}
    if x.d is not None:
        k['dfe_taps'] = x.d
    if x.zf is not None:
        k['zi_ffe'] = x.zf
    if x.zd is not None:
        k['zi_dfe'] = x.zd
    return P('rx.ffe_dfe')(x.x, **k)


BAD = [{'L': 3, 'D': 0, 'zf': z, 'zd': None} for z in (0, 1, 4, 6)] + [{'L': 3, 'D': 2, 'zf': z, 'zd': None} for z in (0, 1, 4)] + [{'L': 3, 'D': 2, 'zf': 3, 'zd': z} for z in (0, 1, 3, 5)] + \
      [{'L': 1, 'D': 2, 'zf': None, 'zd': z} for z in (0, 1, 3)]


def rnd_mk(I, p):
    osr = I.int('osr', 1, 5)
    ph = I.int('phase', 0, osr - 1)
    ffe = I.int('L', 1, 6)
    dfe = I.int('D', 0, 5)
    q = {'ffe': ffe, 'osr': osr, 'phase': ph, 'levels': ['nrz', 'pam3', 'odd', None][I.int('lv', 0, 3)], 'zf': I.int('hzf', 0, 1) and ffe > 1, 'zd': I.int('hzd', 0, 1) and dfe > 0,
         'chunks': bool(I.int('chunks', 0, 1)) and ph + osr // 2 < osr and (ffe > 1 or dfe > 0), 'short': I.int('short', 0, 1)}
    if dfe:
        q['dfe'] = dfe
    x = eq_mk(I, q)
    x.q = q
    return x


CASES['C19'] += [
    Case('equalizer equation', eq_mk, eq_run, eq_post, params=EQP, templates=eq_tpl, trials=20, funcs=EF, deadline=60),
    Case('equalizer equation, oversampled', eq_mk, eq_run, eq_post, params=OSR, templates=eq_tpl, trials=12, funcs=EF, deadline=60),
    Case('chunks with carried memories', eq_mk, eq_run, eq_post, params=CH, templates=eq_tpl, trials=15, funcs=EF, deadline=60),
    Case('wrong memory length', bad_mk, bad_run, lambda E, x, y, p: None, params=BAD, raises=ValueError, trials=5, funcs=EF),
    Case('random equalizers', rnd_mk, lambda P, x, p: eq_run(P, x, x.q), lambda E, x, r, p: eq_post(E, x, r, x.q), sym=False, trials=300, funcs=EF)]


# ---- C20 -------------------------------------------------------------------------------------------
import collections


def fl_mk(I, p):
    kind = p['kind']
    m1 = I.int('m1', 1, small=8)
    m2 = I.int('m2', 1, small=8)
    n = m1 + m2
    x = NS(n=n, cut=m1, x=I.ints('x', n) if p.get('int') else I.reals('x', n))
    x.b = I.reals('b', p['b'], -2, 2, grid=8) if isinstance(p['b'], int) else I.const(np.array(p['b'], dtype=float))
    if isinstance(p['a'], int):
        x.a = I.reals('a', p['a'], -1, 1, grid=8)
        if I.symbolic:
            I.require(c.Not(c.eq(A(x.a).at((0,)), 0)))
        elif x.a[0] == 0:
            x.a[0] = 1.0
    else:
        x.a = I.const(np.array(p['a'], dtype=float))
    lb = p['b'] if isinstance(p['b'], int) else len(p['b'])
    la = p['a'] if isinstance(p['a'], int) else len(p['a'])
    bs, as_ = vals(x.b, lb), vals(x.a, la)
    if I.symbolic:
        bs, as_ = vals(A(x.b).freeze(), lb), vals(A(x.a).freeze(), la)
    Z = max(la, lb) - 1
    z = p.get('z')
    x.zf = I.reals('zf', lb) if z and kind == 'F' else None
    x.zi = I.reals('zi', la - 1) if z and kind == 'F' else None
    x.z = I.reals('z', Z) if z and kind != 'F' else None
    fr = (lambda q: None if q is None else q.freeze() if isinstance(q, arr.Arr) else q.copy())
    xs, zf, zi, zz = fr(x.x), fr(x.zf), fr(x.zi), fr(x.z)
    lv = LEV[p.get('levels')]
    x.levels = I.const(np.array(lv))

    def past(k):
        if not I.symbolic:
            return float(xs[k]) if k >= 0 else (float(zf[-1 - k]) if zf is not None and -1 - k < lb else 0.0)
        neg = 0.0
        if zf is not None:
            for i in range(lb):
                neg = c.ite(c.eq(k, -1 - i), zf.at((i,)), neg)
        return c.ite(c.ge(k, 0), xs.at((k,)), neg)

    def neg(k):
        if zi is None:
            return 0.0
        if not I.symbolic:
            return float(zi[-1 - k]) if -1 - k < la - 1 else 0.0
        r = 0.0
        for i in range(la - 1):
            r = c.ite(c.eq(k, -1 - i), zi.at((i,)), r)
        return r

    def fed(v):
        return near(v, lv) if kind == 'D' else v

    def step(s, k):
        v = 0.0
        for i, t in enumerate(bs):
            v = v + t * past(k - i)
        for j in range(1, la):
            q = fed(s(k - j))
            if kind == 'D':       # nothing decided before the start
                q = c.ite(c.ge(k - j, 0), q, 0.0) if I.symbolic else (q if k - j >= 0 else 0.0)
            v = v - as_[j] * q
        if zz is not None:
            if I.symbolic:
                for m in range(Z):
                    v = v + c.ite(c.eq(k, m), zz.at((m,)), 0.0)
            elif k < Z:
                v = v + float(zz[k])
        return c.truediv(v, as_[0]) if I.symbolic else v / as_[0]
    x.s = I.seq('s', neg, step, 'f')
    x.spec = NS(past=past, fed=fed, bs=bs, as_=as_, lb=lb, la=la, Z=Z, zz=zz, neg=neg, kind=kind)
    return x


def fl_obj(P, x, p):
    h = 'misc.help_classes.'
    if p['kind'] == 'F':
        return P(h + 'Filter')(x.b, x.a, x.zf, x.zi) if x.zf is not None else P(h + 'Filter')(x.b, x.a)
    if p['kind'] == 'T':
        return P(h + 'FilterTII')(x.b, x.a, x.z) if x.z is not None else P(h + 'FilterTII')(x.b, x.a)
    return P(h + 'FfeDfeFilterTII')(x.b, x.a, x.levels, x.z) if x.z is not None else P(h + 'FfeDfeFilterTII')(x.b, x.a, x.levels)


def fl_run(P, x, p):
    f = fl_obj(P, x, p)
    if p.get('one'):
        return f(x.x), None
    return f(x.x[:x.cut]), f(x.x[x.cut:])


def fl_post(E, x, r, p):
    if p.get('one'):
        if E.same_shape(r[0], (x.n,)):
            E.forall(x.n, lambda k: E.eq(E.at(r[0], k), x.s.at(k)), 'difference equation')
        return
    if E.same_shape(r[0], (x.cut,)) and E.same_shape(r[1], (x.n - x.cut,)):
        E.forall(x.cut, lambda k: E.eq(E.at(r[0], k), x.s.at(k)), 'difference equation')
        E.forall(x.n - x.cut, lambda k: E.eq(E.at(r[1], k), x.s.at(k + x.cut)), 'second call continues the first')


def fl_tpl(x, p):
    s, sp = x.s, x.spec

    def neg_s(k):
        return s.raw_neg(k)

    def tii(i, kk):
        """element i of the transposed state before sample kk"""
        v = 0.0
        for m in range(i + 1, sp.Z + 1):
            q = c.sub(kk, m - i)
            t = 0.0
            if m < sp.lb:
                t = c.add(t, c.mul(sp.bs[m], sp.past(q)))
            if m < sp.la:
                t = c.sub(t, c.mul(sp.as_[m], sp.fed(s.raw(q))))
            v = c.add(v, c.ite(c.ge(q, 0), t, 0.0))
        if sp.zz is not None:
            for m in range(i, sp.Z):
                v = c.add(v, c.ite(c.eq(c.add(kk, i), m), sp.zz.at((m,)), 0.0))
        return v
    out = []
    for off, nm in ((0, ''), (x.cut, ' (continued)')):
        def t(v, iv, k, n, off=off, nm=nm):
            kk = c.add(k, off)
            if isinstance(v, SArr) and len(v.shape) == 1 and isinstance(v.shape[0], S):
                def body(j):
                    s.at(c.sub(kk, 1))
                    return c.eq(v.at((j,)), s.raw(c.add(j, off)))
                return [('outputs so far' + nm, Inv(body, (0, k)))]
            r = []
            if isinstance(v, (collections.deque, list, CArr)):
                vs = list(v.o) if isinstance(v, CArr) and len(v.shape) == 1 else list(v) if not isinstance(v, CArr) else []
                if p['kind'] == 'F':
                    if len(vs) == sp.lb and vs:
                        r.append(('input memory' + nm, Inv(lambda: c.And(*[c.eq(vs[i], sp.past(c.sub(kk, 1 + i))) for i in range(sp.lb)]))))
                    if len(vs) == sp.la - 1 and vs:
                        r.append(('output memory' + nm, Inv(lambda: c.And(*[c.eq(vs[i], (s.at if i == 0 else s.raw_neg)(c.sub(kk, 1 + i))) for i in range(sp.la - 1)]))))
                elif len(vs) == sp.Z and vs:
                    def st():
                        s.at(c.sub(kk, 1))
                        return c.And(*[c.eq(vs[i], tii(i, kk)) for i in range(sp.Z)])
                    r.append(('transposed memory' + nm, Inv(st)))
            return r
        out.append(t)
    return out


B3, A2, A3 = [0.5, 1.0, -0.25], [2.0, 0.5], [1.0, -0.5, 0.25]
FLP = []
for kd in 'FTD':
    lv = {'levels': 'nrz'} if kd == 'D' else {}
    for b, a in (([1.5], [1.0]), (B3, [1.0]), ([2.0], A2), (B3, A2), ([0.5, 1.0], A3), (B3, A3)):
        for z in (False, True):
            if z and kd != 'F' and max(len(a), len(b)) == 1:
                continue
            FLP.append(dict({'kind': kd, 'b': b, 'a': a, 'z': z}, **lv))
    FLP.append(dict({'kind': kd, 'b': B3, 'a': A3, 'z': False, 'int': True}, **lv))
    FLP.append(dict({'kind': kd, 'b': B3, 'a': A3, 'z': True, 'one': True}, **lv))
ANYC = [dict({'kind': kd, 'b': b, 'a': a, 'z': z}, **({'levels': 'nrz'} if kd == 'D' else {})) for kd in 'FTD' for b, a in ((1, 1), (2, 1), (2, 2), (1, 3), (3, 2)) for z in (False, True)
        if not (z and kd != 'F' and max(a, b) == 1)]
HF = ['misc.help_classes.Filter', 'misc.help_classes.FilterTII', 'misc.help_classes.FfeDfeFilterTII']


def flb_mk(I, p):
    return NS(b=I.reals('b', p['b']), a=I.reals('a', p['a'], 0.5, 2), levels=I.const(np.array([-1., 1.])), zf=I.reals('zf', p['zf']) if 'zf' in p else None, zi=I.reals('zi', p['zi']) if 'zi' in p else None,
              z=I.reals('z', p['z']) if 'z' in p else None)


def flb_run(P, x, p):
    h = 'misc.help_classes.'
    if p['kind'] == 'F':
        return P(h + 'Filter')(x.b, x.a, x.zf, x.zi)
    if p['kind'] == 'T':
        return P(h + 'FilterTII')(x.b, x.a, x.z)
    return P(h + 'FfeDfeFilterTII')(x.b, x.a, x.levels, x.z)


FLB = [{'kind': 'F', 'b': 3, 'a': 3, 'zf': z} for z in (0, 2, 4)] + [{'kind': 'F', 'b': 3, 'a': 3, 'zi': z} for z in (0, 1, 3, 4)] + \
      [{'kind': k, 'b': b, 'a': a, 'z': z} for k in 'TD' for b, a in ((3, 2), (2, 4)) for z in (0, 1, 4, 5) if z != max(a, b) - 1]


def flr_mk(I, p):
    q = {'kind': 'FTD'[I.int('kind', 0, 2)], 'b': I.int('lb', 1, 6), 'a': I.int('la', 1, 5), 'z': I.int('hz', 0, 1), 'int': I.int('ints', 0, 1), 'levels': ['nrz', 'odd', None][I.int('lv', 0, 2)], 'one': I.int('one', 0, 1)}
    x = fl_mk(I, q)
    x.q = q
    return x


CASES['C20'] += [
    Case('difference equation and continuation', fl_mk, fl_run, fl_post, params=FLP, templates=fl_tpl, trials=12, funcs=HF, deadline=60),
    Case('any coefficients', fl_mk, fl_run, fl_post, params=ANYC, templates=fl_tpl, trials=12, funcs=HF, deadline=60),
    Case('wrong memory length', flb_mk, flb_run, lambda E, x, y, p: None, params=FLB, raises=ValueError, trials=3, funcs=HF),
    Case('random filters', flr_mk, lambda P, x, p: fl_run(P, x, x.q), lambda E, x, r, p: fl_post(E, x, r, x.q), sym=False, trials=300, funcs=HF, tol=1e-6)]


# ---- C21 -------------------------------------------------------------------------------------------
def pick(E, v, k, off=0):
    """element k of a signal, 0 outside (concrete evaluation and specification terms)"""
    if E.symbolic:
        return c.ite(c.ge(k, off), E.at(v, c.sub(k, off)), 0.0)
    k = k - off
    return float(v[k]) if 0 <= k < len(v) else 0.0


def joined(E, y1, y2, cut, k):
    if E.symbolic:
        return c.ite(c.ge(k, 0), c.ite(c.lt(k, cut), E.at(y1, k), E.at(y2, c.sub(k, cut))), 0.0)
    return 0.0 if k < 0 else float(y1[k]) if k < cut else float(y2[k - cut])


def mem(E, z, L, k):
    if z is None:
        return 0.0
    if E.symbolic:
        r = 0.0
        for m in range(L):
            r = c.ite(c.eq(k, m), E.at(z, m), r)
        return r
    return float(z[k]) if k < L else 0.0


def lin_post(E, n, cut, y1, y2, X, b, a, z, name):
    """a0 y[k] = sum b_i x[k-i] - sum a_j y[k-j] + a0 z[k] on the concatenated output"""
    L = max(len(a), len(b)) - 1

    def one(k):
        Y = lambda q: joined(E, y1, y2, cut, q)
        r = 0.0
        for i, t in enumerate(b):
            r = r + t * X(k - i)
        for j in range(1, len(a)):
            r = r - a[j] * Y(k - j)
        return E.eq(a[0] * Y(k), r + a[0] * mem(E, z, L, k))
    E.forall(n, one, name)


def cl(v):
    return [v] if isinstance(v, (int, float)) else list(v)


def ach_mk(I, p):
    m1 = I.int('m1', 1, small=9)
    m2 = I.int('m2', 1, small=9, large=40)
    x = NS(n=m1 + m2, cut=m1)
    x.x = I.ints('x', x.n) if p.get('int') else I.reals('x', x.n)
    x.b = I.reals('b', p['b'], -1, 1, grid=8) if isinstance(p['b'], int) else p['b'] if p.get('list') else I.const(np.array(p['b']))
    x.a = p['a'] if p.get('list') or isinstance(p['a'], (int, float)) else I.const(np.array(p['a']))
    Z = max(p['b'] if isinstance(p['b'], int) else len(p['b']), len(cl(p['a']))) - 1
    x.z = I.reals('z', Z) if p.get('z') else None
    return x


def ach_run(P, x, p):
    f = P('channel.awgn_channel')
    if p.get('one'):
        y, zo = f(x.x, x.b, x.a, zi=x.z) if x.z is not None else f(x.x, x.b, x.a)
        return y, None
    y1, z1 = f(x.x[:x.cut], x.b, x.a, zi=x.z) if x.z is not None else f(x.x[:x.cut], x.b, x.a)
    y2, z2 = f(x.x[x.cut:], x.b, x.a, zi=z1)
    return y1, y2


def ach_post(E, x, r, p):
    b = vals(x.b, p['b']) if isinstance(p['b'], int) else p['b']
    X = lambda k: pick(E, x.x, k)
    if p.get('one'):
        if E.same_shape(r[0], (x.n,)):
            lin_post(E, x.n, x.n, r[0], r[0], X, b, cl(p['a']), x.z, 'channel filter')
        return
    if E.same_shape(r[0], (x.cut,)) and E.same_shape(r[1], (x.n - x.cut,)):
        lin_post(E, x.n, x.cut, r[0], r[1], X, b, cl(p['a']), x.z, 'channel filter over both chunks')


CHP = [dict({'b': b, 'a': a, 'z': z}, **({'list': True} if z else {})) for b in ([1.0], [0.5, 1.0, -0.25], [1, 0, 0, 2]) for a in (1, 2.0, [1], [2.0], [1.0, -0.5], [2.0, 0.5, 0.25], [1, 0.5, -0.25, 0.125])
       for z in (False, True) if not (z and len(b) == 1 and len(cl(a)) == 1)]
CHP += [{'b': k, 'a': 1, 'z': z} for k in (2, 3) for z in (False, True)] + [{'b': [0.5, 1.0], 'a': [1.0, -0.5], 'z': True, 'int': True}, {'b': [0.5, 1.0], 'a': [1.0, -0.5], 'z': True, 'one': True}, {'b': [0.5, 1.0], 'a': [1.0, -0.5], 'z': False, 'one': True}]
CF = ['channel.additive_noise_functions.awgn_channel']


def achr_mk(I, p):
    q = {'b': [round(v, 3) for v in np.array(I.reals('cb', I.int('lb', 1, 6), -1, 1))], 'z': I.int('hz', 0, 1), 'int': I.int('ints', 0, 1), 'one': I.int('one', 0, 1), 'list': I.int('list', 0, 1)}
    q['a'] = [round(2.0 + I.real('a0', -1, 1), 3)] + [round(v / 3, 3) for v in np.array(I.reals('ca', I.int('la', 0, 3), -1, 1))]
    if max(len(q['b']), len(q['a'])) == 1:
        q['z'] = 0
    q['b'], q['a'] = [float(v) for v in q['b']], [float(v) for v in q['a']]
    x = ach_mk(I, q)
    x.q = q
    return x


def ps_mk(I, p):
    m1 = I.int('m1', 1, small=6)
    m2 = I.int('m2', 1, small=6, large=20)
    x = NS(n=m1 + m2, cut=m1)
    x.x = I.ints('x', x.n, -3, 3) if p.get('int') else I.reals('x', x.n)
    x.Z = 0 if p['pulse'] == 'imp' else p['osr'] * p['span'] * 2 - 1
    x.z = I.reals('z', x.Z) if p.get('z') and x.Z else None
    return x


def ps_kw(p):
    k = {'osr': p['osr'], 'span': p['span'], 'pulse': p['pulse']}
    if p.get('beta') is not None:
        k['beta'] = p['beta']
    return k


def ps_vec(P, p):
    if p['pulse'] == 'imp':
        return [1.0]
    a = (p['osr'], p['span']) + ((p.get('beta', 0.5),) if p['pulse'] in ('rcos', 'rrc') else ())
    v = P('channel.%s_pulse' % p['pulse'])(*a)
    return [float(e) for e in (v.tolist() if isinstance(v, np.ndarray) else A(v)._pv_vals())]


def ps_run(P, x, p):
    f = P('channel.pulse_shape')
    y1, z1 = f(x.x[:x.cut], zi=x.z, **ps_kw(p)) if x.z is not None else f(x.x[:x.cut], **ps_kw(p))
    y2, z2 = f(x.x[x.cut:], zi=z1, **ps_kw(p))
    return y1, y2, ps_vec(P, p)


def ps_post(E, x, r, p):
    osr = p['osr']

    def X(k):
        if E.symbolic:
            return c.ite(c.And(c.ge(k, 0), c.eq(c.mod(k, osr), 0)), E.at(x.x, c.floordiv(k, osr)), 0.0)
        return float(x.x[k // osr]) if k >= 0 and k % osr == 0 else 0.0
    if not E.symbolic:      # the pulse in closed form
        v = np.array(pulse_form(p['pulse'], osr, p['span'], p.get('beta', 0.5)))
        E.check(len(v) == len(r[2]) and bool(np.all(np.abs(v - np.array(r[2])) < 1e-6)), 'pulse in closed form')
    if E.same_shape(r[0], (x.cut * osr,)) and E.same_shape(r[1], ((x.n - x.cut) * osr,)):
        lin_post(E, x.n * osr, x.cut * osr, r[0], r[1], X, r[2], [1.0], x.z, 'convolution of the upsampled signal with the pulse, over both chunks')


def pulse_at(pulse, t, beta):
    """closed form of a pulse at time t (symbols), the limit at singular points"""
    from math import pi, sin, cos, sqrt
    sinc = lambda u: 1.0 if u == 0 else sin(pi * u) / (pi * u)
    if pulse == 'rect':
        return 1.0 if -0.5 <= t < 0.5 else 0.0
    if pulse == 'sinc' or beta == 0:
        return sinc(t)
    if pulse == 'rcos':
        if abs(abs(2 * beta * t) - 1) < 1e-9:
            return pi / 4 * sinc(1 / (2 * beta))
        return sinc(t) * cos(pi * beta * t) / (1 - (2 * beta * t) ** 2)
    if t == 0:
        return 1 + beta * (4 / pi - 1)
    if abs(abs(4 * beta * t) - 1) < 1e-9:
        return beta / sqrt(2) * ((1 + 2 / pi) * sin(pi / (4 * beta)) + (1 - 2 / pi) * cos(pi / (4 * beta)))
    return (sin(pi * t * (1 - beta)) + 4 * beta * t * cos(pi * t * (1 + beta))) / (pi * t * (1 - (4 * beta * t) ** 2))


def pulse_form(pulse, osr, span, beta):
    if pulse == 'imp':
        return [1.0]
    return [pulse_at(pulse, k / osr, beta) for k in range(-osr * span, osr * span)]


PSP = [{'pulse': q, 'osr': o, 'span': s, 'z': z, 'int': z and s == 1} for q in ('rect', 'sinc', 'rcos', 'rrc', 'imp') for o, s in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (4, 1), (4, 2)) for z in (False, True) if (o, s) != (4, 2) or q in ('rect', 'imp')]
PSP += [{'pulse': q, 'osr': 2, 'span': 2, 'z': True, 'beta': b} for q in ('rcos', 'rrc') for b in (0, 0.25, 1)]
PF = ['channel.pulse_shaping.pulse_shape', 'channel.pulse_shaping._get_pulse', 'channel.pulse_shaping._time_vec_pulse', 'auxiliary.upsample']


def psr_mk(I, p):
    q = {'pulse': ['rect', 'sinc', 'rcos', 'rrc', 'imp'][I.int('pulse', 0, 4)], 'osr': I.int('osr', 1, 16), 'span': I.int('span', 1, 8), 'z': I.int('hz', 0, 1), 'int': I.int('ints', 0, 1), 'beta': I.int('beta', 0, 8) / 8}
    x = ps_mk(I, q)
    x.q = q
    return x


def psb_mk(I, p):
    n = I.int('n', 1, small=6)
    return NS(x=I.reals('x', n), z=I.reals('z', p['L']))


PSB = [{'pulse': q, 'osr': o, 'span': s, 'L': L} for q in ('rect', 'sinc', 'rcos', 'rrc') for o, s in ((1, 1), (2, 2), (3, 1)) for L in (0, o * s * 2 - 2, o * s * 2, 1) if L != o * s * 2 - 1] + [{'pulse': 'imp', 'osr': 2, 'span': 2, 'L': 7}, {'pulse': 'imp', 'osr': 1, 'span': 1, 'L': 1}]

CT = [{'z': [1e9], 'p': [2e9, 5e9], 'g': -3, 'fs': 10e9, 'osr': 2}, {'z': [-1e9], 'p': [2e9, -5e9], 'g': 0, 'fs': 10e9, 'osr': 1}, {'z': [1e9, 2e9], 'p': [3e9, 4e9, 6e9], 'g': 2.5, 'fs': 20e9, 'osr': 4},
      {'z': [0.5], 'p': [1.0], 'g': -6, 'fs': 8.0, 'osr': 1}]


def ct_mk(I, p):
    m1 = I.int('m1', 1, small=8)
    m2 = I.int('m2', 1, small=8, large=30)
    x = NS(n=m1 + m2, cut=m1)
    x.x = I.ints('x', x.n, -4, 4) if p.get('int') else I.reals('x', x.n)
    x.z = I.reals('zi', max(len(p['z']), len(p['p'])), -0.5, 0.5)
    return x


def ct_run(P, x, p):
    f = P('rx.ctle')
    a = (p['z'], p['p'], p['g'], p['fs'], p['osr'])
    b, aa = P('rx.get_ctle_filter')(*a)
    co = [[float(v) for v in (q.tolist() if isinstance(q, np.ndarray) else A(q)._pv_vals())] for q in (b, aa)]
    if p.get('one'):
        y = f(x.x, *a)
        return y, y, co
    y1, z1 = f(x.x[:x.cut], *a, zi=x.z)
    y2, z2 = f(x.x[x.cut:], *a, zi=z1)
    return y1, y2, co


def ct_post(E, x, r, p):
    X = lambda k: pick(E, x.x, k)
    b, a = r[2]
    if p.get('one'):
        if E.same_shape(r[0], (x.n,)):
            lin_post(E, x.n, x.n, r[0], r[0], X, b, a, None, 'CTLE filter')
        return
    if E.same_shape(r[0], (x.cut,)) and E.same_shape(r[1], (x.n - x.cut,)):
        lin_post(E, x.n, x.cut, r[0], r[1], X, b, a, x.z, 'CTLE filter over both chunks')


CASES['C21'] += [
    Case('channel', ach_mk, ach_run, ach_post, params=CHP, trials=10, funcs=CF, deadline=60),
    Case('channel, random filters', achr_mk, lambda P, x, p: ach_run(P, x, x.q), lambda E, x, r, p: ach_post(E, x, r, x.q), sym=False, trials=200, funcs=CF, tol=1e-6),
    Case('pulse shaping', ps_mk, ps_run, ps_post, params=PSP, trials=10, funcs=PF, deadline=60),
    Case('pulse shaping, random settings', psr_mk, lambda P, x, p: ps_run(P, x, x.q), lambda E, x, r, p: ps_post(E, x, r, x.q), sym=False, trials=200, funcs=PF, tol=1e-6),
    Case('pulse shaping, wrong memory length', psb_mk, lambda P, x, p: P('channel.pulse_shape')(x.x, zi=x.z, **ps_kw(p)), lambda E, x, y, p: None, params=PSB, raises=ValueError, trials=3, funcs=PF),
    Case('pulse shaping, unknown pulse', lambda I, p: NS(x=I.reals('x', I.int('n', 1, small=6))), lambda P, x, p: P('channel.pulse_shape')(x.x, 2, 2, 'gauss'), lambda E, x, y, p: None, raises=ValueError, trials=2, funcs=PF),
    Case('ctle', ct_mk, ct_run, ct_post, params=CT + [dict(q, one=True) for q in CT] + [dict(CT[0], int=True)], trials=15, funcs=['rx.ctle_model.ctle', 'rx.ctle_model.get_ctle_filter'], deadline=60, tol=1e-6)]
