"""C30 equalizer estimation, C31 CTLE."""
import math
import numpy as np
from pv import core as c
from pv import arr
from pv.arr import A
from pv.core import S, Unsupported
from pv.spec import Case, NS, Skip
from pv.props.p_prbs import polyvec, POLY

CASES = {'C30': [], 'C31': []}


# ---- C30 -------------------------------------------------------------------------------------------
def eq_mk(I, p):
    w = p['post'] + p['pre'] + 1
    n = I.int('n', p['dfe'] + w + 1, small=3 * (w + p['dfe']) + 4, large=60)
    x = NS(n=n, s=I.reals('s', n) if not p.get('int') else I.ints('s', n), r=I.reals('r', n) if p.get('ref') == 'real' else I.ints('r', n, -3, 3))
    x.lam = I.real('lam', 0.0625, 4) if p.get('reg') == 'ridge' else None
    return x


def eq_run(P, x, p):
    k = {}
    if p.get('norm') is not None:
        k['normalize'] = p['norm']
    if p.get('reg'):
        k.update(regularization=p['reg'], reg_lambda=x.lam if x.lam is not None else 0)
    return P('equalization_estimation')(x.r, x.s, p['post'], p['pre'], p['dfe'], **k)


def taps(E, y, p):
    """(weights of the window, earliest sample first; weights of the past references, earliest first; gain)"""
    w, d = p['post'] + p['pre'] + 1, p['dfe']
    E.check(isinstance(y, tuple) and len(y) == 5, 'five results')
    if not E.same_shape(y[0], (w,), 'FFE length'):
        return None
    if d == 0:
        E.check(y[1] is None, 'no DFE taps')
    elif not E.same_shape(y[1], (d,), 'DFE length'):
        return None
    f = [E.at(y[0], w - 1 - i) for i in range(w)]
    b = [E.at(y[1], d - 1 - i) for i in range(d)]
    return f, b, y[2]


def raw(E, v, g):
    """v * gain; where that is one of the solver's unknowns, the unknown"""
    t = v * g
    if E.symbolic:
        for _, _, xs in E.ctx.calls.get('least squares', []):
            for q in range(xs.shape[0]):
                if E.known(c.eq(t, xs.at((q,)))):
                    return xs.at((q,))
    return t


def optimal(E, s, r, rows, tp, lam, p, gainmul):
    """gradient of the squared error over the rows is zero for every tap"""
    f, b, g = tp
    w, d = len(f), len(b)
    if gainmul:
        f, b = [raw(E, v, g) for v in f], [raw(E, v, g) for v in b]

    def col(k, j):
        return s(k + d + j) if j < w else -1 * r(k + j - w)
    wt = f + b

    def res(k):
        v = 0.0
        for j in range(w + d):
            v = v + col(k, j) * wt[j]
        return v - r(k + d)
    if not E.symbolic:
        A_ = np.array([[col(k, j) for j in range(w + d)] for k in range(rows)], dtype=float)
        b_ = np.array([r(k + d) for k in range(rows)], dtype=float)
        x_ = np.array(wt, dtype=float)
        gr = A_.T @ (A_ @ x_ - b_) + (lam or 0) * x_
        sc = np.abs(A_).T @ (np.abs(A_) @ np.abs(x_) + np.abs(b_)) + (lam or 0) * np.abs(x_) + 1e-12
        for j in range(w + d):
            E.check(bool(np.isfinite(gr[j]) and abs(gr[j]) <= E.tol * sc[j]), 'squared error is stationary in tap %d' % j)
        return A_, b_, x_
    for j in range(w + d):
        t = E.sum(rows, lambda k, j=j: col(k, j) * res(k))
        E.check(E.eq(t + lam * wt[j] if lam is not None else t, 0), 'squared error is stationary in tap %d' % j)


def eq_post(E, x, y, p):
    tp = taps(E, y, p)
    if tp is None:
        return
    rows = x.n - (p['post'] + p['pre'] + 1 + p['dfe'])
    g = tp[2]
    if not E.symbolic and p.get('norm') and not abs(g) > 1e-6:
        return
    if E.symbolic and p.get('norm'):
        E.ctx.assume(c.ne(g, 0))
    o = optimal(E, lambda k: E.at(x.s, k), lambda k: E.at(x.r, k), rows, tp, x.lam, p, bool(p.get('norm')))
    if p.get('norm'):
        mx = E.max(*tp[0])
        E.check(E.or_(E.eq(mx, 1), E.lt(g, 0)), 'the peak of the normalised FFE is one')
    else:
        E.check(E.eq(g, 1), 'gain is one without normalisation')
    if not E.symbolic and p.get('exact') and x.lam is None:
        A_, b_, x_ = o
        sc = 1 + float(b_ @ b_)
        E.check(float(np.sum((A_ @ x_ - b_) ** 2)) <= 1e-9 * sc, 'zero error when some equalizer of this size is exact')


def ex_mk(I, p):
    """a reference some equalizer of the requested size reproduces exactly"""
    w, d = p['post'] + p['pre'] + 1, p['dfe']
    n = I.int('n', 2 * (w + d) + 4, small=20, large=80)
    big = I.reals('big', n + w - 1, grid=0)
    f, b = I.reals('f', w, -2, 2, grid=0), I.reals('b', d, -.4, .4, grid=0)
    r = np.zeros(n)
    for k in range(n):
        r[k] = f @ big[k:k + w] - sum(b[j] * r[k - d + j] for j in range(d) if k - d + j >= 0)
    return NS(n=n, s=big[:n], r=r, lam=None)


def ab_contract(ctx):
    return ctx.calls.get('equalization_estimation', [])


EP = [(0, 0, 0), (2, 1, 0), (0, 0, 2), (1, 0, 1), (2, 1, 2), (1, 2, 3), (3, 0, 1)]
EQ = [{'post': a, 'pre': b, 'dfe': d, 'ref': r, 'int': i} for a, b, d in EP for r, i in ((None, 0), ('real', 0), (None, 1))] + \
     [{'post': a, 'pre': b, 'dfe': d, 'norm': True} for a, b, d in EP] + [{'post': 1, 'pre': 1, 'dfe': d, 'norm': False, 'reg': q} for d in (0, 1) for q in ('None', 'ridge')] + \
     [{'post': 1, 'pre': 1, 'dfe': d, 'norm': True, 'reg': 'ridge'} for d in (0, 2)]
EX = [{'post': a, 'pre': b, 'dfe': d, 'norm': q, 'exact': True} for a, b, d in EP + [(5, 1, 4), (4, 3, 6)] for q in (False, True)]
EF = ['equalization_estimation.equalization_estimation', 'misc.least_squares.least_squares', 'misc.least_squares.ols', 'misc.least_squares.ridge_regression']
CASES['C30'] += [
    Case('optimal taps', eq_mk, eq_run, eq_post, params=EQ, nanok=True, trials=12, funcs=EF, tol=1e-8, deadline=60),
    Case('an exact equalizer is found', ex_mk, eq_run, eq_post, params=EX, trials=12, sym=False, funcs=EF, tol=1e-7)]


# ---- estimation from a PRBS -------------------------------------------------------------------------
def pattern(P, p):
    """the transmitted symbols of one period (NRZ, OOK: two periods), by the package's own transmitter"""
    d = p['d']
    bits = []
    reg = [1] * d
    for _ in range(2 * (2 ** d - 1)):
        b = sum(reg[t] for t in POLY[d]) % 2
        bits.append(b)
        reg = [b] + reg[:-1]
    C = P('constants.ConstellationEnum')[p['c']]
    bits = np.array(bits)
    if not getattr(P, 'real', False) and type(P).__name__ != 'RealPackage':
        from pv import npshim
        bits = npshim.fromreal(bits)
    s = P('tx.bin2symbol')(bits, 4 if p['c'] == 'PAM4' else 2, p.get('bo', False), False, False, p.get('pre_inv', False))
    if p.get('gray', False):
        s = P('tx.coding_gray')(s, C)
    return P('tx.mapping')(s, C, p.get('fs', False), pn_inv=p.get('post_inv', False))


def pr_mk(I, p):
    L = 2 ** p['d'] - 1
    if I.symbolic:
        if p.get('short'):
            n = I.int('n', p['post'] + p['pre'] + p.get('dfe', 0) + 2, L - 1)
        else:
            n = I.int('n', L)
        return NS(n=n, s=I.reals('s', n))
    if I.values is not None and 's' in I.values:         # inputs of a counterexample: any signal
        n = I.int('n')
        return NS(n=n, s=I.reals('s', n), h=None, e=None, off=None, any=True)
    need = p['post'] + p['pre'] + p.get('dfe', 0) + 2
    n = I.int('n', 3 * need + 20, L - 1) if p.get('short') else I.int('n', L, small=3 * L, vals=[L, 2 * L, 3 * L + 1, 4 * L, 5 * L, 6 * L - 1])
    off = I.int('off', 0, L - 1)
    w = p['post'] + p['pre'] + 1
    h = I.reals('h', w, -.12, .12, grid=0)
    h[p['pre']] = 1 + abs(h[p['pre']])
    if p.get('noise') or I.hints or (I.values is not None and 'e' in I.values):
        e = I.reals('e', n, -.05, .05, grid=0)
    else:
        e = np.zeros(n)
    return NS(n=n, off=off, h=h, e=e, w=w)


def pr_sig(P, x, p):
    if not hasattr(x, 'h'):
        return
    pat = np.asarray(pattern(P, p), dtype=float)
    L = 2 ** p['d'] - 1
    pat = pat[:L] if p['c'] == 'PAM4' else pat[:L]
    x.pat = pat
    k = np.arange(x.n)
    if x.h is None:
        return
    if p.get('ar'):           # exactly invertible by the FFE: sum_i h[i] s(k+pre-i) = ref(k), no precursors
        hh = np.array(x.h[p['pre']:])
        s = np.zeros(x.n + 40 * L)
        for q in range(len(s)):
            s[q] = (pat[(x.off + q) % L] - sum(hh[i] * s[q - i] for i in range(1, len(hh)) if q - i >= 0)) / hh[0]
        x.s = s[40 * L - 0:] if False else s[(40 * L) // L * L:]
        x.s = x.s[:x.n] + x.e
    else:
        x.s = sum(x.h[i] * pat[(x.off + k + p['pre'] - i) % L] for i in range(len(x.h))) + x.e


def locked(x, p, E):
    """offset of largest correlation, computed independently; None when it is not clear"""
    L = len(x.pat)
    full = np.tile(x.pat, 2 if p['c'] != 'PAM4' else 1)
    m = min(len(full), x.n)
    cs = np.array([np.dot(np.tile(full, 2)[r:r + m], x.s[:m]) for r in range(L)])
    o = np.argsort(cs)
    if cs[o[-1]] - cs[o[-2]] < 1e-6 * (1 + abs(cs[o[-1]])):
        return None
    return int(o[-1])


def mean_sig(E, x, L):
    """average over the complete periods"""
    reps = x.n // L
    if not E.symbolic:
        return np.mean(x.s[:reps * L].reshape(-1, L), axis=0)
    return lambda k: E.tdiv(E.sum(reps, lambda j: E.at(x.s, j * L + k)), reps)


def record(E, name):
    r = E.ctx.calls.get(name, [])
    if len(r) != 1:
        raise Unsupported('the code does not call %s once' % name)
    return r[0]


def lock_ok(E, x, p, pat):
    """the documented pattern was locked to the signal"""
    rp, rs, rot = record(E, 'lock_pattern_to_signal')
    if E.same_shape(rp, A(pat).shape, 'pattern length'):
        E.forall(A(pat).shape[0], lambda k: E.eq(E.at(rp, k), E.at(pat, k)), 'the reference is the documented PRBS pattern')
    if E.same_shape(rs, (x.n,), 'locked signal'):
        E.forall(x.n, lambda k: E.eq(E.at(rs, k), E.at(x.s, k)), 'the pattern is locked to the signal')
    return rot


def flags(P, x, p):
    return dict(prbs_full_scale=p.get('fs', False), bit_order_inv=p.get('bo', False), pn_inv_precoding=p.get('pre_inv', False))


def en(P, p):
    return P('constants.PrbsEnum')['PRBS%d' % p['d']], P('constants.ConstellationEnum')[p['c']]


def pq_run(P, x, p):
    pr_sig(P, x, p)
    a, b = en(P, p)
    k = flags(P, x, p)
    if p.get('reg'):
        k.update(regularization=p['reg'], reg_lambda=0.5)
    y = P('equalization_estimation_prbs')(a, x.s, b, p['post'], p['pre'], p['dfe'], p.get('norm', False), gray_coded=p.get('gray', False),
                                          pn_inv_postmapping=p.get('post_inv', False), **k)
    return y, pattern(P, p) if not hasattr(x, 'h') else x


def pq_post(E, x, y, p):
    y, pat = y
    L = 2 ** p['d'] - 1
    if E.symbolic:
        rot = lock_ok(E, x, p, pat)
        ref, sig, args, res = record(E, 'equalization_estimation')
        m = x.n if p.get('short') else L
        if E.same_shape(ref, (m,), 'reference length') and E.same_shape(sig, (m,), 'signal length'):
            E.forall(L, lambda k: E.or_(E.ge(k, m), E.eq(E.at(ref, k), E.at(rot, E.mod(k + p['post'], L)))), 'reference aligned to the cursor')
            f = (lambda k: E.at(x.s, k)) if p.get('short') else mean_sig(E, x, L)
            E.forall(m, lambda k: E.eq(E.at(sig, k), f(k)), 'signal averaged over the periods')
        E.check(args[:4] == (p['post'], p['pre'], p['dfe'], p.get('norm', False)), 'requested sizes')
        E.check(args[4:] == (('None', 0) if not p.get('reg') else (p['reg'], 0.5)), 'requested regularisation')
        E.check(y is res or isinstance(y, tuple) and all(u is v for u, v in zip(y, res)), 'the estimate is returned')
        return
    x = pat       # completed inputs
    r = locked(x, p, E)
    tp = taps(E, y, p)
    if r is None or tp is None:
        return
    s = x.s if p.get('short') else mean_sig(E, x, L)
    m = len(s)
    o = optimal(E, lambda k: s[k], lambda k: x.pat[(r + k + p['post']) % L], m - (p['post'] + p['pre'] + 1 + p['dfe']), tp, 0.5 if p.get('reg') else None, p, p.get('norm', False))
    if p.get('norm'):
        E.check(abs(max(tp[0]) - 1) < 1e-9 or tp[2] < 0, 'the peak of the normalised FFE is one')
    if x.h is not None and not np.any(x.e) and not p.get('reg') and (p.get('ar') and p['pre'] == 0 or not p.get('ar') and p['pre'] == 0 and p['dfe'] >= p['post']) and r == x.off:
        A_, b_, x_ = o
        E.check(float(np.sum((A_ @ x_ - b_) ** 2)) <= 1e-7 * (1 + float(b_ @ b_)), 'zero error when some equalizer of this size is exact')


PQ = [{'d': 7, 'c': c_, 'post': a, 'pre': b, 'dfe': d} for c_ in ('NRZ', 'PAM4', 'OOK') for a, b, d in ((2, 1, 0), (1, 0, 3), (2, 1, 2))]
PQ += [dict(PQ[i], **f) for i in (2, 4) for f in ({'gray': True}, {'fs': True}, {'bo': True}, {'pre_inv': True}, {'post_inv': True}, {'norm': True}, {'reg': 'ridge'}, {'short': 1}, {'gray': True, 'bo': True, 'pre_inv': True, 'norm': True})]
PQC = [dict(q, noise=z, ar=r) for q in PQ + [{'d': 9, 'c': c_, 'post': 3, 'pre': 0, 'dfe': 3} for c_ in ('PAM4', 'NRZ')] + [{'d': 7, 'c': 'PAM4', 'post': 0, 'pre': 0, 'dfe': 2}] for z, r in ((0, 0), (1, 0), (0, 1))]
PQF = ['equalization_estimation.equalization_estimation_prbs'] + EF
CASES['C30'] += [
    Case('from a PRBS: aligned problem', pr_mk, pq_run, pq_post, params=PQ, conc=False, subst=['CommDspy.rx.lock_pattern.lock_pattern_to_signal', 'CommDspy.equalization_estimation.equalization_estimation'], funcs=PQF[:1], deadline=60, mutcheck=False),
    Case('from a PRBS', pr_mk, pq_run, pq_post, params=PQC, sym=False, trials=3, thorough=20, funcs=PQF, tol=1e-7, mutcheck=False)]


# ---- C33 channel estimation ---------------------------------------------------------------------------
def ce_run(P, x, p):
    pr_sig(P, x, p)
    a, b = en(P, p)
    k = flags(P, x, p)
    y = P('channel_estimation_prbs')(a, x.s, b, channel_postcursor=p['post'], channel_precursor=p['pre'], normalize=p.get('norm', False),
                                     gray_coding=p.get('gray', False), pn_inv_postcoding=p.get('post_inv', False), **k)
    return y, pattern(P, p) if not hasattr(x, 'h') else x


def ce_post(E, x, y, p):
    y, pat = y
    L = 2 ** p['d'] - 1
    w = p['post'] + p['pre'] + 1
    E.check(isinstance(y, tuple) and len(y) == 2, 'channel and residual')
    if not E.same_shape(y[0], (w,), 'number of taps'):
        return
    if E.symbolic:
        rot = lock_ok(E, x, p, pat)
        a, b, u = record(E, 'least squares')
        M = rot.shape[0]
        mx = u.at((0,))
        for q in range(1, w):
            mx = E.max(mx, u.at((q,)))
        f = mean_sig(E, x, L)
        if not (E.same_shape(a, (L, w), 'one row per symbol') and E.same_shape(b, (L,), 'one row per symbol')):
            return
        if p.get('norm'):
            E.ctx.assume(c.ne(mx, 0))
        E.forall(L, lambda k: E.eq(E.at(b, k), f((k + p['post']) % L)), 'averaged signal of each row')
        used = []
        for i in range(w):
            o = E.at(y[0], i)
            q = [q for q in range(w) if E.known(c.eq(o * mx if p.get('norm') else o, u.at((q,))))]
            E.check(len(q) == 1 and q[0] not in used, 'tap %d is one of the solved unknowns' % i)
            if len(q) == 1:
                used.append(q[0])
                # row k is the signal at k + post, tap i weighs the symbol i - pre before it
                E.forall(L, lambda k, i=i, q=q[0]: E.eq(E.at(a, k, q), E.at(rot, (k + p['post'] + p['pre'] - i) % M)), 'symbols weighed by tap %d' % i)
        return
    x = pat
    r = locked(x, p, E)
    if r is None:
        return
    s = mean_sig(E, x, L)
    h = np.array(y[0], dtype=float)
    k = np.arange(L)
    A_ = np.stack([x.pat[(r + k + p['pre'] - i) % L] for i in range(w)], 1)
    if p.get('norm'):
        ref = np.linalg.lstsq(A_, s, rcond=None)[0]
        if not np.max(ref) > 1e-3 or np.linalg.cond(A_) > 1e4:
            return
        E.check(abs(np.max(h) - 1) < 1e-9, 'peak of one')
        h = h * np.max(ref)
    g = A_.T @ (A_ @ h - s)
    sc = np.abs(A_).T @ (np.abs(A_) @ np.abs(h) + np.abs(s)) + 1e-12
    for i in range(w):
        E.check(bool(abs(g[i]) <= E.tol * sc[i]), 'squared error is stationary in tap %d' % i)
    err = np.asarray(y[1], dtype=float).reshape(-1)
    if len(err) == 1:
        E.check(abs(err[0] - np.sum((A_ @ h - s) ** 2)) <= 1e-6 * (1 + np.sum(s ** 2)), 'sum of squared residuals')
    if x.h is not None and not np.any(x.e) and r == x.off and np.linalg.cond(A_) < 1e4:
        t = x.h / np.max(x.h) if p.get('norm') else x.h
        E.check(bool(np.max(np.abs(np.array(y[0]) - t)) < 1e-6), 'the channel itself when the signal is its output')


CE = [{'d': 7, 'c': c_, 'post': a, 'pre': b} for c_ in ('NRZ', 'PAM4', 'OOK') for a, b in ((2, 1), (0, 0), (1, 3))]
CE += [dict(CE[i], **f) for i in (0, 3) for f in ({'gray': True}, {'fs': True}, {'bo': True}, {'pre_inv': True}, {'post_inv': True}, {'norm': True}, {'gray': True, 'bo': True, 'pre_inv': True, 'norm': True})]
CEC = [dict(q, noise=z) for q in CE + [{'d': 9, 'c': c_, 'post': 6, 'pre': 3} for c_ in ('PAM4', 'NRZ')] for z in (0, 1)]
CASES['C33'] = [
    Case('aligned problem', pr_mk, ce_run, ce_post, params=CE, conc=False, nanok=True, subst=['CommDspy.rx.lock_pattern.lock_pattern_to_signal'], funcs=['channel_estimation.channel_estimation_prbs', 'misc.least_squares.least_squares', 'misc.least_squares.ols'], deadline=60, mutcheck=False),
    Case('estimate', pr_mk, ce_run, ce_post, params=CEC, sym=False, trials=5, thorough=40, funcs=['channel_estimation.channel_estimation_prbs'], tol=1e-7, mutcheck=False)]


# ---- C31 ----------------------------------------------------------------------------------------------
def ct_mk(I, p):
    z = [I.real('z%d' % i, 0.125, 8, vals=[0.125, 1.0, 8.0]) for i in range(p['nz'])]
    q = [I.real('p%d' % i, 0.125, 8, vals=[0.125, 1.0, 8.0]) for i in range(p['np'])]
    x = NS(z=z, q=q, fs=I.real('fs', 0.5, 16), osr=I.int('osr', 1, 64))
    x.g = I.real('g', -12, 12) if not p.get('g') else p['g']
    if not I.symbolic and p.get('big'):        # realistic frequencies
        x.z, x.q, x.fs = [v * 1e9 for v in z], [v * 1e10 for v in q], x.fs * 1e10
    return x


def ct_run(P, x, p):
    s = p.get('s', 1)
    sg = [(-1) ** i if s == 2 else s for i in range(6)]
    return P('rx.get_ctle_filter')([sg[i] * v for i, v in enumerate(x.z)], [sg[i + 1] * v for i, v in enumerate(x.q)], x.g, x.fs, x.osr)


def pmul(a, b):
    r = [0.0] * (len(a) + len(b) - 1)
    for i, u in enumerate(a):
        for j, v in enumerate(b):
            r[i + j] = r[i + j] + u * v
    return r


def ct_post(E, x, y, p):
    """highest power of z first: num = G prod (1 + s/z), den = prod (1 + s/p) at s = 2 fs osr (z-1)/(z+1), scaled to den[0] = 1"""
    E.check(isinstance(y, tuple) and len(y) == 2, 'numerator and denominator')
    nz, nq = p['nz'], p['np']
    m = max(nz, nq)
    K = 2 * x.fs * x.osr
    if E.symbolic:
        G = c.power(10, E.tdiv(x.g, 20)) if isinstance(x.g, S) else 10 ** (x.g / 20)
    else:
        G = 10 ** (x.g / 20)
    if not E.symbolic:
        # compare the frequency response and the gain with the continuous transfer function
        b, a = np.array(y[0], dtype=float), np.array(y[1], dtype=float)
        E.check(bool(abs(np.sum(b) - G * np.sum(a)) <= 1e-6 * (abs(G * np.sum(a)) + 1e-9 * (np.sum(np.abs(b)) + np.sum(np.abs(a))))), 'DC gain')
        for th in (0.1, 0.5, 1.0, 2.0, 3.0):
            z = complex(math.cos(th), math.sin(th))
            s = K * (z - 1) / (z + 1)
            w = G
            for v in x.z:
                w *= 1 + s / v
            for v in x.q:
                w /= 1 + s / v
            h = np.polyval(b, z) * z ** (len(a) - len(b)) / np.polyval(a, z)
            E.check(bool(abs(h - w) <= 1e-6 * (abs(w) + 1e-12)), 'response of the continuous filter at %g' % th)
        return
    if not (E.same_shape(y[0], (m + 1,), 'numerator length') and E.same_shape(y[1], (m + 1,), 'denominator length')):
        return
    num, den = [G], [1.0]
    for v in x.z:
        num = pmul(num, [v + K, v - K])
        den = [t * v for t in den]
    for v in x.q:
        den = pmul(den, [v + K, v - K])
        num = [t * v for t in num]
    for _ in range(m - nz):
        num = pmul(num, [1.0, 1.0])
    for _ in range(m - nq):
        den = pmul(den, [1.0, 1.0])
    b = [E.at(y[0], i) for i in range(m + 1)]
    a = [E.at(y[1], i) for i in range(m + 1)]
    for i in range(m + 1):
        for j in range(m + 1):
            # proportional to the documented filter: a_i den_j = a_j den_i, b_i den_j = a_j num_i
            if j == 0:
                E.check(E.eq(b[i] * den[0], a[0] * num[i]), 'numerator coefficient %d' % i)
                E.check(E.eq(a[i] * den[0], a[0] * den[i]), 'denominator coefficient %d' % i)
    E.check(E.eq(sum(b[1:], b[0]), G * sum(a[1:], a[0])), 'DC gain')


CTP = [{'nz': i, 'np': j, 's': s} for i, j in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3)) for s in (1, -1, 2)]
CASES['C31'] += [
    Case('coefficients', ct_mk, ct_run, ct_post, params=CTP, trials=25, funcs=['rx.ctle_model.get_ctle_filter'], deadline=60, tol=1e-6),
    Case('coefficients, realistic frequencies', ct_mk, ct_run, ct_post, params=[dict(q, big=1) for q in CTP if q['np'] >= q['nz']], sym=False, trials=25, funcs=['rx.ctle_model.get_ctle_filter'], tol=1e-6)]


# ---- C32 ----------------------------------------------------------------------------------------------
def ps_mk(I, p):
    n = I.int('n', 40, small=200) if I.symbolic else (I.int('n', 120, small=600) if p.get('rbw') else I.int('n', 1900, small=1500))
    if p.get('mat'):
        n = 2 * n
    x = NS(n=n, s=I.reals('s', n, grid=0), fs=p['fs'], rbw=p.get('rbw'))
    x.r = I.real('r', 1, 100)
    x.full = I.real('full', 0.25, 4)
    return x


def ps_kw(x, p):
    k = {}
    for a in ('rbw', 'mode', 'obw', 'sb_mode', 'osr', 'window', 'overlap'):
        if p.get(a) is not None:
            k[a] = p[a]
    if p.get('load'):
        k['r'] = x.r
    if p.get('mode') == 'dBFs' and not p.get('deffs'):
        k['fullscale'] = x.full
    return k


def ps_run(P, x, p):
    s = x.s
    if p.get('mat'):
        s = s.reshape(-1, 2)
    return P('psa.psa')(s, p['fs'], **ps_kw(x, p))


def ps_scale(E, x, p, rbw, sig, n):
    """documented power normalisation of the mode"""
    feff = p['fs'] / 2 if (p.get('sb_mode') or 'DSB') == 'DSB' else p['fs']
    mode = p.get('mode') or 'dB'
    obw = p.get('obw')
    if obw is not None:
        mode = 'dBc'
    bw = obw if obw is not None else rbw
    r = x.r if p.get('load') else 50
    full = x.full if mode == 'dBFs' and not p.get('deffs') else 1
    if mode == 'dB':
        return 1
    if mode == 'dBm':
        return E.tdiv(1000 * rbw / feff, r)
    if mode == 'dBm/Hz':
        return E.tdiv(1000 / feff, r)
    if mode == 'dBuv':
        return 1e12 * rbw / feff
    if mode == 'dBuv/sqrt(Hz)':
        return 1e12 / feff
    if mode == 'dBFs':
        return E.tdiv(bw / feff, full * full)
    ms = E.tdiv(E.sum(n, lambda k: sig(k) * sig(k)), n)
    if E.symbolic:
        E.ctx.assume(c.gt(ms, 0))       # precondition: not the zero signal
    elif ms == 0:
        raise Skip()
    return E.qdiv(bw / feff, ms)


def ps_post(E, x, y, p):
    rbw = p.get('rbw')
    n = x.n
    if E.symbolic:
        (sig, kw, res) = record(E, 'welch')
    else:
        s = np.asarray(x.s, dtype=float)
        if p.get('mat'):
            n = n // 2 * 2
            s = s[:n]
    if rbw is None:
        rbw = max(p['fs'] / 1000, 2 * p['fs'] / n / 10)
    wn = int(1.9 * math.ceil(p['fs'] / rbw))
    import scipy.signal
    win = scipy.signal.get_window(p.get('window') or 'blackmanharris', wn)
    nfft = 2 ** math.ceil(math.log2(wn * (p.get('osr') or 4)))
    nov = math.floor(wn * (p.get('overlap') or 0.75))
    if E.symbolic:
        E.check(kw.get('fs') == p['fs'] and kw.get('nfft') == nfft and kw.get('noverlap') == nov and kw.get('scaling') == 'spectrum', 'periodogram settings')
        w = kw.get('window')
        E.check(w is not None and not isinstance(w, str) and [float(v) for v in A(w)._pv_vals()] == [float(v) for v in win], 'window')
        sc = ps_scale(E, x, p, rbw, lambda k: E.at(x.s, k), n)
        if E.same_shape(sig, (n,), 'length of the analysed signal'):
            def one(k):
                a, b = E.at(sig, k), E.at(x.s, k)
                return E.and_(E.le(E.abs(a * a - sc * b * b), 1e-9 * sc * b * b), E.ge(a * b, 0))
            E.forall(n, one, 'power scaled by the reference of the mode')
        E.check(isinstance(y, tuple) and len(y) == 2 and y[0] is res[0] and y[1] is res[1], 'frequencies and spectrum')
        return
    sc = ps_scale(E, x, p, rbw, lambda k: s[k], n)
    f, q = scipy.signal.welch(s, nfft=nfft, fs=p['fs'], window=win, noverlap=nov, scaling='spectrum')
    E.check(isinstance(y, tuple) and len(y) == 2, 'frequencies and spectrum')
    if E.same_shape(y[0], f.shape) and E.same_shape(y[1], q.shape):
        E.check(bool(np.allclose(y[0], f)), 'frequencies')
        E.check(bool(np.allclose(y[1], q * sc, rtol=1e-7, atol=1e-12 * sc * np.max(q))), 'power scaled by the reference of the mode')


MODES = ['dBm', 'dBm/Hz', 'dBuv', 'dBuv/sqrt(Hz)', 'dBc', 'dBFs', 'dB', None]
PS = [{'fs': 64.0, 'rbw': 4.0, 'mode': m, 'sb_mode': b, 'load': l} for m in MODES for b in (None, 'SSB') for l in (0, 1) if l == 0 or m and m.startswith('dBm')]
PS += [{'fs': 64.0, 'rbw': 4.0, 'mode': m, 'obw': 3.0} for m in ('dBm', 'dBc', None)] + [{'fs': 64.0, 'rbw': 4.0, 'mode': 'dBFs', 'deffs': 1}, {'fs': 48.0, 'rbw': 3.5, 'mode': 'dBm', 'osr': 2, 'overlap': 0.5, 'window': 'hann'}, {'fs': 64.0, 'rbw': 4.0, 'mode': 'dBm/Hz', 'mat': 1}] + [{'fs': 100.0, 'rbw': 7.0, 'mode': 'dB', 'osr': q} for q in (1, 3, 5, 6, 7)]
PSC = PS + [{'fs': f, 'mode': m} for f in (1.0, 1e9) for m in MODES]


def psb_post(E, x, y, p):
    pass


CASES['C32'] = [
    Case('scaling', ps_mk, ps_run, ps_post, params=PS, trials=6, nanok=True, funcs=['psa.psa'], deadline=60, tol=1e-7),
    Case('scaling, default bandwidth', ps_mk, ps_run, ps_post, params=[q for q in PSC if 'rbw' not in q], sym=False, trials=6, funcs=['psa.psa'], tol=1e-7),
    Case('unsupported mode', ps_mk, ps_run, psb_post, params=[{'fs': 64.0, 'rbw': 4.0, 'mode': m} for m in ('dBx', '', 'dbm')], raises=ValueError, trials=3, funcs=['psa.psa'])]
