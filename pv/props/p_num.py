"""C24 fractional delay, C25 LMS gradients, C26 Mueller-Muller, C27 additive noise, C28 pulses."""
import math
import numpy as np
from pv import core as c
from pv import arr, npshim
from pv.arr import A, SArr, CArr
from pv.core import S
from pv.spec import Case, NS
from pv.props.p_filt import near, pulse_at, pick, LEV

CASES = {'C24': [], 'C25': [], 'C26': [], 'C27': [], 'C28': []}


def flts(v):
    return [float(e) for e in (v.tolist() if isinstance(v, np.ndarray) else A(v)._pv_vals())]


def sincv(E, v):
    return npshim._sinc(v) if E.symbolic else float(np.sinc(v))


# ---- C24 -------------------------------------------------------------------------------------------
def grid(n, fwd):
    lo = -(n // 2) - (1 if n % 2 and not fwd else 0)
    return list(range(lo, lo + n + 1))


def lg_mk(I, p):
    return NS(a=I.real('alpha', 0, 1, vals=[0.0, 0.5]))


def lg_run(P, x, p):
    f = P('dig_delay_lagrange_coeffs')
    return f(p['n'], x.a) if p['fwd'] is None else f(p['n'], x.a, p['fwd'])


def poly0(e):
    """the difference is the zero polynomial"""
    return e


def lg_post(E, x, y, p):
    g = grid(p['n'], p['fwd'] is not False)
    if not E.same_shape(y, (p['n'] + 1,)):
        return
    ys = [E.at(y, i) for i in range(p['n'] + 1)]
    for i, gi in enumerate(g):
        w = 1.0
        for gj in g:
            if gj != gi:
                w = w * E.tdiv(x.a - gj, gi - gj)
        E.check(E.eq(ys[i], w), 'Lagrange basis polynomial of tap %d' % gi)
    for d in range(p['n'] + 1):
        s, m = 0.0, 1.0
        for i, gi in enumerate(g):
            s = s + ys[i] * (gi ** d)
        for _ in range(d):
            m = m * x.a
        E.check(E.eq(s, m), 'reproduces the monomial of degree %d' % d if d else 'taps sum to one')


def lgx_post(E, x, y, p):
    """against the basis polynomials in exact arithmetic"""
    from fractions import Fraction as F
    g = grid(x.n, x.fwd is not False)
    if not E.same_shape(y, (x.n + 1,)):
        return
    E.check(abs(float(np.sum(y)) - 1) < 1e-9, 'taps sum to one')
    a = F(float(x.a))
    for i, gi in enumerate(g):
        w = F(1)
        for gj in g:
            if gj != gi:
                w *= (a - gj) / (gi - gj)
        E.check(abs(float(y[i]) - float(w)) <= 1e-9 * (1 + abs(float(w))), 'Lagrange basis polynomial of tap %d' % gi)


LG = [{'n': n, 'fwd': f} for n in range(0, 8) for f in ((None, True, False) if n else (None,))]
LF = ['digital_delay.dig_delay_lagrange_coeffs', 'digital_delay._get_indices']


def sc_post(E, x, y, p):
    g = grid(p['n'], p['fwd'] is not False)
    if E.same_shape(y, (p['n'] + 1,)):
        for i, gi in enumerate(g):
            E.check(E.eq(E.at(y, i), sincv(E, gi - x.a)), 'sinc at %d - alpha' % gi)


def sc_run(P, x, p):
    f = P('dig_delay_sinc_coeffs')
    return f(p['n'], x.a) if p['fwd'] is None else f(p['n'], x.a, p['fwd'])


def rc_mk(I, p):
    return NS(a=I.int('alpha', 0, 16) / 16, b=I.int('beta', 0, 16) / 16, n=I.int('n', 0, 12), fwd=bool(I.int('fwd', 0, 1)))


def rc_run(P, x, p):
    return P('digital_delay.dig_delay_rcos_coeffs')(x.n, x.a, x.fwd, x.b)


def rc_post(E, x, y, p):
    g = grid(x.n, x.fwd)
    if E.same_shape(y, (x.n + 1,)):
        for i, gi in enumerate(g):
            E.check(E.eq(E.at(y, i), pulse_at('rcos', gi - x.a, x.b)), 'raised cosine at %d - alpha' % gi)


def os_mk(I, p):
    n = I.int('n', p['order'] + 1, small=10, large=40)
    return NS(n=n, x=I.ints('x', n) if p.get('int') else I.reals('x', n))


def os_coeffs(P, p, i):
    al = i / p['osr']
    if p['method'] == 'rcos':
        return flts(P('digital_delay.dig_delay_rcos_coeffs')(p['order'], al, True, p.get('beta', 0)))
    return flts(P('dig_delay_%s_coeffs' % p['method'])(p['order'], al))


def os_run(P, x, p):
    k = {'beta': p['beta']} if 'beta' in p else {}
    xs = x.x
    if p.get('list') and isinstance(xs, np.ndarray):
        xs = xs.tolist()
    r = P('digital_oversample')(xs, osr=p['osr'], order=p['order'], method=p['method'], **k)
    return r, [os_coeffs(P, p, i) for i in range(1, p['osr'])]


def os_post(E, x, y, p):
    (v, t2, t1), co = y
    osr, od = p['osr'], p['order']
    m = x.n - od
    if not E.same_shape(v, (m * osr,)):
        return
    if not E.symbolic:
        for i, h in enumerate(co):
            al = (i + 1) / osr
            for j, gj in enumerate(grid(od, True)):
                if p['method'] == 'sinc':
                    w = float(np.sinc(gj - al))
                elif p['method'] == 'rcos':
                    w = pulse_at('rcos', gj - al, p.get('beta', 0))
                else:
                    w = math.prod((al - q) / (gj - q) for q in grid(od, True) if q != gj)
                E.check(abs(h[j] - w) < 1e-6, 'delay filter')
    for i in range(osr):
        if i == 0:
            E.forall(m, lambda k: E.eq(E.at(v, k * osr), E.at(x.x, k + od // 2)), 'original samples kept')
        else:
            h = co[i - 1]

            def one(k, i=i, h=h):
                s = 0.0
                for j, t in enumerate(h):
                    s = s + t * E.at(x.x, k + j)
                return E.eq(E.at(v, k * osr + i), s)
            E.forall(m, one, 'interpolated samples at phase %d' % i)
    if E.same_shape(t2, (m * osr,), 'new time axis'):
        E.forall(m * osr, lambda k: E.eq(E.at(t2, k), E.tdiv(k, osr)), 'new time axis')
    if E.same_shape(t1, (m + 1,), 'old time axis'):
        E.forall(m + 1, lambda k: E.eq(E.at(t1, k), k), 'old time axis')


OSP = [{'method': q, 'osr': o, 'order': n} for q in ('lagrange', 'sinc', 'rcos') for o, n in ((1, 2), (2, 1), (2, 2), (3, 3), (4, 4), (2, 0), (3, 5))] + \
      [{'method': 'rcos', 'osr': o, 'order': n, 'beta': b} for o, n in ((2, 2), (4, 3)) for b in (0.25, 0.5, 1)] + [{'method': 'lagrange', 'osr': 2, 'order': 2, 'int': True}]


def osr_mk(I, p):
    q = {'method': ['lagrange', 'sinc', 'rcos'][I.int('method', 0, 2)], 'osr': I.int('osr', 1, 8), 'order': I.int('order', 0, 9), 'beta': I.int('beta', 0, 8) / 8, 'int': I.int('ints', 0, 1), 'list': I.int('list', 0, 1)}
    x = os_mk(I, q)
    x.q = q
    return x


CASES['C24'] += [
    Case('Lagrange coefficients', lg_mk, lg_run, lg_post, params=LG, trials=6, funcs=LF, tol=1e-7),
    Case('Lagrange coefficients, high order', lambda I, p: NS(a=I.real('alpha', 0, 1), q={'n': I.int('n', 8, 12), 'fwd': [None, True, False][I.int('fwd', 0, 2)]}), lambda P, x, p: lg_run(P, x, x.q), lambda E, x, y, p: lg_post(E, x, y, x.q), sym=False, trials=40, funcs=LF, tol=1e-4),
    Case('Lagrange basis of very high order', lambda I, p: NS(a=I.real('alpha', 0, 1, vals=[0.0, 0.5]), n=I.int('n', 13, 60), fwd=[None, True, False][I.int('fwd', 0, 2)]),
         lambda P, x, p: lg_run(P, x, {'n': x.n, 'fwd': x.fwd}), lgx_post, sym=False, trials=60, funcs=LF, sizes=0),
    Case('sinc coefficients', lg_mk, sc_run, sc_post, params=LG, trials=6, funcs=['digital_delay.dig_delay_sinc_coeffs', 'digital_delay._get_indices']),
    Case('raised cosine coefficients', rc_mk, rc_run, rc_post, sym=False, trials=300, funcs=['digital_delay.dig_delay_rcos_coeffs'], tol=1e-6),
    Case('oversampling', os_mk, os_run, os_post, params=OSP, trials=8, funcs=['digital_delay.digital_oversample', 'digital_delay._get_dd_coeffs'], deadline=60),
    Case('oversampling, random settings', osr_mk, lambda P, x, p: os_run(P, x, x.q), lambda E, x, y, p: os_post(E, x, y, x.q), sym=False, trials=150, funcs=['digital_delay.digital_oversample'], tol=1e-6)]


# ---- C25 -------------------------------------------------------------------------------------------
def lms_mk(I, p):
    ff, df = p.get('ffe', []), p.get('dfe', [])
    low = max([1] + [abs(i) + 1 for i in ff] + [j + 1 for j in df])
    n = I.int('n', low, small=8, large=40)
    x = NS(n=n, y=I.reals('y', n), o=I.reals('o', n) if p.get('sigma') is None or I.symbolic else I.reals('o', n, -4, 4))
    lv = LEV[p.get('levels')]
    x.levels = I.const(np.array(lv))
    if p.get('symlevels'):
        x.levels = I.reals('lv', p['symlevels'], -4, 4)
    x.ref = None
    if p.get('ref') == 'int':
        x.ref = I.ints('ref', n, -3, 3)
    elif p.get('ref'):
        x.ref = I.reals('ref', n)
    x.ff, x.df = np.array(ff, dtype=int), np.array(df, dtype=int)
    if p.get('sigma') is not None:
        x.sigma = p['sigma']
    return x


def lms_kw(x, p):
    k = {}
    if 'ffe' in p:
        k['ffe_tap_idx'] = x.ff
    if 'dfe' in p:
        k['dfe_tap_idx'] = x.df
    if x.ref is not None:
        k['reference_vec'] = x.ref
    return k


def lms_grads(E, x, y, p, e, ref):
    ff, df = p.get('ffe', []), p.get('dfe', [])
    want = 1 + bool(ff) + bool(df)
    if want == 1:
        E.check(not isinstance(y, tuple), 'only the loss')
        return y
    E.check(isinstance(y, tuple) and len(y) == want, 'loss and the requested gradients')
    if not (isinstance(y, tuple) and len(y) == want):
        return None
    if ff and E.same_shape(y[1], (len(ff),)):
        for q, i in enumerate(ff):
            lo, m = max(0, i), x.n - abs(i)
            s = E.sum(m, lambda k, i=i, lo=lo: e(k + lo) * E.at(x.y, k + lo - i))
            E.check(E.eq(E.at(y[1], q), E.tdiv(s, 2 * m)), 'gradient of FFE tap %d' % i)
    if df and E.same_shape(y[-1], (len(df),)):
        for q, j in enumerate(df):
            m = x.n - j
            s = E.sum(m, lambda k, j=j: e(k + j) * ref(k))
            E.check(E.eq(E.at(y[-1], q), E.tdiv(s, -2 * m)), 'gradient of DFE tap %d' % j)
    return y[0]


def lms_ref(E, x, p):
    if x.ref is not None:
        return lambda k: E.at(x.ref, k)
    lv = LEV[p.get('levels')] if not p.get('symlevels') else [E.at(x.levels, i) for i in range(p['symlevels'])]
    return lambda k: near(E.at(x.o, k), lv)


def lms_post(E, x, y, p):
    ref = lms_ref(E, x, p)
    e = lambda k: E.at(x.o, k) - ref(k)
    mse = lms_grads(E, x, y, p, e, ref)
    if mse is not None:
        E.check(E.eq(mse, E.tdiv(E.sum(x.n, lambda k: e(k) * e(k)), x.n)), 'mean squared error')


def lms_run(P, x, p):
    return P('rx.ddlms_grad')(x.y, x.o, x.levels, **lms_kw(x, p))


LM = [{}, {'ffe': []}, {'dfe': []}, {'ffe': [0]}, {'ffe': [-2, 0, 1, 3]}, {'dfe': [1]}, {'dfe': [1, 3]}, {'ffe': [1, -1], 'dfe': [2, 1]}, {'ffe': [-1, 2], 'dfe': []}, {'ffe': [], 'dfe': [2]}]
LM = [dict(q, ref=r, levels=lv) for q in LM for r, lv in ((None, None), (None, 'nrz'), (True, 'odd'), ('int', None))]
LMF = ['rx.least_mean_squares.ddlms_grad', 'rx.least_mean_squares._compute_derivatives', 'rx.least_mean_squares._return_function', 'rx.slicer.slicer']


def lmb_mk(I, p):
    n = I.int('n', 1, small=8)
    m = I.int('m', 1, small=12)
    I.require(c.Not(c.eq(n, m)) if I.symbolic else n != m)
    return NS(y=I.reals('y', n), o=I.reals('o', n), levels=I.const(np.array([-1., 1.])), ref=I.reals('ref', m), ff=np.array([0]), df=np.array([1]))


def soft_post(E, x, y, p):
    ref = lms_ref(E, x, p)
    lv = LEV[p.get('levels')]
    sg = x.sigma

    def mix(k):
        v = E.at(x.o, k)
        ex = (lambda t: npshim._un('exp')(t)) if E.symbolic else math.exp
        w = [ex(E.tdiv(-1 * (v - l) * (v - l), 2 * sg ** 2)) for l in lv]
        f = sum(w[1:], w[0]) * (1 / len(lv) / math.sqrt(2 * math.pi * sg ** 2))
        return f, w, v

    def e(k):
        f, w, v = mix(k)
        s = 0.0
        for l, u in zip(lv, w):
            s = s + E.tdiv(v - l, sg ** 2) * u
        return E.tdiv(1, f) * s
    loss = lms_grads(E, x, y, p, e, ref)
    if loss is not None:
        ln = (lambda t: npshim._un('log')(t)) if E.symbolic else math.log
        E.check(E.eq(loss, -1 * E.tdiv(E.sum(x.n, lambda k: ln(mix(k)[0])), x.n)), 'negative log likelihood')


def soft_run(P, x, p):
    k = lms_kw(x, p)
    if p['sigma'] != 1:
        k['sigma'] = x.sigma
    return P('rx.soft_ddlms_grad')(x.y, x.o, x.levels, **k)


SO = [{}, {'ffe': [0, -1, 2]}, {'dfe': [1, 2]}, {'ffe': [1], 'dfe': [3, 1]}]
SO = [dict(q, ref=r, levels=lv, sigma=s) for q in SO for r, lv, s in ((None, None, 1), (None, 'nrz', 1), (True, 'nrz', 2), (None, 'odd', 0.5), ('int', None, 1.5))]

CASES['C25'] += [
    Case('hard decisions', lms_mk, lms_run, lms_post, params=LM, subst=['CommDspy.rx.slicer.slicer'], trials=12, funcs=LMF, deadline=60, tol=1e-8),
    Case('reference of another length', lmb_mk, lambda P, x, p: P('rx.ddlms_grad')(x.y, x.o, x.levels, x.ff, x.df, x.ref), lambda E, x, y, p: None, raises=ValueError, trials=10, funcs=LMF),
    Case('soft decisions', lms_mk, soft_run, soft_post, params=SO, subst=['CommDspy.rx.slicer.slicer'], trials=12, funcs=['rx.least_mean_squares.soft_ddlms_grad'] + LMF[1:], deadline=60, tol=1e-7)]


# ---- C26 -------------------------------------------------------------------------------------------
def mm_mk(I, p):
    n = I.int('n', 2, small=8, large=40)
    x = NS(n=n, x=I.reals('x', n) if not p.get('int') else I.ints('x', n), r=I.reals('r', n) if p.get('r') == 'real' else I.ints('r', n, -3, 3))
    x.pw = I.real('pw', 0.1, 3) if p.get('w') else 1
    x.qw = I.real('qw', 0.1, 3) if p.get('w') else 1
    x.tol = I.real('tol', 0, 2) if p.get('t') else 1e-3
    if p.get('t'):
        I.require(c.gt(x.tol, 0) if I.symbolic else x.tol > 0)
    return x


def mm_run(P, x, p):
    k = {}
    if p.get('w'):
        k.update(pre_weight=x.pw, post_weight=x.qw)
    if p.get('t'):
        k['tol'] = x.tol
    return P('rx.mueller_muller_step')(x.x, x.r, **k)


def mm_post(E, x, y, p):
    pre = E.tdiv(E.sum(x.n - 1, lambda k: E.at(x.r, k + 1) * E.at(x.x, k)), x.n - 1)
    post = E.tdiv(E.sum(x.n - 1, lambda k: E.at(x.r, k) * E.at(x.x, k + 1)), x.n - 1)
    d = post * x.qw - pre * x.pw
    if not E.symbolic and min(abs(abs(d) - x.tol), abs(d)) < 1e-9:
        return
    E.check(E.eq(y, E.ite(E.lt(E.abs(d), x.tol), 0, E.ite(E.gt(d, 0), 1, -1))), 'direction of the step')


CASES['C26'] += [Case('direction', mm_mk, mm_run, mm_post, params=[{'w': w, 't': t, 'r': r, 'int': i} for w in (0, 1) for t in (0, 1) for r in ('int', 'real') for i in (0, 1)], trials=60, funcs=['rx.clock_data_recovery.mueller_muller_step'], deadline=60)]


# ---- C27 -------------------------------------------------------------------------------------------
def aw_mk(I, p):
    n = I.int('n', 2, small=8)
    sh = (n,) if p['d'] == 1 else (n, p['d'])
    x = NS(n=n, x=I.reals('x', sh) if not p.get('int') else I.ints('x', sh))
    if p.get('ch'):
        x.b = I.reals('b', 2, -1, 1, grid=8)
    return x


def aw_run(P, x, p):
    if p.get('ch'):
        y0, z0 = P('channel.awgn_channel')(x.x, x.b, 1)
        y, z = P('channel.awgn_channel')(x.x, x.b, 1, p['snr'])
        return y, z, y0, z0
    return (P('channel.awgn')(x.x, p['snr']),)


def aw_post(E, x, y, p):
    lin = 10 ** (p['snr'] / 10)
    sig, m = x.x, x.n * p['d']
    sh = (x.n,) if p['d'] == 1 else (x.n, p['d'])
    if p.get('ch'):
        E.check(E.eq(E.at(y[1], 0), E.at(y[3], 0)), 'returned memory is noise-free')
        sig = y[2]
    if not E.same_shape(y[0], sh):
        return
    if not E.symbolic:
        v = np.asarray(sig, dtype=float)
        s2 = (np.var(v, ddof=1) + np.mean(v) ** 2) / lin
        if np.isfinite(s2) and s2 > 1e-12:
            u = (np.asarray(y[0]) - v) / math.sqrt(s2)
            E.check(bool(np.any(np.abs(u) > 1e-9)) and bool(np.all(np.abs(u) < 9)), 'noise of the required size is added')
        return
    dr = E.ctx.draws
    E.check(len(dr) == 1, 'one draw of noise')
    if len(dr) != 1:
        return
    size, g, loc, scale = dr[0]
    at = (lambda k, j: E.at(sig, k)) if p['d'] == 1 else (lambda k, j: E.at(sig, k, j))

    def total(f):
        def row(k):
            r = f(at(k, 0))
            for j in range(1, p['d']):
                r = r + f(at(k, j))
            return r
        return E.sum(x.n, row)
    mean = E.tdiv(total(lambda v: v), m)
    var = E.tdiv(total(lambda v: (v - mean) * (v - mean)), m - 1)
    want = npshim._sqrt(E.tdiv(var + mean * mean, lin))
    if p['d'] == 1:
        E.forall(x.n, lambda k: E.eq(E.at(y[0], k) - E.at(sig, k), want * E.at(g, k)), 'independent Gaussian noise of the required deviation')
    else:
        E.forall((x.n, p['d']), lambda k, j: E.eq(E.at(y[0], k, j) - E.at(sig, k, j), want * E.at(g, k, j)), 'independent Gaussian noise of the required deviation')


def st_mk(I, p):
    n = I.int('n', 2, 6)
    return NS(n=n, x=I.reals('x', n, -3, 3), snr=I.int('snr', -20, 30, vals=[0]), b=I.reals('b', 2, -1, 1), seed=I.int('seed', 0, 10 ** 6))


def st_run(P, x, p):
    np.random.seed(x.seed)
    R = p['R']
    f = P('channel.awgn_channel') if p.get('ch') else P('channel.awgn')
    big = []
    z = None
    for _ in range(R):
        if p.get('ch'):
            y, z = f(x.x, x.b, [1], x.snr)
        else:
            y = f(x.x, x.snr)
        big.append(np.array(y))
    y0, z0 = P('channel.awgn_channel')(x.x, x.b, [1])
    return np.array(big), z, y0, z0


def st_post(E, x, y, p):
    v, z, y0, z0 = y
    sig = y0 if p.get('ch') else x.x
    if p.get('ch'):
        E.check(np.allclose(z, z0), 'returned memory is noise-free')
    if not E.same_shape(v, (p['R'], x.n)):
        return
    e = v - sig
    pw = np.var(sig, ddof=1) + np.mean(sig) ** 2
    s2 = pw / 10 ** (x.snr / 10)
    if s2 < 1e-12:
        return
    u = e / math.sqrt(s2)
    N = u.size
    E.check(abs(u.mean()) < 8 / math.sqrt(N), 'zero-mean noise')
    E.check(abs((u ** 2).mean() - 1) < 8 * math.sqrt(2 / N), 'noise power implied by the SNR (measured %.3f of it)' % (u ** 2).mean())
    E.check(abs((u ** 4).mean() - 3) < 8 * math.sqrt(96 / N), 'Gaussian noise')
    E.check(abs((u[:, 1:] * u[:, :-1]).mean()) < 8 / math.sqrt(p['R'] * (x.n - 1)), 'independent samples')


AWF = ['channel.additive_noise_functions.awgn', 'channel.additive_noise_functions.awgn_channel']
CASES['C27'] += [
    Case('noise deviation', aw_mk, aw_run, aw_post, params=[{'snr': s, 'd': d, 'int': i} for s in (-10, 0, 3, 12.5, 30) for d in (1, 2) for i in (0, 1)] + [{'snr': s, 'd': 1, 'ch': True, 'int': i} for s in (-3, 0, 10, 25.0) for i in (0, 1)], trials=3, funcs=AWF, deadline=60, mutcheck=True),
    Case('measured noise power', st_mk, st_run, st_post, params=[{'R': 6000}, {'R': 6000, 'ch': True}], sym=False, trials=6, thorough=60, funcs=AWF)]


# ---- C28 -------------------------------------------------------------------------------------------
def un(E, name, v):
    return npshim._un(name)(v) if E.symbolic else float(getattr(np, name)(v))


def pu_mk(I, p):
    span = I.int('span', 1, small=5)
    x = NS(span=span, beta=p.get('beta'))
    if p.get('beta') == 'any':
        x.beta = I.real('beta', 0, 1)
    return x


def pu_run(P, x, p):
    a = (p['osr'], x.span) + ((x.beta,) if p['pulse'] in ('rcos', 'rrc') else ())
    return P('channel.%s_pulse' % p['pulse'])(*a)


def pu_val(E, pulse, t, beta):
    """closed form at t, written with the library's sin, cos and sinc"""
    if pulse == 'rect':
        return E.ite(E.and_(E.le(-0.5, t), E.lt(t, 0.5)), 1, 0)
    if pulse == 'sinc' or (not isinstance(beta, S) and beta == 0):
        return sincv(E, t)
    near0 = lambda d: E.le(E.abs(d), 1e-8)
    if pulse == 'rcos':
        lim = np.pi / 4 * sincv(E, E.qdiv(1, 2 * beta))
        if isinstance(beta, S):
            lim = E.ite(E.gt(beta, 0), lim, 0)
        u = 2 * beta * t
        return E.ite(near0(E.abs(u) - 1), lim, E.qdiv(sincv(E, t) * un(E, 'cos', np.pi * beta * t), 1 - u * u))
    q = E.qdiv(np.pi, 4 * beta)
    lim = beta / np.sqrt(2) * ((1 + 2 / np.pi) * un(E, 'sin', q) + (1 - 2 / np.pi) * un(E, 'cos', q))
    u = 4 * beta * t
    gen = E.qdiv(4 * beta / np.pi * (un(E, 'cos', (1 + beta) * np.pi * t) + E.qdiv(un(E, 'sin', (1 - beta) * np.pi * t), u)), 1 - u * u)
    return E.ite(near0(E.abs(t) - E.qdiv(1, 4 * beta)), lim, E.ite(near0(t), 1 + beta * (4 / np.pi - 1), gen))


def pu_post(E, x, y, p):
    osr = p['osr']
    if not E.same_shape(y, (2 * osr * x.span,)):
        return
    t = lambda k: E.tdiv(k - osr * x.span, osr)
    if E.symbolic:
        zero = isinstance(x.beta, S) and E.known(E.eq(x.beta, 0))
        E.forall(2 * osr * x.span, lambda k: E.eq(E.at(y, k), pu_val(E, p['pulse'], t(k), 0 if zero else x.beta)), 'closed form at every grid point')
        if p.get('beta') == 'any':
            return
        if p['pulse'] == 'sinc' or p['pulse'] == 'rcos':
            E.forall(2 * x.span, lambda m: E.le(E.abs(E.at(y, m * osr) - E.ite(E.eq(m, x.span), 1, 0)), 1e-9), 'one at zero, zero at the other whole symbols')
        return
    E.check(bool(np.all(np.isfinite(y))), 'finite values')
    w = [pulse_at(p['pulse'], (k - osr * x.span) / osr, x.beta) for k in range(2 * osr * x.span)]
    E.forall(2 * osr * x.span, lambda k: E.eq(E.at(y, k), w[k]), 'closed form at every grid point')
    if p['pulse'] in ('sinc', 'rcos'):
        E.forall(2 * x.span, lambda m: E.eq(E.at(y, m * osr), 1 if m == x.span else 0), 'one at zero, zero at the other whole symbols')


PU = [{'pulse': q, 'osr': o} for q in ('rect', 'sinc') for o in (1, 2, 3, 4, 5, 8)] + \
     [{'pulse': q, 'osr': o, 'beta': b} for q in ('rcos', 'rrc') for o in (1, 2, 3, 4) for b in (0, 0.25, 0.5, 1)]
PU += [{'pulse': q, 'osr': o, 'beta': 'any'} for q in ('rcos', 'rrc') for o in (1, 2, 3)]


def pur_mk(I, p):
    q = {'pulse': ['rect', 'sinc', 'rcos', 'rrc'][I.int('pulse', 0, 3)], 'osr': I.int('osr', 1, 24)}
    x = NS(span=I.int('span', 1, 10), q=q)
    d = I.int('den', 1, 12)
    x.beta = I.int('num', 0, d) / d
    return x


PUF = ['channel.pulse_shaping.' + f for f in ('rect_pulse', 'sinc_pulse', 'rcos_pulse', 'rrc_pulse', '_time_vec_pulse')]
CASES['C28'] += [
    Case('closed forms', pu_mk, pu_run, pu_post, params=PU, trials=6, funcs=PUF, deadline=60, tol=1e-6, mutcheck=True),
    Case('closed forms, random settings', pur_mk, lambda P, x, p: pu_run(P, x, x.q), lambda E, x, y, p: pu_post(E, x, y, x.q), sym=False, trials=500, funcs=PUF, tol=1e-6)]


# ---- C29 -------------------------------------------------------------------------------------------
def ey_mk(I, p):
    m = I.int('m', 2 if p['rate'] > 1 else 1, small=6, large=60)
    n = m * p['osr']
    return NS(m=m, n=n, x=I.reals('x', n, small=2) if not p.get('int') else I.ints('x', n, -3, 3))


def ey_run(P, x, p):
    k = {}
    if p.get('fs') is not None:
        k['fs_value'] = p['fs']
    if p.get('q') is not None:
        k['quantization'] = p['q']
    if p.get('log'):
        k['logscale'] = True
    r = P('eye_diagram')(x.x, p['osr'], p['osr'] * p['rate'], **k)
    up = P('digital_oversample')(x.x, osr=p['rate'], order=p['osr'], method='sinc')[0] if p['rate'] > 1 else None
    return r, up


def ey_post(E, x, y, p):
    (d, amp), up = y
    osr, rate, q, fs = p['osr'], p['rate'], p.get('q', 256), p.get('fs', 1)
    od = osr * rate
    rows = x.m - (1 if rate > 1 else 0)
    sig = x.x if rate == 1 else up
    if not E.same_shape(d, (q, 2 * od)) or not E.same_shape(amp, (q,), 'amplitude axis'):
        return
    e = np.linspace(-1 * fs, fs, q + 1)
    for b in range(q):
        E.check(E.eq(E.at(amp, b), float(np.linspace(-1 * fs, fs, q)[b])), 'amplitude axis spans the range')
    if not E.symbolic:
        if rate > 1:
            g = grid(osr, True)
            ref = []
            for k in range(x.n - osr):
                ref.append(float(x.x[k + osr // 2]))
                for i in range(1, rate):
                    ref.append(sum(float(np.sinc(gj - i / rate)) * float(x.x[k + j]) for j, gj in enumerate(g)))
            E.check(len(ref) == len(sig) and np.allclose(ref, sig), 'sinc interpolation')
        got = np.array(d, dtype=float)
        lin = np.round(10 ** got - 0.1) if p.get('log') else got
        E.check(np.allclose(got[:, :od], got[:, od:]), 'second unit interval repeats the first')
        S2 = np.array(sig, dtype=float).reshape(-1, od)
        for i in range(od):
            col = S2[:, i]
            w = np.array([np.sum((col >= e[b]) & ((col <= e[b + 1]) if b == q - 1 else (col < e[b + 1]))) for b in range(q)])
            E.check(np.array_equal(w, lin[:, i]), 'histogram of phase %d' % i)
            E.check(int(np.sum(lin[:, i])) == int(np.sum((col >= -fs) & (col <= fs))), 'column total is the number of in-range samples')
            if p.get('log'):
                E.check(np.allclose(got[:, i], np.log10(w + 0.1)), 'logarithm of the counts plus 0.1')
        return
    for i in range(od):
        for b in range(q):
            def inside(k, b=b, i=i):
                v = E.at(sig, k * od + i)
                return E.ite(E.and_(E.ge(v, float(e[b])), E.le(v, float(e[b + 1])) if b == q - 1 else E.lt(v, float(e[b + 1]))), 1, 0)
            cnt = E.sum(rows, inside, 'i')
            w = npshim._un('log10')(cnt + 0.1) if p.get('log') else cnt
            E.check(E.and_(E.eq(E.at(d, b, i), w), E.eq(E.at(d, b, od + i), w)), 'count of bin %d at phase %d, twice' % (b, i))


EY = [{'osr': o, 'rate': 1, 'q': q, 'fs': f, 'log': l} for o, q, f in ((1, 1, 1), (2, 3, 1), (3, 4, 1.5), (1, 6, 3)) for l in (0, 1)] + [{'osr': 2, 'rate': 1, 'q': 4, 'fs': 2, 'int': True}] + \
     [{'osr': o, 'rate': r, 'q': 2, 'fs': 1, 'log': l} for o, r in ((1, 2), (2, 2), (1, 3)) for l in (0, 1)]


def eyr_mk(I, p):
    q = {'osr': I.int('osr', 1, 8), 'rate': I.int('rate', 1, 4), 'q': I.int('q', 1, 40), 'fs': [0.5, 1, 1.7, 3][I.int('fs', 0, 3)], 'log': I.int('log', 0, 1), 'int': I.int('ints', 0, 1)}
    if q['q'] == 1 and False:
        q['q'] = 2
    x = ey_mk(I, q)
    x.q = q
    return x


CASES['C29'] = [
    Case('histogram per phase', ey_mk, ey_run, ey_post, params=EY, trials=10, funcs=['eye_diagram.eye_diagram', 'digital_delay.digital_oversample'], deadline=60),
    Case('random settings', eyr_mk, lambda P, x, p: ey_run(P, x, x.q), lambda E, x, y, p: ey_post(E, x, y, x.q), sym=False, trials=150, funcs=['eye_diagram.eye_diagram']),
    Case('default settings', lambda I, p: ey_mk(I, p), lambda P, x, p: ey_run(P, x, p), ey_post, params=[{'osr': 4, 'rate': 1}, {'osr': 2, 'rate': 4, 'log': 1}], sym=False, trials=10, funcs=['eye_diagram.eye_diagram'])]
