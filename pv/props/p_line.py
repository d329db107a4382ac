"""Line codes: C07 Gray, C08 differential, C10 bipolar, C11 MLT-3."""
import numpy as np
from pv.spec import Case, NS

CB = ['CommDspy.misc.help_functions.check_binary']
CON = {'NRZ': 2, 'OOK': 2, 'PAM3': 3, 'PAM4': 4}
CASES = {'C07': [], 'C08': [], 'C10': [], 'C11': []}


def con(P, p):
    return getattr(P('constants.ConstellationEnum'), p['c'])


def shaped(I, p, hi, name='x'):
    """symbols 0..hi in a vector or an a x w matrix"""
    if p.get('w') is None:
        n = I.int('n', 1, small=14, large=120)
        return NS(x=I.ints(name, n, 0, hi), n=n)
    a = I.int('a', 1, small=5)
    return NS(x=I.ints(name, (a, p['w']), 0, hi), n=a * p['w'])


def fl(E, y, k):
    """element k of y in row-major order"""
    sh = E.shape(y)
    if len(sh) == 1:
        return E.at(y, k)
    return E.at(y, E.div(k, sh[1]), E.mod(k, sh[1]))


def same(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.forall(E.shape(x.x), lambda *i: E.eq(E.at(y, *i), E.at(x.x, *i)), 'round trip')


# ---- C07 -------------------------------------------------------------------------------------------
def gray_vec(E, x, y, p):
    m = p['m']
    if not E.same_shape(y, (m,)):
        return
    v = [int(E.at(y, k)) for k in range(m)]
    E.check(len(set(v)) == m, 'codes distinct')
    E.check(all(bin(v[k] ^ v[k + 1]).count('1') == 1 for k in range(m - 1)), 'neighbours differ in one bit')
    if m & (m - 1) == 0:
        E.check(sorted(v) == list(range(m)), 'permutation of 0..M-1')


CASES['C07'].append(Case('gray numbering', lambda I, p: NS(), lambda P, x, p: P('auxiliary.get_gray_level_vec')(p['m']), gray_vec,
                         params=[{'m': m} for m in list(range(2, 34)) + [63, 64, 65, 100, 127, 128, 200, 256, 300, 512, 1000, 1024]],
                         trials=1, thorough=1, funcs=['auxiliary.get_gray_level_vec'], bound='the listed level counts, up to 1024'))


def gray_mk(I, p):
    return shaped(I, p, CON[p['c']] - 1)


def gray_enc(E, x, y, p):
    m = CON[p['c']]
    code = {2: [0, 1], 3: [0, 1, 3], 4: [0, 1, 3, 2]}[m]
    if E.same_shape(y, E.shape(x.x)):
        def f(*i):
            v = E.at(x.x, *i)
            r = code[-1]
            for k in range(m - 2, -1, -1):
                r = E.ite(E.eq(v, k), code[k], r)
            return E.eq(E.at(y, *i), r)
        E.forall(E.shape(x.x), f, 'symbol is sent as its Gray code')


GP = [{'c': k, 'w': w} for k in CON for w in (None, 3)]
CASES['C07'] += [
    Case('gray round trip', gray_mk, lambda P, x, p: P('rx.decoding_gray')(P('tx.coding_gray')(x.x, con(P, p)), con(P, p)), same, params=GP,
         funcs=['tx.coding.coding_gray', 'rx.decoding.decoding_gray', 'auxiliary.get_gray_level_vec'], trials=30),
    Case('gray encode', gray_mk, lambda P, x, p: P('tx.coding_gray')(x.x, con(P, p)), gray_enc, params=GP,
         funcs=['tx.coding.coding_gray', 'auxiliary.get_gray_level_vec'], trials=30),
    Case('gray default constellation', lambda I, p: shaped(I, p, 3), lambda P, x, p: P('rx.decoding_gray')(P('tx.coding_gray')(x.x)), same,
         funcs=['tx.coding.coding_gray', 'rx.decoding.decoding_gray'], trials=30)]


# ---- C08 -------------------------------------------------------------------------------------------
def diff_enc(E, x, y, p):
    m = CON[p['c']]
    if E.same_shape(y, E.shape(x.x)):
        E.check(E.eq(fl(E, y, 0), fl(E, x.x, 0)), 'starts from zero')
        E.forall(x.n - 1, lambda k: E.eq(fl(E, y, k + 1), E.mod(fl(E, y, k) + fl(E, x.x, k + 1), m)), 'running modulo sum')


def diff_dec(E, x, y, p):
    m = CON[p['c']]
    if E.same_shape(y, E.shape(x.x)):
        E.check(E.eq(fl(E, y, 0), fl(E, x.x, 0)), 'starts from zero')
        E.forall(x.n - 1, lambda k: E.eq(fl(E, y, k + 1), E.mod(fl(E, x.x, k + 1) - fl(E, x.x, k), m)), 'modulo difference')


def huge_run(P, x, p):
    """a stream whose running sum leaves the range in which single precision holds whole numbers"""
    v = np.full(6 * 10 ** 6 + x.m, 3)
    v[::7] = x.k
    C = P('constants.ConstellationEnum').PAM4
    y = P('tx.coding_differential')(v, C)
    bad = []
    if not np.array_equal(y, np.cumsum(v) % 4):
        bad.append('encoding')
    if not np.array_equal(P('rx.decoding_differential')(np.cumsum(v) % 4, C), v):
        bad.append('decoding')
    return bad


DP = [{'c': k, 'w': w} for k in CON for w in (None, 1, 3)]
CASES['C08'] += [
    Case('differential encode', gray_mk, lambda P, x, p: P('tx.coding_differential')(x.x, con(P, p)), diff_enc, params=DP,
         funcs=['tx.coding.coding_differential'], trials=25),
    Case('differential decode', gray_mk, lambda P, x, p: P('rx.decoding_differential')(x.x, con(P, p)), diff_dec, params=DP,
         funcs=['rx.decoding.decoding_differential'], trials=25),
    Case('differential round trip', gray_mk, lambda P, x, p: P('rx.decoding_differential')(P('tx.coding_differential')(x.x, con(P, p)), con(P, p)), same, params=DP,
         funcs=['tx.coding.coding_differential', 'rx.decoding.decoding_differential'], trials=25),
    Case('differential default constellation', lambda I, p: shaped(I, p, 3), lambda P, x, p: P('tx.coding_differential')(x.x),
         lambda E, x, y, p: diff_enc(E, x, y, {'c': 'PAM4'}), funcs=['tx.coding.coding_differential'], trials=25),
    Case('differential round trip, long streams', lambda I, p: NS(x=I.ints('x', p['n'], 0, CON[p['c']] - 1)),
         lambda P, x, p: P('rx.decoding_differential')(P('tx.coding_differential')(x.x, con(P, p)), con(P, p)), same,
         params=[{'c': c_, 'n': 20000} for c_ in CON], sym=False, trials=2, thorough=10,
         funcs=['tx.coding.coding_differential', 'rx.decoding.decoding_differential']),
    Case('differential coding, sums beyond 2^24', lambda I, p: NS(k=I.int('k', 1, 3), m=I.int('m', 1, 9)), huge_run, lambda E, x, y, p: E.check(y == [], 'running sum modulo the number of levels: ' + ', '.join(y)),
         sym=False, trials=1, thorough=4, mutcheck=False, sizes=0, funcs=['tx.coding.coding_differential', 'rx.decoding.decoding_differential'])]


# ---- C10 -------------------------------------------------------------------------------------------
def bits(I, p):
    return shaped(I, p, 1)


def ami_enc_mk(I, p):
    x = shaped(I, p, 1)
    xx = x.x
    # number of ones up to and including k, modulo 2
    from pv.props.util import flat
    x.ones = I.seq('ones', lambda k: 0, lambda f, k: (f(k - 1) + flat(xx, k)) % 2)
    return x


def ami_enc(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.link(x.n, lambda r, k: E.eq(E.mod(r(k), 2), x.ones.at(k)), 'running parity')
        E.forall(x.n, lambda k: E.eq(fl(E, y, k), E.ite(E.eq(fl(E, x.x, k), 0), 1, E.ite(E.eq(x.ones.at(k), 1), 0, 2))),
                 'spaces in the middle, marks alternate starting low')


def ami_dec(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.forall(x.n, lambda k: E.eq(fl(E, y, k), E.ite(E.eq(fl(E, x.x, k), 1), 0, 1)), 'marks decode to one')


def ami_err(E, x, y, p):
    if not E.same_shape(y, E.shape(x.x)):
        return
    n = x.n
    v = [fl(E, x.x, k) for k in range(n)]
    pm, cur = [], 1          # previous mark (1: none)
    for k in range(n):
        pm.append(cur)
        cur = E.ite(E.ne(v[k], 1), v[k], cur)
    nm, cur = [None] * n, 1
    for k in range(n - 1, -1, -1):
        nm[k] = cur
        cur = E.ite(E.ne(v[k], 1), v[k], cur)
    for k in range(n):
        bad = E.and_(E.ne(v[k], 1), E.or_(E.eq(pm[k], v[k]), E.eq(nm[k], v[k])))
        good = E.ite(E.eq(v[k], 1), 0, 1)
        E.check(E.eq(fl(E, y, k), E.ite(bad, E.ite(E.eq(v[k], 2), 0.5, -0.5), good)), 'violating marks and only they are replaced')


def tern_fixed(I, p):
    if p.get('w'):
        return NS(x=I.ints('x', (p['n'] // p['w'], p['w']), 0, 2), n=p['n'])
    return NS(x=I.ints('x', p['n'], 0, 2), n=p['n'])


def sparse_marks(I, p):
    """marks of any polarity separated by up to 60 spaces"""
    m = I.int('m', 0, 8)
    gap, pol = I.ints('gap', m + 1, 0, 60), I.ints('pol', m, 0, 1)
    x = [1] * int(gap[m])
    for g, s in zip(gap[:m], pol):
        x += [1] * int(g) + [2 * int(s)]
    x = np.array(x[::-1] or [1])
    return NS(x=x, n=len(x))


def tern_any(I, p):
    x = shaped(I, p, 2)
    x.n = int(x.n) if not I.symbolic else x.n
    return x


SH = [{'w': None}, {'w': 1}, {'w': 3}]
CASES['C10'] += [
    Case('bipolar encode', ami_enc_mk, lambda P, x, p: P('tx.coding_bipolar')(x.x), ami_enc, params=SH, subst=CB,
         funcs=['tx.coding.coding_bipolar', 'tx.coding.coding_differential']),
    Case('bipolar decode', lambda I, p: shaped(I, p, 2), lambda P, x, p: P('rx.decoding_bipolar')(x.x), ami_dec, params=SH,
         funcs=['rx.decoding.decoding_bipolar']),
    Case('bipolar round trip', bits, lambda P, x, p: P('rx.decoding_bipolar')(P('tx.coding_bipolar')(x.x)), same, params=SH, subst=CB,
         funcs=['tx.coding.coding_bipolar', 'rx.decoding.decoding_bipolar']),
    Case('bipolar error detection, fixed lengths', tern_fixed, lambda P, x, p: P('rx.decoding_bipolar')(x.x, True), ami_err,
         params=[{'n': n} for n in (1, 2, 3, 4, 5)] + [{'n': 4, 'w': 2}, {'n': 3, 'w': 1}], funcs=['rx.decoding.decoding_bipolar'], trials=30, split_masks=8,
         bound='sequences of up to 5 symbols'),
    Case('bipolar error detection, random lengths', tern_any, lambda P, x, p: P('rx.decoding_bipolar')(x.x, True), ami_err, params=SH, sym=False,
         trials=150, funcs=['rx.decoding.decoding_bipolar']),
    Case('bipolar error detection, sparse marks', lambda I, p: sparse_marks(I, p), lambda P, x, p: P('rx.decoding_bipolar')(x.x, True), ami_err, sym=False,
         trials=150, funcs=['rx.decoding.decoding_bipolar']),
    Case('bipolar round trip with error detection', bits, lambda P, x, p: P('rx.decoding_bipolar')(P('tx.coding_bipolar')(x.x), error_detection=True), same,
         params=SH, sym=False, funcs=['tx.coding.coding_bipolar', 'rx.decoding.decoding_bipolar'])]


# ---- C11 -------------------------------------------------------------------------------------------
def mlt_mk(I, p):
    from pv.props.util import flat
    x = shaped(I, p, 1)
    xx = x.x
    x.pos = I.seq('pos', lambda k: 0, lambda f, k: (f(k - 1) + flat(xx, k)) % 4)
    return x


def mlt_enc(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.link(x.n, lambda r, k: E.eq(E.mod(r(k), 4), x.pos.at(k)), 'running count modulo 4')
        E.forall(x.n, lambda k: E.eq(fl(E, y, k), E.ite(E.eq(x.pos.at(k), 3), 1, x.pos.at(k))), 'one step in the cycle 0,1,2,1 per one bit')


def mlt_dec(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.forall(x.n - 1, lambda k: E.eq(fl(E, y, k + 1), E.ite(E.eq(fl(E, x.x, k + 1), fl(E, x.x, k)), 0, 1)), 'a level change is a one')
        E.check(E.eq(fl(E, y, 0), fl(E, x.x, 0)), 'first level')


def mlt_rx(I, p):
    x = shaped(I, p, 1)
    return x


CASES['C11'] += [
    Case('mlt3 encode', mlt_mk, lambda P, x, p: P('tx.coding_mlt3')(x.x), mlt_enc, params=SH, subst=CB,
         funcs=['tx.coding.coding_mlt3', 'tx.coding.coding_differential']),
    Case('mlt3 decode of two-level segments', mlt_rx, lambda P, x, p: P('rx.decoding_mlt3')(x.x), mlt_dec, params=SH, funcs=['rx.decoding.decoding_mlt3']),
    Case('mlt3 round trip', bits, lambda P, x, p: P('rx.decoding_mlt3')(P('tx.coding_mlt3')(x.x)), same, params=SH, subst=CB,
         funcs=['tx.coding.coding_mlt3', 'rx.decoding.decoding_mlt3'])]
