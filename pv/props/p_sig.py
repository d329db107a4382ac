"""C22 buffering, C23 rate conversion and bit-vector helpers."""
import itertools
import numpy as np
from pv import core as c
from pv import arr
from pv.arr import A, SArr, CArr
from pv.core import S
from pv.spec import Case, NS

CASES = {'C22': [], 'C23': []}


# ---- C22 -------------------------------------------------------------------------------------------
def bf_mk(I, p):
    n = I.int('n', 0, small=14, large=60)
    d = I.int('delay', 0, small=5) if p.get('delay') is None else p['delay']
    I.require(n + d > max(p['overlap'], 0))
    x = NS(n=n, delay=d)
    x.x = I.ints('x', n) if p.get('int') else I.reals('x', n)
    return x


def bf_run(P, x, p):
    if p.get('form') == 'short':
        return P('buffer')(x.x, p['length']) if p['overlap'] == 0 else P('buffer')(x.x, p['length'], p['overlap'])
    return P('buffer')(x.x, p['length'], p['overlap'], x.delay, p.get('clip', False))


def bf_post(E, x, y, p):
    L, ov = p['length'], p['overlap']
    st = L - ov
    N = x.n + x.delay
    if p.get('clip'):
        rows = E.ite(E.ge(N, L), E.div(N - L, st) + 1, 0)
    else:
        rows = E.div(N - max(ov, 0) + st - 1, st)
    sh = E.shape(y)

    def val(r, j):
        q = r * st + j - x.delay
        ok = E.and_(E.ge(q, 0), E.lt(q, x.n))
        if E.symbolic:
            return E.ite(ok, E.at(x.x, q), 0)
        return E.at(x.x, q) if ok else 0
    if E.symbolic and len(sh) == 2 and isinstance(sh[0], arr.MaskDim):
        m = sh[0].mask
        E.check(E.eq(sh[1], L), 'row length')
        E.check(E.ge(m.shape[0], rows), 'rows to choose from')
        E.forall(m.shape[0], lambda r: E.eq(c.coerce(m.at((r,)), 'i'), E.ite(E.lt(r, rows), 1, 0)), 'exactly the complete rows are kept')
        E.forall(sh, lambda r, j: E.eq(E.at(y, r, j), val(r, j)), 'rows hold the signal')
        return
    if E.same_shape(y, (rows, L)):
        E.forall((rows, L), lambda r, j: E.eq(E.at(y, r, j), val(r, j)), 'rows hold the signal')


LO = [(1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (4, 0), (4, 3), (1, -1), (2, -1), (3, -2), (2, -3), (5, 2)]
BP = [{'length': l, 'overlap': o, 'clip': k} for l, o in LO for k in (False, True)] + [{'length': 3, 'overlap': 1, 'clip': k, 'int': True} for k in (False, True)]


def bfr_mk(I, p):
    L = I.int('length', 1, 9)
    ov = I.int('overlap', -5, L - 1)
    n = I.int('n', 0, small=30, large=120)
    d = I.int('delay', 0, small=6)
    I.require(n + d > max(ov, 0))
    return NS(x=I.reals('x', n), length=L, overlap=ov, delay=d, clip=bool(I.int('clip', 0, 1)), n=n)


def bfr_post(E, x, y, p):
    bf_post(E, x, y, {'length': x.length, 'overlap': x.overlap, 'clip': x.clip})


BFN = ['auxiliary.buffer']
CASES['C22'] += [
    Case('rows', bf_mk, bf_run, bf_post, params=BP, trials=15, funcs=BFN),
    Case('rows, default delay and clip', bf_mk, bf_run, bf_post, params=[{'length': 3, 'overlap': o, 'delay': 0, 'form': 'short'} for o in (0, 1, -1)], trials=10, funcs=BFN),
    Case('random geometry', bfr_mk, lambda P, x, p: P('buffer')(x.x, x.length, x.overlap, x.delay, x.clip), bfr_post, sym=False, trials=400, funcs=BFN)]


# ---- C23 -------------------------------------------------------------------------------------------
def up_mk(I, p):
    n = I.int('n', 0 if p.get('empty') else 1, small=12)
    return NS(n=n, x=I.ints('x', n) if p.get('int') else I.reals('x', n))


def up_post(E, x, y, p):
    R = p['rate']
    if E.same_shape(y, (x.n * R,)):
        E.forall((x.n, R), lambda k, j: E.eq(E.at(y, k * R + j), E.at(x.x, k) if j == 0 else 0), 'sample k at kR, zeros elsewhere')


def zoh_post(E, x, y, p):
    R = p['rate']
    if E.same_shape(y, (x.n * R,)):
        E.forall((x.n, R), lambda k, j: E.eq(E.at(y, k * R + j), E.at(x.x, k)), 'each sample repeated')


RATES = [1, 2, 3, 4, 5, 8, 16, 33]


def perm_post(E, x, y, p):
    k = p['k']
    if E.same_shape(y, (2 ** k, k)):
        for i in range(2 ** k):
            for j in range(k):
                E.check(E.eq(E.at(y, i, j), (i >> (k - 1 - j)) & 1), 'bit words in counting order')


def b2u_mk(I, p):
    n = I.int('n', 1, small=8)
    sh = {1: (p['w'],), 2: (n, p['w']), 3: (2, n, p['w'])}[p['nd']]
    return NS(n=n, x=I.bits('x', sh))


def b2u_val(E, get, w):
    v = 0
    for j in range(w):
        v = v + get(j) * 2 ** (w - 1 - j)
    return v


def b2u_post(E, x, y, p):
    sh = E.shape(x.x)[:-1]
    if E.same_shape(y, sh):
        E.forall(sh if sh else (1,), lambda *i: E.eq(E.at(y, *(i if sh else ())), b2u_val(E, lambda j: E.at(x.x, *((i if sh else ()) + (j,))), p['w'])), 'first bit is the most significant')


def u2b_mk(I, p):
    n = I.int('n', 1, small=8)
    sh = {0: (1,), 1: (n,), 2: (n, 2)}[p['nd']]
    return NS(n=n, x=I.ints('x', sh, 0, 2 ** p['w'] - 1))


def u2b_post(E, x, y, p):
    sh = tuple(E.shape(x.x))
    w = p['w']
    if E.same_shape(y, sh + (w,)):
        E.forall(sh, lambda *i: E.and_(*[E.eq(E.at(y, *(i + (j,))), E.mod(E.div(E.at(x.x, *i), 2 ** (w - 1 - j)), 2)) for j in range(w)]), 'binary expansion, first bit most significant')


def inv1_post(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.forall(E.shape(x.x), lambda *i: E.eq(E.at(y, *i), E.at(x.x, *i)), 'conversions are inverse')


def ham_mk(I, p):
    n = I.int('n', 1, small=8)
    return NS(n=n, b=I.bits('b', (n, p['l'])), cb=I.bits('cb', (p['m'], p['l'])))


def ham_post(E, x, r, p):
    h, idx = r
    m, L = p['m'], p['l']

    def d(j, i):
        v = 0
        for l in range(L):
            v = v + E.ite(E.eq(E.at(x.b, i, l), E.at(x.cb, j, l)), 0, 1)
        return v
    if E.same_shape(h, (m, x.n)):
        E.forall((m, x.n), lambda j, i: E.eq(E.at(h, j, i), d(j, i)), 'pairwise distances')
    if E.same_shape(idx, (x.n,)):
        def best(i):
            q = E.at(idx, i)
            mine = 0
            for j in range(m):
                mine = mine + E.ite(E.eq(q, j), d(j, i), 0)
            return E.and_(E.ge(q, 0), E.lt(q, m), *[E.le(mine, d(j, i)) for j in range(m)])
        E.forall(x.n, best, 'index of a closest codeword')


def pw_post(E, x, y, p):
    s = E.sum(x.n, lambda k: E.at(x.x, k) * E.at(x.x, k))
    E.check(E.eq(y * x.n, s), 'mean squared magnitude')


def rms_run(P, x, p):
    return P('rms')(x.x), P('power')(x.x)


def rms_post(E, x, r, p):
    a, b = r
    E.check(E.and_(E.ge(a, 0), E.eq(a * a, b)), 'square root of the power')


def cx_mk(I, p):
    n = I.int('n', 1, small=20)
    return NS(re=I.reals('re', n), im=I.reals('im', n), n=n)


def cx_post(E, x, r, p):
    v = float(np.sum(x.re ** 2 + x.im ** 2)) / x.n
    E.check(abs(r[0] - v) <= 1e-9 * (1 + v), 'mean squared magnitude of complex samples')
    E.check(abs(r[1] - np.sqrt(v)) <= 1e-9 * (1 + v), 'square root of the power of complex samples')


CASES['C23'] += [
    Case('upsample', up_mk, lambda P, x, p: P('upsample')(x.x, p['rate']), up_post, params=[{'rate': r, 'int': i} for r in RATES for i in (False, True)], trials=10, funcs=['auxiliary.upsample']),
    Case('zero-order hold', up_mk, lambda P, x, p: P('zoh')(x.x, p['rate']), zoh_post, params=[{'rate': r} for r in RATES], trials=10, funcs=['auxiliary.zoh']),
    Case('bit words', lambda I, p: NS(), lambda P, x, p: P('get_bin_perm')(p['k']), perm_post, params=[{'k': k} for k in range(1, 11)], trials=1, sym=False,
         bound='k up to 10', funcs=['auxiliary.get_bin_perm']),
    Case('bits to unsigned', b2u_mk, lambda P, x, p: P('bin2uint')(x.x), b2u_post, params=[{'w': w, 'nd': nd} for w in (1, 2, 3, 5, 8, 31, 32, 33, 40, 62) for nd in (1, 2, 3)], trials=10, funcs=['auxiliary.bin2uint']),
    Case('unsigned to bits', u2b_mk, lambda P, x, p: P('uint2bin')(x.x, p['w']), u2b_post, params=[{'w': w, 'nd': nd} for w in (1, 2, 3, 5, 8, 31, 33, 40, 60) for nd in (0, 1, 2) if (w, nd) not in ((31, 2), (60, 2))], trials=10, funcs=['auxiliary.uint2bin']),
    Case('bits to unsigned and back', b2u_mk, lambda P, x, p: P('uint2bin')(P('bin2uint')(x.x), p['w']), inv1_post, params=[{'w': w, 'nd': nd} for w in (1, 2, 3, 4) for nd in (2, 3)], trials=10,
         funcs=['auxiliary.bin2uint', 'auxiliary.uint2bin']),
    Case('unsigned to bits and back', u2b_mk, lambda P, x, p: P('bin2uint')(P('uint2bin')(x.x, p['w'])), inv1_post, params=[{'w': w, 'nd': nd} for w in (1, 2, 3, 4) for nd in (0, 1, 2)], trials=10,
         funcs=['auxiliary.bin2uint', 'auxiliary.uint2bin']),
    Case('distances', ham_mk, lambda P, x, p: P('hamming')(x.b, x.cb), ham_post, params=[{'l': l, 'm': m} for l, m in ((1, 1), (1, 2), (3, 2), (3, 4), (5, 3), (7, 5))], symparams=range(5), trials=15, funcs=['auxiliary.hamming']),
    Case('power', up_mk, lambda P, x, p: P('power')(x.x), pw_post, params=[{}, {'int': True}], trials=40, funcs=['auxiliary.power']),
    Case('rms', up_mk, rms_run, rms_post, trials=40, funcs=['auxiliary.rms', 'auxiliary.power']),
    Case('power and rms of complex samples', cx_mk, lambda P, x, p: (P('power')(x.re + 1j * x.im), P('rms')(x.re + 1j * x.im)), cx_post, sym=False, trials=40, funcs=['auxiliary.rms', 'auxiliary.power'])]

