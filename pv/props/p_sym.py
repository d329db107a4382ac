"""Symbols: C05 bits/symbols, C06 levels/mapping, C16 input validation, C18 slicer/quantizer."""
import itertools
import math
import numpy as np
from pv.spec import Case, NS
from pv.props.p_line import CON, con, fl

CASES = {'C05': [], 'C06': [], 'C16': [], 'C18': []}
FLAGS = ('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv')


def flagsets():
    return [dict(zip(FLAGS, f)) for f in itertools.product((False, True), repeat=4)]


def sel(p):
    return {k: p[k] for k in FLAGS}


# ---- C05 -------------------------------------------------------------------------------------------
def b2s_mk(I, p):
    b = p['b']
    n = I.int('n', 0, small=12, large=100)
    r = p.get('r', 0)
    if p.get('w'):
        return NS(x=I.bits('x', (n, p['w'])), n=n)
    return NS(x=I.bits('x', b * n + r), n=n)


def bitpos(p, q):
    """position in the sent group and inversion of bit q (weight 2**q) of the symbol"""
    b = p['b']
    inv = p['pn_inv']
    pos = q
    if b > 1:
        if p['bit_order_inv']:
            pos = b - 1 - q
        if p['inv_msb'] and q == b - 1:
            inv = not inv
        if p['inv_lsb'] and q == 0:
            inv = not inv
    return pos, inv


def b2s(E, x, y, p):
    b = p['b']
    tot = x.n if not p.get('w') else E.div(x.n * p['w'], b)
    if not E.same_shape(y, (tot,)):
        return

    def f(k):
        v = 0
        for q in range(b):
            pos, inv = bitpos(p, q)
            t = fl(E, x.x, b * k + pos)
            v = v + (1 - t if inv else t) * (1 << q)
        return E.eq(E.at(y, k), v)
    E.forall(tot, f, 'weighted group value after the requested inversions')


BP = [dict(f, b=b) for b in (1, 2, 3) for f in flagsets()]
BPX = [dict(f, b=b, r=r) for b, r in ((2, 1), (3, 1), (3, 2), (4, 3), (5, 0), (8, 5)) for f in (flagsets()[0], flagsets()[7], flagsets()[9], flagsets()[15])]
BPW = [dict(f, b=b, w=w) for b, w in ((1, 3), (2, 2), (2, 3)) for f in (flagsets()[0], flagsets()[14])]
CASES['C05'] += [
    Case('bits to symbols', b2s_mk, lambda P, x, p: P('tx.bin2symbol')(x.x, 2 ** p['b'], **sel(p)), b2s, params=BP + BPX + BPW, trials=14,
         funcs=['tx.bin2symbol.bin2symbol'])]


def s2b_mk(I, p):
    n = I.int('n', 1, small=12, large=100)
    if p.get('w'):
        return NS(x=I.ints('x', (n, p['w']), 0, 2 ** p['b'] - 1), n=n * p['w'])
    return NS(x=I.ints('x', n, 0, 2 ** p['b'] - 1), n=n)


def s2b(E, x, y, p):
    b = p['b']
    if not E.same_shape(y, (x.n * b,)):
        return

    def f(k):
        v = fl(E, x.x, k)
        g = []
        for q in range(b):
            pos, inv = bitpos(p, q)
            t = E.mod(E.div(v, 1 << q), 2)
            g.append(E.eq(E.at(y, b * k + pos), 1 - t if inv else t))
        return E.and_(*g)
    E.forall(x.n, f, 'bits of the symbol, first bit least significant, with the inversions undone')


SP = [dict(f, b=b) for b in (1, 2, 3) for f in flagsets()] + [dict(f, b=b, w=w) for b, w in ((1, 2), (2, 3), (3, 2), (4, None), (8, None)) for f in (flagsets()[0], flagsets()[6], flagsets()[15])]


def s2b_edge(p):
    out = []
    for v in range(min(2 ** p['b'], 8)):
        if p.get('w'):
            out.append({'n': 1, 'x': np.full((1, p['w']), v)})
        else:
            out.append({'n': 1, 'x': np.array([v])})
    return out


def back(E, x, y, p):
    b = p['b']
    n = E.div(E.len(x.x), b) * b
    if E.same_shape(y, (n,)):
        E.forall(n, lambda k: E.eq(E.at(y, k), E.at(x.x, k)), 'bits restored')


def rt_mk(I, p):
    n = I.int('n', 1, small=12, large=60)
    return NS(x=I.bits('x', p['b'] * n))


def rt_edge(p):
    return [{'n': 1, 'x': np.array(v)} for v in itertools.islice(itertools.product((0, 1), repeat=p['b']), 8)]


CASES['C05'] += [
    Case('symbols to bits', s2b_mk, lambda P, x, p: P('rx.symbol2bin')(x.x, 2 ** p['b'], **sel(p)), s2b, params=SP, trials=12, edge=s2b_edge,
         funcs=['rx.symbol2bin.symbol2bin']),
    Case('bits to symbols to bits', rt_mk, lambda P, x, p: P('rx.symbol2bin')(P('tx.bin2symbol')(x.x, 2 ** p['b'], **sel(p)), 2 ** p['b'], **sel(p)), back,
         params=[dict(f, b=b) for b in (1, 2, 3) for f in flagsets()] + [dict(f, b=b) for b in (4, 6, 10, 16) for f in (flagsets()[0], flagsets()[5], flagsets()[15])],
         symparams=range(48), trials=10, edge=rt_edge, funcs=['tx.bin2symbol.bin2symbol', 'rx.symbol2bin.symbol2bin']),
    Case('symbol count not a power of two', lambda I, p: NS(x=I.bits('x', I.int('n', 0))), lambda P, x, p: P('tx.bin2symbol')(x.x, p['m']), lambda E, x, y, p: None,
         raises=ValueError, params=[{'m': m} for m in [3, 5, 6, 7, 9, 10, 12, 15, 17, 24, 31, 33, 48, 63, 65, 100, 127, 129, 255, 257, 1000, 1023, 1025, 4095, 4097,
                                                       16383, 16385, 65535, 65537, 131071, 131073, 2 ** 20 - 1, 2 ** 20 + 1, 2 ** 24 + 1, 2 ** 30 - 1, 2 ** 31 + 1]],
         trials=3, thorough=10, funcs=['tx.bin2symbol.bin2symbol'], bound='the listed symbol counts')]

# ---- C06 -------------------------------------------------------------------------------------------
LEV = {'NRZ': [-1, 1], 'OOK': [0, 1], 'PAM3': [-1, 0, 1], 'PAM4': [-3, -1, 1, 3]}


def lv(p):
    l = LEV[p['c']]
    if p.get('fs'):
        r = math.sqrt(sum(v * v for v in l) / len(l))
        return [v / r for v in l]
    return l


def pick(E, v, vals):
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = E.ite(E.eq(v, k), vals[k], r)
    return r


def levels_post(E, x, y, p):
    l = lv(p)
    if E.same_shape(y, (len(l),)):
        for k, v in enumerate(l):
            E.check(E.eq(E.at(y, k), v), 'documented level')
        if p.get('fs'):
            E.check(abs(sum(float(E.at(y, k)) ** 2 for k in range(len(l))) / len(l) - 1) < 1e-9, 'mean power one')


CP = [{'c': k, 'fs': f} for k in CON for f in (False, True)]


def map_mk(I, p):
    n = I.int('n', 1, small=10, large=60)
    if p.get('w'):
        return NS(x=I.ints('x', (n, p['w']), 0, CON[p['c']] - 1))
    return NS(x=I.ints('x', n, 0, CON[p['c']] - 1))


def map_post(E, x, y, p):
    l = [-v if p['pn'] else v for v in lv(p)]
    if E.same_shape(y, E.shape(x.x)):
        E.forall(E.shape(x.x), lambda *i: E.eq(E.at(y, *i), pick(E, E.at(x.x, *i), l)), 'symbol i is sent as level i')


MP = [dict(q, pn=pn, w=w) for q in CP for pn in (False, True) for w in (None, 3)]


def cus_mk(I, p):
    x = map_mk(I, p)
    x.lev = I.reals('lev', CON[p['c']])
    return x


def cus_post(E, x, y, p):
    m = CON[p['c']]
    l = [-E.at(x.lev, k) if p['pn'] else E.at(x.lev, k) for k in range(m)]
    if E.same_shape(y, E.shape(x.x)):
        E.forall(E.shape(x.x), lambda *i: E.eq(E.at(y, *i), pick(E, E.at(x.x, *i), l)), 'symbol i is sent as custom level i')


def noise_mk(I, p):
    x = map_mk(I, p)
    l = lv(p)
    step = (l[1] - l[0])
    h = step / 2 * 0.999999
    x.e = I.reals('e', x.x.shape, -h, h, grid=None if not I.symbolic else None)
    return x


def demap_post(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.forall(E.shape(x.x), lambda *i: E.eq(E.at(y, *i), E.at(x.x, *i)), 'original symbol recovered')


def demap_run(P, x, p):
    y = P('tx.mapping')(x.x, con(P, p), p['fs'], pn_inv=p['pn'])
    return P('rx.demapping')(y + x.e, con(P, p), p['fs'], p['pn'])


def demap_clean(P, x, p):
    y = P('tx.mapping')(x.x, con(P, p), p['fs'], pn_inv=p['pn'])
    return P('rx.demapping')(y, con(P, p), p['fs'], p['pn'])


def bad_lev(I, p):
    return NS(x=I.ints('x', I.int('n', 1), 0, 1), lev=I.reals('lev', p['k']))


CASES['C06'] += [
    Case('levels', lambda I, p: NS(), lambda P, x, p: P('auxiliary.get_levels')(con(P, p), p['fs']), levels_post, params=CP, trials=1, thorough=1,
         funcs=['auxiliary.get_levels']),
    Case('mapping', map_mk, lambda P, x, p: P('tx.mapping')(x.x, con(P, p), p['fs'], pn_inv=p['pn']), map_post, params=MP, trials=15,
         funcs=['tx.mapping.mapping', 'auxiliary.get_levels']),
    Case('mapping with custom levels', cus_mk, lambda P, x, p: P('tx.mapping')(x.x, con(P, p), p['fs'], x.lev, p['pn']), cus_post, params=MP, trials=15,
         funcs=['tx.mapping.mapping']),
    Case('wrong number of custom levels', bad_lev, lambda P, x, p: P('tx.mapping')(x.x, con(P, p), levels=x.lev), lambda E, x, y, p: None, raises=ValueError,
         params=[{'c': c_, 'k': k} for c_ in CON for k in range(0, 7) if k != CON[c_]], trials=3, thorough=5, funcs=['tx.mapping.mapping'],
         bound='custom level vectors of 0..6 entries'),
    Case('demapping inverts mapping', map_mk, demap_clean, demap_post, params=MP, trials=15, funcs=['tx.mapping.mapping', 'rx.demapping.demapping']),
    Case('demapping with deviations below half a step', noise_mk, demap_run, demap_post, params=MP, trials=20,
         funcs=['tx.mapping.mapping', 'rx.demapping.demapping'])]


# ---- C18 -------------------------------------------------------------------------------------------
def sl_mk(I, p):
    n = I.int('n', 1, small=10, large=60)
    sh = (n, p['w']) if p.get('w') else n
    x = I.reals('x', sh, small=6)
    lev = I.reals('lev', p['m'], small=5)
    if p.get('uns'):
        return NS(x=x, lev=lev, n=n)
    for k in range(p['m'] - 1):
        if I.symbolic:
            from pv import core as c
            I.require(c.lt(lev.at((k,)), lev.at((k + 1,))))
    if not I.symbolic:
        s = np.unique(lev)
        while len(s) < p['m']:
            s = np.append(s, s[-1] + 1)
        lev = s[:p['m']]
        I.used['lev'] = lev.copy()
    return NS(x=x, lev=lev)


def sl_post(E, x, y, p):
    m = p['m']
    if not E.same_shape(y, E.shape(x.x)):
        return
    l = [E.at(x.lev, k) for k in range(m)]

    def f(*i):
        v, r = E.at(x.x, *i), E.at(y, *i)
        d = [E.abs(v - q) for q in l]
        ok = []
        for k in range(m):
            # level k is chosen iff strictly closer than all lower ones and no further than the higher ones
            best = E.and_(*([(E.le if p.get('uns') else E.lt)(d[k], d[j]) for j in range(k)] + [E.le(d[k], d[j]) for j in range(k + 1, m)]))
            ok.append(E.and_(best, E.eq(r, l[k])))
        return E.or_(*ok)
    E.forall(E.shape(x.x), f, 'nearest level, the lower one on a tie')


def thr_mk(I, p):
    """samples within 2^-30 of the midpoint of neighbouring levels; every number is exact in double precision"""
    m = p['m']
    st, l0 = I.ints('step', m - 1, 1, 8), I.int('l0', -16, 16)
    lev = (l0 + np.concatenate([[0], np.cumsum(st)])) / 4
    n = I.int('n', 1, 12)
    k, s = I.ints('k', n, 0, m - 2), I.ints('s', n, -2, 2)
    return NS(x=(lev[k] + lev[k + 1]) / 2 + s * 2.0 ** -30, lev=lev)


def sl_default(E, x, y, p):
    x.lev = np.array([-3.0, -1, 1, 3])
    if E.symbolic:
        from pv import npshim
        x.lev = npshim.fromreal(x.lev)
    sl_post(E, x, y, {'m': 4})


def q_mk(I, p):
    n = I.int('n', 1, small=10, large=60)
    b = p['bits']
    sc = 2.0 ** -p['frac']
    return NS(x=I.reals('x', n, small=(2 ** b) * sc * 1.3))


def q_levels(p):
    b = p['bits']
    if p['t'] == 'u':
        l = range(0, 2 ** b)
    elif p['t'] == 's':
        l = range(-2 ** (b - 1), 2 ** (b - 1))
    else:
        l = range(-2 ** (b - 1) + 1, 2 ** (b - 1))
    return [v * 2.0 ** -p['frac'] for v in l]


def q_post(E, x, y, p):
    l = q_levels(p)
    if not E.same_shape(y, E.shape(x.x)):
        return
    st = 2.0 ** -p['frac']

    def f(i):
        v, r = E.at(x.x, i), E.at(y, i)
        k = E.tdiv(r, st)
        on = E.or_(*[E.eq(r, q) for q in l])
        near = E.and_(E.le(E.abs(v - r), st / 2), E.implies(E.eq(v - r, st / 2), True))
        return E.and_(on, E.or_(near, E.and_(E.eq(r, l[0]), E.le(v, l[0])), E.and_(E.eq(r, l[-1]), E.ge(v, l[-1]))))
    E.forall(E.len(x.x), f, 'nearest grid level, saturating at the ends')
    # exact ties go to the lower level
    E.forall(E.len(x.x), lambda i: E.or_(*([E.ne(E.at(x.x, i), q + st / 2) for q in []] or [True])), 'tie')


def q_tie(E, x, y, p):
    l = q_levels(p)
    for k in range(len(l) - 1):
        E.check(E.eq(E.at(y, k), l[k]), 'tie goes to the lower level')
    E.check(E.eq(E.at(y, len(l) - 1), l[-1]), 'saturates at the largest level')


QP = [{'bits': b, 'frac': f, 't': t} for b in (1, 2, 3) for f in (0, 1, 2, -1, -2) for t in ('u', 's', 'ss')]
QPC = [{'bits': b, 'frac': f, 't': t} for b in (4, 6, 8) for f in (0, 3, -3, 10) for t in ('u', 's', 'ss')]
CASES['C18'] += [
    Case('slicer', sl_mk, lambda P, x, p: P('rx.slicer')(x.x, x.lev), sl_post, params=[{'m': m, 'w': w} for m in (1, 2, 3, 4) for w in (None, 1, 3)] + [{'m': m, 'uns': 1} for m in (2, 3, 4)] + [{'m': 2, 'w': 2, 'uns': 1}] + [{'m': 7}, {'m': 16}, {'m': 8, 'uns': 1}],
         symparams=range(16), trials=40, funcs=['rx.slicer.slicer'], tol=0, bound=''),
    Case('slicer next to the thresholds', thr_mk, lambda P, x, p: P('rx.slicer')(x.x, x.lev), sl_post, params=[{'m': m} for m in (2, 3, 4, 8)], sym=False, trials=20,
         funcs=['rx.slicer.slicer'], tol=0),
    Case('quantize next to the thresholds', lambda I, p: NS(x=np.array([v + 2.0 ** -p['frac'] * (.5 + s_) for v in q_levels(p)[:-1] for s_ in (2.0 ** -28, -2.0 ** -28)]), k=I.int('k', 0, 0)),
         lambda P, x, p: P('rx.quantize')(x.x, p['bits'], p['frac'], p['t']), lambda E, x, y, p: E.same_shape(y, E.shape(x.x)) and E.check(np.array_equal(y, [q for a, b in zip(q_levels(p), q_levels(p)[1:]) for q in (b, a)]), 'nearest grid level'),
         params=[q for q in QP + QPC if len(q_levels(q)) > 1], sym=False, trials=1, thorough=1, funcs=['rx.quantiztion.quantize', 'rx.slicer.slicer']),
    Case('slicer default levels', lambda I, p: NS(x=I.reals('x', I.int('n', 1), small=6)), lambda P, x, p: P('rx.slicer')(x.x), sl_default, trials=60, tol=0,
         funcs=['rx.slicer.slicer']),
    Case('quantize', q_mk, lambda P, x, p: P('rx.quantize')(x.x, p['bits'], p['frac'], p['t']), q_post, params=QP + QPC, symparams=range(len(QP)), trials=12,
         funcs=['rx.quantiztion.quantize', 'rx.slicer.slicer']),
    Case('quantize ties', lambda I, p: NS(x=I.const(np.array([v + 2.0 ** -p['frac'] / 2 for v in q_levels(p)]))),
         lambda P, x, p: P('rx.quantize')(x.x, p['bits'], p['frac'], p['t']), q_tie, params=QP + QPC, trials=1, thorough=1, funcs=['rx.quantiztion.quantize'],
         bound='the listed bit widths'),
    Case('quantize default type is unsigned', lambda I, p: NS(x=I.reals('x', I.int('n', 1), small=12)), lambda P, x, p: P('rx.quantize')(x.x, 3),
         lambda E, x, y, p: q_post(E, x, y, {'bits': 3, 'frac': 0, 't': 'u'}), trials=30, funcs=['rx.quantiztion.quantize']),
    Case('quantize unknown type', lambda I, p: NS(x=I.reals('x', I.int('n', 1))), lambda P, x, p: P('rx.quantize')(x.x, 3, 0, p['t']), lambda E, x, y, p: None,
         raises=ValueError, params=[{'t': t} for t in ('x', '', 'signed', 'U', None)], trials=3, thorough=3, funcs=['rx.quantiztion.quantize'], bound='the listed type names')]
