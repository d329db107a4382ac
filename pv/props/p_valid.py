"""C16: binary codecs accept exactly binary data; feedback configurations are validated."""
import numpy as np
from pv.spec import Case, NS

CB = ['CommDspy.misc.help_functions.check_binary']
CASES = {'C16': []}
add = CASES['C16'].append
GL = np.array([[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 0, 1, 1], [0, 0, 1, 0, 1, 1, 1], [0, 0, 0, 1, 1, 0, 1]])
GC = {0: np.array([[1, 1, 1], [1, 0, 1]])}
GF = {0: np.array([[1, 0, 0], [1, 1, 1]])}
FB = {0: np.array([1, 0, 1])}
UF = np.array([[0, 1]])

# name -> (call, group length the data is cut to)
FN = {
    'coding_manchester': (lambda P, x: P('tx.coding_manchester')(x), 1),
    'coding_bipolar': (lambda P, x: P('tx.coding_bipolar')(x), 1),
    'coding_mlt3': (lambda P, x: P('tx.coding_mlt3')(x), 1),
    'coding_differential_manchester': (lambda P, x: P('tx.coding_differential_manchester')(x), 1),
    'decoding_manchester': (lambda P, x: P('rx.decoding_manchester')(x), 2),
    'decoding_differential_manchester': (lambda P, x: P('rx.decoding_differential_manchester')(x), 2),
    'coding_linear': (lambda P, x: P('tx.coding_linear')(x, _c(P, GL)), 1),
    'coding_conv': (lambda P, x: P('tx.coding_conv')(x, _c(P, GC)), 1),
    'decoding_linear': (lambda P, x: P('rx.decoding_linear')(x, _c(P, GL)), 1),
    'decoding_conv_ml': (lambda P, x: P('rx.decoding_conv_ml')(x, _c(P, GC), 4), 1),
    'decoding_conv_viterbi': (lambda P, x: P('rx.decoding_conv_viterbi')(x, _c(P, GC), 4), 1),
    'coding_conv with feedback': (lambda P, x: P('tx.coding_conv')(x, _c(P, GF), feedback=_c(P, FB), use_feedback=_c(P, UF)), 1),
    'decoding_conv_ml with feedback': (lambda P, x: P('rx.decoding_conv_ml')(x, _c(P, GF), 4, feedback=_c(P, FB), use_feedback=_c(P, UF)), 1),
    'decoding_conv_viterbi with feedback': (lambda P, x: P('rx.decoding_conv_viterbi')(x, _c(P, GF), 4, feedback=_c(P, FB), use_feedback=_c(P, UF)), 1),
}
SYMOK = ['coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester', 'decoding_manchester', 'decoding_differential_manchester',
         'coding_linear', 'coding_conv']
MAT = ['coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester', 'decoding_manchester', 'decoding_differential_manchester']


def _c(P, v):
    """constant argument in the representation used by the running package"""
    if getattr(P, 'real', False) or type(P).__name__ == 'RealPackage':
        if isinstance(v, dict):
            return {k: e.copy() for k, e in v.items()}
        return v.copy()
    from pv import npshim
    if isinstance(v, dict):
        return {k: npshim.fromreal(e.copy()) for k, e in v.items()}
    return npshim.fromreal(v.copy())


def base(name):
    return name.split(' ')[0]


def qual(name):
    return ('tx.coding.' if base(name).startswith('coding') else 'rx.decoding.') + base(name)


def shape(I, p):
    g = FN[p['f']][1]
    n = I.int('n', 1, small=6, large=20)
    if p.get('w'):
        return (n, p['w'] * g)
    return (n * g,)


def good(I, p):
    return NS(x=I.bits('x', shape(I, p)))


def bad(I, p):
    sh = shape(I, p)
    x = I.bits('x', sh) if p['k'] == 'i' else I.reals('x', sh, 0, 1, grid=1)
    v = I.int('v', None, small=9) if p['k'] == 'i' else I.real('v')
    from pv import core as c
    if I.symbolic:
        I.require(c.And(c.Not(c.eq(v, 0)), c.Not(c.eq(v, 1))))
    else:
        I.require(v not in (0, 1))
    idx = []
    for q, d in enumerate(sh):
        w = I.int('w%d' % q, 0, small=25)
        if I.symbolic:
            I.require(c.lt(w, d))
        else:
            w = w % int(d)
        idx.append(w)
    x[tuple(idx)] = v
    if I.symbolic:
        I.trigger(*idx)
        if len(idx) == 2:
            I.trigger(c.add(c.mul(idx[0], sh[1]), idx[1]))
    return NS(x=x)


def ok(E, x, y, p):
    E.check(True, 'accepted')


def run(P, x, p):
    return FN[p['f']][0](P, x.x)


def short_edge(p):
    g = FN[p['f']][1]
    out = []
    for n in (1, 2, 3):
        for v in (0, 1):
            sh = (n, p['w'] * g) if p.get('w') else (n * g,)
            out.append({'n': n, 'x': np.full(sh, v)})
    return out


def bad_edge(p):
    g = FN[p['f']][1]
    out = []
    vals = [2, -1, 3, 255] if p['k'] == 'i' else [0.5, 2.0, -1.0, 1e-3]
    for n in (1, 2, 4):
        sh = (n, p['w'] * g) if p.get('w') else (n * g,)
        for fill in (0, 1, None):
            for v in vals:
                a = np.full(sh, fill) if fill is not None else np.resize([0, 1], sh)
                out.append({'n': n, 'x': a.astype(int if p['k'] == 'i' else float), 'v': v, 'w0': n - 1, 'w1': 0})
    return out


GP = [{'f': f} for f in FN if f in SYMOK] + [{'f': f, 'w': 2} for f in MAT]
for f in FN:
    ps = [{'f': f}] + ([{'f': f, 'w': 2}] if f in MAT else [])
    add(Case('binary data accepted: ' + f, good, run, ok, params=ps, sym=f in SYMOK, trials=25, edge=short_edge, subst=CB if f != 'coding_manchester' else (),
             funcs=[qual(f), 'misc.help_functions.check_binary'], mutcheck=False))
    ps = [dict(q, k=k) for q in ps for k in ('i', 'f')]
    add(Case('non-binary data rejected: ' + f, bad, run, ok, raises=ValueError, params=ps, trials=15, edge=bad_edge, subst=CB,
             funcs=[qual(f), 'misc.help_functions.check_binary'], mutcheck=False))


# ---- check_binary itself (its contract is what the call sites above are checked against) -------------
def cb_good(I, p):
    n = I.int('n', 1, small=10, large=50)
    return NS(x=I.bits('x', (n, p['w']) if p['w'] else n))


def cb_bad(I, p):
    return bad(I, dict(p, f='coding_mlt3'))


CBF = 'misc.help_functions.check_binary'
add(Case('check_binary accepts bits', cb_good, lambda P, x, p: P(CBF)(x.x), ok, params=[{'w': None}, {'w': 3}], funcs=[CBF], mutcheck=False))
add(Case('check_binary rejects everything else', cb_bad, lambda P, x, p: P(CBF)(x.x), ok, raises=ValueError, params=[{'w': w, 'k': k} for w in (None, 3) for k in 'if'],
         funcs=[CBF], edge=lambda p: bad_edge(dict(p, f='coding_mlt3')), mutcheck=False))


# ---- generator matrices ------------------------------------------------------------------------------
GFN = {
    'coding_linear': (lambda P, x: P('tx.coding_linear')(x.x, x.G), 'm'),
    'decoding_linear': (lambda P, x: P('rx.decoding_linear')(x.x, x.G), 'm'),
    'coding_conv': (lambda P, x: P('tx.coding_conv')(x.x, {0: x.G}), 'c'),
    'decoding_conv_ml': (lambda P, x: P('rx.decoding_conv_ml')(x.x, {0: x.G}, 4), 'c'),
    'decoding_conv_viterbi': (lambda P, x: P('rx.decoding_conv_viterbi')(x.x, {0: x.G}, 4), 'c'),
}


def g_bad(I, p):
    n = I.int('n', 1, small=8)
    x = I.bits('x', n)
    G = I.bits('G', (2, 3))
    v = I.int('v', None, small=9)
    from pv import core as c
    if I.symbolic:
        I.require(c.And(c.Not(c.eq(v, 0)), c.Not(c.eq(v, 1))))
    else:
        I.require(v not in (0, 1))
    G[p['r'], p['c']] = v
    return NS(x=x, G=G)


def g2_bad(I, p):
    """two inputs, the second generator is bad"""
    x = g_bad(I, p)
    x.G0 = I.bits('G0', (2, 2))
    return x


for f in GFN:
    add(Case('non-binary generator rejected: ' + f, g_bad, lambda P, x, p: GFN[p['f']][0](P, x), ok, raises=ValueError,
             params=[{'f': f, 'r': r, 'c': c_} for r, c_ in ((0, 0), (1, 2), (0, 1))], trials=20, subst=CB, funcs=[qual(f)], mutcheck=False))


def run2(P, x, p):
    G = {0: x.G0, 1: x.G}
    if p['f'] == 'coding_conv':
        return P('tx.coding_conv')(x.x, G)
    return P('rx.' + p['f'])(x.x, G, 4)


def fb_bad(I, p):
    n = I.int('n', 1, small=8)
    x = I.bits('x', n)
    v = I.int('v', None, small=9)
    from pv import core as c
    if I.symbolic:
        I.require(c.And(c.Not(c.eq(v, 0)), c.Not(c.eq(v, 1))))
    else:
        I.require(v not in (0, 1))
    fb = I.bits('fb', 3)
    fb[p['c']] = v
    return NS(x=x, fb=fb, G=I.const(GF), uf=I.const(UF))


def conv3(P, f, x, G, fb, uf):
    if f == 'coding_conv':
        return P('tx.coding_conv')(x, G, feedback=fb, use_feedback=uf)
    return P('rx.' + f)(x, G, 4, feedback=fb, use_feedback=uf)


CONV = ('coding_conv', 'decoding_conv_ml', 'decoding_conv_viterbi')
for f in CONV:
    add(Case('non-binary second generator rejected: ' + f, g2_bad, run2, ok, raises=ValueError, params=[{'f': f, 'r': 1, 'c': 1}], trials=20, subst=CB,
             funcs=[qual(f), 'misc.help_functions.check_valid_conv'], mutcheck=False))
    add(Case('non-binary feedback rejected: ' + f, fb_bad, lambda P, x, p: conv3(P, p['f'], x.x, x.G, {0: x.fb}, x.uf), ok, raises=ValueError,
             params=[{'f': f, 'c': c_} for c_ in range(3)], trials=20, subst=CB, funcs=[qual(f), 'misc.help_functions.check_valid_conv'], mutcheck=False))

# ---- inconsistent feedback configurations ------------------------------------------------------------
G2 = {0: np.array([[1, 0], [0, 0], [1, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [0, 0, 1]])}
BADCFG = {
    'flags missing': (GF, FB, None),
    'flags missing, two inputs': (G2, {0: np.array([1, 1])}, None),
    'too many flag rows': (GF, FB, np.array([[0, 1], [0, 1]])),
    'too few flag rows': (G2, {0: np.array([1, 1])}, np.array([[0, 0, 1]])),
    'too many flag columns': (GF, FB, np.array([[0, 1, 1]])),
    'too few flag columns': (GF, FB, np.array([[1]])),
    'transposed flags': (G2, {0: np.array([1, 1])}, np.array([[0, 0], [0, 0], [1, 0]])),
    'flag without polynomial': (G2, {0: np.array([1, 1])}, np.array([[0, 0, 1], [0, 0, 1]])),
    'flag without polynomial, first input': (G2, {1: np.array([1, 1])}, np.array([[0, 0, 1], [0, 0, 1]])),
    'flag without polynomial, systematic output': (G2, {0: np.array([1, 1])}, np.array([[0, 0, 1], [0, 1, 0]])),
    'no polynomial at all': (GF, {}, UF),
}
GOODCFG = {
    'one input': (GF, FB, UF),
    'two inputs, one with feedback': (G2, {0: np.array([1, 1])}, np.array([[0, 0, 1], [0, 0, 0]])),
    'two inputs, both with feedback': (G2, {0: np.array([1, 1]), 1: np.array([1, 0, 1])}, np.array([[0, 0, 1], [0, 0, 1]])),
    'no feedback, flags given': (GC, None, np.array([[0, 0]])),
    'empty feedback': (GC, {}, np.array([[0, 0]])),
}


def cfg_mk(I, p):
    x = I.bits('x', I.int('n', 1, small=8))
    g, fb, uf = (BADCFG if p['bad'] else GOODCFG)[p['cfg']]
    return NS(x=x, G=I.const(g), fb=I.const(fb) if fb is not None else None, uf=I.const(uf) if uf is not None else None)


for f in CONV:
    tb = {'f': f}
    add(Case('inconsistent feedback rejected: ' + f, cfg_mk, lambda P, x, p: conv3(P, p['f'], x.x, x.G, x.fb, x.uf) if p['f'] == 'coding_conv' else
             P('rx.' + p['f'])(x.x, x.G, 2 * (3 if len(x.G) == 2 else 2), feedback=x.fb, use_feedback=x.uf), ok, raises=ValueError,
             params=[{'f': f, 'bad': True, 'cfg': k} for k in BADCFG], trials=5, thorough=20, subst=CB, funcs=[qual(f), 'misc.help_functions.check_valid_conv'],
             bound='the listed configurations', mutcheck=False))
    add(Case('consistent feedback accepted: ' + f, cfg_mk, lambda P, x, p: conv3(P, p['f'], x.x, x.G, x.fb, x.uf) if p['f'] == 'coding_conv' else
             P('rx.' + p['f'])(x.x, x.G, 2 * (3 if len(x.G) == 2 else 2), feedback=x.fb, use_feedback=x.uf), ok,
             params=[{'f': f, 'bad': False, 'cfg': k} for k in GOODCFG], sym=False, trials=5, thorough=20, subst=CB,
             funcs=[qual(f), 'misc.help_functions.check_valid_conv'], bound='the listed configurations', mutcheck=False))
