"""C09 Manchester and differential Manchester."""
from pv.spec import Case, NS

CB = ['CommDspy.misc.help_functions.check_binary']
CASES = {'C09': []}
add = CASES['C09'].append


def flat_at(E, y, shape, k):
    """element k of y in row-major order"""
    if len(shape) == 1:
        return E.at(y, k)
    w = shape[1]
    return E.at(y, E.div(k, w), E.mod(k, w))


def bits1(I, p):
    n = I.int('n', 1, small=14, large=200)
    return NS(x=I.bits('x', n))


def pairs1(I, p):
    n = I.int('n', 1, small=10, large=100)
    return NS(x=I.bits('x', 2 * n), n=n)


def man_enc(E, x, y, p):
    n = E.len(x.x)
    if E.same_shape(y, (2 * n,)):
        E.forall(n, lambda k: E.and_(E.eq(E.at(y, 2 * k), E.at(x.x, k)), E.eq(E.at(y, 2 * k + 1), 1 - E.at(x.x, k))),
                 'a one is sent as 10 and a zero as 01')


add(Case('manchester encode', bits1, lambda P, x, p: P('tx.coding_manchester')(x.x), man_enc, subst=CB,
         funcs=['tx.coding.coding_manchester']))


def man_dec(E, x, y, p):
    if E.same_shape(y, (x.n,)):
        def f(k):
            a, b = E.at(x.x, 2 * k), E.at(x.x, 2 * k + 1)
            return E.eq(E.at(y, k), E.ite(E.eq(a, b), 0.5, a))
        E.forall(x.n, f, 'pair decodes to its first half, 0.5 without a transition')


add(Case('manchester decode', pairs1, lambda P, x, p: P('rx.decoding_manchester')(x.x), man_dec, subst=CB,
         funcs=['rx.decoding.decoding_manchester']))


def rt(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.forall(E.shape(x.x), lambda *i: E.eq(E.at(y, *i), E.at(x.x, *i)), 'round trip')


def dims(I, p, k=1):
    sh = p.get('sh') or (None, p['w'])
    sh = [d if d is not None else I.int('a%d' % q, 1, small=4) for q, d in enumerate(sh)]
    sh[-1] = k * sh[-1]
    return tuple(sh)


def rows(I, p):
    if p.get('d', 1) == 1:
        n = I.int('n', 1, small=14, large=200)
        return NS(x=I.bits('x', n))
    return NS(x=I.bits('x', dims(I, p)))


SH = [{'d': 1}] + [{'d': 2, 'w': w} for w in (1, 2, 3, 5)]
SH += [{'d': len(q), 'sh': q} for q in ((1, None), (2, None), (3, None), (None, 2, 3), (2, None, 2), (2, 2, None), (3, 1, None), (None, 1, 2, 2), (None, None))]
def without(ps, *bad):
    return [i for i, q in enumerate(ps) if q.get('sh') not in bad]


add(Case('manchester round trip', rows, lambda P, x, p: P('rx.decoding_manchester')(P('tx.coding_manchester')(x.x)), rt, params=SH, symparams=without(SH, (2, 2, None), (None, None), (2, None, 2)), subst=CB,
         funcs=['tx.coding.coding_manchester', 'rx.decoding.decoding_manchester']))
add(Case('differential manchester round trip', rows,
         lambda P, x, p: P('rx.decoding_differential_manchester')(P('tx.coding_differential_manchester')(x.x)), rt, params=SH, symparams=[i for i in without(SH, (2, 2, None), (1, None), (3, None), (None, None), (2, None, 2), (3, 1, None), (None, 2, 3)) if SH[i].get('w') != 5], subst=CB,
         funcs=['tx.coding.coding_differential_manchester', 'rx.decoding.decoding_differential_manchester']))


def diff_enc(E, x, y, p):
    n = E.len(x.x)
    if E.same_shape(y, (2 * n,)):
        E.check(E.eq(E.at(y, 0), 0), 'starts at zero')
        E.forall(2 * n, lambda k: E.isbit(E.at(y, k)), 'half-bits are bits')
        E.forall(n, lambda k: E.eq(E.at(y, 2 * k + 1), E.ite(E.eq(E.at(x.x, k), 1), E.at(y, 2 * k), 1 - E.at(y, 2 * k))), 'mid-bit transition exactly for zeros')
        E.forall(n - 1, lambda k: E.eq(E.at(y, 2 * k + 2), 1 - E.at(y, 2 * k + 1)), 'transition at every bit boundary')


add(Case('differential manchester encode', bits1, lambda P, x, p: P('tx.coding_differential_manchester')(x.x), diff_enc, subst=CB,
         funcs=['tx.coding.coding_differential_manchester']))


def diff_dec(E, x, y, p):
    if E.same_shape(y, (x.n,)):
        E.forall(x.n, lambda k: E.eq(E.at(y, k), E.ite(E.eq(E.at(x.x, 2 * k), E.at(x.x, 2 * k + 1)), 1, 0)), 'one exactly without a mid-bit transition')


add(Case('differential manchester decode', pairs1, lambda P, x, p: P('rx.decoding_differential_manchester')(x.x), diff_dec, subst=CB,
         funcs=['rx.decoding.decoding_differential_manchester']))


def rows_even(I, p):
    return NS(x=I.bits('x', dims(I, p, 2)))


def sh_enc(E, x, y, p):
    *a, w = E.shape(x.x)
    if E.same_shape(y, (*a, 2 * w)):
        E.forall((*a, w), lambda *r: E.and_(E.eq(E.at(y, *r[:-1], 2 * r[-1]), E.at(x.x, *r)), E.eq(E.at(y, *r[:-1], 2 * r[-1] + 1), 1 - E.at(x.x, *r))), 'row-wise')


def sh_diff(E, x, y, p):
    *a, w = E.shape(x.x)
    if E.same_shape(y, (*a, 2 * w)):
        E.forall((*a, w), lambda *r: E.eq(E.at(y, *r[:-1], 2 * r[-1] + 1), E.ite(E.eq(E.at(x.x, *r), 1), E.at(y, *r[:-1], 2 * r[-1]), 1 - E.at(y, *r[:-1], 2 * r[-1]))), 'mid-bit transition exactly for zeros')
        if not E.symbolic:
            f = [E.at(y, *i) for i in __import__('numpy').ndindex(*E.shape(y))]
            E.check(f[0] == 0, 'starts at zero')
            E.check(all(f[k] != f[k + 1] for k in range(1, len(f) - 1, 2)), 'transition at every bit boundary')


add(Case('differential manchester encode of matrices', rows, lambda P, x, p: P('tx.coding_differential_manchester')(x.x), sh_diff, params=SH[1:], symparams=without(SH[1:], (2, 2, None), (None, None)), subst=CB,
         funcs=['tx.coding.coding_differential_manchester']))


def sh_ddec(E, x, y, p):
    *a, w2 = E.shape(x.x)
    w = E.div(w2, 2)
    if E.same_shape(y, (*a, w)):
        E.forall((*a, w), lambda *r: E.eq(E.at(y, *r), E.ite(E.eq(E.at(x.x, *r[:-1], 2 * r[-1]), E.at(x.x, *r[:-1], 2 * r[-1] + 1)), 1, 0)), 'one exactly without a mid-bit transition')


add(Case('differential manchester decode of matrices', rows_even, lambda P, x, p: P('rx.decoding_differential_manchester')(x.x), sh_ddec, params=SH[1:], subst=CB,
         funcs=['rx.decoding.decoding_differential_manchester']))
add(Case('manchester encode of matrices', rows, lambda P, x, p: P('tx.coding_manchester')(x.x), sh_enc, params=SH[1:], subst=CB,
         funcs=['tx.coding.coding_manchester']))


def sh_dec(E, x, y, p):
    *a, w2 = E.shape(x.x)
    w = E.div(w2, 2)
    if E.same_shape(y, (*a, w)):
        E.forall((*a, w), lambda *r: E.eq(E.at(y, *r), E.ite(E.eq(E.at(x.x, *r[:-1], 2 * r[-1]), E.at(x.x, *r[:-1], 2 * r[-1] + 1)), 0.5, E.at(x.x, *r[:-1], 2 * r[-1]))), 'row-wise')


add(Case('manchester decode of matrices', rows_even, lambda P, x, p: P('rx.decoding_manchester')(x.x), sh_dec, params=SH[1:], subst=CB,
         funcs=['rx.decoding.decoding_manchester']))
