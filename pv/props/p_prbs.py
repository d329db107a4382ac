"""PRBS: C01 generation, C02 maximal length, C03 checkers, C04 pattern locking."""
import numpy as np
import z3
from pv import core as c
from pv import arr
from pv.arr import A, SArr, CArr
from pv.core import S
from pv.loops import Inv
from pv.spec import Case, NS

CASES = {'C01': [], 'C02': [], 'C03': [], 'C04': []}
POLY = {7: [5, 6], 9: [4, 8], 11: [8, 10], 13: [0, 1, 11, 12], 15: [13, 14], 31: [27, 30]}
PRIMES = {7: [127], 9: [7, 73], 11: [23, 89], 13: [8191], 15: [7, 31, 151], 31: [2147483647]}


# ---- GF(2) arithmetic (exact; used by the lemmas) ----------------------------------------------------
def companion(poly):
    """register update: new[0] = poly . state, new[i] = state[i-1]"""
    d = len(poly)
    m = np.zeros((d, d), dtype=np.int64)
    m[0] = poly
    for i in range(1, d):
        m[i, i - 1] = 1
    return m


def mpow(m, e):
    r = np.eye(len(m), dtype=np.int64)
    while e:
        if e & 1:
            r = r.dot(m) % 2
        m = m.dot(m) % 2
        e >>= 1
    return r


def rank2(m):
    m = m.copy() % 2
    r = 0
    for col in range(m.shape[1]):
        piv = [i for i in range(r, m.shape[0]) if m[i, col]]
        if not piv:
            continue
        m[[r, piv[0]]] = m[[piv[0], r]]
        for i in range(m.shape[0]):
            if i != r and m[i, col]:
                m[i] = (m[i] + m[r]) % 2
        r += 1
    return r


def polyvec(d):
    v = np.zeros(d, dtype=int)
    v[POLY[d]] = 1
    return v


def periodic(poly, L):
    return np.array_equal(mpow(companion(np.array(poly)), L), np.eye(len(poly), dtype=np.int64))


# ---- C01 ---------------------------------------------------------------------------------------------
def ref(I, poly, seed, d, name='s'):
    """specification: s(k) = sum poly[t] s(k-1-t) mod 2, s(-1-i) = seed[i]"""
    def neg(k):
        return A(seed).at((c.sub(-1, k),)) if I.symbolic else int(seed[-1 - k])

    def step(f, k):
        r = 0
        for t in range(d):
            q = A(poly).at((t,)) if I.symbolic else int(poly[t])
            if not isinstance(q, S):
                if q:
                    r = r + f(k - 1 - t)
            else:
                r = r + q * f(k - 1 - t)
        return r % 2
    return I.seq(name, neg, step)


def gen_mk(I, p):
    d = p['d']
    n = I.int('n', 0, p.get('hi'), small=3 * d, large=p.get('large', 300))
    seed = I.bits('seed', d)
    if not I.symbolic and not seed.any():
        seed[0] = 1
    if p.get('anypoly'):
        poly = I.bits('poly', d)
    else:
        poly = I.const(polyvec(d))
    x = NS(poly=poly, seed=seed, n=n)
    x.s = ref(I, poly, seed, d)
    return x


def seq_tpl(x, p, off=None):
    d = p['d']

    def t(v, iv, k, n):
        out = []
        for o, nm in ((0, ''),) if off is None else ((0, ''), (off, ' (continued)')):
            if isinstance(v, SArr) and len(v.shape) == 1 and isinstance(v.shape[0], S):
                out.append(('generated bits are the sequence' + nm, Inv(lambda j, o=o: (x.s.at(c.add(c.sub(k, 1), o)), c.eq(v.at((j,)), x.s.raw(c.add(j, o))))[1], (0, k))))
            if isinstance(v, CArr) and v.shape == (d,):
                def reg(o=o):
                    return c.And(*[c.eq(v.o[i], (x.s.at if i == 0 else x.s.raw_neg)(c.add(c.sub(c.sub(k, 1), i), o))) for i in range(d)])
                out.append(('register holds the last bits' + nm, Inv(reg)))
        return out
    return [t]


def lemma(E, x, p, j):
    """s(j) = s(j mod 2^d-1) for j >= -d, by the order of the register matrix (exact arithmetic); True, for use in a goal"""
    d = p['d']
    L = 2 ** d - 1
    if E.symbolic and not p.get('anypoly'):
        if not hasattr(E, 'checked'):
            E.checked = periodic(polyvec(d), L)
            E.ctx.assumed.add('lemma: register matrix ** (2**%d-1) = identity over GF(2), computed exactly in this run' % d)
        if E.checked:
            E.ctx.assume(c.Or(c.lt(j, -d), c.eq(x.s.raw(j), x.s.raw(c.mod(j, L)))))


def is_seq(E, x, y, n, p, off=0, name='bits are the shift register sequence'):
    def f(k):
        lemma(E, x, p, k + off)
        return E.eq(E.at(y, k), x.s.raw(k + off))
    E.forall(n, f, name)


def is_reg(E, x, seed, d, n, p):
    if E.same_shape(seed, (d,), 'register length'):
        for i in range(d):
            lemma(E, x, p, n - 1 - i)
            E.check(E.eq(E.at(seed, i), (x.s.raw_neg if E.symbolic else x.s.at)(n - 1 - i)), 'returned seed is the register')


def gen_post(E, x, r, p):
    y, seed = r
    if E.same_shape(y, (x.n,)):
        is_seq(E, x, y, x.n, p)
    is_reg(E, x, seed, p['d'], x.n, p)


def gen_edge(p):
    d = p['d']
    rng = np.random.RandomState(d)
    out = []
    L = 2 ** d - 1
    ns = [0, 1, 2, d - 1, d, d + 1, 2 * d]
    if d <= 11:
        ns += [L - 1, L, L + 1, L + d - 1, L + d, 2 * L, 2 * L + 3]
    elif d <= 15:
        ns += [L - 1, L + 2, 2 * L + 1]
    for n in ns:
        if p.get('hi') is not None and n > p['hi']:
            continue
        s = rng.randint(0, 2, d)
        s[rng.randint(d)] = 1
        v = {'n': n, 'seed': s}
        if p.get('anypoly'):
            q = rng.randint(0, 2, d)
            v['poly'] = q
        out.append(v)
    return out


def gen_run(P, x, p):
    return P('tx.prbs_gen')(x.poly, x.seed, x.n)


def real_poly(P, d):
    return P('auxiliary.get_polynomial')(getattr(P('constants.PrbsEnum'), 'PRBS%d' % d))


def real_mk(I, p):
    d = p['d']
    n = I.int('n', 0, small=3 * d, large=400)
    seed = I.bits('seed', d)
    if not I.symbolic and not seed.any():
        seed[-1] = 1
    return NS(seed=seed, n=n)


def real_run(P, x, p):
    poly = real_poly(P, p['d'])
    y, s = P('tx.prbs_gen')(poly, x.seed, x.n)
    return poly, y, s


def real_post(E, x, r, p):
    poly, y, seed = r
    d = p['d']
    E.check(len(poly) == d, 'polynomial degree')
    reg = [int(v) for v in x.seed]
    taps = [i for i in range(d) if int(E.at(poly, i))]
    out = []
    for k in range(x.n):
        b = sum(reg[t] for t in taps) % 2
        out.append(b)
        reg = [b] + reg[:-1]
    if E.same_shape(y, (x.n,)):
        E.check(all(int(E.at(y, k)) == out[k] for k in range(x.n)), 'bits are the shift register sequence')
    if E.same_shape(seed, (d,), 'register length'):
        E.check([int(E.at(seed, i)) for i in range(d)] == reg, 'returned seed is the register')


def chunk_mk(I, p):
    x = gen_mk(I, p)
    x.m = I.int('m', 0, p.get('hi'), small=2 * p['d'], large=p.get('large', 300))
    return x


def chunk_run(P, x, p):
    a, s1 = P('tx.prbs_gen')(x.poly, x.seed, x.n)
    b, s2 = P('tx.prbs_gen')(x.poly, s1, x.m)
    return a, b, s2


def chunk_post(E, x, r, p):
    d = p['d']
    a, b, s2 = r
    if E.symbolic:
        # lemma over the contract of the two calls: the second sequence continues the first (induction on k)
        (u, _, _), (v, _, _) = E.ctx.calls['prbs_generator'][:2]
        n, k = x.n, S(E.ctx.fresh('k'), 'i')
        for i in range(d):
            E.check(E.eq(v.raw_neg(-1 - i), u.raw_neg(n - 1 - i)), 'continuation (base)')
        u.at(n + k), v.at(k)
        E.ctx.prove('continuation (induction step)', c.eq(v.raw(k), u.raw(n + k)),
                    [c.ge(k, 0)] + [c.eq(v.raw_neg(k - 1 - t), u.raw_neg(n + k - 1 - t)) for t in range(d)])
        j = S(E.ctx.fresh('k'), 'i')
        u.at(j), x.s.at(j)
        for i in range(d):
            E.check(E.eq(u.raw_neg(-1 - i), x.s.raw_neg(-1 - i)), 'first chunk (base)')
        E.ctx.prove('first chunk (induction step)', c.eq(u.raw(j), x.s.raw(j)), [c.ge(j, 0)] + [c.eq(u.raw_neg(j - 1 - t), x.s.raw_neg(j - 1 - t)) for t in range(d)])

        def lem(q):
            E.ctx.assume(c.Or(c.lt(q, -d), c.eq(u.raw(q), x.s.raw(q))))

        def lem2(q):
            lem(n + q)
            E.ctx.assume(c.Or(c.lt(q, -d), c.eq(v.raw(q), u.raw(n + q))))
    else:
        lem = lem2 = lambda q: None
    if E.same_shape(a, (x.n,)) and E.same_shape(b, (x.m,)):
        E.forall(x.n, lambda k: (lem(k), E.eq(E.at(a, k), x.s.raw(k)))[1], 'bits are the shift register sequence')
        E.forall(x.m, lambda k: (lem2(k), E.eq(E.at(b, k), x.s.raw(k + x.n)))[1], 'second chunk continues the sequence')
    if E.same_shape(s2, (d,), 'register length'):
        for i in range(d):
            lem2(x.m - 1 - i)
            E.check(E.eq(E.at(s2, i), (x.s.raw_neg if E.symbolic else x.s.at)(x.n + x.m - 1 - i)), 'returned seed is the register')


def it_mk(I, p):
    d = p['d']
    return NS(poly=I.bits('poly', d) if p.get('anypoly') else I.const(polyvec(d)), seed=I.bits('seed', d))


def it_run(P, x, p):
    it = P('tx.PrbsIterator')(x.poly, x.seed)
    s0 = it.get_seed()
    b = next(it)
    s1, q1 = it.get_seed(), it.get_prev_seed()
    b2 = next(iter(it))
    return s0, b, s1, q1, b2, it.get_seed(), it.get_prev_seed()


def it_post(E, x, r, p):
    d = p['d']
    s0, b, s1, q1, b2, s2, q2 = r
    old = [E.at(x.seed, i) for i in range(d)]
    pol = [E.at(x.poly, i) for i in range(d)]
    for got, bit, now, prev in ((s0, b, s1, q1), (s1, b2, s2, q2)):
        v = E.mod(E.sum(d, lambda i: pol[i] * old[i], 'i'), 2)
        E.check(E.eq(bit, v), 'next bit is the feedback')
        for a, what in ((got, 'seed before'), (prev, 'previous seed')):
            if E.same_shape(a, (d,)):
                E.forall(d, lambda i: E.eq(E.at(a, i), old[i]), what)
        old = [v] + old[:-1]
        if E.same_shape(now, (d,)):
            E.forall(d, lambda i: E.eq(E.at(now, i), old[i]), 'seed after')


def itn_run(P, x, p):
    it = P('tx.PrbsIterator')(x.poly, x.seed)
    y = [int(next(it)) for _ in range(x.n)]
    return np.array(y, dtype=int), it.get_seed()


def itn_mk(I, p):
    return gen_mk(I, p)


G = ['tx.prbs_generator.prbs_generator']
FULL = [{'d': d} for d in POLY]
WITHIN = [{'d': d, 'anypoly': True, 'hi': 2 ** d - 1} for d in (2, 3, 4, 5, 7)]
CASES['C01'] += [
    Case('sequence and returned seed', gen_mk, gen_run, gen_post, params=FULL, templates=seq_tpl, edge=gen_edge, trials=25, funcs=G, deadline=120),
    Case('any polynomial, up to one period', gen_mk, gen_run, gen_post, params=WITHIN, templates=seq_tpl, edge=gen_edge, trials=15, funcs=G, deadline=100),
    Case('supported polynomials', real_mk, real_run, real_post, params=FULL, sym=False, trials=12, edge=gen_edge, funcs=G + ['auxiliary.get_polynomial']),
    Case('two chunks', chunk_mk, chunk_run, chunk_post, params=FULL, subst=['CommDspy.tx.prbs_generator.prbs_generator'], trials=25, funcs=G, deadline=120),
    Case('iterator step', it_mk, it_run, it_post, params=[{'d': d} for d in POLY] + [{'d': d, 'anypoly': True} for d in (2, 3, 4)], trials=10, edge=None,
         funcs=['tx.prbs_iterator.PrbsIterator']),
    Case('iterator stream', itn_mk, itn_run, gen_post, params=FULL, sym=False, trials=12, funcs=['tx.prbs_iterator.PrbsIterator'])]


# ---- C02 ---------------------------------------------------------------------------------------------
def max_post(E, x, poly, p):
    d = p['d']
    if not E.same_shape(poly, (d,), 'degree'):
        return
    v = [int(E.at(poly, i)) for i in range(d)]
    E.check(all(b in (0, 1) for b in v), 'binary coefficients')
    E.check(v[-1] == 1, 'leading coefficient')
    N = 2 ** d - 1
    m = companion(np.array(v))
    E.check(np.array_equal(mpow(m, N), np.eye(d, dtype=np.int64)), 'register matrix to the power 2^d-1 is the identity: every seed repeats after 2^d-1 bits')
    for q in PRIMES[d]:
        E.check(rank2(mpow(m, N // q) + np.eye(d, dtype=np.int64)) == d, 'no nonzero seed repeats after (2^d-1)/%d bits' % q)


def full_post(E, x, r, p):
    d = p['d']
    poly, y, seed = r
    N = 2 ** d - 1
    y = np.asarray([int(v) for v in y]) if not isinstance(y, np.ndarray) else y
    E.check(len(y) == N + d, 'length')
    E.check(np.array_equal(y[N:], y[:d]), 'repeats after a period')
    w = np.zeros(N, dtype=np.int64)
    for i in range(d):
        w = w * 2 + y[i:i + N]
    E.check(len(np.unique(w)) == N and w.min() > 0, 'every nonzero state once per period')


CASES['C02'] += [
    Case('register matrix has order 2^d-1 on every nonzero seed', lambda I, p: NS(), lambda P, x, p: real_poly(P, p['d']), max_post, params=FULL, trials=1, thorough=1,
         funcs=['auxiliary.get_polynomial', 'constants.PrbsEnum']),
    Case('full period of the generator', lambda I, p: NS(seed=I.const(np.array([1] * p['d']))), lambda P, x, p: (lambda q: (q,) + tuple(P('tx.prbs_gen')(q, x.seed, 2 ** p['d'] - 1 + p['d'])))(real_poly(P, p['d'])),
         full_post, params=[{'d': d} for d in POLY if d < 31], sym=False, trials=1, thorough=1, funcs=G + ['auxiliary.get_polynomial']),
    Case('order is the enumeration value', lambda I, p: NS(), lambda P, x, p: getattr(P('constants.PrbsEnum'), 'PRBS%d' % p['d']).value,
         lambda E, x, y, p: E.check(y == p['d'], 'value'), params=FULL, trials=1, thorough=1, funcs=['constants.PrbsEnum'])]


# ---- C03 ---------------------------------------------------------------------------------------------
def prbs_ref(d, n, start=0):
    """n bits of the sequence from the all-ones seed, from position `start` on"""
    reg = [1] * d
    out = []
    for k in range(start + n):
        b = sum(reg[t] for t in POLY[d]) % 2
        out.append(b)
        reg = [b] + reg[:-1]
    return np.array(out[start:], dtype=int)


_REF = {}


def period(d):
    if d not in _REF:
        _REF[d] = prbs_ref(d, 2 ** d - 1)
    return _REF[d]


def enum(P, d):
    return getattr(P('constants.PrbsEnum'), 'PRBS%d' % d)


def ck_mk(I, p):
    d = p['d']
    n = I.int('n', 1, small=40, large=2 * 2 ** min(d, 9) + 20)
    th = I.int('th', 1, small=30)
    x = NS(x=I.bits('x', n), n=n, th=th)
    if p.get('own'):
        x.seq = I.bits('seq', 2 ** d - 1)
    else:
        x.ref = I.const(period(d))
    return x


def ck_run(P, x, p):
    if p.get('own'):
        return P('rx.prbs_checker')(enum(P, p['d']), x.x, True, x.th, x.seq)
    if p.get('kw'):
        return P('rx.prbs_checker')(enum(P, p['d']), x.x, init_lock=True, loss_th=x.th)
    return P('rx.prbs_checker')(enum(P, p['d']), x.x, True, x.th)


def totals(E, lost, good, err, th, n):
    """count and lock status follow from the marks"""
    tot = E.sum(n, lambda k: E.ite(E.at(err, k), 1, 0) if E.symbolic else int(E.at(err, k)), 'i')
    E.check(E.eq(good, n - tot), 'correct bits are the unmarked ones')
    if E.symbolic:
        E.check(c.eq(c.coerce(c.boolt(lost) if False else lost, 'b'), c.ge(tot, th)), 'lock lost exactly at the threshold')
    else:
        E.check(bool(lost) == (tot >= th), 'lock lost exactly at the threshold')


def ck_post(E, x, r, p):
    lost, good, err = r
    d = p['d']
    L = 2 ** d - 1
    q = x.seq if p.get('own') else x.ref
    if E.same_shape(err, (x.n,)):
        E.forall(x.n, lambda k: mark(E, err, k, E.ne(E.at(x.x, k), E.at(q, E.mod(k, L)))), 'marked exactly where the bit differs from the reference')
        totals(E, lost, good, err, x.th, x.n)


def mark(E, err, k, cond):
    if E.symbolic:
        return c.eq(c.coerce(E.at(err, k), 'b'), c.coerce(cond, 'b'))
    return bool(E.at(err, k)) == bool(cond)


def ec_mk(I, p):
    d = p['d']
    n = I.int('n', 2 * d, small=60, large=300)
    th = I.int('th', 1, small=30)
    x = NS(n=n, th=th, x=I.bits('x', n))
    return x


def ec_clean_mk(I, p):
    """clean data of any phase with some bits flipped"""
    d = p['d']
    L = 2 ** d - 1
    n = I.int('n', 2 * d, small=100, large=400)
    ph = I.int('ph', 0, min(L - 1, 5000))
    w = period(d)
    x = np.array([w[(ph + k) % L] for k in range(n)], dtype=int)
    m = I.int('m', 0, p.get('errs', 4))
    for q in range(m):
        at = I.int('e%d' % q, 0, 10000) % n
        x[at] ^= 1
    return NS(x=x, n=n, th=I.int('th', 1, small=40))


def ec_run(P, x, p):
    return P('rx.prbs_checker_econ')(enum(P, p['d']), x.x, x.th)


def ec_post(E, x, r, p):
    d = p['d']
    lost, good, err = r
    st = None
    for q in range(d):
        if E.known(E.eq(E.len(err), x.n - q)):
            st = q
            break
    if st is None:
        E.check(False, 'one mark per bit from the seed window on')
        return
    m = x.n - st
    E.forall(d, lambda i: mark(E, err, i, False) if not E.symbolic else c.Not(c.coerce(E.at(err, i), 'b')), 'seed window is not marked')
    if E.symbolic:
        s = None
        for u, seed, n in E.ctx.calls.get('prbs_generator', []):
            if E.known(E.eq(n, m - d)):
                s = u
        if s is None:
            from pv.core import Unsupported
            raise Unsupported('generator call not identified')
        E.forall(m - d, lambda k: mark(E, err, k + d, c.Not(c.eq(E.at(x.x, k + st + d), s.raw_neg(k)))), 'marked exactly where the bit differs from the sequence of the window')
        for i in range(d):
            E.check(c.eq(s.raw_neg(-1 - i), E.at(x.x, st + d - 1 - i)), 'window is the register')
    else:
        reg = [int(x.x[st + d - 1 - i]) for i in range(d)]
        want = []
        for k in range(m - d):
            b = sum(reg[t] for t in POLY[d]) % 2
            want.append(b != int(x.x[st + d + k]))
            reg = [b] + reg[:-1]
        E.check([bool(v) for v in np.asarray(err)[d:]] == want, 'marked exactly where the bit differs from the sequence of the window')
    totals(E, lost, good, err, x.th, m)
    # the windows are tried in turn
    if st < d - 1:
        E.check(c.Not(c.coerce(lost, 'b')) if E.symbolic else not lost, 'every window is tried before lock is lost')
    for q in range(st):
        if E.symbolic:
            u = None
            for v, seed, n in E.ctx.calls.get('prbs_generator', []):
                if E.known(E.eq(n, x.n - q - d)):
                    u = v
            if u is None:
                from pv.core import Unsupported
                raise Unsupported('generator call not identified')
            for i in range(d):
                E.check(c.eq(u.raw_neg(-1 - i), E.at(x.x, q + d - 1 - i)), 'earlier window is the register')
            tot = E.sum(x.n - q, lambda k: E.ite(c.lt(k, d), 0, E.ite(E.eq(E.at(x.x, c.add(k, q)), u.raw_neg(c.sub(k, d))), 0, 1)), 'i')
            E.check(E.ge(tot, x.th), 'an earlier window loses lock')
        else:
            reg = [int(x.x[q + d - 1 - i]) for i in range(d)]
            tot = 0
            for k in range(q + d, x.n):
                b = sum(reg[t] for t in POLY[d]) % 2
                tot += b != int(x.x[k])
                reg = [b] + reg[:-1]
            E.check(tot >= x.th, 'an earlier window loses lock')


def clean_mk(I, p):
    d = p['d']
    L = 2 ** d - 1
    n = I.int('n', 2 * d, small=2 * L if d < 10 else 300, vals=[L - 1, L, L + 1, 2 * L, 2 * d] if d < 12 else [2 * d, 200])
    ph = I.int('ph', 0, min(L - 1, 40000))
    w = period(d) if d < 31 else None
    x = np.array([w[(ph + k) % L] for k in range(n)], dtype=int) if w is not None else prbs_ref(31, n, ph)
    return NS(x=x, n=n)


def clean_run(P, x, p):
    if p['f'] == 'prbs_checker':
        return P('rx.prbs_checker')(enum(P, p['d']), x.x, False, p['th'])
    return P('rx.prbs_checker_econ')(enum(P, p['d']), x.x, p['th'])


def clean_post(E, x, r, p):
    lost, good, err = r
    E.check(not bool(lost), 'lock kept')
    E.check(not np.any(err), 'no bit marked')
    E.check(good == len(err), 'all bits counted correct')
    E.check(len(err) == x.n, 'every bit checked')


def clean_edge(p):
    d = p['d']
    L = 2 ** d - 1
    if d == 7:
        return [{'n': n, 'ph': ph} for ph in range(L) for n in (L, 14, 20 + ph)]
    return [{'n': n, 'ph': ph} for ph in (0, 1, L - 1 if d < 16 else 5, L // 2 if d < 16 else 77) for n in (2 * d, 3 * d + 1)]


def lockerr_mk(I, p):
    """locked onto by correlation: few flipped bits in at least a period of data"""
    d = p['d']
    L = 2 ** d - 1
    n = I.int('n', L, 2 * L + 20)
    ph = I.int('ph', 0, L - 1)
    w = period(d)
    x = np.array([w[(ph + k) % L] for k in range(n)], dtype=int)
    y = x.copy()
    m = I.int('m', 0, 8)
    for q in range(m):
        y[I.int('e%d' % q, 0, 100000) % n] ^= 1
    return NS(x=y, clean=x, n=n, th=I.int('th', 1, small=10))


def lockerr_post(E, x, r, p):
    lost, good, err = r
    if E.same_shape(err, (x.n,)):
        E.check(np.array_equal(np.asarray(err, dtype=bool), x.x != x.clean), 'marked exactly the flipped bits')
        totals(E, lost, good, err, x.th, x.n)


# clean data, every phase: the data is the sequence of an arbitrary register
def cls_mk(I, p):
    d = p['d']
    seed = I.bits('seed', d)
    n = I.int('n', 2 * d, small=60, large=300)

    def neg(k):
        if not I.symbolic:
            return int(seed[-1 - k]) if -d <= k else 0
        r = 0
        for i in range(d):
            r = c.ite(c.eq(k, -1 - i), seed.at((i,)), r)
        return r

    def step(f, k):
        r = 0
        for t in POLY[d]:
            r = r + f(k - 1 - t)
        return c.mod(r, 2) if I.symbolic else r % 2
    s = I.seq('data', neg, step)
    return NS(n=n, th=I.int('th', 1, small=30), s=s, x=I.seqbits(s, n))


def cls_post(E, x, r, p):
    d = p['d']
    if E.symbolic:
        for u, seed, m in E.ctx.calls.get('prbs_generator', []):
            q = None
            for j in range(d):
                if E.known(E.eq(m, x.n - j - d)):
                    q = j
            if q is None:
                from pv.core import Unsupported
                raise Unsupported('generator call not identified')
            for i in range(d):
                E.check(c.eq(u.raw_neg(-1 - i), x.s.at(q + d - 1 - i)), 'generated sequence is the data (base)')
            k = S(E.ctx.fresh('k'), 'i')
            hyp = [c.ge(k, 0), c.lt(k, m)] + [c.eq(u.raw_neg(k - 1 - t), x.s.raw(k + (q + d - 1 - t))) for t in POLY[d]]
            u.at(k)
            x.s.at(k + (q + d))
            E._prove('generated sequence is the data (induction step)', c.eq(u.raw(k), x.s.raw(k + (q + d))), hyp)
            E.ctx.add_forall(lambda j, u=u, m=m, q=q: c.Or(c.lt(j, 0), c.ge(j, m), c.eq(u.raw_neg(j), x.s.raw(j + (q + d)))))
            bv = S(z3.Int('bv!'), 'i')
            E.trigger(bv - d, bv)
            E.sum(x.n - q, lambda k: 0, 'i')
            if E.ctx._check() == z3.unsat:
                return      # no data leads to this path
    lost, good, err = r
    E.check(E.eq(E.len(err), x.n), 'every bit checked')
    E.forall(x.n, lambda k: mark(E, err, k, False), 'no bit marked')
    E.check(E.eq(good, x.n), 'all bits counted correct')
    E.check(c.Not(c.coerce(lost, 'b')) if E.symbolic else not lost, 'lock kept')


# locking checker: marks are the differences from the reference at the offset it locked to
def ul_mk(I, p):
    d = p['d']
    n = I.int('n', 1, small=40, large=2 * 2 ** min(d, 9) + 20)
    ref = I.bits('seq', 2 ** d - 1) if p.get('own') else I.const(period(d))
    return NS(x=I.bits('x', n), n=n, th=I.int('th', 1, small=30), ref=ref)


def ul_run(P, x, p):
    if p.get('own'):
        return P('rx.prbs_checker')(enum(P, p['d']), x.x, False, x.th, x.ref)
    return P('rx.prbs_checker')(enum(P, p['d']), x.x, False, x.th)


def ul_post(E, x, r, p):
    lost, good, err = r
    L = 2 ** p['d'] - 1
    if not E.same_shape(err, (x.n,)):
        return
    conds = lambda o: [((x.n,), lambda k: mark(E, err, k, E.ne(E.at(x.x, k), E.at(x.ref, E.mod(k + o, L)))))]
    if E.symbolic:
        from pv.core import Unsupported
        calls = E.ctx.calls.get('lock_pattern_to_signal_binary', [])
        if len(calls) != 1:
            raise Unsupported('lock call not identified')
        pat, sig, rot = calls[0]
        E.same_shape(sig, (x.n,), 'the data is locked to')
        E.forall(L, lambda k: E.eq(pat.at((k,)), E.at(x.ref, k)), 'the reference is rotated')
        E.forall(x.n, lambda k: E.eq(sig.at((k,)), E.at(x.x, k)), 'the data is locked to')
        conds2 = conds
    else:
        m = min(L, x.n)
        w = np.concatenate([x.ref, x.ref]) * 2 - 1
        cor = [int(np.sum(w[o:o + m] * (2 * x.x[:m] - 1))) for o in range(L)]
        conds2 = lambda o: [((), lambda: cor[o] == max(cor))] + conds(o)
    E.exists(L, conds2, 'marked exactly where the bit differs from the reference at the offset of largest correlation')
    totals(E, lost, good, err, x.th, x.n)


CK = ['rx.checker.prbs_checker']
EC = ['rx.prbs_checker_econ']
CASES['C03'] += [
    Case('locked checker', ck_mk, ck_run, ck_post, params=[{'d': 7}, {'d': 9}, {'d': 7, 'own': True}, {'d': 9, 'own': True}, {'d': 7, 'kw': True}, {'d': 11}, {'d': 13}], symparams=[0, 1, 2, 3, 4, 5], trials=20,
         funcs=CK + G),
    Case('locking checker', ul_mk, ul_run, ul_post, params=[{'d': 7}, {'d': 9}, {'d': 11}, {'d': 7, 'own': 1}, {'d': 9, 'own': 1}], trials=20, funcs=CK + G, subst=['CommDspy.rx.lock_pattern.lock_pattern_to_signal_binary']),
    Case('seed-based checker on clean data', cls_mk, ec_run, cls_post, params=[{'d': d} for d in POLY], symparams=[0, 1, 2, 3, 4], trials=20, subst=['CommDspy.tx.prbs_generator.prbs_generator'],
         funcs=EC + G, deadline=100),
    Case('seed-based checker', ec_mk, ec_run, ec_post, params=[{'d': d} for d in POLY], trials=20, subst=['CommDspy.tx.prbs_generator.prbs_generator'],
         funcs=EC + G, deadline=100),
    Case('seed-based checker, nearly clean data', ec_clean_mk, ec_run, ec_post, params=[{'d': d, 'errs': e} for d in (7, 9, 11) for e in (3, 12)], sym=False, trials=30, funcs=EC + G),
    Case('clean data of any phase', clean_mk, clean_run, clean_post, params=[{'d': d, 'f': f, 'th': th} for d in (7, 9, 11, 13) for f in ('prbs_checker', 'prbs_checker_economy') for th in (1, 100)]
         + [{'d': d, 'f': 'prbs_checker_economy', 'th': 1} for d in (15, 31)], sym=False, trials=8, edge=clean_edge, funcs=CK + EC + ['rx.lock_pattern.lock_pattern_to_signal_binary']),
    Case('locking checker marks the flipped bits', lockerr_mk, lambda P, x, p: P('rx.prbs_checker')(enum(P, p['d']), x.x, False, x.th), lockerr_post,
         params=[{'d': 7}, {'d': 9}, {'d': 11}], sym=False, trials=30, funcs=CK + ['rx.lock_pattern.lock_pattern_to_signal_binary'])]


# ---- C04 ---------------------------------------------------------------------------------------------
def lk_mk(I, p):
    if 'L' in p:
        L, n = p['L'], p['n']
    else:
        L = I.int('L', 1, small=9)
        n = I.int('n', 1, small=20)
    if p['bin']:
        return NS(pat=I.bits('pat', L), x=I.bits('x', n), L=L, n=n)
    if p.get('int'):
        return NS(pat=I.ints('pat', L, -3, 3), x=I.ints('x', n, -3, 3), L=L, n=n)
    return NS(pat=I.reals('pat', L), x=I.reals('x', n), L=L, n=n)


def lk_run(P, x, p):
    return P('rx.lock_pattern_to_signal_binary' if p['bin'] else 'rx.lock_pattern_to_signal')(x.pat, x.x)


def corr(E, x, p, r):
    def nrz(v):
        return 2 * v - 1 if p['bin'] else v
    m = min(x.L, x.n)
    return E.sum(m, lambda k: nrz(E.at(x.pat, (r + k) % x.L)) * nrz(E.at(x.x, k)))


def lk_post(E, x, res, p):
    y, xc = res
    L, n = x.L, x.n
    m = min(L, n)
    cs = [corr(E, x, p, r) for r in range(L)]
    if E.same_shape(xc, (2 * L - m + 1,), 'correlation at every offset'):
        E.forall(2 * L - m + 1, lambda r: E.eq(E.at(xc, r), cs[r % L]), 'correlation at every offset')
    if not E.same_shape(y, (L,), 'whole pattern'):
        return
    best = []
    for r in range(L):
        rot = E.and_(*[E.eq(E.at(y, k), E.at(x.pat, (r + k) % L)) for k in range(L)])
        best.append(E.and_(rot, *[E.ge(cs[r], cs[q]) for q in range(L)]))
    E.check(E.or_(*best), 'pattern rotated to an offset of largest correlation')


def lkg_mk(I, p):
    L = I.int('L', 1, small=9, large=40)
    n = I.int('n', 1, small=20, large=90)
    if p.get('case') == 'short':
        I.require(n < L)
    elif I.symbolic:
        I.require(n >= L)
    if p['bin']:
        return NS(pat=I.bits('pat', L), x=I.bits('x', n), L=L, n=n)
    if p.get('int'):
        return NS(pat=I.ints('pat', L, -3, 3), x=I.ints('x', n, -3, 3), L=L, n=n)
    return NS(pat=I.reals('pat', L), x=I.reals('x', n), L=L, n=n)


def lkg_post(E, x, res, p):
    y, xc = res
    L, n = x.L, x.n
    m = E.min(L, n)

    def nrz(v):
        return 2 * v - 1 if p['bin'] else v

    def cor(r):
        return E.sum(m, lambda k: nrz(E.at(x.pat, E.mod(r + k, L))) * nrz(E.at(x.x, k)))
    if not E.symbolic:
        memo = {}
        cor0 = cor

        def cor(r):
            r = r % L
            if r not in memo:
                memo[r] = cor0(r)
            return memo[r]
    if E.same_shape(xc, (2 * L - m + 1,), 'correlation at every offset'):
        E.forall((2 * L - m + 1,), lambda r: E.eq(E.at(xc, r), cor(r)), 'correlation at every offset')
    if not E.same_shape(y, (L,), 'whole pattern'):
        return
    E.exists(L, lambda r: [((L,), lambda q: E.ge(cor(r), cor(q))), ((L,), lambda k: E.eq(E.at(y, k), E.at(x.pat, E.mod(r + k, L))))],
             'pattern rotated to an offset of largest correlation')


def rot_mk(I, p):
    L = I.int('L', 1, small=12)
    pat = I.bits('pat', L) if p['bin'] else I.ints('pat', L, 0, 3)
    r = I.int('r', 0, small=11) % L
    n = I.int('n', 1, small=30)
    pat = np.asarray(pat) if p['bin'] else np.array([-3, -1, 1, 3])[pat]
    x = np.array([pat[(r + k) % L] for k in range(n)])
    return NS(pat=pat, x=x, n=n, L=L)


def rot_post(E, x, res, p):
    y, xc = res
    m = min(x.L, x.n)
    if E.same_shape(y, (x.L,), 'whole pattern'):
        if p['bin'] or m == x.L:      # equal energy: the matching offset is a maximum
            E.check(p['bin'] is False or all(y[k] == x.x[k] for k in range(m)), 'reproduces the start of the signal')
            if not p['bin']:
                E.check(all(y[k] == x.x[k] for k in range(m)), 'reproduces the start of the signal')


LK = ['rx.lock_pattern.lock_pattern_to_signal_binary', 'rx.lock_pattern.lock_pattern_to_signal']
LN = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 5), (4, 2), (4, 4), (5, 5)]
CASES['C04'] += [
    Case('rotation of largest correlation, fixed lengths', lk_mk, lk_run, lk_post, params=[{'bin': b, 'L': L, 'n': n} for b in (True, False) for L, n in LN[:11 if b else 8]],
         trials=10, funcs=LK, bound='patterns of up to 5 (real valued: 3) symbols, every value'),
    Case('rotation of largest correlation', lkg_mk, lk_run, lkg_post, params=[dict(q, **s) for q in ({'bin': True}, {'bin': False}, {'bin': False, 'int': True}) for s in ({}, {'case': 'short'})], symparams=[0, 1, 2, 3], trials=100, funcs=LK),
    Case('signal starting with a rotation', rot_mk, lk_run, rot_post, params=[{'bin': True}, {'bin': False}], sym=False, trials=200, funcs=LK)]
