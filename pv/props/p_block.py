"""C12 linear block encoding, C13 block decoding, C14 convolutional encoding, C15 convolutional decoding."""
import itertools
import numpy as np
from pv import core as c
from pv.arr import A, SArr, CArr
from pv.core import S
from pv.loops import Inv
from pv.spec import Case, NS

CB = ['CommDspy.misc.help_functions.check_binary']
CASES = {'C12': [], 'C13': [], 'C14': [], 'C15': []}
HAM = np.array([[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 0, 1, 1], [0, 0, 1, 0, 1, 1, 1], [0, 0, 0, 1, 1, 0, 1]])
GL = {'1x3': np.array([[1, 1, 1]]), '2x3': np.array([[1, 0, 1], [0, 1, 1]]), '2x2': np.array([[1, 1], [0, 1]]), '2x5': np.array([[1, 0, 1, 1, 0], [0, 1, 0, 1, 1]]),
      '3x6': np.array([[1, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 1], [0, 0, 1, 1, 0, 1]]), 'hamming': HAM, 'singular': np.array([[1, 0, 1], [1, 0, 1]]),
      '1x1': np.array([[1]]), 'zero': np.array([[0, 0, 0], [0, 0, 0]])}


# ---- C12 -------------------------------------------------------------------------------------------
def cl_mk(I, p):
    k = p['k']
    m = I.int('m', 0 if p['r'] else 1, small=8, large=40)
    x = NS(m=m, x=I.bits('x', m * k + p['r']))
    x.G = I.bits('G', (k, p['n'])) if 'g' not in p else I.const(GL[p['g']])
    return x


def cl_post(E, x, y, p):
    k, n, r = p['k'], p['n'], p['r']
    if not E.same_shape(y, ((x.m + (1 if r else 0)) * n,)):
        return

    def f(q):
        g = []
        for j in range(n):
            v = 0
            for i in range(k):
                b = E.at(x.x, q * k + i)
                gg = E.at(x.G, i, j)
                v = v + b * gg
            g.append(E.eq(E.at(y, q * n + j), E.mod(v, 2)))
        return E.and_(*g)
    E.forall(x.m, f, 'block times generator modulo 2')
    if r:
        for j in range(n):
            v = 0
            for i in range(r):
                v = v + E.at(x.x, x.m * k + i) * E.at(x.G, i, j)
            E.check(E.eq(E.at(y, x.m * n + j), E.mod(v, 2)), 'last block is zero-padded')


def cl_run(P, x, p):
    return P('tx.coding_linear')(x.x, x.G)


SYMG = [{'k': k, 'n': n, 'r': r} for k, n in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 3)) for r in range(k)]
CONG = [{'k': GL[g].shape[0], 'n': GL[g].shape[1], 'r': r, 'g': g} for g in ('1x3', '2x5', '3x6', 'hamming', 'singular') for r in range(GL[g].shape[0])]


def any_mk(I, p):
    k = I.int('k', 1, 6)
    n = I.int('n', 1, 9)
    L = I.int('L', 1, small=30)
    return NS(x=I.bits('x', L), G=I.bits('G', (k, n)), k=k, n=n, L=L)


def any_post(E, x, y, p):
    m = -(-x.L // x.k)
    pad = np.concatenate([x.x, np.zeros(m * x.k - x.L, dtype=int)]).reshape(m, x.k)
    want = (pad.dot(x.G) % 2).reshape(-1)
    if E.same_shape(y, (m * x.n,)):
        E.check(np.array_equal(y, want), 'block times generator modulo 2')


CASES['C12'] += [
    Case('product with any generator', cl_mk, cl_run, cl_post, params=SYMG, trials=15, subst=CB, funcs=['tx.coding.coding_linear']),
    Case('product with listed generators', cl_mk, cl_run, cl_post, params=CONG, trials=15, subst=CB, funcs=['tx.coding.coding_linear']),
    Case('product, random sizes', any_mk, cl_run, any_post, sym=False, trials=250, funcs=['tx.coding.coding_linear'])]


# ---- C13 -------------------------------------------------------------------------------------------
def dl_mk(I, p):
    G = GL[p['g']]
    k, n = G.shape
    m = p['m'] if 'm' in p else I.int('m', 1, small=8, large=30)
    return NS(m=m, x=I.bits('x', m * n + p.get('r', 0)), G=I.const(G))


def words(G):
    k = G.shape[0]
    return [tuple(int(v) for v in np.array(u).dot(G) % 2) for u in itertools.product((0, 1), repeat=k)]


def dist(E, x, off, w):
    v = 0
    for j, b in enumerate(w):
        t = E.at(x, off + j)
        v = v + (1 - t if b else t)
    return v


def nearest(E, x, y, off, yoff, G):
    """the message at yoff encodes to a word at minimum distance from the block at off"""
    k, n = G.shape
    # codeword of the decoded message
    cw = []
    for j in range(n):
        v = 0
        for i in range(k):
            if G[i, j]:
                v = v + E.at(y, yoff + i)
        cw.append(E.mod(v, 2))
    d = 0
    for j in range(n):
        d = d + E.ite(E.eq(cw[j], E.at(x, off + j)), 0, 1)
    return E.and_(*([E.isbit(E.at(y, yoff + i)) for i in range(k)] + [E.le(d, dist(E, x, off, w)) for w in set(words(G))]))


def dl_post(E, x, y, p):
    G = GL[p['g']]
    k, n = G.shape
    if p.get('prob'):
        y, pe = y
        if not E.same_shape(pe, (x.m,), 'one probability per block'):
            return
        ws = words(G)

        def g(q):
            ds = [dist(E, x.x, q * n, w) for w in ws]
            mn = ds[0]
            for v in ds[1:]:
                mn = E.min(mn, v)
            cnt = 0
            for v in ds:
                cnt = cnt + E.ite(E.eq(v, mn), 1, 0)
            return E.ite(E.eq(mn, 0), E.eq(E.at(pe, q), 0), E.eq(E.at(pe, q) * cnt, 1))
        E.forall(x.m, g, 'one over the number of nearest codewords, 0 for a codeword')
    if E.same_shape(y, (x.m * k,)):
        E.forall(x.m, lambda q: nearest(E, x.x, y, q * n, q * k, G), 'message of a nearest codeword')


def dl_run(P, x, p):
    if p.get('prob'):
        return P('rx.decoding_linear')(x.x, x.G, True)
    return P('rx.decoding_linear')(x.x, x.G)


def same_run(P, x, p):
    return P('rx.decoding_linear')(x.x, x.G, True)[0], P('rx.decoding_linear')(x.x, x.G)


def same_post(E, x, r, p):
    a, b = r
    if E.same_shape(a, E.shape(b)):
        E.forall(E.shape(b), lambda i: E.eq(E.at(a, i), E.at(b, i)), 'same decisions')


def rt_run(P, x, p):
    return P('rx.decoding_linear')(P('tx.coding_linear')(x.x, x.G), x.G)


def rt_mk(I, p):
    G = GL[p['g']]
    m = I.int('m', 1, small=8)
    return NS(m=m, x=I.bits('x', m * G.shape[0]), G=I.const(G))


def rt_post(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.forall(E.len(x.x), lambda i: E.eq(E.at(y, i), E.at(x.x, i)), 'codewords decode to their message')


DLF = ['rx.decoding.decoding_linear', 'misc.ml_decoding.ml_decoding', 'auxiliary.get_bin_perm']
DLG = ['1x1', '1x3', '2x2', '2x3', '2x5', '3x6', 'singular', 'zero']


def rand_dec_mk(I, p):
    k = I.int('k', 1, 5)
    n = I.int('n', 1, 8)
    L = I.int('L', n, small=60)
    return NS(x=I.bits('x', L), G=I.bits('G', (k, n)), k=k, n=n, L=L)


def long_code_mk(I, p):
    """few long codewords"""
    k = I.int('k', 1, 3)
    n = I.int('n', 100, 700)
    m = I.int('m', 1, 3)
    G = I.bits('G', (k, n))
    return NS(x=I.bits('x', m * n), G=G, k=k, n=n, L=m * n)


def rand_dec_post(E, x, r, p):
    y, pe = r if p['prob'] else (r, None)
    m = x.L // x.n
    if not E.same_shape(y, (m * x.k,)):
        return
    ws = np.array(words(x.G))
    msg = list(itertools.product((0, 1), repeat=x.k))
    for q in range(m):
        d = np.abs(ws - x.x[None, q * x.n:(q + 1) * x.n]).sum(axis=1)
        u = tuple(int(v) for v in y[q * x.k:(q + 1) * x.k])
        E.check(u in msg and d[msg.index(u)] == d.min(), 'message of a nearest codeword')
        if pe is not None:
            E.check(E.eq(pe[q], 0 if d.min() == 0 else 1 / (d == d.min()).sum()), 'one over the number of nearest codewords')
    if pe is not None:
        E.same_shape(pe, (m,))


CASES['C13'] += [
    Case('nearest codeword', dl_mk, dl_run, dl_post, params=[{'g': g, 'r': r} for g in DLG + ['hamming'] for r in sorted({0, 1 % GL[g].shape[1], GL[g].shape[1] - 1})],
         trials=20, subst=CB, funcs=DLF, deadline=100),
    Case('nearest codeword with probabilities', dl_mk, dl_run, dl_post, params=[{'g': g, 'r': r, 'prob': True} for g in DLG + ['hamming'] for r in sorted({0, GL[g].shape[1] - 1})],
         sym=False, trials=30, funcs=DLF),
    Case('nearest codeword with probabilities, few blocks', dl_mk, dl_run, dl_post, params=[{'g': g, 'm': m, 'prob': True} for g in DLG[:5] + ['singular'] for m in (1, 2)],
         trials=10, subst=CB, funcs=DLF, split_masks=4, bound='one and two blocks, every received word', deadline=60),
    Case('same decisions with probabilities', dl_mk, same_run, same_post, params=[{'g': g} for g in DLG + ['hamming']], sym=False, trials=30, funcs=DLF),
    Case('codewords decode to their message', rt_mk, rt_run, rt_post, params=[{'g': g} for g in DLG if g not in ('singular', 'zero')] + [{'g': 'hamming'}], trials=20, subst=CB,
         funcs=DLF + ['tx.coding.coding_linear']),
    Case('random codes', rand_dec_mk, lambda P, x, p: P('rx.decoding_linear')(x.x, x.G, p['prob']), rand_dec_post, params=[{'prob': False}, {'prob': True}], sym=False, trials=150, funcs=DLF),
    Case('long codewords', long_code_mk, lambda P, x, p: P('rx.decoding_linear')(x.x, x.G, p['prob']), rand_dec_post, params=[{'prob': False}, {'prob': True}], sym=False, trials=25, funcs=DLF)]


# ---- C14 -------------------------------------------------------------------------------------------
CODES = {
    'k7like': ({0: np.array([[1, 1, 1], [1, 0, 1]])}, None, None),
    'doc1': ({0: np.array([[1, 1, 1], [1, 1, 0]])}, None, None),
    'doc2': ({0: np.array([[1, 0], [0, 0], [1, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [0, 0, 1]])}, None, None),
    'rsc': ({0: np.array([[1, 0], [0, 1]])}, {0: np.array([1, 1])}, np.array([[0, 1]])),
    'rsc3': ({0: np.array([[1, 0, 0], [1, 0, 1]])}, {0: np.array([1, 1, 1])}, np.array([[0, 1]])),
    'rsc4': ({0: np.array([[1, 0, 0, 0], [1, 1, 0, 1]])}, {0: np.array([1, 0, 1, 1])}, np.array([[0, 1]])),
    'allfb': ({0: np.array([[1, 1, 0], [0, 1, 1]])}, {0: np.array([1, 0, 1])}, np.array([[1, 1]])),
    'two': ({0: np.array([[1, 0], [0, 0], [0, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [1, 0, 1]])}, {0: np.array([1, 1]), 1: np.array([1, 1, 1])}, np.array([[0, 0, 1], [0, 0, 1]])),
    'mixed': ({0: np.array([[1, 0], [0, 0], [0, 1]]), 1: np.array([[0, 0, 0], [1, 1, 0], [1, 0, 1]])}, {0: np.array([1, 1])}, np.array([[0, 0, 1], [0, 0, 0]])),
    'memless': ({0: np.array([[1], [1], [0]])}, None, None),
    'memless2': ({0: np.array([[1], [0], [1]]), 1: np.array([[0], [1], [1]])}, None, None),
    'one': ({0: np.array([[1, 0, 1, 1]])}, None, None),
    'zero': ({0: np.array([[0, 0], [1, 1]])}, None, None),
}


def copy_code(I, code):
    G, fb, uf = code
    return I.const(G), (None if fb is None else I.const(fb)), (None if uf is None else I.const(uf))


def reg_seq(I, u, fb, name):
    """register input: w(t) = u(t) + sum fb[l] w(t-l) modulo 2"""
    taps = [l for l in range(1, len(fb)) if fb[l]]
    if I.symbolic:
        def step(s, t):
            v = u(t)
            for l in taps:
                v = c.add(v, s(c.sub(t, l)))
            return c.mod(v, 2)
        return I.seq(name, lambda k: 0, step)
    return I.seq(name, lambda k: 0, lambda s, t: (u(t) + sum(s(t - l) for l in taps)) % 2)


def cv_mk(I, p):
    code = CODES[p['code']]
    n_in = len(code[0])
    m = I.int('m', 0 if p['r'] else 1, small=10, large=60)
    x = NS(m=m, x=I.bits('x', m * n_in + p['r']))
    x.G, x.fb, x.uf = copy_code(I, code)
    rows = m + (1 if p['r'] else 0)

    def inp(i):
        def u(t):
            q = t * n_in + i
            if not I.symbolic:
                return int(x.x[q]) if 0 <= q < len(x.x) else 0
            return c.ite(c.And(c.ge(t, 0), c.lt(q, m * n_in + p['r'])), x.x.at((q,)), 0)
        return u
    if I.symbolic:
        x.x = x.x.freeze()
    us = [inp(i) for i in range(n_in)]
    x.u = us
    x.rows = rows
    x.w = {i: reg_seq(I, us[i], code[1][i], 'w%d' % i) for i in (code[1] or {})}
    return x


def cv_val(E, x, p, i, j, t, raw=False):
    """contribution of input i to output j at time t"""
    G, fb, uf = CODES[p['code']]
    v = 0
    for l in range(G[i].shape[1]):
        if G[i][j, l]:
            if fb is not None and i in fb and (uf[i, j] or G[i].shape[1] == 1):
                w = x.w[i]
                a = t - l
                v = v + ((w.raw_neg(a) if raw else w.at(a)) if E.symbolic else w.at(a))
            else:
                v = v + x.u[i](t - l)
    return v


def cv_post(E, x, y, p):
    G, fb, uf = CODES[p['code']]
    n_in, n_out = len(G), G[0].shape[0]
    if not E.same_shape(y, (x.rows * n_out,)):
        return

    def f(t):
        g = []
        for j in range(n_out):
            v = 0
            for i in range(n_in):
                v = v + cv_val(E, x, p, i, j, t)
            g.append(E.eq(E.at(y, t * n_out + j), E.mod(v, 2)))
        return E.and_(*g)
    E.forall(x.rows, f, 'shift register encoder output')


def cv_run(P, x, p):
    if x.fb is None:
        return P('tx.coding_conv')(x.x, x.G)
    return P('tx.coding_conv')(x.x, x.G, x.fb, x.uf)


def cv_templates(x, p):
    """the register holds the last values of w; outputs so far are the encoder's"""
    G, fb, uf = CODES[p['code']]
    if fb is None:
        return []
    out = []
    for i in fb:
        L = len(fb[i]) - 1
        w = x.w[i]

        def t(v, iv, k, n, w=w, L=L, i=i):
            if isinstance(v, CArr) and v.shape == (L,):
                return [('register of input %d holds the last values' % i,
                         Inv(lambda: c.And(*[c.eq(v.o[d], (w.at if d == 0 else w.raw_neg)(c.sub(c.sub(k, 1), d))) for d in range(L)])))]
            return []
        out.append(t)
        for j in range(G[i].shape[0]):
            g = G[i][j]
            if not g.any():
                continue

            def t2(v, iv, k, n, w=w, g=g, i=i, j=j):
                if isinstance(v, SArr) and len(v.shape) == 1 and isinstance(v.shape[0], S):
                    def body(q):
                        w.at(c.sub(k, 1))
                        s = 0
                        for l in range(len(g)):
                            if g[l]:
                                s = c.add(s, w.raw_neg(c.sub(q, l)))
                        return c.eq(v.at((q,)), c.mod(s, 2))
                    return [('output %d of input %d so far' % (j, i), Inv(body, (0, k)))]
                return []
            out.append(t2)
    return out


def cvg_mk(I, p):
    m = I.int('m', 1, small=10, large=40)
    return NS(m=m, x=I.bits('x', m), G={0: I.bits('G', (p['o'], p['l']))})


def cvg_post(E, x, y, p):
    o, L = p['o'], p['l']
    if not E.same_shape(y, (x.m * o,)):
        return

    def f(t):
        g = []
        for j in range(o):
            v = 0
            for l in range(L):
                v = v + E.ite(E.and_(E.ge(t - l, 0), E.eq(E.at(x.G[0], j, l), 1)), E.at(x.x, t - l) if E.symbolic or t >= l else 0, 0)
            g.append(E.eq(E.at(y, t * o + j), E.mod(v, 2)))
        return E.and_(*g)
    E.forall(x.m, f, 'shift register encoder output')


def fbg_mk(I, p):
    m = I.int('m', 1, small=10, large=40)
    L = len(p['fb'])
    x = NS(m=m, x=I.bits('x', m), G={0: I.bits('G', (1, L))}, fb=I.const({0: np.array(p['fb'])}), uf=I.const(np.array([[1]])))
    xs = x.x.freeze() if I.symbolic else x.x

    def u(t):
        if not I.symbolic:
            return int(xs[t]) if 0 <= t < len(xs) else 0
        return c.ite(c.And(c.ge(t, 0), c.lt(t, m)), xs.at((t,)), 0)
    x.w = reg_seq(I, u, p['fb'], 'w')
    return x


def fbg_post(E, x, y, p):
    L = len(p['fb'])
    if not E.same_shape(y, (x.m,)):
        return

    def f(t):
        v = 0
        for l in range(L):
            v = v + E.ite(E.eq(E.at(x.G[0], 0, l), 1), x.w.at(t - l), 0)
        return E.eq(E.at(y, t), E.mod(v, 2))
    E.forall(x.m, f, 'shift register encoder output')


def fbg_tpl(x, p):
    L = len(p['fb']) - 1
    w = x.w
    G = A(x.G[0])

    def t(v, iv, k, n):
        if isinstance(v, CArr) and v.shape == (L,):
            return [('register holds the last values', Inv(lambda: c.And(*[c.eq(v.o[d], (w.at if d == 0 else w.raw_neg)(c.sub(c.sub(k, 1), d))) for d in range(L)])))]
        if isinstance(v, SArr) and len(v.shape) == 1 and isinstance(v.shape[0], S):
            def body(q):
                w.at(c.sub(k, 1))
                s = 0
                for l in range(L + 1):
                    s = c.add(s, c.ite(c.eq(G.at((0, l)), 1), w.raw_neg(c.sub(q, l)), 0))
                return c.eq(v.at((q,)), c.mod(s, 2))
            return [('output so far', Inv(body, (0, k)))]
        return []
    return [t]


def enc_ref(bits, G, fb, uf, state=None):
    """direct simulation of the encoder; bits: rows x n_in; state: per input list of register contents"""
    n_in, n_out = len(G), G[0].shape[0]
    mem = [list(state[i]) if state is not None else [0] * (G[i].shape[1] - 1) for i in range(n_in)]
    out = []
    for row in bits:
        o = [0] * n_out
        for i in range(n_in):
            w = int(row[i])
            if fb is not None and i in fb:
                w = (w + sum(int(a) * b for a, b in zip(fb[i][1:], mem[i]))) % 2
            reg = [w] + mem[i]
            for j in range(n_out):
                g = G[i][j]
                if fb is not None and i in fb and not uf[i, j]:
                    o[j] ^= int(row[i]) * int(g[0])
                else:
                    o[j] ^= sum(int(a) * b for a, b in zip(g, reg)) % 2
            mem[i] = reg[:-1]
        out += o
    return out, mem


def rand_code(I, mem_max=3, nin=2, nout=3, tot=None):
    n_in = I.int('n_in', 1, nin)
    n_out = I.int('n_out', 1, nout)
    useful = I.int('feedback', 0, 1)
    G, fb = {}, {}
    uf = np.zeros((n_in, n_out), dtype=int)
    left = tot
    for i in range(n_in):
        hi = mem_max if left is None else min(mem_max, left)
        mi = I.int('mem%d' % i, 0, hi)
        if left is not None:
            left -= mi
        G[i] = I.bits('G%d' % i, (n_out, mi + 1))
        if useful and mi > 0 and I.int('hasfb%d' % i, 0, 1):
            f = I.bits('fb%d' % i, mi + 1)
            f[0] = 1
            fb[i] = f
            uf[i] = I.bits('uf%d' % i, n_out)
            for j in range(n_out):      # a flag may be off only for a systematic or absent connection
                if not uf[i, j]:
                    G[i][j, 1:] = 0
    return n_in, n_out, G, (fb if fb else None), (uf if fb else None)


def rc_mk(I, p):
    n_in, n_out, G, fb, uf = rand_code(I)
    L = I.int('L', 1, small=24, large=300)
    return NS(x=I.bits('x', L), G=G, fb=fb, uf=uf, n_in=n_in, n_out=n_out, L=L)


def rc_post(E, x, y, p):
    m = -(-x.L // x.n_in)
    pad = np.concatenate([x.x, np.zeros(m * x.n_in - x.L, dtype=int)]).reshape(m, x.n_in)
    want, _ = enc_ref(pad, x.G, x.fb, x.uf)
    if E.same_shape(y, (m * x.n_out,)):
        E.check(np.array_equal(y, want), 'shift register encoder output')


def tr_mk(I, p):
    x = NS()
    x.G, x.fb, x.uf = copy_code(I, CODES[p['code']])
    return x


def tr_run(P, x, p):
    try:
        t = P('misc.ml_decoding.Trellis')
    except AttributeError:
        return None
    return t(x.G, x.fb, x.uf)


def trellis_rows(G, fb, uf):
    n_in = len(G)
    mems = [G[i].shape[1] - 1 for i in range(n_in)]
    for st in itertools.product((0, 1), repeat=sum(mems)):
        parts, q = [], 0
        for v in mems:
            parts.append(list(st[q:q + v]))
            q += v
        for u in itertools.product((0, 1), repeat=n_in):
            o, nm = enc_ref([u], G, fb, uf, parts)
            yield u, st, tuple(o), tuple(b for v in nm for b in v)


def tr_post(E, x, t, p):
    d = getattr(t, 'trellis', None)
    if not isinstance(d, dict):
        E.check(True, 'no trellis object')
        return
    G, fb, uf = CODES[p['code']] if 'code' in p else (x.G, x.fb, x.uf)
    n = 0
    for u, st, o, ns in trellis_rows(G, fb, uf):
        n += 1
        e = d.get((u, st))
        if e is None and E.symbolic:
            e = {tuple(tuple(int(v) for v in q) for q in k): v for k, v in d.items()}.get((u, st))
        E.check(e is not None and tuple(int(v) for v in e[0]) == o and tuple(int(v) for v in e[1]) == ns, 'trellis entry %s %s is the encoder step' % (u, st))
    E.check(len(d) == n, 'one entry per input and state')


def rt2_mk(I, p):
    n_in, n_out, G, fb, uf = rand_code(I, 2, 2, 3, 3)
    return NS(G=G, fb=fb, uf=uf)


CF = ['tx.coding.coding_conv', 'misc.help_functions.check_valid_conv']
CASES['C14'] += [
    Case('any generator, one input', cvg_mk, lambda P, x, p: P('tx.coding_conv')(x.x, x.G), cvg_post, params=[{'o': o, 'l': l} for o, l in ((1, 1), (1, 2), (2, 2), (1, 3), (2, 1), (1, 4), (2, 3))],
         trials=25, subst=CB, funcs=CF, max_paths=3000),
    Case('any generator with feedback', fbg_mk, lambda P, x, p: P('tx.coding_conv')(x.x, x.G, x.fb, x.uf), fbg_post, params=[{'fb': (1,) + f} for l in (1, 2, 3) for f in itertools.product((0, 1), repeat=l)],
         trials=10, subst=CB, funcs=CF, templates=fbg_tpl),
    Case('listed codes', cv_mk, cv_run, cv_post, params=[{'code': q, 'r': r} for q in CODES for r in range(len(CODES[q][0]))], trials=20, subst=CB, funcs=CF, templates=cv_templates),
    Case('random codes', rc_mk, lambda P, x, p: P('tx.coding_conv')(x.x, x.G, x.fb, x.uf), rc_post, sym=False, trials=400, funcs=CF),
    Case('trellis is the encoder', tr_mk, tr_run, tr_post, params=[{'code': q} for q in CODES], trials=1, funcs=['misc.ml_decoding.Trellis', 'misc.ml_decoding.create_trellis_bin'],
         sym=False, bound='the listed codes, every state and input', mutcheck=False),
    Case('trellis of random codes', rt2_mk, tr_run, tr_post, sym=False, trials=60, funcs=['misc.ml_decoding.Trellis'], mutcheck=False)]


# ---- C15 -------------------------------------------------------------------------------------------
def codebook(code, n_chunks):
    """{codeword: ...}: list of (input bits, codeword) over all start states"""
    G, fb, uf = code
    n_in = len(G)
    mems = [G[i].shape[1] - 1 for i in range(n_in)]
    out = set()
    for st in itertools.product((0, 1), repeat=sum(mems)):
        parts, q = [], 0
        for v in mems:
            parts.append(list(st[q:q + v]))
            q += v
        for u in itertools.product((0, 1), repeat=n_in * n_chunks):
            o, _ = enc_ref(np.array(u).reshape(-1, n_in), G, fb, uf, parts)
            out.add((u, tuple(o)))
    return sorted(out)


_BOOK = {}


def book(p):
    key = (p['code'], p['chunks'])
    if key not in _BOOK:
        _BOOK[key] = codebook(CODES[p['code']], p['chunks'])
    return _BOOK[key]


def vd_mk(I, p):
    G, fb, uf = CODES[p['code']]
    tb = G[0].shape[0] * p['chunks']
    m = I.int('m', 1, small=5, large=12) if 'm' not in p else p['m']
    x = NS(m=m, x=I.bits('x', m * tb + p.get('r', 0)), tb=tb)
    x.G, x.fb, x.uf = copy_code(I, CODES[p['code']])
    return x


def closest(E, x, off, y, p):
    """the bits y (list) drive the encoder, from some state, to a word at minimum distance from the block at off"""
    bk = book(p)
    words_ = sorted({w for _, w in bk})
    n = len(words_[0])
    rx = [E.at(x, off + j) for j in range(n)]
    ds = {}
    for w in words_:
        v = 0
        for j, b in enumerate(w):
            v = v + (1 - rx[j] if b else rx[j])
        ds[w] = v
    byu = {}
    for u, w in bk:
        byu.setdefault(u, set()).add(w)
    # distance of the decoded input: smallest over the start states
    out = [E.isbit(b) for b in y]
    d = 2 * n
    for u, ws in byu.items():
        e = 2 * n
        for w in sorted(ws):
            e = E.min(e, ds[w])
        d = E.ite(E.and_(*[E.eq(a, b) for a, b in zip(y, u)]), e, d)
    out += [E.le(d, ds[w]) for w in words_]
    return E.and_(*out)


def vd_post(E, x, r, p):
    y = r if p['fn'] == 'ml' else r[0]
    G, fb, uf = CODES[p['code']]
    k = len(G) * p['chunks']
    if E.same_shape(y, (x.m * k,)):
        E.forall(x.m, lambda q: closest(E, x.x, q * x.tb, [E.at(y, q * k + i) for i in range(k)], p), 'minimum distance input sequence')


def vd_run(P, x, p):
    f = P('rx.decoding_conv_ml' if p['fn'] == 'ml' else 'rx.decoding_conv_viterbi')
    return f(x.x, x.G, x.tb) if x.fb is None else f(x.x, x.G, x.tb, x.fb, x.uf)


def vd_tpl(x, p):
    k = len(CODES[p['code']][0]) * p['chunks']
    xx = A(x.x)

    class EE:
        pass
    E = SymOps()

    def t(v, iv, kk, n):
        if isinstance(v, SArr) and len(v.shape) == 2 and isinstance(v.shape[0], S) and v.shape[1] == k:
            return [('blocks decoded so far', Inv(lambda q: closest(E, xx, c.mul(q, x.tb), [v.at((q, i)) for i in range(k)], p), (0, kk)))]
        return []
    return [t]


class SymOps:
    eq = staticmethod(c.eq); le = staticmethod(c.le); and_ = staticmethod(c.And); ite = staticmethod(c.ite)
    isbit = staticmethod(lambda a: c.Or(c.eq(a, 0), c.eq(a, 1)))
    min = staticmethod(lambda a, b: c.minv(a, b))
    at = staticmethod(lambda a, *i: A(a).at(tuple(i)))


SMALL = [('rsc', 1), ('rsc', 2), ('rsc', 3), ('memless', 2), ('memless2', 1), ('k7like', 1), ('k7like', 2), ('rsc3', 2), ('zero', 2), ('allfb', 2), ('doc2', 1), ('two', 1), ('mixed', 1), ('one', 2)]
VF = ['rx.decoding.decoding_conv_viterbi', 'auxiliary.hamming', 'misc.ml_decoding.Trellis']
MF = ['rx.decoding.decoding_conv_ml', 'misc.ml_decoding.ml_decoding', 'misc.ml_decoding.Trellis']
CASES['C15'] += [
    Case('exhaustive decoder', vd_mk, vd_run, vd_post, params=[{'fn': 'ml', 'code': q, 'chunks': n, 'r': r} for q, n in SMALL for r in (0, CODES[q][0][0].shape[0] * n - 1)], trials=10, subst=CB,
         funcs=MF, deadline=80),
    Case('Viterbi decoder', vd_mk, vd_run, vd_post, params=[{'fn': 'vit', 'code': q, 'chunks': n, 'r': r} for q, n in SMALL for r in (0, CODES[q][0][0].shape[0] * n - 1)], trials=10, subst=CB,
         funcs=VF, templates=vd_tpl, deadline=80)]


def rv_mk(I, p):
    n_in, n_out, G, fb, uf = rand_code(I, 3, 2, 3, 3)
    ch = I.int('chunks', 1, 6 // n_in)
    tb = ch * n_out
    L = I.int('L', tb, small=4 * tb)
    return NS(x=I.bits('x', L), G=G, fb=fb, uf=uf, n_in=n_in, n_out=n_out, L=L, ch=ch, tb=tb)


def rv_run(P, x, p):
    f = P('rx.decoding_conv_ml' if p['fn'] == 'ml' else 'rx.decoding_conv_viterbi')
    return f(x.x, x.G, x.tb, x.fb, x.uf, p['prob'])


def rv_post(E, x, r, p):
    y = r[0] if p['fn'] == 'vit' or p['prob'] else r
    m = x.L // x.tb
    k = x.n_in * x.ch
    if not E.same_shape(y, (m * k,)):
        return
    bk = codebook((x.G, x.fb, x.uf), x.ch)
    ws = np.array([w for _, w in bk])
    for q in range(m):
        d = np.abs(ws - x.x[None, q * x.tb:(q + 1) * x.tb]).sum(axis=1)
        u = tuple(int(v) for v in y[q * k:(q + 1) * k])
        mine = [d[i] for i, (a, _) in enumerate(bk) if a == u]
        E.check(bool(mine) and min(mine) == d.min(), 'minimum distance input sequence')


def nl_mk(I, p):
    code = CODES[p['code']]
    n_in = len(code[0])
    m = I.int('m', 1, small=6)
    x = NS(m=m, x=I.bits('x', m * n_in * p['chunks']), tb=code[0][0].shape[0] * p['chunks'])
    x.G, x.fb, x.uf = copy_code(I, code)
    return x


def nl_run(P, x, p):
    cw = P('tx.coding_conv')(x.x, x.G, x.fb, x.uf)
    r = P('rx.decoding_conv_ml' if p['fn'] == 'ml' else 'rx.decoding_conv_viterbi')(cw, x.G, x.tb, x.fb, x.uf)
    return r if p['fn'] == 'ml' else r[0]


def nl_post(E, x, y, p):
    if E.same_shape(y, E.shape(x.x)):
        E.check(np.array_equal(y, x.x), 'noiseless data decodes exactly')


def invertible(code, ch):
    """every codeword, whatever the start state, belongs to one input sequence"""
    seen = {}
    for u, w in codebook(CODES[code], ch):
        if seen.setdefault(w, u) != u:
            return False
    return True


def long_mk(I, p):
    """block lengths beyond enumeration"""
    code = CODES[p['code']]
    n_in = len(code[0])
    ch = I.int('chunks', 1, 24)
    tb = code[0][0].shape[0] * ch
    L = I.int('L', tb, small=3 * tb)
    x = NS(x=I.bits('x', L), ch=ch, tb=tb, L=L, n_in=n_in)
    x.G, x.fb, x.uf = copy_code(I, code)
    return x


def far_mk(I, p):
    """codes with many outputs: distances of several hundred"""
    o = I.int('o', 6, 12)
    ch = I.int('chunks', 30, 60)
    G = {0: np.array([([1, 0, 1], [1, 1, 1], [0, 1, 1], [1, 1, 0])[j % 4] for j in range(o)])}
    tb = o * ch
    x = NS(x=I.bits('x', tb * I.int('blocks', 1, 2)), ch=ch, tb=tb, n_in=1, G=G, fb=None, uf=None)
    x.L = len(x.x)
    return x


def min_cost(code, ch, rx, u=None):
    return min(end_costs(code, ch, rx, u).values())


def end_costs(code, ch, rx, u=None):
    """smallest distance over start states (and inputs when u is None) per end state, by dynamic programming"""
    G, fb, uf = code
    n_in = len(G)
    rows = list(trellis_rows(G, fb, uf))
    n_out = G[0].shape[0]
    cost = {st: 0 for _, st, _, _ in rows}
    for t in range(ch):
        new = {}
        for uu, st, o, ns in rows:
            if st not in cost or (u is not None and tuple(u[t * n_in:(t + 1) * n_in]) != uu):
                continue
            d = cost[st] + sum(a != b for a, b in zip(o, rx[t * n_out:(t + 1) * n_out]))
            if ns not in new or d < new[ns]:
                new[ns] = d
        cost = new
    return cost


def long_post(E, x, r, p):
    y = r[0]
    m = x.L // x.tb
    k = x.n_in * x.ch
    if not E.same_shape(y, (m * k,)):
        return
    E.check(len(r) == (3 if p.get('prob') else 2), 'bits, end state and probabilities on request')
    if p.get('prob') and not E.same_shape(r[2], (m,), 'one probability per block'):
        return
    code = (x.G, x.fb, x.uf)
    E.check(bool(np.isin(y, (0, 1)).all()), 'decoded values are bits')
    for q in range(m):
        rx = [int(v) for v in x.x[q * x.tb:(q + 1) * x.tb]]
        u = [int(v) for v in y[q * k:(q + 1) * k]]
        ends = list(end_costs(code, x.ch, rx).values())
        E.check(min_cost(code, x.ch, rx, u) == min(ends), 'minimum distance input sequence')
        if p.get('prob'):
            ties = ends.count(min(ends))
            E.check(E.eq(float(r[2][q]), 1 / ties if ties > 1 else 0), 'one over the number of tied end states')


NLP = [(q, ch) for q in CODES for ch in (1, 2, 3) if len(CODES[q][0]) * ch <= 4]
CASES['C15'] += [
    Case('random codes', rv_mk, rv_run, rv_post, params=[{'fn': f, 'prob': b} for f in ('ml', 'vit') for b in (False, True)], sym=False, trials=60, funcs=VF + MF),
    Case('noiseless decoding', nl_mk, nl_run, nl_post, params=[{'fn': f, 'code': q, 'chunks': ch} for q, ch in NLP if invertible(q, ch) for f in ('ml', 'vit')], sym=False, trials=15, funcs=VF + MF),
    Case('Viterbi, long blocks', long_mk, lambda P, x, p: P('rx.decoding_conv_viterbi')(x.x, x.G, x.tb, x.fb, x.uf, p['prob']), long_post, params=[{'code': q, 'prob': b} for q in CODES if len(CODES[q][0]) < 3 for b in (False, True)], sym=False, trials=8, funcs=VF),
    Case('Viterbi, large distances', far_mk, lambda P, x, p: P('rx.decoding_conv_viterbi')(x.x, x.G, x.tb, x.fb, x.uf, p['prob']), long_post, params=[{'prob': b} for b in (False, True)], sym=False, trials=14, sizes=0, funcs=VF)]
