"""Callee contracts used at call sites in place of the callee's body (each is proved for the real
body by the case named beside it)."""
import z3
from . import core as c
from . import arr
from .arr import A
from .core import S


def check_binary(repo, real):
    """C16 'check_binary decides': raises ValueError iff some element is neither 0 nor 1"""
    def contract(pattern):
        a = arr.reshape(A(pattern), (-1,)).freeze()
        ok = arr.all_term(a.shape, lambda i: c.Or(c.eq(a.at(i), 0), c.eq(a.at(i), 1)))
        if not ok:
            raise ValueError('Data in is not binary, please consider other encoding methods')
    return contract


def prbs_generator(repo, real):
    """C01 'sequence and returned seed': bit k is s(k), s(k) = poly . (s(k-1)..s(k-d)) mod 2, s(-1-i) = seed[i]; the returned
    seed is (s(n-1)..s(n-d)).  Proved for the supported polynomials and any length, for any polynomial up to one period."""
    from .props import p_prbs
    from .spec import SymSeq

    def contract(poly_coeff, init_seed, output_length):
        ctx = c.CTX
        poly, seed = A(poly_coeff), A(init_seed).freeze()
        d = poly.shape[0]
        if isinstance(d, S) or any(isinstance(poly.at((i,)), S) for i in range(d)):
            return real(poly_coeff, init_seed, output_length)
        taps = [int(poly.at((i,))) for i in range(d)]
        if isinstance(seed.shape[0], S) or seed.shape[0] != d or d not in p_prbs.POLY or taps != list(p_prbs.polyvec(d)):
            return real(poly_coeff, init_seed, output_length)
        if not isinstance(output_length, S) and output_length < 200 or not ctx.known(c.boolt(c.ge(output_length, 0))):
            return real(poly_coeff, init_seed, output_length)
        if not all(ctx.known(c.boolt(c.Or(c.eq(seed.at((i,)), 0), c.eq(seed.at((i,)), 1)))) for i in range(d)):
            return real(poly_coeff, init_seed, output_length)

        def neg(k):
            return seed.at((c.sub(-1, k),))

        def step(f, k):
            r = 0
            for t in range(d):
                if taps[t]:
                    r = c.add(r, f(c.sub(c.sub(k, 1), t)))
            return c.mod(r, 2)
        ctx.nseq = getattr(ctx, 'nseq', 0) + 1
        s = SymSeq(ctx, 'prbs!%d' % len(ctx.calls.setdefault('prbs_generator', [])), neg, step, 'i')
        ctx.calls['prbs_generator'].append((s, seed, output_length))

        def get(i):
            if isinstance(i[0], S):
                ctx.touch(i[0])
            v = s.raw_neg(i[0])
            ctx.assume(c.Or(c.eq(v, 0), c.eq(v, 1)))
            return v
        y = arr.SArr((output_length,), get, 'i')
        import numpy as np
        o = np.empty((d,), dtype=object)
        for i in range(d):
            o[i] = s.raw_neg(c.sub(c.sub(output_length, 1), i))
            ctx.assume(c.Or(c.eq(o[i], 0), c.eq(o[i], 1)))
        return y, arr.CArr(o, 'i')
    return contract


def slicer(repo, real):
    """C18 'slicer': for increasing levels every sample becomes the nearest level, the lower one on a tie"""
    def contract(slicer_in_mat, levels=None):
        x = slicer_in_mat
        if not isinstance(x, arr.Arr) or x.ndim != 1 or levels is None:
            return real(x) if levels is None else real(x, levels)
        lv = A(levels)
        if lv.ndim != 1 or isinstance(lv.shape[0], S) or not 1 <= lv.shape[0] <= 4:
            return real(x, levels)
        lv = lv.freeze()
        l = [lv.at((i,)) for i in range(lv.shape[0])]
        if not all(c.CTX.known(c.boolt(c.lt(a, b))) if isinstance(a, S) or isinstance(b, S) else a < b for a, b in zip(l, l[1:])):
            return real(x, levels)
        from .props.p_filt import near
        f = x.freeze()
        return A(arr.build(x.shape, lambda i: arr._ck(near(f.at(i), l), lv.kind), lv.kind))
    return contract


def lock_pattern_to_signal(repo, real):
    """C04: the whole pattern rotated to an offset of largest correlation with the signal (the rotation is left opaque)"""
    def contract(pattern, signal):
        ctx = c.CTX
        pat = A(pattern).freeze()
        if pat.ndim != 1 or isinstance(pat.shape[0], S):
            return real(pattern, signal)
        L = pat.shape[0]
        sig = A(signal).freeze()
        fn = ctx.freshfn('lock', 'f' if pat.kind == 'f' else 'i')
        out = A(arr.build((L,), lambda i: S(fn(c.num(i[0])[0]), pat.kind), pat.kind))
        xf = ctx.freshfn('xcorr', 'f')
        m = c.minv(L, sig.shape[0])
        xc = arr.SArr((c.sub(2 * L + 1, m),), lambda i: S(xf(c.num(i[0])[0]), 'f'), 'f')
        ctx.calls.setdefault('lock_pattern_to_signal', []).append((pat, sig, out.freeze()))
        return out, xc
    return contract


def lock_pattern_to_signal_binary(repo, real):
    """C04: the pattern rotated to an offset of largest correlation with the signal (the offset is left open)"""
    def contract(pattern, signal):
        ctx = c.CTX
        pat = A(pattern).freeze()
        sig = A(signal).freeze()
        if pat.ndim != 1 or sig.ndim != 1 or isinstance(pat.shape[0], S) or pat.shape[0] < 1:
            return real(pattern, signal)
        L = pat.shape[0]
        r = S(ctx.fresh('rot'), 'i')
        ctx.assume(c.And(c.ge(r, 0), c.lt(r, L)))
        ctx.args.append(r)
        out = A(arr.SArr((L,), lambda i: pat.at((c.mod(c.add(i[0], r), L),)), pat.kind))
        xf = ctx.freshfn('xcorr', 'i')
        xc = arr.SArr((c.sub(2 * L + 1, c.minv(L, sig.shape[0])),), lambda i: S(xf(c.num(i[0])[0]), 'i'), 'i')
        ctx.calls.setdefault('lock_pattern_to_signal_binary', []).append((pat, sig, r))
        return out, xc
    return contract


def equalization_estimation(repo, real):
    """C30 'optimal taps': the taps solve the least squares problem of the reference and the signal given (left opaque)"""
    def contract(reference_signal, signal, ffe_postcursor=23, ffe_precursor=4, dfe_taps=0, normalize=False, regularization='None', reg_lambda=0):
        ctx = c.CTX
        import numpy as np

        def opaque(n):
            o = np.empty((n,), dtype=object)
            for i in range(n):
                o[i] = S(ctx.fresh('tap', 'f'), 'f')
            return arr.CArr(o, 'f')
        y = (opaque(ffe_postcursor + ffe_precursor + 1), opaque(dfe_taps) if dfe_taps > 0 else None,
             S(ctx.fresh('gain', 'f'), 'f') if normalize else 1, opaque(1), S(ctx.fresh('mse', 'f'), 'f'))
        ctx.calls.setdefault('equalization_estimation', []).append((A(reference_signal).freeze(), A(signal).freeze(),
            (ffe_postcursor, ffe_precursor, dfe_taps, normalize, regularization, reg_lambda), y))
        return y
    return contract


TABLE = {
    'CommDspy.rx.lock_pattern.lock_pattern_to_signal_binary': lock_pattern_to_signal_binary,
    'CommDspy.rx.lock_pattern.lock_pattern_to_signal': lock_pattern_to_signal,
    'CommDspy.equalization_estimation.equalization_estimation': equalization_estimation,
    'CommDspy.rx.slicer.slicer': slicer,
    'CommDspy.tx.prbs_generator.prbs_generator': prbs_generator,
    'CommDspy.misc.help_functions.check_binary': check_binary,
}
