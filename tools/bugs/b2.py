T = 'CommDspy/tx/coding.py'; R = 'CommDspy/rx/decoding.py'; A = 'CommDspy/auxiliary.py'
PRE = 'import numpy as np, sys, itertools\nimport CommDspy as cdsp\nfrom CommDspy.constants import ConstellationEnum as CE, PrbsEnum as PE\ndef ok(c): sys.exit(0 if c else 1)\n'
BUGS = [
 dict(id='poly31', property='C02', edits=[(A, 'poly_coeff[[27, 30]] = 1', 'poly_coeff[[26, 30]] = 1')],
  demo=PRE + '''
p = cdsp.get_polynomial(PE.PRBS31)
def mul(a, b, m, d=31):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a >> d & 1: a ^= m
        b >>= 1
    return r
m = 1 << 31 | 1
for i in np.flatnonzero(p): m |= 1 << (31 - (i + 1))
x, e, r = 2, 2 ** 31 - 1, 1
while e:
    if e & 1: r = mul(r, x, m)
    x = mul(x, x, m); e >>= 1
ok(r == 1)''', needs='PRBS31, over more bits than can be generated', breaks='the PRBS31 polynomial is not primitive, its period is shorter'),
 dict(id='loss_equal', property='C03', edits=[('CommDspy/rx/checker.py', '    lost_lock           = np.sum(error_bit) >= loss_th', '    lost_lock           = np.sum(error_bit) > loss_th')],
  demo=PRE + '''
s, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(PE.PRBS7), np.ones(7, dtype=int), 127)
d = s.copy(); d[:5] = 1 - d[:5]
ok(bool(cdsp.rx.prbs_checker(PE.PRBS7, d, True, loss_th=5)[0]))''', needs='exactly as many errors as the threshold', breaks='lock loss is reported only above the threshold'),
 dict(id='econ_seeds', property='C03', edits=[('CommDspy/rx/checker.py', 'for seed_start in range(prbs_type.value):', 'for seed_start in range(0, prbs_type.value, 2):')],
  demo=PRE + '''
s, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(PE.PRBS7), np.ones(7, dtype=int), 300)
d = s.copy(); d[0] = 1 - d[0]
l, c, e = cdsp.rx.prbs_checker_econ(PE.PRBS7, d, loss_th=10)
ok(not l and len(e) == 299 and c == 299)''', needs='an error that spoils the first seed windows but not the second', breaks='the seed windows are not all tried in turn'),
 dict(id='lock_cap', property='C04', edits=[('CommDspy/rx/lock_pattern.py', '    signal_part = signal[:np.min((pattern_len, data_len))]', '    signal_part = signal[:np.min((pattern_len, data_len, 1024))]')],
  demo=PRE + '''
p = np.zeros(3000); p[2000] = 5.0; p[10] = 1.0; p[40] = -1.0
k = 100
sig = np.roll(p, -k)
y, _ = cdsp.rx.lock_pattern_to_signal(p, sig)
ok(np.array_equal(y, sig))''', needs='a pattern longer than 1024 symbols whose energy lies late', breaks='only the first 1024 samples decide the alignment'),
 dict(id='inv_lsb', property='C05', edits=[('CommDspy/tx/bin2symbol.py', 'trimmed_bin[:, 0] = 1 - trimmed_bin[:, 0]', 'trimmed_bin[:, bits_per_symbol // 3] = 1 - trimmed_bin[:, bits_per_symbol // 3]')],
  demo=PRE + '''
ok(np.array_equal(cdsp.tx.bin2symbol(np.array([0, 0, 0, 1, 1, 1]), 8, inv_lsb=True), [1, 6]))''', needs='at least eight symbols with LSB inversion', breaks='another bit than the LSB is inverted'),
 dict(id='gray_deep', property='C07', edits=[(A, 'lvls = np.vstack((lvls, lvls[::-1]))', 'lvls = np.vstack((lvls, lvls[::-1] if ii < 3 else lvls))')],
  demo=PRE + '''
g = cdsp.auxiliary.get_gray_level_vec(16)
ok(all(bin(int(a) ^ int(b)).count('1') == 1 for a, b in zip(g, g[1:])))''', needs='more than eight levels', breaks='neighbouring levels differ in several bits'),
 dict(id='diff_pam3', property='C08', edits=[(T, '    lvl_num = len(get_levels(constellation))', '    lvl_num = 1 << int(np.ceil(np.log2(len(get_levels(constellation)))))')],
  demo=PRE + '''
x = np.array([2, 2, 1, 0, 2, 1])
ok(np.array_equal(cdsp.tx.coding_differential(x, CE.PAM3), np.cumsum(x) % 3))''', needs='PAM3', breaks='the sum is taken modulo four'),
 dict(id='man_2d', property='C09', edits=[(T, '    coded_pattern = np.reshape(coding_list[pattern], -1)\n', '    coded_pattern = np.reshape(coding_list[pattern.T if pattern.ndim == 3 else pattern], -1)\n')],
  demo=PRE + '''
x = np.array([[[0, 1], [1, 1]], [[0, 0], [0, 1]]])
ok(np.array_equal(cdsp.rx.decoding_manchester(cdsp.tx.coding_manchester(x)), x))''', needs='a three-dimensional array', breaks='the samples are emitted in another order'),
 dict(id='linear_tail', property='C13', edits=[(R, "pattern_block = np.reshape(pattern[:-1*residual], [-1, n])", "pattern_block = np.reshape(pattern[residual:], [-1, n])")],
  demo=PRE + '''
G = np.array([[1, 0, 1], [0, 1, 1]])
c = cdsp.tx.coding_linear(np.array([1, 0, 0, 1]), G)
ok(np.array_equal(cdsp.rx.decoding_linear(np.concatenate([c, [1]]), G), [1, 0, 0, 1]))''', needs='an incomplete last block', breaks='leading instead of trailing bits are dropped'),
 dict(id='vit_tie', property='C15', edits=[(R, 'count       = sum(hamming_dist[:, -1] == min_hamming)', 'count       = sum(hamming_dist[:, -1] <= min_hamming + (n_chunks > 3))')],
  demo=PRE + '''
G = {0: np.array([[1, 0, 1], [1, 1, 1]])}
c0 = cdsp.tx.coding_conv(np.array([1, 0, 1, 1, 0, 0, 1, 0]), G)
def dist(s, u):
    m = list(s); d = []
    for b in u:
        w = [b] + m
        d += [sum(g * q for g, q in zip(row, w)) % 2 for row in G[0]]
        m = w[:-1]
    return np.array(d), tuple(m)
W = [dist(s, u) for s in itertools.product((0, 1), repeat=2) for u in itertools.product((0, 1), repeat=8)]
good = True
for flip in range(16):
    c = c0.copy(); c[flip] ^= 1; c[15] ^= 1
    e = cdsp.rx.decoding_conv_viterbi(c, G, 16, error_prob=True)[2]
    best = {}
    for d, f in W: best[f] = min(best.get(f, 99), int(np.sum(d != c)))
    n = sum(v == min(best.values()) for v in best.values())
    good &= abs(e[0] - (1 / n if n > 1 else 0)) < 1e-9
ok(good)''', needs='a long traceback and a final state one bit worse than the best', breaks='almost-best final states are counted as ties'),
 dict(id='fb_binary', property='C16', edits=[('CommDspy/misc/help_functions.py', '                check_binary(feedback[fb_ii])', '                check_binary(feedback[fb_ii][1:])')],
  demo=PRE + '''
G = {0: np.array([[1, 0, 0], [1, 0, 1]])}
try:
    cdsp.tx.coding_conv(np.array([1, 0, 1, 1]), G, {0: np.array([2, 1, 1])}, np.array([[0, 1]]))
    ok(False)
except ValueError:
    ok(True)''', needs='a non-binary leading feedback coefficient', breaks='it is accepted'),
 dict(id='map_levels', property='C17', edits=[('CommDspy/tx/mapping.py', '        default_lvls = -1 * default_lvls', '        default_lvls *= -1')],
  demo=PRE + '''
l = np.array([-4.0, -1.0, 1.0, 4.0]); k = l.copy()
cdsp.tx.mapping(np.array([0, 1, 2]), CE.PAM4, levels=l, pn_inv=True)
ok(np.array_equal(l, k))''', needs='custom levels with polarity inversion', breaks='the caller\'s levels are negated'),
 dict(id='slice_sorted', property='C18', edits=[('CommDspy/rx/slicer.py', '    constellation_points = np.argmin(diff_mat, axis=1)', '    constellation_points = np.searchsorted((levels[1:] + levels[:-1]) / 2, slicer_in_vec[:, 0])')],
  demo=PRE + '''
ok(np.array_equal(cdsp.rx.slicer(np.array([-2.9, 0.9, 2.2]), np.array([3., -1., 1., -3.])), [-3, 1, 3]))''', needs='levels not in increasing order', breaks='samples are sliced to a wrong level'),
 dict(id='dfe_first', property='C19', edits=[('CommDspy/rx/ffe_dfe_model.py', '            if idx >= 0:', '            if idx > 0:')],
  demo=PRE + '''
x = np.array([3.2, 1.1, -0.7, 2.0])
y = cdsp.rx.ffe_dfe(x, np.array([1.0]), np.array([0.5]), np.array([-3., -1, 1, 3]))[0]
ref = []; m = 0.0
for v in x:
    t = v - 0.5 * m; ref.append(t); m = min([-3., -1, 1, 3], key=lambda l: abs(l - t))
ok(np.allclose(y, ref))''', needs='the first decision of a call', breaks='the first decision never enters the feedback'),
 dict(id='iir_norm', property='C20', edits=[('CommDspy/misc/help_classes.py', '        self._z_iir.appendleft(y)', '        self._z_iir.appendleft(a0_y)')],
  demo=PRE + '''
from CommDspy.misc.help_classes import Filter
from scipy.signal import lfilter
x = np.array([1.0, -2, 0.5, 3]); b, a = np.array([1.0, 0.5]), np.array([2.0, -0.4, 0.2])
ok(np.allclose(Filter(b, a)(x), lfilter(b, a, x)))''', needs='a leading denominator coefficient other than one', breaks='the unnormalised output is fed back'),
 dict(id='tii_state', property='C20', edits=[('CommDspy/misc/help_classes.py', 'self._z = (x * self._b_vec) + z_temp - (xhat * self._a_vec)', 'self._z = (x * self._b_vec) + z_temp - (xhat * self._a_vec) / self.a[0]')],
  demo=PRE + '''
from CommDspy.misc.help_classes import FfeDfeFilterTII
b, a, L = np.array([1.0, 0.5]), np.array([2.0, -0.5, 0.25]), np.array([-1.0, 1.0])
x = np.array([1.0, -2, 0.5, 3, -1.5])
y = FfeDfeFilterTII(b, a, L)(x)
ref, xs, ds = [], [0.0], [0.0, 0.0]
for v in x:
    t = (b[0] * v + b[1] * xs[0] - a[1] * ds[0] - a[2] * ds[1]) / a[0]
    ref.append(t); xs = [v]; ds = [min(L, key=lambda l: abs(l - t)), ds[0]]
ok(np.allclose(y, ref))''', needs='a leading DFE coefficient other than one', breaks='the decisions are fed back scaled'),
 dict(id='chan_zi', property='C21', edits=[('CommDspy/channel/additive_noise_functions.py', 'zi = np.zeros(max([1, len(b)])-1)', 'zi = np.zeros(max([1, len(b)])-1)\n            b = np.asarray(b) * a; a = 1')],
  demo=PRE + '''
ok(np.allclose(cdsp.channel.awgn_channel(np.array([1.0, 2.0, -1.0]), [0.5, 1.0], 2.0)[0], [0.25, 1.0, 0.75]))''', needs='a scalar denominator other than one', breaks='the output is multiplied instead of divided by it'),
 dict(id='uint_squeeze', property='C23', edits=[(A, 'dims_new = np.concatenate([dims, [n_bits]]).astype(int)', 'dims_new = np.concatenate([dims[::-1], [n_bits]]).astype(int)')],
  demo=PRE + '''
x = np.array([[1, 2, 3], [4, 5, 6]])
y = cdsp.uint2bin(x, 3) if hasattr(cdsp, 'uint2bin') else cdsp.auxiliary.uint2bin(x, 3)
ok(y.shape == (2, 3, 3))''', needs='a non-square matrix', breaks='the axes come out swapped'),
 dict(id='buf_delay', property='C22', edits=[(A, 'if delay > 0 else', 'if delay > 1 else')],
  demo=PRE + '''
y = cdsp.buffer(np.array([1.0, 2, 3, 4]), 2, 0, 1)
ok(y[0, 0] == 0 and y[0, 1] == 1)''', needs='a delay of exactly one', breaks='the delay is left out'),
 dict(id='lagrange_back', property='C24', edits=[('CommDspy/digital_delay.py', '        ii_vec = np.arange(-(n // 2) - 1, n // 2 + 1, 1)', '        ii_vec = np.arange(-(n // 2) - 1, n // 2 + 1, 1) if n < 5 else np.arange(-(n // 2), n // 2 + 2, 1)')],
  demo=PRE + '''
from CommDspy.digital_delay import dig_delay_sinc_coeffs
ok(np.allclose(dig_delay_sinc_coeffs(5, 0.25, False), np.sinc(np.arange(-3, 3) - 0.25)))''', needs='backward alignment of odd order five or more', breaks='the forward grid is used'),
 dict(id='lms_neg', property='C25', edits=[('CommDspy/rx/least_mean_squares.py', 'stop_idx = min([N, N + ii])', 'stop_idx = min([N, N + ii, N - ii])')],
  demo=PRE + '''
from CommDspy.rx.least_mean_squares import ddlms_grad
x = np.array([1.0, 2.5, -0.5, 2.0, -3.5]); y = np.array([0.9, 2.0, -1.5, 3.5, -2.4]); L = np.array([-3.0, -1, 1, 3])
r = np.array([min(L, key=lambda l: abs(l - v)) for v in y]); e = y - r
g = ddlms_grad(x, y, L, np.array([2]))[1]
ok(np.allclose(g[0], 0.5 * np.mean(e[2:] * x[:-2])))''', needs='a positive FFE tap index', breaks='the last products are left out of the mean'),
 dict(id='mm_norm', property='C26', edits=[('CommDspy/rx/clock_data_recovery.py', 'post_coef = reference_post.dot(signal_chunk[1:]) / (len(reference_signal) - 1)', 'post_coef = reference_post.dot(signal_chunk[1:]) / len(reference_signal)')],
  demo=PRE + '''
from CommDspy.rx.clock_data_recovery import mueller_muller_step
ok(mueller_muller_step(np.array([1.0, 1.0, 1.0]), np.array([1.0, 1.0, 1.0])) == 0)''', needs='equal pre and post correlations, short chunks', breaks='the two estimates are normalised differently'),
 dict(id='awgn_mean', property='C27', edits=[('CommDspy/channel/additive_noise_functions.py', 'np.var(signal, ddof=1) + np.mean(signal) ** 2', 'np.var(signal, ddof=1) + np.mean(signal) * abs(np.mean(signal))')],
  demo=PRE + '''
x = -3 + 0.1 * np.arange(5000) / 5000
np.random.seed(1)
try:
    n = cdsp.channel.awgn(x, 10) - x
    ok(abs(np.std(n) - np.sqrt(np.mean(x ** 2) / 10)) < 0.1)
except ValueError:
    ok(False)''', needs='a signal with negative mean', breaks='the mean is subtracted from the power'),
 dict(id='rrc_sing', property='C28', edits=[('CommDspy/channel/pulse_shaping.py', '(1 - 2/np.pi)*np.cos(np.pi/(4*beta)))', '(1 - 2/np.pi)*np.cos(np.pi/(4*max(beta, 0.5))))')],
  demo=PRE + '''
p = cdsp.channel.rrc_pulse(4, 3, 0.25)
b = 0.25
ok(abs(p[3 * 4 + 4] - b / np.sqrt(2) * ((1 + 2 / np.pi) * np.sin(np.pi / 4 / b) + (1 - 2 / np.pi) * np.cos(np.pi / 4 / b))) < 1e-9)''', needs='a singular point on the grid with a roll-off below one half', breaks='the limit value there is wrong'),
 dict(id='eye_edge', property='C29', edits=[('CommDspy/eye_diagram.py', 'np.histogram(sig_mat[:, ii], bins=quantization, range=[-1*fs_value, fs_value])', 'np.histogram(sig_mat[:, ii][np.abs(sig_mat[:, ii]) < fs_value], bins=quantization, range=[-1*fs_value, fs_value])')],
  demo=PRE + '''
e, a = cdsp.eye_diagram(np.array([-1.0, 0.5, 1.0, 0.25]), 2, 2, 1, 8)
ok(e[:, 0].sum() == 2)''', needs='samples exactly at full scale', breaks='they are not counted'),
 dict(id='eq_skew', property='C30', edits=[('CommDspy/equalization_estimation.py', '    dig_gain  = np.max(ffe)', '    dig_gain  = np.max(full_taps)')],
  demo=PRE + '''
from CommDspy.equalization_estimation import equalization_estimation
rng = np.random.RandomState(3)
r = rng.choice([-1.0, 1.0], 400)
x = np.convolve(r, [1, 0.9, 0.8])[:400] * 4
f, d, g, _, _ = equalization_estimation(np.roll(r, 0), x, 1, 0, 2, True)
ok(abs(np.max(f) - 1) < 1e-9)''', needs='a DFE tap larger than every FFE tap', breaks='the gain is not the peak of the FFE'),
 dict(id='ctle_sign', property='C31', edits=[('CommDspy/rx/ctle_model.py', '[-1 * np.sign(pole) * pole for pole in poles]', '[-1 * np.sign(poles[0]) * pole for pole in poles]')],
  demo=PRE + '''
a = cdsp.rx.get_ctle_filter([1e9], [4e9, -8e9], 3, 1e10, 4); b = cdsp.rx.get_ctle_filter([1e9], [4e9, 8e9], 3, 1e10, 4)
ok(np.allclose(a[0], b[0]) and np.allclose(a[1], b[1]))''', needs='poles given with different signs', breaks='the sign of the first pole is used for all'),
 dict(id='psa_obw', property='C32', edits=[('CommDspy/psa.py', "effective_fs = fs / 2 if np.all(np.isreal(signal)) and sb_mode == 'DSB' else fs", "effective_fs = fs / 2 if np.all(np.isreal(signal)) and sb_mode == 'DSB' and obw is None else fs")],
  demo=PRE + '''
from CommDspy.psa import psa
x = np.random.RandomState(0).randn(4000)
a = psa(x, 100.0, 1.0, 'dBc')[1]; b = psa(x, 100.0, 1.0, obw=1.0)[1]
ok(np.allclose(a, b))''', needs='an occupied bandwidth', breaks='the double-sided bandwidth is used'),
 dict(id='chest_shift', property='C33', edits=[('CommDspy/channel_estimation.py', '    reps         = int(np.floor(len(signal) / prbs_len))', '    reps         = int(np.floor(len(signal) / prbs_len)) if len(signal) < 4 * prbs_len else 2 * int(np.floor(len(signal) / prbs_len) / 2) - 1')],
  demo=PRE + '''
from CommDspy.channel_estimation import channel_estimation_prbs
b, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(PE.PRBS7), np.ones(7, dtype=int), 127 * 5)
s = cdsp.tx.mapping(b, CE.NRZ)
x = np.convolve(s, [1, 0.3])[:len(s)]
x[127 * 3:] += 0.5 * np.sin(np.arange(len(x) - 127 * 3))
h, e = channel_estimation_prbs(PE.PRBS7, x, CE.NRZ, channel_postcursor=1, channel_precursor=0)
m = np.mean(x.reshape(5, 127), axis=0)
S = np.array([[s[i], s[i - 1]] if i else [s[0], s[126]] for i in range(127)])
w = np.linalg.lstsq(S, m, rcond=None)[0]
ok(np.allclose(h, w))''', needs='four or more periods that differ', breaks='trailing periods are left out of the average'),
]
