T = 'CommDspy/tx/coding.py'; R = 'CommDspy/rx/decoding.py'
PRE = 'import numpy as np, sys, itertools\nimport CommDspy as cdsp\nfrom CommDspy.constants import ConstellationEnum as CE\n'
BUGS = [
 dict(id='prbs_period', property='C01', edits=[('CommDspy/tx/prbs_generator.py', 'prbs_length = 2**poly_size - 1', 'prbs_length = min(2**poly_size - 1, 2**15)')],
  demo=PRE + '''
poly = np.zeros(23, dtype=int); poly[[17, 22]] = 1
s = np.ones(23, dtype=int); s[3] = 0
n = 40000
b = cdsp.tx.prbs_gen(poly, s, n)[0]
r = list(s); ref = []
for i in range(n):
    v = (r[17] + r[22]) % 2; ref.append(v); r = [v] + r[:-1]
sys.exit(0 if np.array_equal(ref, b) else 1)''',
  needs='a long polynomial and more than 2^15 requested bits', breaks='long sequences repeat after 2^15 bits instead of following the register'),
 dict(id='linear_pad', property='C12', edits=[(T, 'padding = k - (len(pattern) % k) if len(pattern) % k > 0 else 0\n', 'padding = k - (len(pattern) % k) if len(pattern) % k > 1 else 0\n    if len(pattern) % k == 1:\n        pattern = pattern[:-1]\n')],
  demo=PRE + '''
G = np.array([[1, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 1], [0, 0, 1, 1, 0, 1]])
y = cdsp.tx.coding_linear(np.array([1, 0, 1, 1]), G)
sys.exit(0 if len(y) == 12 and np.array_equal(y[6:], G[0]) else 1)''',
  needs='a stream leaving exactly one bit in the last block', breaks='the last single bit is dropped instead of zero-padded'),
 dict(id='conv_pad', property='C14', edits=[(T, "pattern_padded  = np.concatenate([pattern, [0]*pad_len])", "pattern_padded  = np.concatenate([pattern, pattern[:pad_len]])")],
  demo=PRE + '''
G = {0: np.array([[1, 0], [0, 0], [1, 1]]), 1: np.array([[0, 0, 0], [1, 0, 0], [0, 0, 1]])}
a = cdsp.tx.coding_conv(np.array([1, 0, 1]), G); b = cdsp.tx.coding_conv(np.array([1, 0, 1, 0]), G)
sys.exit(0 if np.array_equal(a, b) else 1)''',
  needs='a stream whose length is not a multiple of the number of inputs and which starts with a one', breaks='the stream is padded with its own head instead of zeros'),
 dict(id='bipolar_mark', property='C10', edits=[(R, 'return np.abs(pattern - 1)', 'return np.where(pattern > 1, 1, pattern % 1 if pattern.ndim > 1 else np.abs(pattern - 1))')],
  demo=PRE + '''
x = np.array([[1, 0, 1], [1, 1, 0]])
sys.exit(0 if np.array_equal(cdsp.rx.decoding_bipolar(cdsp.tx.coding_bipolar(x)), x) else 1)''',
  needs='a two-dimensional array with negative marks', breaks='negative marks are decoded to 0'),
 dict(id='linear_tie', property='C13', edits=[('CommDspy/misc/ml_decoding.py', 'np.sum(hamming[:, not_codeword] == min_hamming[not_codeword], axis=0)', 'np.sum(hamming[:, not_codeword] == np.max(min_hamming[not_codeword], initial=1), axis=0)')],
  demo=PRE + '''
G = np.array([[1, 0, 1, 1, 0], [0, 1, 0, 1, 1]])
cw = np.array([np.array(u).dot(G) % 2 for u in itertools.product((0, 1), repeat=2)])
rx = np.array(list(itertools.product((0, 1), repeat=5)))
d, p = cdsp.rx.decoding_linear(rx.reshape(-1), G, True)
dist = np.abs(cw[:, None] - rx[None]).sum(axis=2); mn = dist.min(axis=0)
ref = np.where(mn == 0, 0, 1 / (dist == mn).sum(axis=0))
sys.exit(0 if np.allclose(p, ref) else 1)''',
  needs='two received blocks with different nonzero distances to the code in one call', breaks='the tie count is taken at the largest minimum distance of all blocks instead of each block\'s own'),
 dict(id='man_guess', property='C09', edits=[(R, 'decoded_pattern = (transitions + 1) / 2', 'decoded_pattern = np.round((transitions + 1) / 2)')],
  demo=PRE + '''
sys.exit(0 if np.array_equal(cdsp.rx.decoding_manchester(np.array([1, 0, 1, 1, 0, 1, 0, 0])), [1, 0.5, 0, 0.5]) else 1)''',
  needs='a received pair without a transition', breaks='an undecidable pair is reported as a bit instead of 0.5'),
]
