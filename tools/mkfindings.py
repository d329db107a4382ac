"""known_findings.json: the genuine defects found; all were repaired, so nothing is suppressed."""
import json, subprocess
F = [('C18', '4f9851e', 'quantize with negative fractional bits, and with its default type, failed'),
     ('C17', '4e62f68', 'demapping with pn_inv modified the caller\'s array (also C06)'),
     ('C17', '13c6891', 'block decoding with error probabilities overwrote the received pattern (also C13)'),
     ('C16', '0bf3a2f', 'check_binary accepted non-binary data with at most two values'),
     ('C05', '152dfbf', 'symbol2bin of one single symbol'),
     ('C05', '296916d', 'bin2symbol chose a wrong level for levels that are not exactly representable'),
     ('C07', '9afa979', 'decoding_gray for PAM3'),
     ('C08', 'e70dc11', 'decoding_differential of 2-D data'),
     ('C11', 'c36c98c', 'decoding_mlt3 of 2-D data'),
     ('C10', '55b6022', 'decoding_bipolar error detection used the wrong sign and shape'),
     ('C19', 'cd726c1', 'ffe_dfe memories did not continue the stream'),
     ('C20', 'f90fc68', 'filter objects truncated integer input and failed without memory'),
     ('C21', 'd23b8b5', 'pulse_shape imp unusable'),
     ('C22', 'c0fe946', 'buffer clip dropped rows by their values'),
     ('C28', '349654e', 'raised cosine pulses not finite for beta=0 and near singular points'),
     ('C24', '647c6ba', 'dig_delay_rcos_coef returned non-finite values'),
     ('C24', '20425e4', 'Lagrange coefficients of order 0'),
     ('C24', '7aade5c', 'Lagrange delay coefficients of order 21 and above overflowed 64-bit integers'),
     ('C30', 'bf82dbc', 'equalization_estimation with normalise and no DFE failed'),
     ('C03', '77a2112', 'prbs_checker_economy counted wrong'),
     ('C14', '7907d7f', 'convolutional encoder with feedback wrong on long streams'),
     ('C15', '62b5f94', 'Viterbi decoder not optimal'),
     ('C14', '3661164', 'trellis wrong for codes mixing feedback and feedback-free inputs'),
     ('C04', 'd5a7787', 'pattern locking did not search the whole cycle'),
     ('C30', 'd0db357', 'equalization_estimation used mirrored samples past the end of the signal in the last rows'),
     ('C30', 'cad7855', 'equalization_estimation_prbs moved the cursor out of the FFE window with more DFE taps than FFE postcursors'),
     ('C30', '629fd88', 'ridge regression minimised a problem with an extra intercept'),
     ('C33', 'c9e21ea', 'channel_estimation_prbs divided the signal by its variance'),
     ('C33', '2cf427b', 'channel_estimation_prbs ignored pn_inv_postcoding'),
     ('C17', '7a9a88c', 'the seed returned by prbs_generator shared memory with the returned bits')]
out = {'findings': [], 'fixed': []}
for p, h, w in F:
    full = subprocess.run(['git', '-C', '/repo', 'rev-parse', h], capture_output=True, text=True).stdout.strip()
    out['fixed'].append('fixed: property=%s %s %s' % (p, full, w))
json.dump(out, open('/verif/known_findings.json', 'w'), indent=1)
