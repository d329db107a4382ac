import json
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
def sub(i, a, b):
    for p in P:
        if p['id'] == i:
            s = json.dumps(p)
            if b in s:
                pass
            elif a in s:
                p.clear(); p.update(json.loads(s.replace(a, b)))
            elif b not in s:
                print('missing', i, a)
sub('C28', ' for every roll-off in [0,1] the pulse supports', ' for every roll-off in [0,1]')
sub('C14', 'optional feedback polynomials and feedback usage flags)', 'optional feedback polynomials as long as the generators and feedback usage flags)')
sub('C05', 'A symbol count that is not a power of two is rejected with a ValueError.', 'A symbol count that is not a power of two is rejected with a ValueError by the bits-to-symbols conversion.')
sub('C08', 'all symbol streams of any length and shape', 'all non-empty symbol streams of any length and shape')
sub('C11', 'all bit streams of any length and shape', 'all non-empty bit streams of any length and shape')
sub('C19', 'Processing a signal in chunks while passing', 'Processing a signal in chunks of whole symbols (decision phase plus half a symbol inside the symbol) while passing')

sub('C24', 'and time axes of matching length', 'together with a new time axis of one entry per output sample at spacing 1/osr and the symbol-boundary axis of the trimmed samples')
sub('C25', 'the soft variant uses the documented Gaussian-mixture loss and its derivative', 'the soft variant uses the documented Gaussian-mixture loss and error term in the same gradients')
sub('C30', 'normalisation divides both tap sets by the returned gain and works with and without DFE taps.', 'normalisation divides both tap sets by the returned gain and works with and without DFE taps. With ridge regularisation the taps satisfy the optimality conditions of the squared error plus lambda times the squared tap norm. Estimation from a PRBS solves this problem for the coded and mapped PRBS aligned to the signal, with the cursor inside the FFE window.')
for p in P:
    if p['id'] == 'C30':
        t = ' With ridge regularisation the taps satisfy the optimality conditions of the squared error plus lambda times the squared tap norm. Estimation from a PRBS solves this problem for the coded and mapped PRBS aligned to the signal, with the cursor inside the FFE window.'
        while t + t in p['statement']:
            p['statement'] = p['statement'].replace(t + t, t)
sub('C03', 'that differ from the sequence generated from the seed window it used, ', 'that differ from the sequence generated from the seed window it used (of the windows starting at bits 0, 1, ... the first that keeps lock, the last one if none does), the locking checker marks exactly the bits that differ from the reference at the offset of largest correlation, ')
sub('C15', 'Trailing bits that do not fill a block are ignored and decoded values are always bits.', 'Trailing bits that do not fill a block are ignored and decoded values are always bits. On request the Viterbi decoder adds per block one over the number of end states tied at the minimum distance, zero when there is only one.')
sub('C31', 'For every list of zeros and poles', 'For every non-empty list of zeros and of poles')
sub('C17', 'and later use or modification of a returned memory by the caller does not alter results already computed', 'and the arrays returned by one call are independent of each other: writing to a returned memory or seed does not alter the returned samples')
for p in P:
    if p['id'] == 'C32':
        p['title'] = 'Power spectrum is the periodogram scaled by the reference of the mode'
        p['statement'] = "For each implemented mode of the power spectrum analyser (dB, dBm, dBm/Hz, dBuv, dBuv/sqrt(Hz), dBc, dBFs, with or without occupied bandwidth, single or double side band) the returned spectrum is the windowed periodogram of the signal at the documented resolution, overlap and oversampling, scaled by the documented reference of the mode: load resistance, resolution or occupied bandwidth, full scale or the signal's own power (nonzero signals). Matrices are analysed as the stream of their samples, and an unknown mode is rejected with ValueError."
        p['quantifier'] = {'over': ['inputs', 'configurations'], 'text': 'all signals of at least one window, all implemented modes, loads, full scales, bandwidth settings'}
    if p['id'] == 'C30' and not any(m['name'] == 'equalization_estimation_prbs' for m in p['anchors']['mechanism']):
        p['anchors']['mechanism'].append({'name': 'equalization_estimation_prbs', 'where': 'CommDspy/equalization_estimation.py'})
if not any(p['id'] == 'C33' for p in P):
    P.append({'id': 'C33', 'title': 'Channel estimation from a PRBS solves the aligned least-squares problem',
      'statement': 'Channel estimation from a PRBS returns the channel taps that satisfy the least-squares optimality conditions for reproducing the received signal, in its own scale, as the convolution of those taps with the coded, inverted and mapped PRBS symbols at the lock position, with the requested numbers of pre- and postcursors. A noiseless signal produced by a channel of the requested size is reproduced with zero error, for every constellation, bit order, inversion flag and coding setting.',
      'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all signals, channels, PRBS offsets, constellations and flags'},
      'why_tests_cant': 'tests run one channel per constellation within tolerance, never with inversion flags or other signal scales',
      'anchors': {'files': ['CommDspy/channel_estimation.py', 'CommDspy/misc/least_squares.py', 'CommDspy/rx/lock_pattern.py'],
                  'mechanism': [{'name': 'channel_estimation_prbs', 'where': 'CommDspy/channel_estimation.py'}, {'name': 'least_squares', 'where': 'CommDspy/misc/least_squares.py'}]}})
with open('/verif/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
