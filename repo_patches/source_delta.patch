From 4f9851e7b95bcc9e190707d36c06cf906c025271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 01/30] fix: quantize honours negative fractional bits and its
 default type is valid

---
 CommDspy/rx/quantiztion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 10116e8..7b107eb 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -1,7 +1,7 @@
 import numpy as np
 from CommDspy.rx.slicer import slicer
 
-def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
+def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
     """
     :param signal: Input signal to perform quantization on
     :param total_bits: Total bit used in the quantization
@@ -42,9 +42,8 @@ def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
         levels = levels[1:] - 2**(total_bits - 1)
     elif fix_point_type != 'u':
         raise ValueError('Type used is not defined, please read function description')
-    if frac_bits > 0:
-        levels = levels.astype(float)
-        levels /= 2**frac_bits
+    if frac_bits != 0:
+        levels = levels / 2.0**frac_bits
     # ==================================================================================================================
     # Applying Quantization
     # ==================================================================================================================
-- 
2.43.0


From 4e62f6891511ab2f11dc426a4aae4a25694aca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 02/30] fix: demapping with pn_inv no longer negates the
 caller's signal in place

---
 CommDspy/rx/demapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 706591c..24092c2 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal *= -1
+        signal = -1 * signal
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
-- 
2.43.0


From 13c6891b9453233aa085b09fe3bc908d72ac43a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 03/30] fix: block decoding with error_prob no longer
 overwrites the caller's pattern

---
 CommDspy/misc/ml_decoding.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 5772d5e..48128f4 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -15,7 +15,6 @@ def ml_decoding(permutations, codebook, pattern_block, error_prob):
         min_hamming = np.min(hamming, axis=0)
         not_codeword = min_hamming > 0
         correct_idx = np.argmin(hamming[:, not_codeword], axis=0)
-        pattern_block[not_codeword] = codebook[correct_idx]
         # ----------------------------------------------------------------------------------------------------------
         # Fixing the hamming matrix, filling p_err
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 0bf3a2f69873e6f445ffeec38820644a6794c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 04/30] fix: check_binary rejects two-valued data containing a
 non-binary value

---
 CommDspy/misc/help_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/help_functions.py b/CommDspy/misc/help_functions.py
index 5e98490..cdcc3c7 100644
--- a/CommDspy/misc/help_functions.py
+++ b/CommDspy/misc/help_functions.py
@@ -4,7 +4,7 @@ def check_binary(pattern):
     data_in = np.unique(pattern)
     if len(data_in) == 1 and (0 not in data_in and 1 not in data_in):
         raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) == 2 and (0 not in data_in and 1 not in data_in):
+    elif len(data_in) == 2 and (0 not in data_in or 1 not in data_in):
         raise ValueError('Data in is not binary, please consider other encoding methods')
     elif len(data_in) > 2:
         raise ValueError('Data in is not binary, please consider other encoding methods')
-- 
2.43.0


From 152dfbf03167a7303585fce21869c3fd138e6f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 05/30] fix: symbol2bin handles a single symbol with inversion
 flags

---
 CommDspy/rx/symbol2bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/symbol2bin.py b/CommDspy/rx/symbol2bin.py
index 2112404..cffdf52 100644
--- a/CommDspy/rx/symbol2bin.py
+++ b/CommDspy/rx/symbol2bin.py
@@ -25,7 +25,7 @@ def symbol2bin(symbol_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, i
     # ==================================================================================================================
     # Converting to binary representation
     # ==================================================================================================================
-    symbol_mat_binary = np.squeeze(((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int))
+    symbol_mat_binary = ((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int)
     # ==================================================================================================================
     # Bit manipulations according to the flags
     # ==================================================================================================================
-- 
2.43.0


From 296916d034d494adff8ef160d1327afc2dfa0139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:07 +0000
Subject: [PATCH 06/30] fix: bin2symbol rejects symbol counts that are only
 close to a power of two

---
 CommDspy/tx/bin2symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/bin2symbol.py b/CommDspy/tx/bin2symbol.py
index d1260c3..ba77e36 100644
--- a/CommDspy/tx/bin2symbol.py
+++ b/CommDspy/tx/bin2symbol.py
@@ -26,7 +26,7 @@ def bin2symbol(bin_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, inv_
     # ==================================================================================================================
     # Taking into consideration the bits_per_symbol
     # ==================================================================================================================
-    if num_of_symbols > 2 and np.isclose(bits_per_symbol, int(bits_per_symbol)):  # "complete" power of 2 constellation
+    if num_of_symbols > 2 and 2 ** int(bits_per_symbol) == num_of_symbols:  # "complete" power of 2 constellation
         bits_per_symbol = int(bits_per_symbol)
         trimmed_bin = bin_vec[:-1*trim].copy() if trim > 0 else bin_vec.copy()
         trimmed_bin = np.reshape(trimmed_bin, [-1, bits_per_symbol])
-- 
2.43.0


From 9afa979005980c2d1969a1310f1593f24147dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 07/30] fix: decoding_gray inverts the Gray numbering for any
 number of levels (PAM3)

---
 CommDspy/rx/decoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index dfa4e95..e96c818 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -22,7 +22,11 @@ def decoding_gray(pattern, constellation=ConstellationEnum.PAM4):
     # Gray coding
     # ==================================================================================================================
     if bits_per_symbol > 1:
-        levels = get_gray_level_vec(level_num)
+        # ----------------------------------------------------------------------------------------------------------
+        # Inverse of the Gray numbering
+        # ----------------------------------------------------------------------------------------------------------
+        levels = np.zeros(2 ** bits_per_symbol, dtype=int)
+        levels[get_gray_level_vec(level_num)] = np.arange(level_num)
     else:
         levels = np.array([0, 1])
     # ==================================================================================================================
-- 
2.43.0


From e70dc11834f115d7984863f488ad9e0a66dd819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 08/30] fix: decoding_differential follows the encoder's
 row-major order for matrices

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index e96c818..8f51e68 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -48,7 +48,7 @@ def decoding_differential(pattern, constellation=ConstellationEnum.PAM4):
                    --------------------------------
         """
     lvl_num = len(get_levels(constellation))
-    return (lfilter([1, -1], [1], pattern.astype(float)) % lvl_num).astype(int)
+    return np.reshape(lfilter([1, -1], [1], np.reshape(pattern, -1).astype(float)) % lvl_num, pattern.shape).astype(int)
 
 def decoding_manchester(pattern):
     """
-- 
2.43.0


From c36c98c5d4c0529d0e78c793ab4b8ced62d42c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 09/30] fix: decoding_mlt3 accepts patterns with more than one
 dimension

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 8f51e68..56baa12 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -122,7 +122,7 @@ def decoding_mlt3(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    if pattern[0] == 1:
+    if pattern_flat[0] == 1:
         transitions = np.concatenate((np.array([1]), np.abs(np.diff(pattern_flat))))
     else:
         transitions = np.concatenate((np.array([0]), np.abs(np.diff(pattern_flat))))
-- 
2.43.0


From 55b6022860aa6e29554a6ff28c4e8fb290e7e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 10/30] fix: decoding_bipolar error detection uses the sign of
 the violating marks and keeps the shape

---
 CommDspy/rx/decoding.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 56baa12..556ced2 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -105,17 +105,14 @@ def decoding_bipolar(pattern, error_detection=False):
         # Detecting the mark locations in the pattern
         # ----------------------------------------------------------------------------------------------------------
         pattern_flat    = np.reshape(pattern - 1, -1)
-        decoded_pattern = np.abs(pattern - 1).astype(float)
+        decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
         mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
-        running_sign    = 1
         for ii, mark in enumerate(mark_change):
             if mark == 0:
-                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(running_sign)
-            else:
-                running_sign = np.sign(mark)
-        return decoded_pattern
+                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(pattern_flat[mark_location[ii]])
+        return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
     pattern_flat = np.reshape(pattern, -1)
-- 
2.43.0


From cd726c1d083a18967d7316be6518343aa91333c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 11/30] fix: ffe_dfe validates its memories with ValueError and
 returns a full FFE memory for short chunks

---
 CommDspy/rx/ffe_dfe_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 2b2f73f..46393eb 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -64,19 +64,20 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         elif len(zi_dfe) == len(dfe_taps):
             dfe_memory = zi_dfe
         else:
-            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {dfe_taps:d}')
+            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
         zi_ffe = np.zeros(ffe_len - 1)
     elif len(zi_ffe) == ffe_len:
         zi_ffe = zi_ffe[1:]
-    elif len(zi_ffe) != len(ffe_len) - 1:
+    elif len(zi_ffe) != ffe_len - 1:
         raise ValueError(f'zi_ffe is not in the same size as the FFE, length is {len(zi_ffe):d} instead of {ffe_len - 1:d}')
     # ==================================================================================================================
     # If we only have FFE and without DFE we can use convolution for speed
     # ==================================================================================================================
     if dfe_taps is None:
-        rx_ffe_out = signal.convolve(ffe_taps, np.concatenate([zi_ffe, input_signal]), mode='valid')
-        return rx_ffe_out, input_signal[-1*ffe_len:]
+        ffe_in     = np.concatenate([zi_ffe, input_signal])
+        rx_ffe_out = signal.convolve(ffe_taps, ffe_in, mode='valid')
+        return rx_ffe_out, ffe_in[-1*ffe_len:]
     # ==================================================================================================================
     # In case we hae DFE taps we need to make a decision, therefore we can not use convolution
     # ==================================================================================================================
-- 
2.43.0


From f90fc6845fc135b252ee4a686ae9e638f0676938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 12/30] fix: filter objects keep real outputs for integer
 inputs and work without memory

---
 CommDspy/misc/help_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index b07a6c1..9218d7e 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -49,7 +49,7 @@ class Filter:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros(len(data_chunk), dtype=np.result_type(data_chunk, float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
@@ -122,7 +122,7 @@ class FilterTII:
 
     def _process(self, x):
         # Creating y
-        a0_y = self.b[0] * x + self._z[0]
+        a0_y = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         y    = a0_y / self.a[0]
         # Advancing the memory
         z_temp = np.concatenate([self._z[1:], [0]])
@@ -131,7 +131,7 @@ class FilterTII:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros(len(data_chunk), dtype=np.result_type(data_chunk, float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
@@ -190,7 +190,7 @@ class FfeDfeFilterTII(FilterTII):
 
     def _process(self, x):
         # Creating \tilde{x} and the sliced \hat{x[n]}
-        a0_xtilde = self.b[0] * x + self._z[0]
+        a0_xtilde = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         xtilde = a0_xtilde / self.a[0]
         xhat   = slicer(np.array([xtilde]), self.levels)
         # Advancing the memory
-- 
2.43.0


From d23b8b57ebe74bfb4400743d2d5470626f2f41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 13/30] fix: pulse_shape sizes its memory by the pulse so that
 the 'imp' pulse works

---
 CommDspy/channel/pulse_shaping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index b9855b4..758a58f 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -20,7 +20,7 @@ def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=
                      Example: for Baud rate of 53.125 [GHz] UI is ~18.8[psec]. Using rj_sigma=0.05 [UI] means:
                       rj_sigma = 0.05*18.8e-12 = 0.94e-12 = 940[fsec]
     :param zi: memory for the pulse shaping. If None, assuming reset, i.e. all '0' memory. MUST be with length of:
-               'osr' * 'span' * 2 - 1
+               'osr' * 'span' * 2 - 1 (0 for the 'imp' pulse)
     :return: the signal after the pulse shaping. This function simulated an ideal channel of ch[n] = delta[n] without
     noise. This is not a practical use-case but more of a feature to gain insight. For practical channels use the
     channel sub-package
@@ -31,9 +31,9 @@ def pulse_shape(signal, osr=1, span=1, pulse='rect', beta=0.5, rj_sigma=0.0, zi=
     sig_ups   = upsample(signal, osr)
     pulse_vec = _get_pulse(pulse, osr, span, beta)
     if zi is None:
-        zi = np.zeros(osr * span * 2 - 1)
-    elif len(zi) != osr * span * 2 - 1:
-        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {osr*span*2-1:d}')
+        zi = np.zeros(len(pulse_vec) - 1)
+    elif len(zi) != len(pulse_vec) - 1:
+        raise ValueError(f'Memory length {len(zi):d} doesnt match the requested pulse, length should be {len(pulse_vec)-1:d}')
     # ==================================================================================================================
     # Convolving
     # ==================================================================================================================
-- 
2.43.0


From c0fe9468b39ec72f616c451d8b9d040e65467c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 14/30] fix: buffer clips exactly the zero padded rows,
 whatever the sample values

---
 CommDspy/auxiliary.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index e87e5c5..0e4a7f8 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -107,17 +107,13 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     # ==================================================================================================================
     # Extracting the wanted columns - overlaps of 0 means jumps of "length"
     # ==================================================================================================================
-    rows = np.arange(0, full_len, stride)
-    matrix = hankel_mat[rows, :].astype(type(signal[0]))
+    rows = np.arange(0, full_len - length - max(overlap, 0), stride)
     # ==================================================================================================================
     # Clipping if needed
     # ==================================================================================================================
-    rows_to_remove = np.sum(np.any(np.array([np.arange(full_len - length - max(overlap, 0), full_len)]).T - rows == 0, axis=1))
-    if rows_to_remove > 0:
-        matrix = matrix[:-1*rows_to_remove]
-    if clip and matrix[-1,:] not in linalg.hankel(signal, signal[::-1][:length])[:-1]:
-        matrix = matrix[:-1]
-    return matrix
+    if clip:
+        rows = rows[rows + length <= full_len - length]
+    return hankel_mat[rows, :].astype(np.asarray(signal).dtype)
 
 def upsample(signal, rate):
     """
-- 
2.43.0


From 349654e48cde08650b9cba8dc3bc81f95c5787b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 15/30] fix: raised cosine pulses support zero roll-off and
 points next to the singularity

---
 CommDspy/channel/pulse_shaping.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index 758a58f..eaea49f 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -93,13 +93,14 @@ def rcos_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
-    tneq = t[np.abs(2*beta*t) != 1]
+    neqb = ~np.isclose(np.abs(2*beta*t) - 1, np.zeros_like(t))
+    tneq = t[neqb]
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
-    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    pulse[~neqb] = np.pi/4 * np.sinc(1/(2*beta)) if beta > 0 else 0
+    pulse[neqb]  = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
     return pulse
 
 def rrc_pulse(osr, span, beta, t=None):
@@ -115,6 +116,8 @@ def rrc_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
+    if beta == 0:  # without roll-off the pulse is the sinc pulse
+        return sinc_pulse(osr, span, t)
     neq0 = ~np.isclose(t, np.zeros_like(t))
     neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))
     # ==================================================================================================================
-- 
2.43.0


From 647c6bac8ba6de399d3688f428fab8b12f99e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 16/30] fix: raised cosine delay coefficients are finite at the
 singular points

---
 CommDspy/digital_delay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 2f9c19c..cc14735 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -1,5 +1,6 @@
 import numpy as np
 from scipy.signal import lfilter
+from CommDspy.channel.pulse_shaping import rcos_pulse
 
 def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     """
@@ -81,7 +82,7 @@ def dig_delay_rcos_coeffs(n, alpha, forward=True, beta=0.5):
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-    return np.sinc(ii_vec - alpha) * np.cos(np.pi * beta * (ii_vec - alpha)) / (1 - (2 * beta * (ii_vec - alpha)) ** 2)
+    return rcos_pulse(None, None, beta, ii_vec - alpha)
 
 def digital_oversample(signal_vec, osr, order, method, beta=0):
     """
-- 
2.43.0


From 20425e409f2dac97410b43ac59c08bf19a344745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 17/30] fix: Lagrange delay coefficients of order zero

---
 CommDspy/digital_delay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index cc14735..299d0c9 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -48,8 +48,8 @@ def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     # Creating the filter parameters
     # ==================================================================================================================
     indexing_mat = (1 - np.eye(len(ii_vec))).astype(bool)
-    nom_vec = np.prod(np.reshape(nom_mat[indexing_mat], [-1, len(ii_vec)-1]), axis=1)
-    den_vec = np.prod(np.reshape(den_mat.T[indexing_mat], [-1, len(ii_vec) - 1]), axis=1)
+    nom_vec = np.prod(np.reshape(nom_mat[indexing_mat], [len(ii_vec), len(ii_vec)-1]), axis=1)
+    den_vec = np.prod(np.reshape(den_mat.T[indexing_mat], [len(ii_vec), len(ii_vec) - 1]), axis=1)
 
     return nom_vec / den_vec
 
-- 
2.43.0


From bf82dbcab097fc3b78e315f22d947eb1d27b3cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 18/30] fix: equalization_estimation normalises equalizers
 without DFE taps

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 333bc4b..07763f4 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -157,7 +157,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     err       = sig_out - skewed_ref
     mse = 10 * np.log10(power(err) / power(sig_out))
     if normalize:
-        return ffe / dig_gain, dfe / dig_gain, dig_gain, ls_err, mse
+        return ffe / dig_gain, dfe / dig_gain if dfe is not None else None, dig_gain, ls_err, mse
     else:
         return ffe, dfe, 1, ls_err, mse
 
-- 
2.43.0


From 77a21126e4615da1c493cb4036bf0ef92183ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 19/30] fix: prbs_checker_economy counts only checked bits as
 correct

---
 CommDspy/rx/checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/checker.py b/CommDspy/rx/checker.py
index a11dc76..1528c87 100644
--- a/CommDspy/rx/checker.py
+++ b/CommDspy/rx/checker.py
@@ -79,7 +79,7 @@ def prbs_checker_economy(prbs_type, data_in, loss_th=100):
         # checking errors
         # ----------------------------------------------------------------------------------------------------------
         error_bit = data_in[seed_start:] != np.concatenate([data_in[seed_start:seed_start+prbs_type.value], prbs_seq])
-        correct_bit_count = len(data_in) - np.sum(error_bit)
+        correct_bit_count = len(error_bit) - np.sum(error_bit)
         loss_lock = np.sum(error_bit) >= loss_th
         if not loss_lock:
             break
-- 
2.43.0


From 7907d7fa91d47a769c38117725757ae7c603f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 20/30] fix: convolutional encoding with feedback is computed
 over GF(2) for streams of any length

---
 CommDspy/tx/coding.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index c9a3b3b..999a9d8 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -315,7 +315,10 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
             # ------------------------------------------------------------------------------------------------------
             # Passing the data through the transfer function
             # ------------------------------------------------------------------------------------------------------
-            out_ii_jj     = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
+            if type(iir_vals) != float:
+                out_ii_jj = _lfilter_binary(G_ii_jj, feedback[ii], in_pattern)
+            else:
+                out_ii_jj = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
             out_vals[jj] += out_ii_jj
     # ==================================================================================================================
     # Setting the data to binary
@@ -325,3 +328,22 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
     # Reshaping back to the output
     # ==================================================================================================================
     return np.reshape(out_vals.T, -1)
+
+def _lfilter_binary(b, a, x):
+    """
+    :param b: Binary FIR coefficients
+    :param a: Binary IIR coefficients, a[0] must be 1
+    :param x: Binary input
+    :return: The input after passing through the b / a shift register filter over GF(2). The float implementation can not
+             be used since with feedback the values before the modulo grow without a bound
+    """
+    mem_len = max(len(a), len(b)) - 1
+    b_vec   = np.concatenate([b, np.zeros(mem_len + 1 - len(b), dtype=int)])
+    a_vec   = np.concatenate([a, np.zeros(mem_len + 1 - len(a), dtype=int)])
+    memory  = np.zeros(mem_len, dtype=int)
+    y       = np.zeros(len(x), dtype=int)
+    for ii, bit in enumerate(x):
+        register = np.concatenate([[(bit + memory.dot(a_vec[1:])) % 2], memory])
+        y[ii]    = register.dot(b_vec) % 2
+        memory   = register[:-1]
+    return y
-- 
2.43.0


From 62b5f942f72a140544a47ad850497c026e7e6d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:25 +0000
Subject: [PATCH 21/30] fix: Viterbi decoding minimises the accumulated
 distance over all transitions

---
 CommDspy/rx/decoding.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 556ced2..12fc5ac 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -298,8 +298,15 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
     # ==================================================================================================================
     # Starting the viterbi algorithm block by block
     # ==================================================================================================================
-    output_tensor_reshape = np.reshape(trellis_obj.output_tensor, [-1, n_out])
-    in_state_int_vec      = np.arange(trellis_obj.num_states)
+    # Holding all the transitions sorted by the state they enter, 2 ** n_in transitions for each state
+    transitions = [(bin2uint(np.array(next_state)), bin2uint(np.array(state)), input_vec, output)
+                   for (input_vec, state), (output, next_state) in trellis_obj.trellis.items()]
+    transitions.sort(key=lambda transition: transition[0])
+    out_state_vec = np.array([transition[1] for transition in transitions], dtype=int)
+    input_vecs    = np.array([transition[2] for transition in transitions], dtype=int)
+    output_vecs   = np.array([transition[3] for transition in transitions], dtype=int)
+    in_state_int_vec = np.arange(trellis_obj.num_states)
+    last_state       = 0
     for ii in range(pattern_block.shape[0]):
         # ----------------------------------------------------------------------------------------------------------
         # Forward propagating - Computing the accumulative hamming along each path, selecting the best
@@ -307,25 +314,22 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
         for chunk_idx in range(n_chunks):
             pattern_chunk = pattern_block[ii, n_out*chunk_idx:n_out*(chunk_idx+1)]
             # ----------------------------------------------------------------------------------------------------------
-            # For each chunk compute all possible hamming distances
+            # For each chunk compute the accumulated hamming distance of each transition
             # ----------------------------------------------------------------------------------------------------------
-            # step_hamming[ii,jj] = hamming from state ii to state jj, computing for all transitions in one step
-            step_hamming, _ = hamming(output_tensor_reshape, pattern_chunk[None, :])
-            step_hamming    = np.reshape(step_hamming, trellis_obj.output_tensor.shape[:-1])
+            path_hamming, _ = hamming(output_vecs, pattern_chunk[None, :])
+            path_hamming    = path_hamming[0]
+            if chunk_idx > 0:
+                path_hamming = path_hamming + hamming_dist[out_state_vec, chunk_idx-1]
+            path_hamming = np.reshape(path_hamming, [trellis_obj.num_states, -1])
             # ----------------------------------------------------------------------------------------------------------
             # Noting the best for this step, the return path and the input for the best per state
             # ----------------------------------------------------------------------------------------------------------
-            hamming_state[:, chunk_idx] = np.argmin(step_hamming, axis=0)
-            if chunk_idx > 0:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0) + hamming_dist[hamming_state[:,chunk_idx], chunk_idx-1]
-            else:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0)
+            best_transition = np.argmin(path_hamming, axis=1) + in_state_int_vec * path_hamming.shape[1]
+            hamming_state[:, chunk_idx] = out_state_vec[best_transition]
+            hamming_dist[:, chunk_idx]  = np.min(path_hamming, axis=1)
             decoded_mat_prev = decoded_mat.copy()
-            out_state = hamming_state[in_state_int_vec, chunk_idx]
-            if chunk_idx > 0:
-                decoded_mat[in_state_int_vec, :n_in*(chunk_idx+1)] = np.concatenate([decoded_mat_prev[out_state, :n_in * chunk_idx], trellis_obj.input_tensor[out_state, in_state_int_vec]], axis=1)
-            else:
-                decoded_mat[in_state_int_vec, :n_in*(chunk_idx+1)] = trellis_obj.input_tensor[out_state, in_state_int_vec]
+            decoded_mat[:, :n_in * chunk_idx] = decoded_mat_prev[hamming_state[:, chunk_idx], :n_in * chunk_idx]
+            decoded_mat[:, n_in * chunk_idx:n_in * (chunk_idx + 1)] = input_vecs[best_transition]
         # ----------------------------------------------------------------------------------------------------------
         # Backward propagating - Going along the selected path, recovering the input
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From d5a7787bffd05c405e492ceb1eac98ef0125d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:20 +0000
Subject: [PATCH 22/30] fix: pattern locking always returns a whole cycle of
 the pattern

---
 CommDspy/rx/lock_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 0f688b1..683ada3 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -19,7 +19,7 @@ def lock_pattern_to_signal_binary(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_nrz, signal_nrz, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
 
 def lock_pattern_to_signal(pattern, signal):
@@ -39,6 +39,6 @@ def lock_pattern_to_signal(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_rep, signal_part, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr[:pattern_len])
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From 36611640a9466c0ed9adfc421fec8602b7cb2be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:06 +0000
Subject: [PATCH 23/30] fix: trellis of inputs without feedback follows the
 encoder in codes that mix both kinds

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 48128f4..a147d2b 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -142,7 +142,7 @@ def create_trellis_bin(G, states, inputs, memory_cumsum, feedback=None, use_feed
                 else:
                     for jj in range(n_out):
                         G_kk_jj = G[kk][jj]
-                        if len(G_kk_jj) == 1 or use_feedback[kk, jj] == 0:
+                        if len(G_kk_jj) == 1 or (kk in feedback.keys() and use_feedback[kk, jj] == 0):
                             # no memory, either systematic or always 0 output, depending on G_ii_jj[0] value.
                             # 1 - systematic ; 0 - zero output
                             c_vec[jj] = c_vec[jj] ^ (in_k * G_kk_jj[0])
-- 
2.43.0


From d0db357d078e8128f1f0f03c3658de73c194c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:56 +0000
Subject: [PATCH 24/30] fix: equalization_estimation used mirrored samples past
 the end of the signal in the last rows of the least squares matrix

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 07763f4..cef9565 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -118,8 +118,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    postcursor_num = np.max((ffe_postcursor, dfe_taps))
-    chop_len = postcursor_num + ffe_precursor + 1
+    chop_len = dfe_taps + ffe_postcursor + ffe_precursor + 1  # only rows whose window lies inside the signal
     mat_row_num    = len(signal) - chop_len
     # ==================================================================================================================
     # Building the FFE part of the matrix in the Ax=b system
-- 
2.43.0


From cad7855877ed01b75cab3722eb08c3359ea30bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:56 +0000
Subject: [PATCH 25/30] fix: equalization_estimation_prbs moved the cursor out
 of the FFE window when there are more DFE taps than FFE postcursors

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index cef9565..271fc13 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -60,7 +60,7 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     init_seed       = np.array([1] * prbs_type.value)
     prbs_len        = 2 ** len(init_seed) - 1
     levels          = get_levels(constellation, prbs_full_scale)
-    postcursor_num  = np.max((ffe_postcursor, dfe_taps))
+    postcursor_num  = ffe_postcursor
     # ==================================================================================================================
     # Getting reference PRBS and coding
     # ==================================================================================================================
-- 
2.43.0


From 629fd88c4476cf4a4338e8949a87980ed6626832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:39 +0000
Subject: [PATCH 26/30] fix: ridge regression minimised a problem with an extra
 intercept instead of the documented one

---
 CommDspy/misc/least_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index a4afd80..ba49546 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -43,7 +43,7 @@ def ridge_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L2 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||^2_2
     """
-    model = Ridge(alpha=reg_lambda)
+    model = Ridge(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
-- 
2.43.0


From c9e21ea70cd3b8fa2e68f9046531a3766b37d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:28 +0000
Subject: [PATCH 27/30] fix: channel_estimation_prbs divided the signal by its
 variance, so the returned channel and residuals had the wrong scale

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index e6ed182..e075b74 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -69,7 +69,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
     shift_idx    = np.concatenate([np.arange(channel_postcursor, prbs_len, 1), np.arange(0, channel_postcursor, 1)])
     reps         = int(np.floor(len(signal) / prbs_len))
     signal_shift = np.mean(np.reshape(signal[:(prbs_len*reps)], [-1, prbs_len]), axis=0)
-    signal_shift = signal_shift[shift_idx] / np.var(signal_shift)
+    signal_shift = signal_shift[shift_idx]
     # ==================================================================================================================
     # Performing least squares to find the channel estimation
     # ==================================================================================================================
-- 
2.43.0


From 2cf427bd66ab2493b1e13e4b2ea2f9f3d9e5ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:55 +0000
Subject: [PATCH 28/30] fix: channel_estimation_prbs ignored pn_inv_postcoding

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index e075b74..bf0c48d 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -57,7 +57,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
         return True, 0, [0]
     prbs_seq, _ = prbs_generator(poly_coeff, init_seed, 2 * prbs_len)
     prbsq       = bin2symbol(prbs_seq, len(levels), bit_order_inv, False, False, pn_inv_precoding)
-    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale)
+    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale, pn_inv=pn_inv_postcoding) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale, pn_inv=pn_inv_postcoding)
     # ==================================================================================================================
     # Locking on the pattern beginning
     # ==================================================================================================================
-- 
2.43.0


From 7a9a88ca73d7ae71f07a4336074a4e5cad9a5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 29/30] fix: the seed returned by prbs_generator no longer
 shares memory with the returned bits

---
 CommDspy/tx/prbs_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/prbs_generator.py b/CommDspy/tx/prbs_generator.py
index e225c38..5be3375 100644
--- a/CommDspy/tx/prbs_generator.py
+++ b/CommDspy/tx/prbs_generator.py
@@ -34,5 +34,5 @@ def prbs_generator(poly_coeff, init_seed, output_length):
     # Organizing
     # ==================================================================================================================
     sequence = multiple_bin[:output_length]
-    seed = np.flip(sequence[-1*poly_size:]) if output_length >= len(seed) else seed
+    seed = np.flip(sequence[-1*poly_size:]).copy() if output_length >= len(seed) else seed
     return sequence, seed
-- 
2.43.0


From 7aade5c353903de03372688ebd9c687e33400766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:16 +0000
Subject: [PATCH 30/30] fix: Lagrange delay coefficients of high order no
 longer overflow 64-bit integers

---
 CommDspy/digital_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 299d0c9..552b05a 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -43,7 +43,7 @@ def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     # Creating the nominator component vector and the denominator component matrix
     # ==================================================================================================================
     nom_mat = np.tile(alpha - ii_vec, [len(ii_vec), 1])
-    den_mat = ii_vec - ii_vec[:, None]
+    den_mat = (ii_vec - ii_vec[:, None]).astype(float)
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-- 
2.43.0

