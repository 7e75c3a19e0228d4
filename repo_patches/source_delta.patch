From 97d1584042630f2c5581b43a8fc8af38a88076a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 01/82] fix: streaming convolution with kernels longer than one
 block, single kernels and whole-block lengths

---
 acoular/sources.py  |  9 +++++-
 acoular/tprocess.py | 78 ++++++++++++++++++---------------------------
 2 files changed, 39 insertions(+), 48 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 0d3bd5c..9daad34 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2406,6 +2406,10 @@ class PointSourceConvolve(PointSource):
     #: Upsampling factor for internal use. Default is ``None``.
     up = Enum(None, desc='upsampling factor')
 
+    #: Number of samples of the full convolution: samples of the :attr:`signal` plus
+    #: kernel length minus one. (read-only)
+    num_samples = Property()
+
     #: Unique identifier for the current state of the source,
     #: based on microphone geometry, input signal, source location, and kernel. (read-only)
     digest = Property(depends_on=['mics.digest', 'signal.digest', 'loc', 'kernel'])
@@ -2414,6 +2418,9 @@ class PointSourceConvolve(PointSource):
     def _get_digest(self):
         return digest(self)
 
+    def _get_num_samples(self):
+        return self.signal.num_samples + self.kernel.shape[0] - 1
+
     def result(self, num=128):
         """
         Generate the convolved signal at microphones in blocks.
@@ -2445,7 +2452,7 @@ class PointSourceConvolve(PointSource):
         source = TimeSamples(
             data=data,
             sample_freq=self.sample_freq,
-            num_samples=self.num_samples,
+            num_samples=self.signal.num_samples,
             num_channels=self.mics.num_mics,
         )
         time_convolve = TimeConvolve(
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 014f751..9d91a4f 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -47,6 +47,7 @@ from numpy import (
     array,
     array_equal,
     asarray,
+    broadcast_to,
     ceil,
     concatenate,
     cumsum,
@@ -1967,10 +1968,13 @@ class TimeConvolve(TimeOut):
     _block_size = Int(desc='Block size')
 
     _kernel_blocks = Property(
-        depends_on=['kernel', '_block_size'],
+        depends_on=['kernel', '_block_size', 'source.num_channels'],
         desc='Frequency domain Kernel blocks',
     )
 
+    # Number of samples of the full convolution (source samples plus kernel length minus one).
+    num_samples = Property()
+
     # internal identifier
     digest = Property(depends_on=['source.digest', 'kernel'])
 
@@ -1978,10 +1982,12 @@ class TimeConvolve(TimeOut):
     def _get_digest(self):
         return digest(self)
 
+    def _get_num_samples(self):
+        return self.source.num_samples + self.kernel.shape[0] - 1
+
     def _validate_kernel(self):
-        # reshape kernel for broadcasting
+        # one-dimensional kernels are used for all channels
         if self.kernel.ndim == 1:
-            self.kernel = self.kernel.reshape([-1, 1])
             return
         # check dimensionality
         if self.kernel.ndim > 2:
@@ -1995,18 +2001,21 @@ class TimeConvolve(TimeOut):
     # compute the rfft of the kernel blockwise
     @cached_property
     def _get__kernel_blocks(self):
-        [L, N] = self.kernel.shape
+        L = self.kernel.shape[0]
+        N = self.source.num_channels
+        # a single kernel is used for all channels
+        kernel = broadcast_to(self.kernel.reshape([L, -1]), (L, N))
         num = self._block_size
         P = int(ceil(L / num))
         trim = num * (P - 1)
         blocks = zeros([P, num + 1, N], dtype='complex128')
 
         if P > 1:
-            for i, block in enumerate(split(self.kernel[:trim], P - 1, axis=0)):
+            for i, block in enumerate(split(kernel[:trim], P - 1, axis=0)):
                 blocks[i] = rfft(concatenate([block, zeros([num, N])], axis=0), axis=0)
 
         blocks[-1] = rfft(
-            concatenate([self.kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
+            concatenate([kernel[trim:], zeros([2 * num - L + trim, N])], axis=0),
             axis=0,
         )
         return blocks
@@ -2030,61 +2039,36 @@ class TimeConvolve(TimeOut):
         self._validate_kernel()
         # initialize variables
         self._block_size = num
+        kernel_blocks = self._kernel_blocks
         L = self.kernel.shape[0]
         N = self.source.num_channels
         M = self.source.num_samples
         numblocks_kernel = int(ceil(L / num))  # number of kernel blocks
-        Q = int(ceil(M / num))  # number of signal blocks
         R = int(ceil((L + M - 1) / num))  # number of output blocks
-        last_size = (L + M - 1) % num  # size of final block
+        last_size = (L + M - 1) - (R - 1) * num  # size of final block
 
-        idx = 0
         fdl = zeros([numblocks_kernel, num + 1, N], dtype='complex128')
         buff = zeros([2 * num, N])  # time-domain input buffer
         spec_sum = zeros([num + 1, N], dtype='complex128')
 
         signal_blocks = self.source.result(num)
-        temp = next(signal_blocks)
-        buff[num : num + temp.shape[0]] = temp  # append new time-data
-
-        # for very short signals, we are already done
-        if R == 1:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
+        for i in range(R):
+            # stream processing of source signal, zeros after its end
+            temp = next(signal_blocks, None)
+            buff[:num] = buff[num:]  # shift input buffer to the left
+            buff[num:] = 0
+            if temp is not None:
+                buff[num : num + temp.shape[0]] = temp  # append new time-data
+            _append_to_fdl(fdl, rfft(buff, axis=0))
+            spec_sum = _spectral_sum(spec_sum, fdl, kernel_blocks)
             # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
-            yield irfft(spec_sum, axis=0)[num : last_size + num]
-            return
+            yield irfft(spec_sum, axis=0)[num : num + (num if i < R - 1 else last_size)]
 
-        # stream processing of source signal
-        for temp in signal_blocks:
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            yield irfft(spec_sum, axis=0)[num:]
-            buff = concatenate(
-                [buff[num:], zeros([num, N])],
-                axis=0,
-            )  # shift input buffer to the left
-            buff[num : num + temp.shape[0]] = temp  # append new time-data
-
-        for _ in range(R - Q):
-            _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-            spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-            yield irfft(spec_sum, axis=0)[num:]
-            buff = concatenate(
-                [buff[num:], zeros([num, N])],
-                axis=0,
-            )  # shift input buffer to the left
-
-        _append_to_fdl(fdl, idx, numblocks_kernel, rfft(buff, axis=0))
-        spec_sum = _spectral_sum(spec_sum, fdl, self._kernel_blocks)
-        # truncate s.t. total length is L+M-1 (like numpy convolve w/ mode="full")
-        yield irfft(spec_sum, axis=0)[num : last_size + num]
 
-
-@nb.jit(nopython=True, cache=True)
-def _append_to_fdl(fdl, idx, numblocks_kernel, buff):  # pragma: no cover
-    fdl[idx] = buff
-    idx = int(idx + 1 % numblocks_kernel)
+def _append_to_fdl(fdl, spec):
+    # the most recent spectrum is always the first entry of the delay line
+    fdl[1:] = fdl[:-1].copy()
+    fdl[0] = spec
 
 
 @nb.jit(nopython=True, cache=True)
-- 
2.43.0


From a85d6969c174d24f74e03d107df9e5bdfebd3817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:31 +0000
Subject: [PATCH 02/82] fix: filter banks with a last block shorter than the
 others

---
 acoular/tprocess.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 9d91a4f..253fc21 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1718,9 +1718,10 @@ class FilterBank(TimeOut):
         zi = [zeros((sos[0].shape[0], 2, snumch)) for _ in range(numbands)]
         res = zeros((num, self.num_channels), dtype='float')
         for block in self.source.result(num):
+            ns = block.shape[0]
             for i in range(numbands):
-                res[:, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
-            yield res
+                res[:ns, i * snumch : (i + 1) * snumch], zi[i] = sosfilt(sos[i], block, axis=0, zi=zi[i])
+            yield res[:ns]
 
 
 class OctaveFilterBank(FilterBank):
-- 
2.43.0


From 4288c459624389a629eb9e5aa70755d84e6960ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:31 +0000
Subject: [PATCH 03/82] fix: recompute octave filter bank coefficients when
 bands or source change

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 253fc21..4accf2e 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1737,7 +1737,7 @@ class OctaveFilterBank(FilterBank):
     fraction = Map({'Octave': 1, 'Third octave': 3}, default_value='Octave', desc='fraction of octave')
 
     # List of filter coefficients for all filters
-    ba = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
+    sos = Property(depends_on=['lband', 'hband', 'fraction', 'source.digest'])
 
     # List of labels for bands
     bands = Property(depends_on=['lband', 'hband', 'fraction'])
-- 
2.43.0


From 66e108fe73210e9590c542e5f18e3addb1e7a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 04/82] fix: mixers no longer add to the blocks of their
 sources in place

---
 acoular/sources.py  | 2 +-
 acoular/tprocess.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 9daad34..7f02ffa 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2316,7 +2316,7 @@ class SourceMixer(SamplesGenerator):
             weights = array([1.0 for j in range(len(self.sources))])
         assert weights.shape[0] == len(self.sources)
         for temp in self.sources[0].result(num):
-            temp *= weights[0]
+            temp = temp * weights[0]
             sh = temp.shape[0]
             for j, g in enumerate(gens):
                 temp1 = next(g) * weights[j + 1]
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 4accf2e..ffc27bc 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1339,7 +1339,7 @@ class Mixer(TimeOut):
                     return
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
-                temp += temp1[: temp.shape[0]]
+                temp = temp + temp1[: temp.shape[0]]
             yield temp
             if sh > temp.shape[0]:
                 break
-- 
2.43.0


From 1d9cadaa506619855a7a4b362965daf4ccfeda7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 05/82] fix: time reversal of sources that reuse their block
 memory

---
 acoular/tprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index ffc27bc..09ef2d7 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1427,7 +1427,8 @@ class TimeReverse(TimeOut):
 
         """
         result_list = []
-        result_list.extend(self.source.result(num))
+        # blocks are only valid until the next one is requested
+        result_list.extend(block.copy() for block in self.source.result(num))
         temp = empty_like(result_list[0])
         h = result_list.pop()
         nsh = h.shape[0]
-- 
2.43.0


From 95b43c9e0b81f4c4c51040529fa4d32d3f183c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 06/82] fix: use the angle property in
 SpatialInterpolatorRotation

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 09ef2d7..a24e20f 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1201,7 +1201,7 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
         # period for rotation
         period = 2 * pi
         # get angle
-        angle = self.angle_source.angle()
+        angle = self.angle_source.angle
         # counter to track angle position in time for each block
         count = 0
         for timeData in self.source.result(num):
-- 
2.43.0


From 3615abbe431b68b922aae1d68058c0e768a7b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 07/82] fix: number of samples announced by Mixer

---
 acoular/tprocess.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index a24e20f..0bb3e12 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1281,8 +1281,8 @@ class Mixer(TimeOut):
     # Number of channels in output as given by :attr:`source`.
     num_channels = Delegate('source')
 
-    # Number of samples in output as given by :attr:`source`.
-    num_samples = Delegate('source')
+    # Number of samples in output, given by the shortest of the mixed signals.
+    num_samples = Property()
 
     # internal identifier
     sdigest = Str()
@@ -1291,6 +1291,11 @@ class Mixer(TimeOut):
     def _set_sourcesdigest(self, event):  # noqa ARG002
         self.sdigest = ldigest(self.sources)
 
+    def _get_num_samples(self):
+        # sources without a known number of samples do not limit the length
+        lengths = [s.num_samples for s in (self.source, *self.sources) if s.num_samples >= 0]
+        return min(lengths, default=-1)
+
     # internal identifier
     digest = Property(depends_on=['source.digest', 'sdigest'])
 
-- 
2.43.0


From 70d1c483012388e88ccf3159b81f8723c0548b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 08/82] fix: whole number of averages announced by Average

---
 acoular/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 856c30a..1d6153e 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -128,7 +128,7 @@ class Average(InOut):
 
     #: The number of samples (time domain) or snapshots (frequency domain) of the output signal.
     #: It is set automatically as
-    #: (:attr:`~acoular.base.Generator.num_samples` ``/`` :attr:`num_per_average`).
+    #: (:attr:`~acoular.base.Generator.num_samples` ``//`` :attr:`num_per_average`).
     num_samples = Property(depends_on=['source.num_samples', 'num_per_average'])
 
     #: A unique identifier based on the class properties.
@@ -147,7 +147,7 @@ class Average(InOut):
     @cached_property
     def _get_num_samples(self):
         if self.source:
-            return self.source.num_samples / self.num_per_average
+            return self.source.num_samples // self.num_per_average
         return None
 
     def result(self, num):
-- 
2.43.0


From 05f52d860c4da4660c7e513b53358e117956f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 09/82] fix: sample buffer that is filled by one block or read
 with windows longer than its filling level

---
 acoular/process.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 1d6153e..49f9ef1 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -832,8 +832,8 @@ class SamplesBuffer(InOut):
 
     def _write_to_buffer(self, data):
         ns = data.shape[0]
-        self._buffer[0 : (self.length - ns)] = self._buffer[-(self.length - ns) :]
-        self._buffer[-ns:, :] = data.astype(self.dtype)
+        self._buffer[: self.length - ns] = self._buffer[ns:]
+        self._buffer[self.length - ns :] = data.astype(self.dtype)
         self._index -= ns
 
     def increase_buffer(self, num):
@@ -891,7 +891,7 @@ class SamplesBuffer(InOut):
             self._index += num
         return data
 
-    def fill_buffer(self, snum):
+    def fill_buffer(self, snum, num=None):
         """
         Fill the buffer with samples from the source.
 
@@ -905,6 +905,9 @@ class SamplesBuffer(InOut):
         ----------
         snum : :class:`int`
             The number of samples to retrieve from the source in each iteration.
+        num : :class:`int`, optional
+            The number of samples that will be read from the buffer if :attr:`result_num` is not
+            set. Default is ``snum``.
 
         Yields
         ------
@@ -921,10 +924,10 @@ class SamplesBuffer(InOut):
         """
         source_generator = self.source.result(snum)
         while not self._empty_source:
-            while self._index >= snum:
-                if self.result_num is not None:
-                    while self.result_num > self.length:
-                        self.increase_buffer(snum)
+            while self._index >= snum or self.level < (self.result_num or num or snum):
+                if self._index < snum:
+                    # the window does not fit in the buffer together with the next block
+                    self.increase_buffer(snum)
                 try:
                     self._write_to_buffer(next(source_generator))
                 except StopIteration:
@@ -966,7 +969,7 @@ class SamplesBuffer(InOut):
         snum = num
         if self.source_num is not None:
             snum = self.source_num
-        for _ in self.fill_buffer(snum):
+        for _ in self.fill_buffer(snum, num):
             if self.level > 0:
                 yield self.read_from_buffer(num)
             else:
-- 
2.43.0


From 30a78ed67c1bc86cc73803703882734eac61458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 10/82] fix: overflow detection of SampleSplitter with
 individual buffer sizes

---
 acoular/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 49f9ef1..b7c962b 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -525,7 +525,7 @@ class SampleSplitter(InOut):
 
     def _inspect_buffer_levels(self, inspect_objs):
         for obj in inspect_objs:
-            if len(self.block_buffer[obj]) == self.buffer_size:
+            if len(self.block_buffer[obj]) == self.block_buffer[obj].maxlen:
                 if self.buffer_overflow_treatment[obj] == 'error':
                     self._buffer_overflow = True
                 elif self.buffer_overflow_treatment[obj] == 'warning':
@@ -544,7 +544,7 @@ class SampleSplitter(InOut):
 
     @on_trait_change('buffer_size')
     def _change_buffer_size(self):  #
-        for obj in self.block_buffer:
+        for obj in list(self.block_buffer):
             self._remove_block_buffer(obj)
             self._create_block_buffer(obj)
 
-- 
2.43.0


From ee3d07fed9c31f7f634f06f9269467094e6f0f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 11/82] fix: SampleSplitter copies the blocks it keeps

---
 acoular/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index b7c962b..27da2f2 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -539,7 +539,8 @@ class SampleSplitter(InOut):
         self._source_generator_exist = True  # indicates full generator
 
     def _fill_block_buffers(self):
-        next_block = next(self._source_generator)
+        # blocks are only valid until the next one is requested
+        next_block = next(self._source_generator).copy()
         [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
-- 
2.43.0


From e66e547054fa93ebea65649fec519d1e4f519987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 12/82] fix: races between consumers of SampleSplitter in
 different threads

---
 acoular/process.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 27da2f2..3587b19 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -496,6 +496,9 @@ class SampleSplitter(InOut):
     # Helper Trait holds source generator
     _source_generator = Instance(LockedGenerator)
 
+    # Serializes starting the source, inspecting and refilling the buffers in different threads.
+    _lock = Any(factory=threading.RLock, transient=True)
+
     def _create_block_buffer(self, obj, buffer_size=None):
         if buffer_size is None:
             buffer_size = self.buffer_size if isinstance(self.buffer_size, int) else self.buffer_size[obj]
@@ -658,22 +661,25 @@ class SampleSplitter(InOut):
         self._assert_obj_registered(calling_obj)
         objs_to_inspect = self._get_objs_to_inspect()
 
-        if not self._source_generator_exist:
-            self._create_source_generator(num)
+        with self._lock:
+            if not self._source_generator_exist:
+                self._create_source_generator(num)
 
         while not self._buffer_overflow:
-            if self.block_buffer[calling_obj]:
-                yield self.block_buffer[calling_obj].pop()
-            else:
-                self._inspect_buffer_levels(objs_to_inspect)
-                try:
-                    self._fill_block_buffers()
-                except StopIteration:
-                    self._source_generator_exist = False
-                    return
-        else:
-            msg = 'Maximum size of block buffer is reached!'
-            raise OSError(msg)
+            with self._lock:
+                if not self.block_buffer[calling_obj]:
+                    self._inspect_buffer_levels(objs_to_inspect)
+                    try:
+                        self._fill_block_buffers()
+                    except StopIteration:
+                        self._source_generator_exist = False
+                        return
+                    if self._buffer_overflow:
+                        break
+                block = self.block_buffer[calling_obj].pop()
+            yield block
+        msg = 'Maximum size of block buffer is reached!'
+        raise OSError(msg)
 
 
 class TimeAverage(Average):
-- 
2.43.0


From f0939ddb717db62a1aefe25b88cb8ae0008f79fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 13/82] fix: consumers of SampleSplitter that start after
 another one has finished

---
 acoular/process.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 3587b19..d923d65 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -496,6 +496,9 @@ class SampleSplitter(InOut):
     # Helper Trait holds source generator
     _source_generator = Instance(LockedGenerator)
 
+    # Objects that have started to read from the current source generator
+    _started = Any(factory=set, transient=True)
+
     # Serializes starting the source, inspecting and refilling the buffers in different threads.
     _lock = Any(factory=threading.RLock, transient=True)
 
@@ -537,6 +540,7 @@ class SampleSplitter(InOut):
     def _create_source_generator(self, num):
         for obj in self.block_buffer:
             self._clear_block_buffer(obj)
+        self._started.clear()
         self._buffer_overflow = False  # reset overflow bool
         self._source_generator = LockedGenerator(self.source.result(num))
         self._source_generator_exist = True  # indicates full generator
@@ -621,6 +625,7 @@ class SampleSplitter(InOut):
         for obj in objects_to_remove:
             self._remove_block_buffer(obj)
             self._remove_buffer_overflow_treatment(obj)
+            self._started.discard(obj)
 
     def result(self, num):
         """
@@ -662,8 +667,11 @@ class SampleSplitter(InOut):
         objs_to_inspect = self._get_objs_to_inspect()
 
         with self._lock:
-            if not self._source_generator_exist:
+            # blocks that are left from an exhausted source belong to objects not started so far
+            pending = self.block_buffer[calling_obj] and calling_obj not in self._started
+            if not self._source_generator_exist and not pending:
                 self._create_source_generator(num)
+            self._started.add(calling_obj)
 
         while not self._buffer_overflow:
             with self._lock:
-- 
2.43.0


From b0f5f59ac792bbda3e5e9c373113edcec9014897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 14/82] fix: switching, sharing and reopening of cache files

---
 acoular/h5cache.py | 76 ++++++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index c073543..9c8e7cc 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -4,10 +4,11 @@
 
 # imports from other packages
 import gc
+import threading
 from pathlib import Path
 from weakref import WeakValueDictionary
 
-from traits.api import Bool, Delegate, Dict, HasStrictTraits, Instance
+from traits.api import Any, Delegate, Dict, HasStrictTraits, Instance
 
 from .configuration import Config, config
 from .h5files import _get_cachefile_class
@@ -20,18 +21,17 @@ class HDF5Cache(HasStrictTraits):
 
     cache_dir = Delegate('config')
 
-    busy = Bool(False)
+    # serializes the use of the registry of open files
+    _lock = Any(factory=threading.RLock, transient=True)
 
     open_files = WeakValueDictionary()
 
     open_file_reference = Dict(key_trait=Path, value_trait=int)
 
-    def _idle_if_busy(self):
-        while self.busy:
-            pass
-
     def close_cachefile(self, cachefile):
-        self.open_file_reference.pop(Path(cachefile.filename))
+        filename = Path(cachefile.filename).resolve()
+        self.open_file_reference.pop(filename, None)
+        self.open_files.pop(filename, None)
         cachefile.close()
 
     def get_open_cachefiles(self):
@@ -41,7 +41,7 @@ class HDF5Cache(HasStrictTraits):
             return iter(self.open_files.values())
 
     def close_unreferenced_cachefiles(self):
-        for cachefile in self.get_open_cachefiles():
+        for cachefile in list(self.get_open_cachefiles()):
             if not self.is_reference_existent(cachefile):
                 self.close_cachefile(cachefile)
 
@@ -62,7 +62,15 @@ class HDF5Cache(HasStrictTraits):
         self.open_file_reference[filename] = self.open_file_reference.get(filename, 0) + 1
 
     def _decrease_file_reference_counter(self, filename):
-        self.open_file_reference[filename] = self.open_file_reference[filename] - 1
+        if filename in self.open_file_reference:
+            self.open_file_reference[filename] = self.open_file_reference[filename] - 1
+
+    def _release_cache_file(self, obj):
+        # obj does not use its cache file any longer
+        for filename, file in list(self.open_files.items()):
+            if obj.h5f is file:
+                self._decrease_file_reference_counter(filename)
+        obj.h5f = None
 
     def get_cache_directories(self):
         """Return a list of all used cache directories (if multiple paths exist)."""
@@ -81,36 +89,38 @@ class HDF5Cache(HasStrictTraits):
 
     def get_cache_file(self, obj, basename, mode='a'):
         """Returns pytables .h5 file to h5f trait of calling object for caching."""
-        self._idle_if_busy()  #
-        self.busy = True
-        file_cls = _get_cachefile_class()
-        filename = (Path(self.cache_dir) / (basename + '_cache.h5')).resolve()
-
-        if config.global_caching == 'readonly' and not filename.exists():
-            obj.h5f = None
-            self.busy = False
-            return  # cachefile is not created in readonly mode
-
-        if isinstance(obj.h5f, file_cls):
-            if Path(obj.h5f.filename).resolve() == filename:
-                self.busy = False
-                return
-            self._decrease_file_reference_counter(obj.h5f.filename)
+        with self._lock:
+            file_cls = _get_cachefile_class()
+            filename = (Path(self.cache_dir) / (basename + '_cache.h5')).resolve()
 
-        if filename not in self.open_files:  # or tables.file._open_files.filenames
             if config.global_caching == 'readonly':
+                if not filename.exists():
+                    self._release_cache_file(obj)
+                    return  # cachefile is not created in readonly mode
                 mode = 'r'
-            file = file_cls(filename, mode)
-            self.open_files[filename] = file
 
-        obj.h5f = self.open_files[filename]
-        self._increase_file_reference_counter(filename)
+            file = self.open_files.get(filename)
+            if file is not None and mode != 'r' and file.mode == 'r':
+                # the file was opened in readonly mode, but is going to be written now
+                self.close_cachefile(file)
+                file = None
+
+            if file is not None and obj.h5f is file:
+                return
+            self._release_cache_file(obj)
+
+            if file is None:
+                file = file_cls(filename, mode)
+                self.open_files[filename] = file
+
+            obj.h5f = file
+            self._increase_file_reference_counter(filename)
 
-        # garbage collection
-        self.close_unreferenced_cachefiles()
+            # garbage collection
+            del file
+            self.close_unreferenced_cachefiles()
 
-        self.busy = False
-        self._print_open_files()
+            self._print_open_files()
 
 
 H5cache = HDF5Cache(config=config)
-- 
2.43.0


From beab3ef9b1b2ef235d74386725ed46261b578426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 15/82] fix: several unfinished runs on the same cached data,
 and empty sources

---
 acoular/process.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index d923d65..6726215 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -65,6 +65,11 @@ class LockedGenerator:
             return self.it.__next__()
 
 
+# cached time data that is read or written by unfinished runs, with the number of runs
+_nodes_in_use = {}
+_nodes_in_use_lock = threading.Lock()
+
+
 @deprecated_alias({'naverage': 'num_per_average', 'numsamples': 'num_samples'}, read_only=['numsamples'])
 class Average(InOut):
     """
@@ -267,6 +272,7 @@ class Cache(InOut):
 
     def _write_data_to_cache(self, num):
         nodename = 'tc_' + self.digest
+        ac = None
         for i, data in enumerate(self.source.result(num)):
             if i == 0:
                 self.h5f.create_extendable_array(nodename, (0, data.shape[1]), data.dtype.name)
@@ -276,7 +282,8 @@ class Cache(InOut):
             self.h5f.append_data(ac, data)
             self.h5f.flush()
             yield data
-        self.h5f.set_node_attribute(ac, 'complete', True)
+        if ac is not None:
+            self.h5f.set_node_attribute(ac, 'complete', True)
 
     def _get_data_from_cache(self, num):
         nodename = 'tc_' + self.digest
@@ -308,6 +315,27 @@ class Cache(InOut):
                 yield data
         self.h5f.set_node_attribute(ac, 'complete', True)
 
+    def _run_exclusively(self, generator, num):
+        # Unfinished runs on the same data must neither remove it nor write to it at the same time.
+        # The first one deals with the cache, others get the data from the source.
+        key = (str(self.h5f.filename), 'tc_' + self.digest)
+        with _nodes_in_use_lock:
+            users = _nodes_in_use.get(key, 0)
+            if users and generator != self._get_data_from_cache:
+                generator, key = self._pass_data, None
+            else:
+                _nodes_in_use[key] = users + 1
+        try:
+            if generator == self._write_data_to_cache and self.h5f.is_cached(key[1]):
+                self.h5f.remove_data(key[1])
+            yield from generator(num)
+        finally:
+            if key is not None:
+                with _nodes_in_use_lock:
+                    _nodes_in_use[key] -= 1
+                    if not _nodes_in_use[key]:
+                        del _nodes_in_use[key]
+
     # result generator: delivers input, possibly from cache
     def result(self, num):
         """
@@ -355,7 +383,6 @@ class Cache(InOut):
             elif self.h5f.is_cached(nodename):
                 generator = self._get_data_from_cache
                 if config.global_caching == 'overwrite':
-                    self.h5f.remove_data(nodename)
                     generator = self._write_data_to_cache
                 elif not self.h5f.get_data_by_reference(nodename).attrs.__contains__('complete'):
                     if config.global_caching == 'readonly':
@@ -377,7 +404,10 @@ class Cache(InOut):
                 generator = self._write_data_to_cache
                 if config.global_caching == 'readonly':
                     generator = self._pass_data
-        yield from generator(num)
+        if generator == self._pass_data:
+            yield from generator(num)
+        else:
+            yield from self._run_exclusively(generator, num)
 
 
 class SampleSplitter(InOut):
-- 
2.43.0


From d27e6b05a9f405cfad2f267c41b92c9bc117187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:33 +0000
Subject: [PATCH 16/82] fix: empty last block of line and dipole sources

---
 acoular/sources.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 7f02ffa..271faf7 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1347,7 +1347,8 @@ class PointSourceDipole(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
@@ -1574,7 +1575,8 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class LineSource(PointSource):
@@ -1704,7 +1706,8 @@ class LineSource(PointSource):
             except IndexError:
                 break
 
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 class MovingLineSource(LineSource, MovingPointSource):
@@ -1944,7 +1947,8 @@ class MovingLineSource(LineSource, MovingPointSource):
                     i = 0
             except IndexError:
                 break
-        yield out[:i]
+        if i > 0:  # if there are still samples to yield
+            yield out[:i]
 
 
 @deprecated_alias({'numchannels': 'num_channels'}, read_only=True)
-- 
2.43.0


From 38a0caa10e54440be26724c3c3e4310d9d3b4b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:53 +0000
Subject: [PATCH 17/82] fix: unambiguous digests

---
 acoular/internal.py | 91 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 25 deletions(-)

diff --git a/acoular/internal.py b/acoular/internal.py
index f29480d..4a97518 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -1,25 +1,66 @@
-# ------------------------------------------------------------------------------
-# Copyright (c) Acoular Development Team.
-# ------------------------------------------------------------------------------
-
-from hashlib import md5
-
-
-def digest(obj, name='digest'):
-    str_ = [str(obj.__class__).encode('UTF-8')]
-    for do_ in obj.trait(name).depends_on:
-        vobj = obj
-        try:
-            for i in do_.split('.'):
-                vobj = list(vobj.trait_get(i.rstrip('[]')).values())[0]
-            str_.append(str(vobj).encode('UTF-8'))
-        except:  # noqa: E722
-            pass
-    return '_' + md5(b''.join(str_)).hexdigest()
-
-
-def ldigest(obj_list):
-    str_ = []
-    for i in obj_list:
-        str_.append(str(i.digest).encode('UTF-8'))
-    return '_' + md5(b''.join(str_)).hexdigest()
+# ------------------------------------------------------------------------------
+# Copyright (c) Acoular Development Team.
+# ------------------------------------------------------------------------------
+
+from hashlib import md5
+
+from numpy import ascontiguousarray, generic, ndarray
+from traits.api import HasTraits
+
+
+def _fingerprint(value):
+    """Return a byte string that is the same for equal values only."""
+    if isinstance(value, generic):
+        value = value.item()
+    if isinstance(value, ndarray):
+        if value.dtype.hasobject:
+            body = _fingerprint(value.tolist())
+        else:
+            body = ascontiguousarray(value).tobytes()
+        kind = f'ndarray {value.dtype.str} {value.shape}'
+    elif isinstance(value, dict):
+        body = b''.join(sorted(_fingerprint(item) for item in value.items()))
+        kind = 'dict'
+    elif isinstance(value, (set, frozenset)):
+        body = b''.join(sorted(_fingerprint(item) for item in value))
+        kind = 'set'
+    elif isinstance(value, (list, tuple)):
+        body = b''.join(_fingerprint(item) for item in value)
+        kind = 'sequence'
+    elif isinstance(value, HasTraits):
+        if value.trait('digest') is None:
+            body = _fingerprint(value.trait_get(value.copyable_trait_names()))
+        else:
+            body = _fingerprint(value.digest)
+        kind = str(value.__class__)
+    else:
+        body = str(value).encode('UTF-8')
+        kind = 'value'
+    return f'<{kind} {len(body)}>'.encode('UTF-8') + body
+
+
+def _resolve(obj, names):
+    """Follow trait names starting from an object or from every object in a list."""
+    for i, name in enumerate(names):
+        if isinstance(obj, (list, tuple)):
+            return [_resolve(item, names[i:]) for item in obj]
+        obj = list(obj.trait_get(name.rstrip('[]')).values())[0]
+    return obj
+
+
+def digest(obj, name='digest'):
+    str_ = [_fingerprint(str(obj.__class__))]
+    for do_ in obj.trait(name).depends_on:
+        str_.append(_fingerprint(do_))
+        try:
+            str_.append(_fingerprint(_resolve(obj, do_.split('.'))))
+        except:  # noqa: E722
+            pass
+    return '_' + md5(b''.join(str_)).hexdigest()
+
+
+def ldigest(obj_list):
+    str_ = []
+    for i in obj_list:
+        str_.append(_fingerprint(str(i.digest)))
+    return '_' + md5(b''.join(str_)).hexdigest()
-- 
2.43.0


From fba318afc7af94f0a7fdb83597ba7f43ace40be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 18/82] fix: complete digests and dependencies

---
 acoular/calib.py       |  4 ++--
 acoular/fbeamform.py   |  9 +++++----
 acoular/internal.py    |  8 ++++++++
 acoular/microphones.py |  2 +-
 acoular/sources.py     | 45 ++++++++++++++++++++++++++++++++----------
 acoular/spectra.py     | 19 +++++++++---------
 acoular/tprocess.py    | 21 +++++++++++++-------
 7 files changed, 74 insertions(+), 34 deletions(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index 06a57e1..cf25360 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -95,10 +95,10 @@ class Calib(InOut):
     invalid_channels = List(int, desc='list of invalid channels')
 
     #: Channel mask to serve as an index for all valid channels, is set automatically.
-    channels = Property(depends_on=['invalid_channels', 'num_mics'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'num_mics'], desc='channel mask')
 
     # Internal identifier
-    digest = Property(depends_on=['source.digest', 'data'])
+    digest = Property(depends_on=['source.digest', 'data', 'invalid_channels[]'])
 
     @on_trait_change('data')
     def set_num_mics(self):
diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index a4baf27..5e75965 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -221,7 +221,7 @@ class SteeringVector(HasStrictTraits):
 
     @cached_property
     def _get_inv_digest(self):
-        return digest(self)
+        return digest(self, 'inv_digest')
 
     def transfer(self, f, ind=None):
         """Calculates the transfer matrix for one frequency.
@@ -855,7 +855,7 @@ class BeamformerEig(BeamformerBase):
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on(['steer.mics', 'n'])
+    @property_depends_on(['steer.mics.digest', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
@@ -1273,7 +1273,8 @@ class BeamformerDamasPlus(BeamformerDamas):
 
     # internal identifier
     digest = Property(
-        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES + ['alpha', 'method', 'n_iter', 'unit_mult'],
+        depends_on=BEAMFORMER_BASE_DIGEST_DEPENDENCIES
+        + ['alpha', 'method', 'n_iter', 'unit_mult', 'psf_precision'],
     )
 
     @cached_property
@@ -2138,7 +2139,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
     def _get_digest(self):
         return digest(self)
 
-    @property_depends_on('n')
+    @property_depends_on(['steer.mics.digest', 'n'])
     def _get_na(self):
         na = self.n
         nm = self.steer.mics.num_mics
diff --git a/acoular/internal.py b/acoular/internal.py
index 4a97518..57c1cbd 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -39,6 +39,14 @@ def _fingerprint(value):
     return f'<{kind} {len(body)}>'.encode('UTF-8') + body
 
 
+def data_checksum(data, num=4096):
+    """Return a checksum over all values of an array or dataset that is read in blocks of rows."""
+    md5_ = md5(f'{data.dtype} {data.shape}'.encode('UTF-8'))
+    for i in range(0, data.shape[0], num):
+        md5_.update(ascontiguousarray(data[i : i + num]))
+    return md5_.hexdigest()
+
+
 def _resolve(obj, names):
     """Follow trait names starting from an object or from every object in a list."""
     for i, name in enumerate(names):
diff --git a/acoular/microphones.py b/acoular/microphones.py
index d51ca00..bcb7b48 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -137,7 +137,7 @@ class MicGeom(HasStrictTraits):
 
     #: Array containing the ``x, y, z`` positions of valid microphones (i.e., excluding those in
     #: :attr:`invalid_channels`), shape ``(3,`` :attr:`num_mics` ``)``. (read-only)
-    pos = Property(depends_on=['pos_total', 'invalid_channels'], desc='x, y, z position of used microphones')
+    pos = Property(depends_on=['pos_total', 'invalid_channels[]'], desc='x, y, z position of used microphones')
 
     #: List of indices indicating microphones to be excluded from calculations and results.
     #: Default is ``[]``.
diff --git a/acoular/sources.py b/acoular/sources.py
index 271faf7..55bb7ff 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -86,7 +86,7 @@ from .calib import Calib
 from .deprecation import deprecated_alias
 from .environments import Environment
 from .h5files import H5FileBase, _get_h5file_class
-from .internal import digest, ldigest
+from .internal import data_checksum, digest, ldigest
 from .microphones import MicGeom
 from .signals import NoiseGenerator, SignalGenerator
 from .tools.utils import get_file_basename
@@ -396,16 +396,17 @@ class TimeSamples(SamplesGenerator):
     #: Metadata loaded from the HDF5 file, if available.
     metadata = Dict(desc='metadata contained in .h5 file')
 
-    # Checksum over first data entries of all channels
-    _datachecksum = Property()
+    # Checksum over all data entries of all channels
+    _datachecksum = Property(depends_on=['data'])
 
     #: A unique identifier for the samples, based on its properties. (read-only)
     digest = Property(
         depends_on=['basename', 'calib.digest', '_datachecksum', 'sample_freq', 'num_channels', 'num_samples']
     )
 
+    @cached_property
     def _get__datachecksum(self):
-        return self.data[0, :].sum()
+        return data_checksum(self.data)
 
     @cached_property
     def _get_digest(self):
@@ -498,7 +499,6 @@ class TimeSamples(SamplesGenerator):
         if self.num_samples == 0:
             msg = 'no samples available'
             raise OSError(msg)
-        self._datachecksum  # trigger checksum calculation # noqa: B018
         i = 0
         if self.calib:
             warn(
@@ -589,7 +589,7 @@ class MaskedTimeSamples(TimeSamples):
 
     #: A mask or index array representing valid channels. Automatically updated based on the
     #: :attr:`invalid_channels` and :attr:`num_channels_total` attributes.
-    channels = Property(depends_on=['invalid_channels', 'num_channels_total'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'num_channels_total'], desc='channel mask')
 
     #: Total number of input channels, including invalid channels. (read-only).
     num_channels_total = CInt(0, desc='total number of input channels')
@@ -599,7 +599,7 @@ class MaskedTimeSamples(TimeSamples):
 
     #: Number of valid input channels after excluding :attr:`invalid_channels`. (read-only)
     num_channels = Property(
-        depends_on=['invalid_channels', 'num_channels_total'], desc='number of valid input channels'
+        depends_on=['invalid_channels[]', 'num_channels_total'], desc='number of valid input channels'
     )
 
     #: Number of valid time-domain samples, based on :attr:`start` and :attr:`stop` indices.
@@ -609,7 +609,17 @@ class MaskedTimeSamples(TimeSamples):
     )
 
     #: A unique identifier for the samples, based on its properties. (read-only)
-    digest = Property(depends_on=['basename', 'start', 'stop', 'calib.digest', 'invalid_channels', '_datachecksum'])
+    digest = Property(
+        depends_on=[
+            'basename',
+            'start',
+            'stop',
+            'calib.digest',
+            'invalid_channels[]',
+            '_datachecksum',
+            'sample_freq',
+        ]
+    )
 
     @cached_property
     def _get_digest(self):
@@ -724,7 +734,6 @@ class MaskedTimeSamples(TimeSamples):
         if i >= stop:
             msg = 'no samples available'
             raise OSError(msg)
-        self._datachecksum  # trigger checksum calculation # noqa: B018
         if self.calib:
             warn(
                 'The use of the calibration functionality in MaskedTimeSamples is deprecated and will be removed in \
@@ -983,6 +992,7 @@ class SphericalHarmonicSource(PointSource):
             'up',
             'alpha',
             'lOrder',
+            'direction',
             'prepadding',
         ],
     )
@@ -1117,6 +1127,7 @@ class MovingPointSource(PointSource):
             'env.digest',
             'start_t',
             'start',
+            'up',
             'trajectory.digest',
             'prepadding',
         ],
@@ -1384,6 +1395,10 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             'start',
             'up',
             'direction',
+            'prepadding',
+            'trajectory.digest',
+            'conv_amp',
+            'rvec',
         ],
     )
 
@@ -1630,8 +1645,11 @@ class LineSource(PointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
             'source_strength',
             'coherence',
+            'prepadding',
         ],
     )
 
@@ -1745,6 +1763,14 @@ class MovingLineSource(LineSource, MovingPointSource):
             'start',
             'up',
             'direction',
+            'length',
+            'num_sources',
+            'source_strength',
+            'coherence',
+            'prepadding',
+            'trajectory.digest',
+            'conv_amp',
+            'rvec',
         ],
     )
 
@@ -2046,7 +2072,6 @@ class UncorrelatedNoiseSource(SamplesGenerator):
             'mics.digest',
             'signal.digest',
             'seed',
-            'loc',
             'start_t',
             'start',
         ],
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 94676ff..92e6d8d 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -24,12 +24,10 @@ from numpy import (
     fill_diagonal,
     hamming,
     hanning,
-    imag,
     linalg,
     ndarray,
     newaxis,
     ones,
-    real,
     searchsorted,
     sum,  # noqa A004
     zeros,
@@ -46,6 +44,7 @@ from traits.api import (
     Int,
     Map,
     Property,
+    Str,
     Union,
     cached_property,
     property_depends_on,
@@ -58,7 +57,7 @@ from .deprecation import deprecated_alias
 from .fastFuncs import calcCSM
 from .h5cache import H5cache
 from .h5files import H5CacheFileBase
-from .internal import digest
+from .internal import data_checksum, digest
 from .tools.utils import find_basename
 
 
@@ -288,7 +287,7 @@ class PowerSpectra(BaseSpectra):
     def _get_num_blocks(self):
         return self.overlap_ * self.source.num_samples / self.block_size - self.overlap_ + 1
 
-    @property_depends_on(['source.sample_freq', 'block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['source.sample_freq', 'block_size', 'digest', 'ind_low', 'ind_high'])
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -302,7 +301,7 @@ class PowerSpectra(BaseSpectra):
         self._freqlc = freq_range[0]
         self._freqhc = freq_range[1]
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_low', '_freqlc'])
+    @property_depends_on(['source.sample_freq', 'block_size', 'digest', '_ind_low', '_freqlc', '_index_set_last'])
     def _get_ind_low(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -311,7 +310,7 @@ class PowerSpectra(BaseSpectra):
             return searchsorted(fftfreq[:-1], self._freqlc)
         return None
 
-    @property_depends_on(['source.sample_freq', 'block_size', '_ind_high', '_freqhc'])
+    @property_depends_on(['source.sample_freq', 'block_size', 'digest', '_ind_high', '_freqhc', '_index_set_last'])
     def _get_ind_high(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -332,7 +331,7 @@ class PowerSpectra(BaseSpectra):
         self._index_set_last = True
         self._ind_low = ind_low
 
-    @property_depends_on(['block_size', 'ind_low', 'ind_high'])
+    @property_depends_on(['source', 'block_size', 'digest', 'ind_low', 'ind_high'])
     def _get_indices(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
@@ -664,7 +663,7 @@ class PowerSpectraImport(PowerSpectra):
     _ind_high = Union(None, Int, desc='index of highest frequency line')
 
     #: A unique identifier for the spectra, based on its properties. (read-only)
-    digest = Property(depends_on=['_csmsum'])
+    digest = Property(depends_on=['_csmsum', 'frequencies', 'precision'])
 
     #: Name of the cache file without extension. (read-only)
     basename = Property(depends_on=['digest'], desc='basename for cache file')
@@ -673,7 +672,7 @@ class PowerSpectraImport(PowerSpectra):
     _csm = CArray()
 
     # Checksum for the CSM to trigger digest calculation, for internal use only.
-    _csmsum = Float()
+    _csmsum = Str()
 
     def _get_basename(self):
         return 'csm_import_' + self.digest
@@ -693,8 +692,8 @@ class PowerSpectraImport(PowerSpectra):
             msg = 'The cross spectral matrix must have the following shape: \
             (number of frequencies, num_channels, num_channels)!'
             raise ValueError(msg)
-        self._csmsum = real(self._csm).sum() + (imag(self._csm) ** 2).sum()  # to trigger new digest creation
         self._csm = csm
+        self._csmsum = data_checksum(self._csm)  # to trigger new digest creation
 
     @property_depends_on(['digest'])
     def _get_eva(self):
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 0bb3e12..3ac6c7c 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -139,7 +139,7 @@ class MaskedTimeOut(TimeOut):
     invalid_channels = List(int, desc='list of invalid channels')
 
     # Channel mask to serve as an index for all valid channels, is set automatically.
-    channels = Property(depends_on=['invalid_channels', 'source.num_channels'], desc='channel mask')
+    channels = Property(depends_on=['invalid_channels[]', 'source.num_channels'], desc='channel mask')
 
     # Number of channels in input, as given by :attr:`~acoular.base.TimeOut.source`.
     num_channels_total = Delegate('source', 'num_channels')
@@ -149,7 +149,7 @@ class MaskedTimeOut(TimeOut):
 
     # Number of valid channels, is set automatically.
     num_channels = Property(
-        depends_on=['invalid_channels', 'source.num_channels'], desc='number of valid input channels'
+        depends_on=['invalid_channels[]', 'source.num_channels'], desc='number of valid input channels'
     )
 
     # Number of valid time samples, is set automatically.
@@ -161,7 +161,7 @@ class MaskedTimeOut(TimeOut):
     basename = Property(depends_on=['source.digest'], desc='basename for cache file')
 
     # internal identifier
-    digest = Property(depends_on=['source.digest', 'start', 'stop', 'invalid_channels'])
+    digest = Property(depends_on=['source.digest', 'start', 'stop', 'invalid_channels[]'])
 
     @cached_property
     def _get_digest(self):
@@ -526,6 +526,9 @@ class AngleTracker(MaskedTimeOut):
             'rot_direction',
             'interp_points',
             'start_angle',
+            'start',
+            'stop',
+            'invalid_channels[]',
         ],
     )
 
@@ -674,14 +677,12 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     mics = Instance(MicGeom(), desc='microphone geometry')
 
     # :class:`~acoular.microphones.MicGeom` object that provides the virtual microphone locations.
-    mics_virtual = Property(desc='microphone geometry')
+    mics_virtual = Property(depends_on=['mics', '_mics_virtual'], desc='microphone geometry')
 
     _mics_virtual = Instance(MicGeom, desc='internal microphone geometry;internal usage, read only')
 
     def _get_mics_virtual(self):
-        if not self._mics_virtual and self.mics:
-            self._mics_virtual = self.mics
-        return self._mics_virtual
+        return self._mics_virtual or self.mics
 
     def _set_mics_virtual(self, mics_virtual):
         self._mics_virtual = mics_virtual
@@ -746,6 +747,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1176,6 +1179,8 @@ class SpatialInterpolatorRotation(SpatialInterpolator):  # pragma: no cover
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
         ],
     )
 
@@ -1231,6 +1236,8 @@ class SpatialInterpolatorConstantRotation(SpatialInterpolator):  # pragma: no co
             'array_dimension',
             'Q',
             'interp_at_zero',
+            'num_IDW',
+            'p_weight',
             'rotational_speed',
         ],
     )
-- 
2.43.0


From 904020222f7aab9d770d4e85272b2e326bf5517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 19/82] fix: signal indices outside of the emitted signal

---
 acoular/sources.py  | 190 ++++++++++++++++----------------------------
 acoular/tprocess.py |   4 +-
 2 files changed, 69 insertions(+), 125 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 55bb7ff..f9eeede 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -41,6 +41,7 @@ from numpy import (
     cross,
     dot,
     empty,
+    floor,
     int64,
     mod,
     newaxis,
@@ -53,7 +54,6 @@ from numpy import (
     uint32,
     zeros,
 )
-from numpy import min as npmin
 from numpy.fft import fft, ifft
 from scipy.linalg import norm
 from scipy.special import sph_harm, spherical_jn, spherical_yn
@@ -96,22 +96,29 @@ from .trajectory import Trajectory
 
 @nb.njit(cache=True, error_model='numpy')  # pragma: no cover
 def _fill_mic_signal_block(out, signal, rm, ind, blocksize, num_channels, up, prepadding):
+    num_samples = signal.shape[0]
     if prepadding:
         for b in range(blocksize):
             for m in range(num_channels):
-                if ind[0, m] < 0:
+                i = int(floor(0.5 + ind[0, m]))
+                if ind[0, m] < 0 or i >= num_samples:
                     out[b, m] = 0
                 else:
-                    out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                    out[b, m] = signal[i] / rm[0, m]
             ind += up
     else:
         for b in range(blocksize):
             for m in range(num_channels):
-                out[b, m] = signal[int(0.5 + ind[0, m])] / rm[0, m]
+                out[b, m] = signal[int(floor(0.5 + ind[0, m])) % num_samples] / rm[0, m]
             ind += up
     return out
 
 
+def _get_looped(signal, ind):
+    # samples of the signal that are nearest to the given indices, the signal is repeated endlessly
+    return signal[mod(floor(0.5 + ind).astype(int64), signal.shape[-1])]
+
+
 def spherical_hn1(n, z):
     r"""
     Compute the spherical Hankel function of the first kind.
@@ -630,7 +637,7 @@ class MaskedTimeSamples(TimeSamples):
         if len(self.invalid_channels) == 0:
             return slice(0, None, None)
         allr = [i for i in range(self.num_channels_total) if i not in self.invalid_channels]
-        return array(allr)
+        return array(allr, dtype=int)
 
     @cached_property
     def _get_num_channels(self):
@@ -641,7 +648,7 @@ class MaskedTimeSamples(TimeSamples):
     @cached_property
     def _get_num_samples(self):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
-        return sli[1] - sli[0]
+        return max(0, sli[1] - sli[0])
 
     @on_trait_change('basename')
     def _load_data(self):
@@ -921,36 +928,17 @@ class PointSource(SamplesGenerator):
         # emission time relative to start_t (in samples) for first sample
         ind = (-rm / self.env.c - self.start_t + self.start) * self.sample_freq * self.up
 
-        if self.prepadding == 'zeros':
-            # number of blocks where signal behaviour is amended
-            pre = -int(npmin(ind[0]) // (self.up * num))
-            # amend signal for first blocks
-            # if signal stops during prepadding, terminate
-            if pre >= N:
-                for _nb in range(N - 1):
-                    out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, True)
-                    yield out
-
-                blocksize = self.num_samples % num or num
-                out = _fill_mic_signal_block(out, signal, rm, ind, blocksize, self.num_channels, self.up, True)
-                yield out[:blocksize]
-                return
-            else:
-                for _nb in range(pre):
-                    out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, True)
-                    yield out
-
-        else:
-            pre = 0
+        # zeros instead of the repeated signal before the start and after the end of the signal
+        zeros_outside = self.prepadding == 'zeros'
 
         # main generator
-        for _nb in range(N - pre - 1):
-            out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, False)
+        for _nb in range(N - 1):
+            out = _fill_mic_signal_block(out, signal, rm, ind, num, self.num_channels, self.up, zeros_outside)
             yield out
 
         # last block of variable size
         blocksize = self.num_samples % num or num
-        out = _fill_mic_signal_block(out, signal, rm, ind, blocksize, self.num_channels, self.up, False)
+        out = _fill_mic_signal_block(out, signal, rm, ind, blocksize, self.num_channels, self.up, zeros_outside)
         yield out[:blocksize]
 
 
@@ -1058,11 +1046,6 @@ class SphericalHarmonicSource(PointSource):
             A 2D array of shape (``num``, :attr:`~PointSource.num_channels`) containing the signal
             detected at the microphones. The last block may have fewer samples if
             :attr:`~PointSource.num_samples` is not a multiple of ``num``.
-
-        Raises
-        ------
-        :obj:`IndexError`
-            If no more samples are available from the signal source.
         """
         # If signal samples are needed for te < t_start, then samples are taken
         # from the end of the calculated signal.
@@ -1076,15 +1059,12 @@ class SphericalHarmonicSource(PointSource):
         out = empty((num, self.num_channels))
         while n:
             n -= 1
-            try:
-                out[i] = signal[array(0.5 + ind * self.up, dtype=int64)] / rm
-                ind += 1
-                i += 1
-                if i == num:
-                    yield self.transform(out)
-                    i = 0
-            except IndexError:  # if no more samples available from the source
-                break
+            out[i] = _get_looped(signal, ind * self.up) / rm
+            ind += 1
+            i += 1
+            if i == num:
+                yield self.transform(out)
+                i = 0
         if i > 0:  # if there are still samples to yield
             yield self.transform(out[:i])
 
@@ -1157,11 +1137,6 @@ class MovingPointSource(PointSource):
             detected at the microphones. The last block may have fewer samples if
             :attr:`~PointSource.num_samples` is not a multiple of ``num``.
 
-        Raises
-        ------
-        :obj:`IndexError`
-            If no more samples are available from the signal source.
-
         Notes
         -----
         - The method iteratively solves for the emission times of the signal at each microphone
@@ -1205,14 +1180,11 @@ class MovingPointSource(PointSource):
             ind = (te - self.start_t + self.start) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
-            try:
-                out[i] = signal[array(0.5 + ind * self.up, dtype=int64)] / rm
-                i += 1
-                if i == num:
-                    yield out
-                    i = 0
-            except IndexError:  # if no more samples available from the source
-                break
+            out[i] = _get_looped(signal, ind * self.up) / rm
+            i += 1
+            if i == num:
+                yield out
+                i = 0
         if i > 0:  # if there are still samples to yield
             yield out[:i]
 
@@ -1288,11 +1260,6 @@ class PointSourceDipole(PointSource):
             detected at the microphones. The last block may have fewer samples if
             :attr:`~PointSource.num_samples` is not a multiple of ``num``.
 
-        Raises
-        ------
-        :obj:`IndexError`
-            If no more samples are available from the source.
-
         Notes
         -----
         If samples are needed for times earlier than the source's :attr:`~PointSource.start_t`, the
@@ -1338,25 +1305,17 @@ class PointSourceDipole(PointSource):
         n = self.num_samples
         while n:
             n -= 1
-            try:
-                # subtract the second signal b/c of phase inversion
-                out[i] = (
-                    rm
-                    / dist
-                    * (
-                        signal[array(0.5 + ind1 * self.up, dtype=int64)] / rm1
-                        - signal[array(0.5 + ind2 * self.up, dtype=int64)] / rm2
-                    )
-                )
-                ind1 += 1.0
-                ind2 += 1.0
-
-                i += 1
-                if i == num:
-                    yield out
-                    i = 0
-            except IndexError:
-                break
+            # subtract the second signal b/c of phase inversion
+            out[i] = (
+                rm / dist * (_get_looped(signal, ind1 * self.up) / rm1 - _get_looped(signal, ind2 * self.up) / rm2)
+            )
+            ind1 += 1.0
+            ind2 += 1.0
+
+            i += 1
+            if i == num:
+                yield out
+                i = 0
 
         if i > 0:  # if there are still samples to yield
             yield out[:i]
@@ -1574,22 +1533,14 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
                 rm *= (1 - Mr) ** 2
                 rm1 *= (1 - Mr) ** 2  # assume that Mr is the same for both poles
                 rm2 *= (1 - Mr) ** 2
-            try:
-                # subtract the second signal b/c of phase inversion
-                out[i] = (
-                    rm
-                    / dist
-                    * (
-                        signal[array(0.5 + ind * self.up, dtype=int64)] / rm1
-                        - signal[array(0.5 + ind * self.up, dtype=int64)] / rm2
-                    )
-                )
-                i += 1
-                if i == num:
-                    yield out
-                    i = 0
-            except IndexError:
-                break
+            # subtract the second signal b/c of phase inversion
+            out[i] = (
+                rm / dist * (_get_looped(signal, ind * self.up) / rm1 - _get_looped(signal, ind * self.up) / rm2)
+            )
+            i += 1
+            if i == num:
+                yield out
+                i = 0
         if i > 0:  # if there are still samples to yield
             yield out[:i]
 
@@ -1710,19 +1661,16 @@ class LineSource(PointSource):
         n = self.num_samples
         while n:
             n -= 1
-            try:
-                for s in range(self.num_sources):
-                    # sum sources
-                    out[i] += signals[s, array(0.5 + inds[:, s].T * self.up, dtype=int64)] / rms[:, s]
-
-                inds += 1.0
-                i += 1
-                if i == num:
-                    yield out
-                    out = zeros((num, self.num_channels))
-                    i = 0
-            except IndexError:
-                break
+            for s in range(self.num_sources):
+                # sum sources
+                out[i] += _get_looped(signals[s], inds[:, s] * self.up) / rms[:, s]
+
+            inds += 1.0
+            i += 1
+            if i == num:
+                yield out
+                out = zeros((num, self.num_channels))
+                i = 0
 
         if i > 0:  # if there are still samples to yield
             yield out[:i]
@@ -1960,19 +1908,15 @@ class MovingLineSource(LineSource, MovingPointSource):
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
                 rms[:, s] *= (1 - Mr) ** 2  # assume that Mr is the same
-            try:
-                # subtract the second signal b/c of phase inversion
-                for s in range(self.num_sources):
-                    # sum sources
-                    out[i] += signals[s, array(0.5 + inds[:, s].T * self.up, dtype=int64)] / rms[:, s]
-
-                i += 1
-                if i == num:
-                    yield out
-                    out = zeros((num, self.num_channels))
-                    i = 0
-            except IndexError:
-                break
+            for s in range(self.num_sources):
+                # sum sources
+                out[i] += _get_looped(signals[s], inds[:, s] * self.up) / rms[:, s]
+
+            i += 1
+            if i == num:
+                yield out
+                out = zeros((num, self.num_channels))
+                i = 0
         if i > 0:  # if there are still samples to yield
             yield out[:i]
 
diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 3ac6c7c..70d499f 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -184,7 +184,7 @@ class MaskedTimeOut(TimeOut):
         if len(self.invalid_channels) == 0:
             return slice(0, None, None)
         allr = [i for i in range(self.num_channels_total) if i not in self.invalid_channels]
-        return array(allr)
+        return array(allr, dtype=int)
 
     @cached_property
     def _get_num_channels(self):
@@ -195,7 +195,7 @@ class MaskedTimeOut(TimeOut):
     @cached_property
     def _get_num_samples(self):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
-        return sli[1] - sli[0]
+        return max(0, sli[1] - sli[0])
 
     def result(self, num):
         """Python generator that yields the output block-wise.
-- 
2.43.0


From aabf03320b60449bc3130e94e1795769e461d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 20/82] fix: emission time of moving sources

---
 acoular/sources.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index f9eeede..18879ab 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1166,10 +1166,9 @@ class MovingPointSource(PointSource):
             j = 0
             # Newton-Rhapson iteration
             while abs(eps).max() > epslim and j < 100:
-                loc = array(tr.location(te))
-                rm = loc - m.pos  # distance vectors to microphones
-                rm = sqrt((rm * rm).sum(0))  # absolute distance
-                loc /= sqrt((loc * loc).sum(0))  # distance unit vector
+                loc = array(tr.location(te)) - m.pos  # distance vectors to microphones
+                rm = sqrt((loc * loc).sum(0))  # absolute distance
+                loc /= rm  # distance unit vector
                 der = array(tr.location(te, der=1))
                 Mr = (der * loc).sum(0) / c0  # radial Mach number
                 eps = (te + rm / c0 - t) / (1 + Mr)  # discrepancy in time
@@ -1177,7 +1176,7 @@ class MovingPointSource(PointSource):
                 j += 1  # iteration count
             t += 1.0 / self.sample_freq
             # emission time relative to start time
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
             out[i] = _get_looped(signal, ind * self.up) / rm
@@ -1413,11 +1412,9 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
         # Newton-Rhapson iteration
         while abs(eps).max() > epslim and j < 100:
             xs = array(self.trajectory.location(te))
-            loc = xs.copy()
-            loc += direction
-            rm = loc - self.mics.pos  # distance vectors to microphones
-            rm = sqrt((rm * rm).sum(0))  # absolute distance
-            loc /= sqrt((loc * loc).sum(0))  # distance unit vector
+            loc = xs + direction - self.mics.pos  # distance vectors to microphones
+            rm = sqrt((loc * loc).sum(0))  # absolute distance
+            loc /= rm  # distance unit vector
             der = array(self.trajectory.location(te, der=1))
             Mr = (der * loc).sum(0) / self.env.c  # radial Mach number
             eps = (te + rm / self.env.c - t) / (1 + Mr)  # discrepancy in time
@@ -1528,7 +1525,7 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             rm1 = self.env._r(loc + diff, mpos)
             rm2 = self.env._r(loc - diff, mpos)
 
-            ind = (te - self.start_t + self.start) * self.sample_freq
+            ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
                 rm1 *= (1 - Mr) ** 2  # assume that Mr is the same for both poles
@@ -1828,11 +1825,9 @@ class MovingLineSource(LineSource, MovingPointSource):
         # Newton-Rhapson iteration
         while abs(eps).max() > epslim and j < 100:
             xs = array(self.trajectory.location(te))
-            loc = xs.copy()
-            loc += direction
-            rm = loc - self.mics.pos  # distance vectors to microphones
-            rm = sqrt((rm * rm).sum(0))  # absolute distance
-            loc /= sqrt((loc * loc).sum(0))  # distance unit vector
+            loc = xs + direction - self.mics.pos  # distance vectors to microphones
+            rm = sqrt((loc * loc).sum(0))  # absolute distance
+            loc /= rm  # distance unit vector
             der = array(self.trajectory.location(te, der=1))
             Mr = (der * loc).sum(0) / self.env.c  # radial Mach number
             eps = (te + rm / self.env.c - t) / (1 + Mr)  # discrepancy in time
@@ -1903,7 +1898,7 @@ class MovingLineSource(LineSource, MovingPointSource):
                 loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
-                inds[:, s] = (te - self.start_t + self.start) * self.sample_freq
+                inds[:, s] = (te - self.start_t) * self.sample_freq
 
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
-- 
2.43.0


From d6df5727da7be25862b9cad4309c16e0301d425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 21/82] fix: line sources and uncorrelated noise leave their
 signal generator alone

---
 acoular/sources.py | 50 +++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 18879ab..5abec8d 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1605,6 +1605,18 @@ class LineSource(PointSource):
     def _get_digest(self):
         return digest(self)
 
+    def _get_source_signals(self):
+        # upsampled signals of all monopoles, the signal generator itself is left as it is
+        signals = []
+        signal = self.signal
+        for s in range(self.num_sources):
+            # new seed for every source
+            if self.coherence == 'incoherent':
+                signal = self.signal.clone_traits()
+                signal.seed = s + int(self.digest[-6:], 16)
+            signals.append(signal.usignal(self.up) * self.source_strength[s])
+        return array(signals)
+
     def result(self, num=128):
         """
         Generate the output signal at microphones in blocks.
@@ -1644,16 +1656,11 @@ class LineSource(PointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
+        signals = self._get_source_signals()
         # for every source - distances
         for s in range(self.num_sources):
             rms[:, s] = self.env._r((loc.T + direc_n * dist * s).T, mpos)
             inds[:, s] = (-rms[:, s] / c - self.start_t + self.start) * self.sample_freq
-            # new seed for every source
-            if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
         i = 0
         n = self.num_samples
         while n:
@@ -1870,15 +1877,7 @@ class MovingLineSource(LineSource, MovingPointSource):
         # distances from monopoles in the line to microphones
         rms = empty((self.num_channels, self.num_sources))
         inds = empty((self.num_channels, self.num_sources))
-        signals = empty((self.num_sources, len(self.signal.usignal(self.up))))
-        # coherence
-        for s in range(self.num_sources):
-            # new seed for every source
-            if self.coherence == 'incoherent':
-                self.signal.seed = s + abs(int(hash(self.digest) // 10e12))
-            self.signal.rms = self.signal.rms * self.source_strength[s]
-            signals[s] = self.signal.usignal(self.up)
-        mpos = self.mics.pos
+        signals = self._get_source_signals()
 
         # shortcuts and initial values
         m = self.mics
@@ -1887,7 +1886,6 @@ class MovingLineSource(LineSource, MovingPointSource):
         n = self.num_samples
         while n:
             n -= 1
-            t += 1.0 / self.sample_freq
             te1, rm1, Mr1, locs1 = self.get_emission_time(t, 0)
             # trajg1 = array(self.trajectory.location( te1, der=1))[:,0][:,newaxis]
 
@@ -1899,10 +1897,9 @@ class MovingLineSource(LineSource, MovingPointSource):
                 diff = self.get_moving_direction(dir2, te)
                 rms[:, s] = self.env._r((loc + diff * s), mpos)
                 inds[:, s] = (te - self.start_t) * self.sample_freq
-
-            if self.conv_amp:
-                rm *= (1 - Mr) ** 2
-                rms[:, s] *= (1 - Mr) ** 2  # assume that Mr is the same
+                if self.conv_amp:
+                    rms[:, s] *= (1 - Mr) ** 2
+            t += 1.0 / self.sample_freq
             for s in range(self.num_sources):
                 # sum sources
                 out[i] += _get_looped(signals[s], inds[:, s] * self.up) / rms[:, s]
@@ -2051,7 +2048,6 @@ class UncorrelatedNoiseSource(SamplesGenerator):
         - Each channel's noise signal is generated using a unique random seed.
         - The type and characteristics of the noise are defined by the :attr:`signal` attribute.
         """
-        Noise = self.signal.__class__
         # create or get the array of random seeds
         if not self.seed.size > 0:
             seed = arange(self.num_channels) + self.signal.seed
@@ -2061,12 +2057,12 @@ class UncorrelatedNoiseSource(SamplesGenerator):
             msg = f'Seed array expected to be of shape ({self.num_channels:d},), but has shape {self.seed.shape}.'
             raise ValueError(msg)
         # create array with [num_channels] noise signal tracks
-        signal = array(
-            [
-                Noise(seed=s, num_samples=self.num_samples, sample_freq=self.sample_freq, rms=self.signal.rms).signal()
-                for s in seed
-            ],
-        ).T
+        noise = self.signal.clone_traits()
+        signals = []
+        for s in seed:
+            noise.seed = int(s)
+            signals.append(noise.signal())
+        signal = array(signals).T
 
         n = num
         while n <= self.num_samples:
-- 
2.43.0


From ae9af0e9ef7c482230537d4ad2f1ccd7d9fc8323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:49 +0000
Subject: [PATCH 22/82] fix: streaming spectra

---
 acoular/fprocess.py | 33 ++++++++++++++++++---------------
 acoular/spectra.py  |  2 ++
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/acoular/fprocess.py b/acoular/fprocess.py
index 8f9e7d9..f4ff4b5 100644
--- a/acoular/fprocess.py
+++ b/acoular/fprocess.py
@@ -68,8 +68,8 @@ class RFFT(BaseSpectra, SpectraOut):
     num_freqs = Property(depends_on=['_block_size'])
 
     #: The total number of snapshots (blocks) available in the FFT result,
-    #: determined by the size of the input data and the block size.
-    num_samples = Property(depends_on=['source.num_samples', '_block_size'])
+    #: determined by the size of the input data, the block size and the overlap.
+    num_samples = Property(depends_on=['source.num_samples', '_block_size', 'overlap'])
 
     #: A 1-D array containing the Discrete Fourier Transform
     #: sample frequencies corresponding to the FFT output.
@@ -93,7 +93,7 @@ class RFFT(BaseSpectra, SpectraOut):
     @cached_property
     def _get_num_samples(self):
         if self.source.num_samples >= 0:
-            return int(np.floor(self.source.num_samples / self.block_size))
+            return max(0, (self.source.num_samples - self.block_size) * self.overlap_ // self.block_size + 1)
         return -1
 
     def _get_block_size(self):
@@ -157,17 +157,18 @@ class RFFT(BaseSpectra, SpectraOut):
             svalue = 1 / wind.sum()
         wind = wind[:, np.newaxis]
         fftdata = np.zeros((num, self.num_channels * self.num_freqs), dtype=self.precision)
-        j = 0
-        for i, data in enumerate(self._get_source_data()):  # yields one block of time data
-            j = i % num
+        j = 0  # number of spectra that are not yet delivered
+        for data in self._get_source_data():  # yields one block of time data
             fftdata[j] = self._scale(
                 fft.rfft(data * wind, n=self.block_size, axis=0, workers=self.workers).astype(self.precision),
                 scaling_value=svalue,
             ).reshape(-1)
-            if j == num - 1:
+            j += 1
+            if j == num:
                 yield fftdata
-        if j < num - 1:  # yield remaining fft spectra
-            yield fftdata[: j + 1]
+                j = 0
+        if j > 0:  # yield remaining fft spectra
+            yield fftdata[:j]
 
 
 @deprecated_alias({'numsamples': 'num_samples'}, read_only=True)
@@ -205,7 +206,7 @@ class IRFFT(TimeOut):
     _buffer = CArray(desc='signal buffer')
 
     #: A unique identifier based on the process properties.
-    digest = Property(depends_on=['source.digest', 'scaling', 'precision', '_block_size', 'window', 'overlap'])
+    digest = Property(depends_on=['source.digest', 'precision'])
 
     def _get_num_samples(self):
         if self.source.num_samples >= 0:
@@ -271,7 +272,7 @@ class IRFFT(TimeOut):
             for spectra in self.source.result(1):
                 yield fft.irfft(
                     spectra.reshape(self.source.num_freqs, self.num_channels), n=num, axis=0, workers=self.workers
-                )
+                ).astype(self.precision)
 
 
 class AutoPowerSpectra(SpectraOut):
@@ -314,7 +315,7 @@ class AutoPowerSpectra(SpectraOut):
         if self.single_sided:
             scale *= 2
         if self.scaling == 'psd':
-            scale *= self.block_size * self.source.sample_freq
+            scale *= self.block_size / self.source.sample_freq
         return scale
 
     def result(self, num=1):
@@ -391,7 +392,7 @@ class CrossPowerSpectra(AutoPowerSpectra):
     #:     - ``'full'``: :math:`n^2` (all elements in the CSM).
     #:     - ``'upper'``: :math:`n + n(n-1)/2` (diagonal + upper triangle elements).
     #:     - ``'lower'``: :math:`n + n(n-1)/2` (diagonal + lower triangle elements).
-    num_channels = Property(depends_on=['source.num_channels'])
+    num_channels = Property(depends_on=['source.num_channels', 'calc_mode'])
 
     #: A unique identifier based on the computation properties.
     digest = Property(depends_on=['source.digest', 'precision', 'scaling', 'single_sided', 'calc_mode'])
@@ -436,6 +437,8 @@ class CrossPowerSpectra(AutoPowerSpectra):
 
         csm_flat = np.zeros((num, nc * nf), dtype=self.precision)
         csm_upper = np.zeros((nf, nc_src, nc_src), dtype=self.precision)
+        upper = np.triu_indices(nc_src)
+        lower = np.tril_indices(nc_src)
         for data in self.source.result(num):
             for i in range(data.shape[0]):
                 calcCSM(csm_upper, data[i].astype(self.precision).reshape(nf, nc_src))
@@ -444,10 +447,10 @@ class CrossPowerSpectra(AutoPowerSpectra):
                     [np.fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
                     csm_flat[i] = (csm_lower + csm_upper).reshape(-1)
                 elif self.calc_mode == 'upper':
-                    csm_flat[i] = csm_upper[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_upper[:, upper[0], upper[1]].reshape(-1)
                 else:  # lower
                     csm_lower = csm_upper.conj().transpose(0, 2, 1)
-                    csm_flat[i] = csm_lower[:, :nc].reshape(-1)
+                    csm_flat[i] = csm_lower[:, lower[0], lower[1]].reshape(-1)
                 csm_upper[...] = 0  # calcCSM adds cumulative
             yield csm_flat[: i + 1] * scale
 
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 92e6d8d..4a781b6 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -525,6 +525,8 @@ class PowerSpectra(BaseSpectra):
 
         ac = self.h5f.get_data_by_reference(nodename)
         if ac[:].sum() == 0:  # only initialized
+            if config.global_caching == 'readonly':
+                return func()
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
             self.h5f.flush()
-- 
2.43.0


From 0dc71088893a22500a5d15466542bd10fafc6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 23/82] fix: file of an abandoned WriteH5 run

---
 acoular/tprocess.py | 58 ++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 70d499f..4e6f45a 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1846,9 +1846,9 @@ class WriteWAV(TimeOut):
             ind = array(self.channels)
             for data in self.source.result(1024):
                 mx = max(abs(data[:, ind]).max(), mx)
-            scale = 0.9 * 2**15 / mx
+            scale = 0.9 * 2**15 / mx if mx > 0 else 0.0
             for data in self.source.result(1024):
-                wf.writeframesraw(array(data[:, ind] * scale, dtype=int16).tostring())
+                wf.writeframesraw(array(data[:, ind] * scale, dtype=int16).tobytes())
 
     def result(self, num):
         msg = 'result method not implemented yet! Data from source will be passed without transformation.'
@@ -1906,10 +1906,12 @@ class WriteH5(TimeOut):
     def save(self):
         """Saves source output to `*.h5` file."""
         f5h = self.get_initialized_file()
-        ac = f5h.get_data_by_reference('time_data')
-        for data in self.source.result(4096):
-            f5h.append_data(ac, data)
-        f5h.close()
+        try:
+            ac = f5h.get_data_by_reference('time_data')
+            for data in self.source.result(4096):
+                f5h.append_data(ac, data)
+        finally:
+            f5h.close()
 
     def add_metadata(self, f5h):
         """Adds metadata to .h5 file."""
@@ -1942,27 +1944,29 @@ class WriteH5(TimeOut):
         """
         self.write_flag = True
         f5h = self.get_initialized_file()
-        ac = f5h.get_data_by_reference('time_data')
-        scount = 0
-        stotal = self.num_samples_write
-        source_gen = self.source.result(num)
-        while self.write_flag:
-            sleft = stotal - scount
-            if stotal != -1 and sleft > 0:
-                anz = min(num, sleft)
-            elif stotal == -1:
-                anz = num
-            else:
-                break
-            try:
-                data = next(source_gen)
-            except StopIteration:
-                break
-            f5h.append_data(ac, data[:anz])
-            f5h.flush()
-            yield data
-            scount += anz
-        f5h.close()
+        try:
+            ac = f5h.get_data_by_reference('time_data')
+            scount = 0
+            stotal = self.num_samples_write
+            source_gen = self.source.result(num)
+            while self.write_flag:
+                sleft = stotal - scount
+                if stotal != -1 and sleft > 0:
+                    anz = min(num, sleft)
+                elif stotal == -1:
+                    anz = num
+                else:
+                    break
+                try:
+                    data = next(source_gen)
+                except StopIteration:
+                    break
+                f5h.append_data(ac, data[:anz])
+                f5h.flush()
+                yield data
+                scount += anz
+        finally:  # also if the generator is not run to its end
+            f5h.close()
 
 
 class TimeConvolve(TimeOut):
-- 
2.43.0


From 0b99f961c4ff0c5d4d67c70d4f4b2791082dea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:20 +0000
Subject: [PATCH 24/82] fix: buffers of SampleSplitter only overflow if there
 is another block

---
 acoular/process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/acoular/process.py b/acoular/process.py
index 6726215..35b8928 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -578,7 +578,10 @@ class SampleSplitter(InOut):
     def _fill_block_buffers(self):
         # blocks are only valid until the next one is requested
         next_block = next(self._source_generator).copy()
-        [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
+        # buffers only overflow if there is another block to store
+        self._inspect_buffer_levels(self._get_objs_to_inspect())
+        if not self._buffer_overflow:
+            [self.block_buffer[obj].appendleft(next_block) for obj in self.block_buffer]
 
     @on_trait_change('buffer_size')
     def _change_buffer_size(self):  #
@@ -694,7 +697,6 @@ class SampleSplitter(InOut):
         """
         calling_obj = currentframe().f_back.f_locals['self']
         self._assert_obj_registered(calling_obj)
-        objs_to_inspect = self._get_objs_to_inspect()
 
         with self._lock:
             # blocks that are left from an exhausted source belong to objects not started so far
@@ -706,7 +708,6 @@ class SampleSplitter(InOut):
         while not self._buffer_overflow:
             with self._lock:
                 if not self.block_buffer[calling_obj]:
-                    self._inspect_buffer_levels(objs_to_inspect)
                     try:
                         self._fill_block_buffers()
                     except StopIteration:
-- 
2.43.0


From f620b15e97a022650c7b0572e0897cebbc819cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:49 +0000
Subject: [PATCH 25/82] fix: indexing, integration and point spread functions

---
 acoular/fbeamform.py | 92 +++++++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 39 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 5e75965..82ff79f 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -58,7 +58,6 @@ from numpy import (
     index_exp,
     inf,
     integer,
-    invert,
     isscalar,
     log10,
     ndarray,
@@ -208,7 +207,7 @@ class SteeringVector(HasStrictTraits):
         if isscalar(self.ref):
             if self.ref > 0:
                 return full((self.grid.size,), self.ref)
-            return self.env._r(self.grid.pos())
+            return self.env._r(self.grid.pos)
         return self.env._r(self.grid.pos, self.ref[:, newaxis])
 
     @property_depends_on(['grid.digest', 'mics.digest', 'env.digest'])
@@ -291,18 +290,27 @@ class LazyBfResult:
 
     def __getitem__(self, key):
         # 'intelligent' [] operator checks if results are available and triggers calculation
-        sl = index_exp[key][0]
-        if isinstance(sl, (int, integer)):
-            sl = slice(sl, sl + 1)
+        sl, *rest = index_exp[key]
+        # indices which are requested, these can be given by any kind of index
+        reqind = unique(arange(self.bf._numfreq)[sl])
         # indices which are missing
-        missingind = arange(*sl.indices(self.bf._numfreq))[self.bf._fr[sl] == 0]
+        missingind = reqind[self.bf._fr[:][reqind] == 0]
         # calc if needed
         if missingind.size:
             self.bf._calc(missingind)
             if self.bf.h5f:
                 self.bf.h5f.flush()
 
-        return self.bf._ac.__getitem__(key)
+        ac = self.bf._ac
+        if isinstance(ac, ndarray):
+            return ac[key]
+        # cached data can not be accessed with every kind of index
+        if isinstance(sl, (int, integer)):
+            return ac[int(arange(self.bf._numfreq)[sl])][tuple(rest)]
+        if isinstance(sl, slice) and reqind.size:
+            rows = ac[reqind[0] : reqind[-1] + 1][arange(self.bf._numfreq)[sl] - reqind[0]]
+            return rows[(slice(None), *rest)]
+        return ac[:][key]
 
 
 class BeamformerBase(HasStrictTraits):
@@ -430,14 +438,14 @@ class BeamformerBase(HasStrictTraits):
         ):
             (ac, fr, gpos) = self._get_filecache()  # can also be (None, None, None)
             if gpos:  # we have an adaptive grid
-                self._gpos = gpos
+                self._gpos = gpos[:] if config.global_caching == 'readonly' else gpos
         if ac and fr:  # cached data is available
             if config.global_caching == 'readonly':
                 (ac, fr) = (ac[:], fr[:])  # so never write back to disk
         else:
             # no caching or not activated, init numpy arrays
             if isinstance(self, BeamformerAdaptiveGrid):
-                self._gpos = zeros((3, self.size), dtype=self.precision)
+                self._gpos = zeros((3, self.size), dtype='float64')
                 ac = zeros((self._numfreq, self.size), dtype=self.precision)
             elif isinstance(self, BeamformerSODIX):
                 ac = zeros((self._numfreq, self.steer.grid.size * self.steer.mics.num_mics), dtype=self.precision)
@@ -660,6 +668,7 @@ class BeamformerBase(HasStrictTraits):
                 msg,
             )
         gshape = self.steer.grid.shape
+        res = self.result  # makes the frequencies of the result available
         if num == 0 or frange is None:
             if frange is None:
                 ind_low = self.freq_data.ind_low
@@ -683,7 +692,7 @@ class BeamformerBase(HasStrictTraits):
                 )
             h = zeros(self._numfreq, dtype=float)
             sl = slice(*irange)
-            r = self.result[sl]
+            r = res[sl]
             for i in range(*irange):
                 # we do this per frequency because r might not have fancy indexing
                 h[i] = r[i - sl.start].reshape(gshape)[ind].sum()
@@ -1019,7 +1028,7 @@ class PointSpreadFunction(HasStrictTraits):
         exist and global caching mode is 'readonly'.
         """
         filename = 'psf' + self.digest
-        nodename = (f'Hz_{self.freq:.2f}').replace('.', '_')
+        nodename = f'Hz_{self.freq!r}'.replace('.', '_').replace('-', 'm').replace('+', '')
         #        print("get cachefile:", filename)
         H5cache.get_cache_file(self, filename)
         if not self.h5f:  # only happens in case of global caching readonly
@@ -1052,15 +1061,14 @@ class PointSpreadFunction(HasStrictTraits):
         The point spread function is either loaded or calculated.
         """
         gs = self.steer.grid.size
-        if not self.grid_indices.size:
-            self.grid_indices = arange(gs)
+        indices = self._get_indices()
 
         if config.global_caching != 'none':
             #            print("get filecache..")
             (ac, gp) = self._get_filecache()
             if ac and gp:
                 #                print("cached data existent")
-                if not gp[:][self.grid_indices].all():
+                if not gp[:][indices].all():
                     #                    print("calculate missing results")
                     if self.calcmode == 'readonly':
                         msg = "Cannot calculate missing PSF (points) in 'readonly' mode."
@@ -1068,13 +1076,14 @@ class PointSpreadFunction(HasStrictTraits):
                     if config.global_caching == 'readonly':
                         (ac, gp) = (ac[:], gp[:])
                         self.calc_psf(ac, gp)
-                        return ac[:, self.grid_indices]
+                        return ac[:, indices]
                     self.calc_psf(ac, gp)
                     self.h5f.flush()
-                    return ac[:, self.grid_indices]
                 #                else:
                 #                    print("cached results are complete! return.")
-                return ac[:, self.grid_indices]
+                # cached data can only be accessed with sorted and unique indices
+                indices, inverse = unique(indices, return_inverse=True)
+                return ac[:, indices][:, inverse]
             #           print("no caching, calculate result")
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
@@ -1084,31 +1093,32 @@ class PointSpreadFunction(HasStrictTraits):
             ac = zeros((gs, gs), dtype=self.precision)
             gp = zeros((gs,), dtype='int8')
             self.calc_psf(ac, gp)
-        return ac[:, self.grid_indices]
+        return ac[:, indices]
+
+    def _get_indices(self):
+        # indices of the source positions, all grid points if there are none given
+        indices = arange(self.steer.grid.size)
+        return indices[self.grid_indices] if self.grid_indices.size else indices
 
     def calc_psf(self, ac, gp):
         """point-spread function calculation."""
         if self.calcmode != 'full':
-            # calc_ind has the form [True, True, False, True], except
-            # when it has only 1 entry (value True/1 would be ambiguous)
-            calc_ind = [0] if self.grid_indices.size == 1 else invert(gp[:][self.grid_indices])
-
-            # get indices which have the value True = not yet calculated
-            g_ind_calc = self.grid_indices[calc_ind]
+            # get indices which are not yet calculated
+            g_ind_calc = unique(self._get_indices())
+            g_ind_calc = g_ind_calc[gp[:][g_ind_calc] == 0]
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
                 ac[:, ind] = self._psf_call([ind])[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
-            gp[:] = 1
             ac[:] = self._psf_call(arange(self.steer.grid.size))
-        else:  # 'block' # calculate selected psfs in one go
+            gp[:] = 1
+        elif g_ind_calc.size:  # 'block' # calculate selected psfs in one go
             hh = self._psf_call(g_ind_calc)
             for indh, ind in enumerate(g_ind_calc):
-                gp[ind] = 1
                 ac[:, ind] = hh[:, indh]
-                indh += 1
+                gp[ind] = 1
 
     def _psf_call(self, ind):
         """Manages the calling of the core psf functionality.
@@ -1443,6 +1453,7 @@ class BeamformerOrth(BeamformerBase):
         for i in ind:
             eva = array(self.freq_data.eva[i], dtype='float64')
             eve = array(self.freq_data.eve[i], dtype='complex128')
+            result = zeros(self.steer.grid.size)
             for n in self.eva_list:
                 beamformerOutput = beamformerFreq(
                     param_steer_type,
@@ -1451,7 +1462,8 @@ class BeamformerOrth(BeamformerBase):
                     steer_vector(f[i]),
                     (ones(1), eve[:, n].reshape((-1, 1))),
                 )[0]
-                self._ac[i, beamformerOutput.argmax()] += eva[n] / num_channels
+                result[beamformerOutput.argmax()] += eva[n] / num_channels
+            self._ac[i] = result
             self._fr[i] = 1
 
 
@@ -1973,9 +1985,9 @@ class BeamformerSODIX(BeamformerBase):
         # SODIX needs special treatment as the result from one frequency is used to
         # determine the initial guess for the next frequency in order to speed up
         # computation. Instead of just solving for only the frequencies in ind, we
-        # start with index 1 (minimum frequency) and also check if the result is
+        # start with the minimum frequency and also check if the result is
         # already computed
-        for i in range(1, ind.max() + 1):
+        for i in range(1 if f[0] == 0 else 0, ind.max() + 1):
             if not self._fr[i]:
                 # measured csm
                 csm = array(self.freq_data.csm[i], dtype='complex128', copy=1)
@@ -2016,7 +2028,7 @@ class BeamformerSODIX(BeamformerBase):
                         return func, derdrl.ravel()
 
                     ##### initial guess ####
-                    if not self._fr[(i - 1)]:
+                    if i == 0 or not self._fr[(i - 1)]:
                         D0 = ones([num_points, num_mics])
                     else:
                         D0 = sqrt(
@@ -2304,7 +2316,7 @@ class BeamformerAdaptiveGrid(BeamformerBase, Grid):
         return (self.size,)
 
     def _get_pos(self):
-        return self._gpos
+        return None if self._gpos is None else self._gpos[:]
 
     def integrate(self, sector):
         """Integrates result map over a given sector.
@@ -2329,8 +2341,8 @@ class BeamformerAdaptiveGrid(BeamformerBase, Grid):
                 msg,
             )
 
+        r = self.result[:]  # this also finds the positions
         ind = self.subdomain(sector)
-        r = self.result
         h = zeros(r.shape[0])
         for i in range(r.shape[0]):
             h[i] = r[i][ind].sum()
@@ -2375,7 +2387,7 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
 
     # internal identifier
     digest = Property(
-        depends_on=['freq_data.digest', 'steer.digest', 'precision', 'r_diag', 'eva_list', 'bounds', 'shgo'],
+        depends_on=['freq_data.digest', 'steer.digest', 'precision', 'r_diag', 'eva_list', 'bounds[]', 'shgo[]'],
     )
 
     @cached_property
@@ -2387,9 +2399,9 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
         """Sets the list of eigenvalues to consider."""
         self.eva_list = arange(-1, -1 - self.n, -1)
 
-    @property_depends_on('n')
+    @property_depends_on(['eva_list', 'freq_data.digest'])
     def _get_size(self):
-        return self.n * self.freq_data.fftfreq().shape[0]
+        return self.eva_list.shape[0] * self.freq_data.fftfreq().shape[0]
 
     def _calc(self, ind):
         """Calculates the result for the frequencies defined by :attr:`freq_data`.
@@ -2432,7 +2444,8 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
             for y in self.bounds[1]:
                 for z in self.bounds[2]:
                     roi.append((x, y, z))
-        self.steer.env.roi = array(roi).T
+        env_roi = env.roi
+        env.roi = array(roi).T
         bmin = array(tuple(map(min, self.bounds)))
         bmax = array(tuple(map(max, self.bounds)))
         for i in ind:
@@ -2458,13 +2471,14 @@ class BeamformerGridlessOrth(BeamformerAdaptiveGrid):
                 # simplical global homotopy optimizer
                 oR = shgo(func, self.bounds, **shgo_opts)
                 # index in grid
-                i1 = i * self.n + j
+                i1 = i * self.eva_list.shape[0] + j
                 # store result for position
                 self._gpos[:, i1] = oR['x']
                 # store result for level
                 self._ac[i, i1] = eva[n] / num_channels
                 # print(oR['x'],eva[n]/num_channels,oR)
             self._fr[i] = 1
+        env.roi = env_roi
 
 
 def L_p(x):  # noqa: N802
-- 
2.43.0


From f4aaed1fdb31eb129d304daecf3afa2cf867a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:12 +0000
Subject: [PATCH 26/82] fix: overwriting and read-only access of cached results

---
 acoular/fbeamform.py | 12 ++++++------
 acoular/spectra.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 82ff79f..8ed3954 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -380,9 +380,7 @@ class BeamformerBase(HasStrictTraits):
 
         nodename = self.__class__.__name__ + self.digest
         #        print("collect filecache for nodename:",nodename)
-        if config.global_caching == 'overwrite' and self.h5f.is_cached(nodename):
-            #            print("remove existing data for nodename",nodename)
-            self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
+        overwrite = config.global_caching == 'overwrite' and self.h5f.is_cached(nodename)
 
         if not self.h5f.is_cached(nodename):
             #            print("no data existent for nodename:", nodename)
@@ -411,6 +409,8 @@ class BeamformerBase(HasStrictTraits):
 
         ac = self.h5f.get_data_by_reference('result', '/' + nodename)
         fr = self.h5f.get_data_by_reference('freqs', '/' + nodename)
+        if overwrite:  # existing data is replaced in place, as other objects may use it
+            fr[:] = 0
         if isinstance(self, BeamformerAdaptiveGrid):
             gpos = self.h5f.get_data_by_reference('gpos', '/' + nodename)
         else:
@@ -1035,9 +1035,7 @@ class PointSpreadFunction(HasStrictTraits):
             #            print("no cachefile:", filename)
             return (None, None)  # only happens in case of global caching readonly
 
-        if config.global_caching == 'overwrite' and self.h5f.is_cached(nodename):
-            #            print("remove existing data for nodename",nodename)
-            self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
+        overwrite = config.global_caching == 'overwrite' and self.h5f.is_cached(nodename)
 
         if not self.h5f.is_cached(nodename):
             #            print("no data existent for nodename:", nodename)
@@ -1054,6 +1052,8 @@ class PointSpreadFunction(HasStrictTraits):
             )
         ac = self.h5f.get_data_by_reference('result', '/' + nodename)
         gp = self.h5f.get_data_by_reference('gridpts', '/' + nodename)
+        if overwrite:
+            gp[:] = 0
         return (ac, gp)
 
     def _get_psf(self):
diff --git a/acoular/spectra.py b/acoular/spectra.py
index 4a781b6..4f5cc67 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -397,7 +397,8 @@ class PowerSpectra(BaseSpectra):
         [fill_diagonal(csm_lower[cntFreq, :, :], 0) for cntFreq in range(csm_lower.shape[0])]
         csm = csm_lower + csm_upper
         # onesided spectrum: multiplication by 2.0=sqrt(2)^2
-        return csm * (2.0 / self.block_size / weight / self.num_blocks)
+        csm *= 2.0 / self.block_size / weight / self.num_blocks
+        return csm
 
     def calc_ev(self):
         """
@@ -513,10 +514,6 @@ class PowerSpectra(BaseSpectra):
             return func()
 
         nodename = traitname + '_' + self.digest
-        if config.global_caching == 'overwrite' and self.h5f.is_cached(nodename):
-            # print("remove existing node",nodename)
-            self.h5f.remove_data(nodename)  # remove old data before writing in overwrite mode
-
         if not self.h5f.is_cached(nodename):
             if config.global_caching == 'readonly':
                 return func()
@@ -524,12 +521,15 @@ class PowerSpectra(BaseSpectra):
             self.h5f.create_compressible_array(nodename, shape, precision)
 
         ac = self.h5f.get_data_by_reference(nodename)
-        if ac[:].sum() == 0:  # only initialized
+        # existing data is replaced in place, as other objects may use it
+        if config.global_caching == 'overwrite' or ac[:].sum() == 0:  # only initialized
             if config.global_caching == 'readonly':
                 return func()
             #            print("write {} to:".format(traitname),nodename)
             ac[:] = func()
             self.h5f.flush()
+        if config.global_caching == 'readonly':
+            return ac[:]  # the file is closed when it has to be written later
         return ac
 
     @property_depends_on(['digest'])
-- 
2.43.0


From 6177db698667a6fd7dc7bbfe27e8ba928cb3afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:04 +0000
Subject: [PATCH 27/82] fix: interrupted creation of cache files and entries
 does not block later runs

---
 acoular/fbeamform.py | 12 ++++++++++++
 acoular/h5cache.py   |  2 ++
 acoular/h5files.py   |  8 ++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 8ed3954..41b80a7 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -380,6 +380,12 @@ class BeamformerBase(HasStrictTraits):
 
         nodename = self.__class__.__name__ + self.digest
         #        print("collect filecache for nodename:",nodename)
+        if self.h5f.is_cached(nodename) and 'result' not in dict(self.h5f.get_child_nodes('/' + nodename)):
+            # creating the entry was interrupted
+            if config.global_caching == 'readonly':
+                return (None, None, None)
+            self.h5f.remove_data(nodename)
+
         overwrite = config.global_caching == 'overwrite' and self.h5f.is_cached(nodename)
 
         if not self.h5f.is_cached(nodename):
@@ -1035,6 +1041,12 @@ class PointSpreadFunction(HasStrictTraits):
             #            print("no cachefile:", filename)
             return (None, None)  # only happens in case of global caching readonly
 
+        if self.h5f.is_cached(nodename) and 'gridpts' not in dict(self.h5f.get_child_nodes('/' + nodename)):
+            # creating the entry was interrupted
+            if config.global_caching == 'readonly':
+                return (None, None)
+            self.h5f.remove_data(nodename)
+
         overwrite = config.global_caching == 'overwrite' and self.h5f.is_cached(nodename)
 
         if not self.h5f.is_cached(nodename):
diff --git a/acoular/h5cache.py b/acoular/h5cache.py
index 9c8e7cc..a124672 100644
--- a/acoular/h5cache.py
+++ b/acoular/h5cache.py
@@ -112,6 +112,8 @@ class HDF5Cache(HasStrictTraits):
             if file is None:
                 file = file_cls(filename, mode)
                 self.open_files[filename] = file
+                if mode != 'r':
+                    file.flush()  # a new file is only readable after its header was written
 
             obj.h5f = file
             self._increase_file_reference_counter(filename)
diff --git a/acoular/h5files.py b/acoular/h5files.py
index a91e65f..abb8061 100644
--- a/acoular/h5files.py
+++ b/acoular/h5files.py
@@ -149,8 +149,12 @@ if config.have_h5py:
         def append_data(self, node, data):
             old_shape = node.shape
             new_shape = (old_shape[0] + data.shape[0], data.shape[1])
-            node.resize(new_shape)
-            node[old_shape[0] : new_shape[0], :] = data
+            try:
+                node.resize(new_shape)
+                node[old_shape[0] : new_shape[0], :] = data
+            except BaseException:
+                node.resize(old_shape)  # no rows without data
+                raise
 
         def remove_data(self, nodename, group=None):
             in_file_path = self._get_in_file_path(nodename, group)
-- 
2.43.0


From 4edbc95fca724fbf1c7e239d626c747f8e4502fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:24 +0000
Subject: [PATCH 28/82] fix: two caches of the same data in two threads

---
 acoular/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/process.py b/acoular/process.py
index 35b8928..0651fe3 100644
--- a/acoular/process.py
+++ b/acoular/process.py
@@ -400,7 +400,7 @@ class Cache(InOut):
                         generator = self._pass_data
                     else:
                         generator = self._get_data_from_incomplete_cache
-            elif not self.h5f.is_cached(nodename):
+            else:
                 generator = self._write_data_to_cache
                 if config.global_caching == 'readonly':
                     generator = self._pass_data
-- 
2.43.0


From 12c79308c6f75d3e29cc3ff07d4a1a5b58daf7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:27 +0000
Subject: [PATCH 29/82] fix: power weighting of time beamformers with current
 numpy and for one ring

---
 acoular/tbeamform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 34daa16..0150c9e 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -73,12 +73,13 @@ def const_power_weight(bf):
     array of floats
         The weight factors.
     """
-    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos)  # distances to center
+    r = bf.steer.env._r(zeros((3, 1)), bf.steer.mics.pos).ravel()  # distances to center
     # round the relative distances to one decimal place
     r = (r / r.max()).round(decimals=1)
     ru, ind = unique(r, return_inverse=True)
     ru = (ru[1:] + ru[:-1]) / 2
-    count, bins = histogram(r, r_[0, ru, 1.5 * r.max() - 0.5 * ru[-1]])
+    inner = r_[0, ru]
+    count, bins = histogram(r, r_[inner, 1.5 * r.max() - 0.5 * inner[-1]])
     bins *= bins
     weights = sqrt((bins[1:] - bins[:-1]) / count)
     weights /= weights.mean()
-- 
2.43.0


From b9a16106ad536a69e7db08d3da9b2eba5145d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:27 +0000
Subject: [PATCH 30/82] fix: reference position in trajectory beamformers

---
 acoular/tbeamform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 0150c9e..ae2631c 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -350,9 +350,11 @@ class BeamformerTimeTraj(BeamformerTime):
         return (ma * sum(rmv.reshape((3, -1)) * fdv, 0) / rm.reshape(-1)).reshape(rm.shape)
 
     def get_r0(self, tpos):
-        if isscalar(self.steer.ref) and self.steer.ref > 0:
-            return self.steer.ref  # full((self.steer.grid.size,), self.steer.ref)
-        return self.steer.env._r(tpos)
+        if isscalar(self.steer.ref):
+            if self.steer.ref > 0:
+                return self.steer.ref  # full((self.steer.grid.size,), self.steer.ref)
+            return self.steer.env._r(tpos)
+        return self.steer.env._r(tpos, self.steer.ref[:, newaxis])
 
     def result(self, num=2048):
         """Python generator that yields the time-domain beamformer output.
-- 
2.43.0


From a6276579e064dc7abd3984562af1d6ec75211405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:27 +0000
Subject: [PATCH 31/82] fix: end of stream and weighting in time beamformers

---
 acoular/tbeamform.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index ae2631c..c37d8ce 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -172,9 +172,13 @@ class BeamformerTime(TimeOut):
             dtype=fdtype,
         )
         for p_res in buffer.result(num):
-            p_res *= weights
-            if p_res.shape[0] < buffer.result_num:  # last block shorter
+            # consecutive windows overlap, do not change the buffered samples
+            p_res = p_res * weights
+            last_block = p_res.shape[0] < buffer.result_num
+            if last_block:  # last block shorter
                 num = p_res.shape[0] - max_sample_delay
+                if num <= 0:
+                    break
                 n_index = arange(0, num + 1)[:, newaxis]
             # init step
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
@@ -224,6 +228,8 @@ class BeamformerTime(TimeOut):
                     yield Gamma[:num] ** 2 - (self.damp**2) * Gamma_autopow[:num]
                 else:
                     yield Gamma[:num] ** 2
+            if last_block:
+                break
 
     def _delay_and_sum(self, num, p_res, d_interp2, d_index, amp):
         """Standard delay-and-sum method."""
-- 
2.43.0


From 3a3cd479f5be67728229351c53ac9945dc3ce72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:27 +0000
Subject: [PATCH 32/82] fix: end of trajectory and block size dependent end in
 trajectory beamformers

---
 acoular/tbeamform.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index c37d8ce..3061c8a 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -415,13 +415,24 @@ class BeamformerTimeTraj(BeamformerTime):
         buffered_result = buffer.result(num)
         while flag:
             for i in range(num):
-                tpos = next(movgpos).astype(fdtype)
+                tpos = next(movgpos, None)
+                if tpos is None:  # the trajectory ends within this block
+                    num = i
+                    flag = False
+                    break
+                tpos = tpos.astype(fdtype)
                 rm = self.steer.env._r(tpos, mpos)  # .astype(fdtype)
                 blockr0[i, :] = self.get_r0(tpos)
                 blockrm[i, :, :] = rm
                 if self.conv_amp:
                     ht = next(movgspeed)
                     blockrmconv[i, :, :] = rm * (1 - self._get_macostheta(ht, tpos, rm)) ** 2
+            if not flag:
+                if num == 0:
+                    break
+                n_index = n_index[:num]
+                blockrm, blockrmconv, blockr0 = blockrm[:num], blockrmconv[:num], blockr0[:num]
+                amp, d_index, d_interp2 = amp[:num], d_index[:num], d_interp2[:num]
             if self.conv_amp:
                 steer_func(blockrmconv, blockr0, amp)
             else:
@@ -431,14 +442,18 @@ class BeamformerTimeTraj(BeamformerTime):
             buffer.result_num = num + max_sample_delay
 
             try:
-                time_block = next(buffered_result)
-                time_block *= weights
+                # consecutive windows overlap, do not change the buffered samples
+                time_block = (next(buffered_result) * weights).astype(fdtype, copy=False)
             except StopIteration:
                 break
             if time_block.shape[0] < buffer.result_num:  # last block shorter
-                num = sum((d_index.max((1, 2)) + 1 + arange(0, num)) < time_block.shape[0])
-                n_index = arange(num, dtype=idtype)[:, newaxis]
-                flag = False
+                missing = (d_index.max((1, 2)) + 1 + arange(0, num)) >= time_block.shape[0]
+                if missing.any():
+                    num = int(missing.argmax())
+                    if num == 0:
+                        break
+                    n_index = arange(num, dtype=idtype)[:, newaxis]
+                    flag = False
             # init step
             p_res = time_block.copy()
             Phi, autopow = self._delay_and_sum(num, p_res, d_interp2, d_index, amp)
-- 
2.43.0


From 044ff1a5fdb2789a787ff9ed0ab43b528b81b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:23 +0000
Subject: [PATCH 33/82] fix: interpolation mesh of spatial interpolators after
 a change

---
 acoular/tprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 4e6f45a..fb7530d 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -733,8 +733,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
     )
 
     # Stores the output of :meth:`_virtNewCoord_func`; Read-Only
-    _virtNewCoord_func = Property(  # noqa: N815
-        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero'],
+    virtNewCoord = Property(  # noqa: N815
+        depends_on=['mics.digest', 'mics_virtual.digest', 'method', 'array_dimension', 'interp_at_zero', 'Q'],
     )
 
     # internal identifier
-- 
2.43.0


From fee170d604b644cb8198e33feb084e450b373ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:37 +0000
Subject: [PATCH 34/82] fix: digest of GenericSignalGenerator after num_samples
 is set

---
 acoular/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/signals.py b/acoular/signals.py
index 9c04ec9..cc05832 100644
--- a/acoular/signals.py
+++ b/acoular/signals.py
@@ -603,7 +603,7 @@ class GenericSignalGenerator(SignalGenerator):
     #: The number of samples to generate. Default is the number of samples available in the
     #: :attr:`source` (``source.num_samples``). If set explicitly, it can exceed the source length,
     #: in which case the signal will loop if :attr:`loop_signal` is ``True``.
-    num_samples = Property()
+    num_samples = Property(depends_on=['_num_samples', 'source.num_samples'])
 
     def _get_num_samples(self):
         if self._num_samples:
-- 
2.43.0


From 2885deb70262700a0fb03c2f5e1b7b54a9c77428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 35/82] fix: rays of GeneralFlowEnvironment after a change of
 settings or points

---
 acoular/environments.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index f179e06..44ab7fb 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -56,6 +56,7 @@ from scipy.linalg import norm
 from scipy.spatial import ConvexHull
 from traits.api import (
     ABCHasStrictTraits,
+    Any,
     CArray,
     Dict,
     Float,
@@ -826,6 +827,9 @@ class GeneralFlowEnvironment(Environment):
     #: (internal use)
     idict = Dict
 
+    # The settings and region the stored interpolators were made for.
+    _idict_key = Any
+
     @cached_property
     def _get_digest(self):
         return digest(self)
@@ -836,6 +840,13 @@ class GeneralFlowEnvironment(Environment):
         if isscalar(mpos):
             mpos = array((0, 0, 0), dtype=float32)[:, newaxis]
 
+        roi = gpos if self.roi is None else self.roi
+        # the stored interpolators are valid for the same settings and region only
+        idict_key = (self.digest, array(roi, dtype=float).tobytes())
+        if self._idict_key != idict_key:
+            self.idict = {}
+            self._idict_key = idict_key
+
         gt = empty((gpos.shape[-1], mpos.shape[-1]))
         for micnum, x0 in enumerate(mpos.T):
             key = x0.tobytes()  # make array hashable
@@ -843,9 +854,6 @@ class GeneralFlowEnvironment(Environment):
                 li = self.idict[key]  # fetch stored interpolator
             except KeyError:
                 # if interpolator doesn't exist, construct it
-                roi = gpos
-                if self.roi is not None:
-                    roi = self.roi
                 li = self.get_interpolator(roi, x0)
                 self.idict[key] = li
             # do the interpolation
-- 
2.43.0


From 9b0ec92e4824bef307734e010f8a9553b2553fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:10 +0000
Subject: [PATCH 36/82] fix: load data when a file with the same name in
 another folder is selected, identify imported CSM by file content

---
 acoular/aiaa/aiaa.py | 18 +++++++++++++++---
 acoular/sources.py   |  4 ++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/acoular/aiaa/aiaa.py b/acoular/aiaa/aiaa.py
index bdb1182..3c4b5a3 100644
--- a/acoular/aiaa/aiaa.py
+++ b/acoular/aiaa/aiaa.py
@@ -39,7 +39,7 @@ from traits.api import (
 
 from acoular.deprecation import deprecated_alias
 from acoular.h5files import H5FileBase, _get_h5file_class
-from acoular.internal import digest
+from acoular.internal import data_checksum, digest
 from acoular.microphones import MicGeom
 from acoular.sources import TimeSamples
 from acoular.spectra import PowerSpectraImport
@@ -97,14 +97,20 @@ class CsmAIAABenchmark(PowerSpectraImport):
         desc='basename of data file',
     )
 
+    #: cross spectral matrix read from the file
+    csm = Property(desc='cross spectral matrix')
+
     #: number of channels
     num_channels = Property()
 
     #: HDF5 file object
     h5f = Instance(H5FileBase, transient=True)
 
+    # checksum over all data that is read from the file
+    _filesum = Property(depends_on=['file'])
+
     # internal identifier
-    digest = Property(depends_on=['basename', '_csmsum'])
+    digest = Property(depends_on=['basename', '_csmsum', '_filesum', 'precision'])
 
     @cached_property
     def _get_digest(self):
@@ -114,7 +120,13 @@ class CsmAIAABenchmark(PowerSpectraImport):
     def _get_basename(self):
         return get_file_basename(self.file)
 
-    @on_trait_change('basename')
+    @cached_property
+    def _get__filesum(self):
+        names = ['csmReal', 'csmImaginary', 'binCenterFrequenciesHz']
+        sums = [data_checksum(self.h5f.get_data_by_reference(f'/CsmData/{name}')) for name in names]
+        return [*sums, self.h5f.get_node_attribute(self.h5f.get_data_by_reference('/CsmData'), 'fftSign')]
+
+    @on_trait_change('file')
     def load_data(self):
         """Open the .h5 file and set attributes."""
         if self.h5f is not None:
diff --git a/acoular/sources.py b/acoular/sources.py
index 5abec8d..04b96c9 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -423,7 +423,7 @@ class TimeSamples(SamplesGenerator):
     def _get_basename(self):
         return get_file_basename(self.file)
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def _load_data(self):
         # Open the .h5 file and set attributes.
         if self.h5f is not None:
@@ -650,7 +650,7 @@ class MaskedTimeSamples(TimeSamples):
         sli = slice(self.start, self.stop).indices(self.num_samples_total)
         return max(0, sli[1] - sli[0])
 
-    @on_trait_change('basename')
+    @on_trait_change('file')
     def _load_data(self):
         # Open the .h5 file and set attributes.
         if not path.isfile(self.file):
-- 
2.43.0


From ae2ce1e846b8b8116c4a4c724a561ca2b5d7ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:45 +0000
Subject: [PATCH 37/82] fix: equal digests for settings given as integer or
 floating point number

---
 acoular/internal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/internal.py b/acoular/internal.py
index 57c1cbd..209c062 100644
--- a/acoular/internal.py
+++ b/acoular/internal.py
@@ -34,6 +34,8 @@ def _fingerprint(value):
             body = _fingerprint(value.digest)
         kind = str(value.__class__)
     else:
+        if isinstance(value, float) and value.is_integer():
+            value = int(value)  # integers and floats compare equal
         body = str(value).encode('UTF-8')
         kind = 'value'
     return f'<{kind} {len(body)}>'.encode('UTF-8') + body
-- 
2.43.0


From d2bb8d54732d3dfde9d4b3acbc56800a955ada91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:45 +0000
Subject: [PATCH 38/82] fix: freq_range after the upper limit was open

---
 acoular/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/spectra.py b/acoular/spectra.py
index 4f5cc67..e5b181c 100644
--- a/acoular/spectra.py
+++ b/acoular/spectra.py
@@ -291,7 +291,7 @@ class PowerSpectra(BaseSpectra):
     def _get_freq_range(self):
         fftfreq = self.fftfreq()
         if fftfreq is not None:
-            if self._ind_high is None:
+            if self.ind_high is None:
                 return array([fftfreq[self.ind_low], None])
             return fftfreq[[self.ind_low, self.ind_high]]
         return None
-- 
2.43.0


From bf5d19c37f7cf61969f594ccac237451b6c06f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:45 +0000
Subject: [PATCH 39/82] fix: point spread functions of derived steering vectors
 one by one

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 41b80a7..cb644a4 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1121,7 +1121,7 @@ class PointSpreadFunction(HasStrictTraits):
 
         if self.calcmode == 'single':  # calculate selected psfs one-by-one
             for ind in g_ind_calc:
-                ac[:, ind] = self._psf_call([ind])[:, 0]
+                ac[:, ind] = self._psf_call(array([ind]))[:, 0]
                 gp[ind] = 1
         elif self.calcmode == 'full':  # calculate all psfs in one go
             ac[:] = self._psf_call(arange(self.steer.grid.size))
-- 
2.43.0


From 638f4af8af9cceffc77a7c56dd785ec7d58451f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:45 +0000
Subject: [PATCH 40/82] fix: stop CLEAN-SC when no power is left

---
 acoular/fbeamform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index cb644a4..4009de8 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1542,6 +1542,8 @@ class BeamformerCleansc(BeamformerBase):
             for j in range(J):
                 xi_max = h.argmax()  # index of maximum
                 powers[j] = hmax = h[xi_max]  # maximum
+                if hmax <= 0:  # nothing left
+                    break
                 result[xi_max] += self.damp * hmax
                 if j > self.stopn and hmax > powers[j - self.stopn]:
                     break
-- 
2.43.0


From 59c82bc6aaf6575d5a5f72633a86c94caaf88c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:47 +0000
Subject: [PATCH 41/82] fix: accept cross spectral matrices of any memory
 layout in the beamformer kernels

---
 acoular/fastFuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fastFuncs.py b/acoular/fastFuncs.py
index 7bf5a86..822a11e 100644
--- a/acoular/fastFuncs.py
+++ b/acoular/fastFuncs.py
@@ -166,7 +166,7 @@ def beamformerFreq(steerVecType, boolRemovedDiagOfCSM, normFactor, inputTupleSte
     if boolIsEigValProb:
         eigVal, eigVec = inputTupleCsm  # [0], inputTupleCsm[1]
     else:
-        csm = inputTupleCsm
+        csm = np.ascontiguousarray(inputTupleCsm)
 
     # beamformer routine: parallelized over Gridpoints
     beamformOutput = np.zeros(nGridPoints, np.float64)
-- 
2.43.0


From bf561114f71bf3cc8d5778f9dc86f31bde0398b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:47 +0000
Subject: [PATCH 42/82] fix: functional beamforming of rank deficient matrices

---
 acoular/fbeamform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 4009de8..d5b6eaf 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -787,7 +787,8 @@ class BeamformerFunctional(BeamformerBase):
                 indNegSign = sign(beamformerOutput) < 0
                 beamformerOutput[indNegSign] = 0.0
             else:
-                eva = array(self.freq_data.eva[i], dtype='float64') ** (1.0 / self.gamma)
+                # eigenvalues that are zero can come out slightly negative due to rounding
+                eva = array(self.freq_data.eva[i], dtype='float64').clip(min=0) ** (1.0 / self.gamma)
                 eve = array(self.freq_data.eve[i], dtype='complex128')
                 beamformerOutput, steerNorm = beamformerFreq(
                     param_steer_type,
-- 
2.43.0


From c3a252ef885b10a9930b8892318eda19f6514259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:48 +0000
Subject: [PATCH 43/82] fix: initial guess of SODIX after a silent frequency

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index d5b6eaf..b9a7d09 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2043,7 +2043,7 @@ class BeamformerSODIX(BeamformerBase):
                         return func, derdrl.ravel()
 
                     ##### initial guess ####
-                    if i == 0 or not self._fr[(i - 1)]:
+                    if i == 0 or not self._fr[(i - 1)] or not self._ac[(i - 1)].any():
                         D0 = ones([num_points, num_mics])
                     else:
                         D0 = sqrt(
-- 
2.43.0


From 782df22e11783e9a79c721c36e792eb93763e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:48 +0000
Subject: [PATCH 44/82] fix: GIB for frequencies without power

---
 acoular/fbeamform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index b9a7d09..b631ee7 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2214,6 +2214,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
             eva[eva < max(eva) / 1e12] = 0
             # init sources
             qi = zeros([n + m, num_points], dtype='complex128')
+            locpoints = arange(num_points)
             # Select the number of coherent modes to be processed referring to the eigenvalue
             # distribution.
             for s in list(range(m, n + m)):
-- 
2.43.0


From f1edb36932656a572579cd1da86b010dd0897ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:30 +0000
Subject: [PATCH 45/82] fix: CMF fits the cross spectral matrix without an
 offset

---
 acoular/fbeamform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index b631ee7..f31ca22 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1827,13 +1827,13 @@ class BeamformerCMF(BeamformerBase):
             R = realify(reshape(csm.T, (nc * nc, 1))[ind, :])[ind_reim, :] * unit
             # choose method
             if self.method == 'LassoLars':
-                model = LassoLars(alpha=self.alpha * unit, max_iter=self.n_iter, positive=True, **sklearn_ndict)
+                model = LassoLars(alpha=self.alpha * unit, max_iter=self.n_iter, positive=True, fit_intercept=False, **sklearn_ndict)
             elif self.method == 'LassoLarsBIC':
-                model = LassoLarsIC(criterion='bic', max_iter=self.n_iter, positive=True, **sklearn_ndict)
+                model = LassoLarsIC(criterion='bic', max_iter=self.n_iter, positive=True, fit_intercept=False, **sklearn_ndict)
             elif self.method == 'OMPCV':
-                model = OrthogonalMatchingPursuitCV(**sklearn_ndict)
+                model = OrthogonalMatchingPursuitCV(fit_intercept=False, **sklearn_ndict)
             elif self.method == 'NNLS':
-                model = LinearRegression(positive=True)
+                model = LinearRegression(positive=True, fit_intercept=False)
 
             if self.method == 'Split_Bregman' and config.have_pylops:
                 from pylops import Identity, MatrixMult
-- 
2.43.0


From a5a34239e8cfac6f730ec083291f21fd86b63e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:38 +0000
Subject: [PATCH 46/82] fix: initial guess of SODIX if the matrix of the
 previous frequency is zero

---
 acoular/fbeamform.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index f31ca22..085d274 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2043,13 +2043,12 @@ class BeamformerSODIX(BeamformerBase):
                         return func, derdrl.ravel()
 
                     ##### initial guess ####
-                    if i == 0 or not self._fr[(i - 1)] or not self._ac[(i - 1)].any():
-                        D0 = ones([num_points, num_mics])
+                    # the result for the previous frequency is of no use if there was no power
+                    power = real(trace(self.freq_data.csm[i - 1])) if i > 0 and self._fr[i - 1] else 0
+                    if power > 0 and self._ac[i - 1].any():
+                        D0 = sqrt(self._ac[i - 1] * (real(trace(csm)) / power))
                     else:
-                        D0 = sqrt(
-                            self._ac[(i - 1)]
-                            * real(trace(csm) / trace(array(self.freq_data.csm[i - 1], dtype='complex128', copy=1))),
-                        )
+                        D0 = ones([num_points, num_mics])
 
                     # boundaries - set to non negative [2*(num_points*num_mics)]
                     boundaries = tile((0, +inf), (num_points * num_mics, 1))
-- 
2.43.0


From fc1b3c45faeb5a39f3d4c0fcb9491f2305b4d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:24 +0000
Subject: [PATCH 47/82] fix: index and range of regular grids follow the actual
 points

---
 acoular/grids.py | 53 +++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 78ae40b..b330171 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -134,6 +134,18 @@ def in_hull(p, hull, border=True, tol=0):
     return hull.find_simplex(p, tol=tol) > 0
 
 
+def _nearest(name, x, x_min, x_max, nsteps):
+    # index of the nearest out of nsteps equally spaced points that range from x_min to x_max
+    # (the spacing differs from the increment if this does not fit in the range)
+    rounding = 1e-9 * abs(x_max - x_min)
+    if x < min(x_min, x_max) - rounding or x > max(x_min, x_max) + rounding:
+        msg = f'{name}-value out of range {x:f} ({x_min:f}, {x_max:f})'
+        raise ValueError(msg)
+    if nsteps == 1 or x_min == x_max:
+        return 0
+    return int((x - x_min) / (x_max - x_min) * (nsteps - 1) + 0.5)
+
+
 def _det(xvert, yvert):
     xvert = asarray(xvert, dtype=float)
     yvert = asarray(yvert, dtype=float)
@@ -471,14 +483,8 @@ class RectGrid(Grid):
         ValueError
             If the coordinates are outside the grid boundaries.
         """
-        if x < self.x_min or x > self.x_max:
-            msg = 'x-value out of range'
-            raise ValueError(msg)
-        if y < self.y_min or y > self.y_max:
-            msg = 'y-value out of range'
-            raise ValueError(msg)
-        xi = int((x - self.x_min) / self.increment + 0.5)
-        yi = int((y - self.y_min) / self.increment + 0.5)
+        xi = _nearest('x', x, self.x_min, self.x_max, self.nxsteps)
+        yi = _nearest('y', y, self.y_min, self.y_max, self.nysteps)
         return xi, yi
 
     def indices(self, *r):
@@ -516,8 +522,10 @@ class RectGrid(Grid):
                 return self.index(r[0], r[1])
             return array(xis), array(yis)
         if len(r) == 4:  # rectangular subdomain - old functionality
-            xi1, yi1 = self.index(min(r[0], r[2]), min(r[1], r[3]))
-            xi2, yi2 = self.index(max(r[0], r[2]), max(r[1], r[3]))
+            # (the index decreases with the coordinate if limits are given in reverse)
+            (xi1, xi2), (yi1, yi2) = (
+                sorted(i) for i in zip(self.index(r[0], r[1]), self.index(r[2], r[3]), strict=True)
+            )
             return s_[xi1 : xi2 + 1], s_[yi1 : yi2 + 1]
         xpos = self.pos
         xis = []
@@ -695,22 +703,9 @@ class RectGrid3D(RectGrid):
         >>> grid.index(0.5, 0.5, 1.0)
         (1, 1, 1)
         """
-        if x < self.x_min or x > self.x_max:
-            msg = f'x-value out of range {x:f} ({self.x_min:f}, {self.x_max:f})'
-            raise ValueError(msg)
-        if y < self.y_min or y > self.y_max:
-            msg = f'y-value out of range {y:f} ({self.y_min:f}, {self.y_max:f})'
-            raise ValueError(msg)
-        if z < self.z_min or z > self.z_max:
-            msg = f'z-value out of range {z:f} ({self.z_min:f}, {self.z_max:f})'
-            raise ValueError(msg)
-        if isscalar(self.increment):
-            incx = incy = incz = self.increment
-        else:
-            incx, incy, incz = self.increment
-        xi = int(round((x - self.x_min) / incx))
-        yi = int(round((y - self.y_min) / incy))
-        zi = int(round((z - self.z_min) / incz))
+        xi = _nearest('x', x, self.x_min, self.x_max, self.nxsteps)
+        yi = _nearest('y', y, self.y_min, self.y_max, self.nysteps)
+        zi = _nearest('z', z, self.z_min, self.z_max, self.nzsteps)
         return xi, yi, zi
 
     def indices(self, x1, y1, z1, x2, y2, z2):
@@ -755,8 +750,10 @@ class RectGrid3D(RectGrid):
         >>> grid.indices(0, 0, 0, 1, 1, 1)
         (slice(1, 3, None), slice(1, 3, None), slice(1, 3, None))
         """
-        xi1, yi1, zi1 = self.index(min(x1, x2), min(y1, y2), min(z1, z2))
-        xi2, yi2, zi2 = self.index(max(x1, x2), max(y1, y2), max(z1, z2))
+        # (the index decreases with the coordinate if limits are given in reverse)
+        (xi1, xi2), (yi1, yi2), (zi1, zi2) = (
+            sorted(i) for i in zip(self.index(x1, y1, z1), self.index(x2, y2, z2), strict=True)
+        )
         return s_[xi1 : xi2 + 1], s_[yi1 : yi2 + 1], s_[zi1 : zi2 + 1]
 
 
-- 
2.43.0


From 6fcaf5ebb52ece83fd82d0a444f92958db31990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:37 +0000
Subject: [PATCH 48/82] fix: line grids with one point

---
 acoular/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index b330171..a5c02fa 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -996,7 +996,7 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
-        dist = self.length / (self.num_points - 1)
+        dist = self.length / (self.num_points - 1) if self.num_points > 1 else 0.0
         loc = array(self.loc, dtype=float).reshape((3, 1))
         direc_n = array(self.direction) / norm(self.direction)
         pos = zeros((self.num_points, 3))
-- 
2.43.0


From 90c21b1e8cf4cea005f3fca0acd9b85141b6f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 49/82] fix: shape of line and merged grids is a tuple

---
 acoular/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index a5c02fa..9f61d8b 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -992,7 +992,7 @@ class LineGrid(Grid):
 
     @property_depends_on(['num_points'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['num_points', 'length', 'direction', 'loc'])
     def _get_pos(self):
@@ -1063,7 +1063,7 @@ class MergeGrid(Grid):
 
     @property_depends_on(['digest'])
     def _get_shape(self):
-        return self.pos.shape[-1]
+        return (self.pos.shape[-1],)
 
     @property_depends_on(['digest'])
     def _get_subgrids(self):
-- 
2.43.0


From 3d8eec3d11277ea725df66eb39162732148afff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 50/82] fix: subgrids of merged grids belong to the unique
 points

---
 acoular/grids.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 9f61d8b..125bd49 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1070,14 +1070,19 @@ class MergeGrid(Grid):
         subgrids = zeros((1, 0), dtype=str)
         for grid in self.grids:
             subgrids = append(subgrids, tile(grid.__class__.__name__ + grid.digest, grid.size))
-        return subgrids[:, newaxis].T
+        # duplicate points belong to the first of the grids
+        return subgrids[newaxis, self._unique_points()[1]]
 
     @property_depends_on(['digest'])
     def _get_pos(self):
+        return self._unique_points()[0]
+
+    def _unique_points(self):
+        # points without duplicates and the index of each among the points of all grids
         bpos = zeros((3, 0))
         for grid in self.grids:
             bpos = append(bpos, grid.pos, axis=1)
-        return unique(bpos, axis=1)
+        return unique(bpos, axis=1, return_index=True)
 
 
 class Sector(ABCHasStrictTraits):
-- 
2.43.0


From 9c61f206130c82bdc5db86597d924599d2287a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 51/82] fix: points on the border are outside of a hull without
 its border

---
 acoular/grids.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index 125bd49..a448833 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -38,6 +38,7 @@ from numpy import (
     asarray,
     concatenate,
     copysign,
+    dot,
     fabs,
     inf,
     isscalar,
@@ -56,7 +57,7 @@ from numpy import (
 from scipy.linalg import norm
 
 # from matplotlib.path import Path
-from scipy.spatial import Delaunay
+from scipy.spatial import ConvexHull, Delaunay
 from traits.api import (
     ABCHasStrictTraits,
     Bool,
@@ -131,7 +132,9 @@ def in_hull(p, hull, border=True, tol=0):
 
     if border:
         return hull.find_simplex(p, tol=tol) >= 0
-    return hull.find_simplex(p, tol=tol) > 0
+    # distance to all the facets
+    equations = ConvexHull(hull.points).equations
+    return (dot(p, equations[:, :-1].T) + equations[:, -1] < -tol).all(axis=-1)
 
 
 def _nearest(name, x, x_min, x_max, nsteps):
-- 
2.43.0


From 34c5c38c078a7b24cde3a83f10469a1c71663ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 52/82] fix: nearest grid point of polygon, convex and box
 sectors

---
 acoular/grids.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index a448833..d62b95d 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1339,7 +1339,8 @@ class RectSector3D(RectSector):
         if ~inds.any() and self.default_nearest:
             x = (xmin + xmax) / 2.0
             y = (ymin + ymax) / 2.0
-            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
+            z = (zmin + zmax) / 2.0
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2 + (pos[2, :] - z) ** 2
             inds[argmin(dr2)] = True
 
         return inds.astype(bool)
@@ -1471,7 +1472,8 @@ class PolySector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)
+            x, y = array(self.edges).reshape(-1, 2).mean(0)
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
             inds[argmin(dr2)] = True
 
         return inds
@@ -1529,7 +1531,9 @@ class ConvexSector(SingleSector):
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-            dr2 = array(self.edges).reshape(-1, 2).mean(0)  # Use the centroid of the polygon as the "center"
+            # Use the centroid of the polygon as the "center"
+            x, y = array(self.edges).reshape(-1, 2).mean(0)
+            dr2 = (pos[0, :] - x) ** 2 + (pos[1, :] - y) ** 2
             inds[argmin(dr2)] = True
 
         return inds
-- 
2.43.0


From cd311f08da3f539ad6c3c59f63fe99068eee0fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 53/82] fix: tolerance of sectors

---
 acoular/grids.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/acoular/grids.py b/acoular/grids.py
index d62b95d..d0170d5 100644
--- a/acoular/grids.py
+++ b/acoular/grids.py
@@ -1234,10 +1234,10 @@ class RectSector(SingleSector):
         # get pos indices inside rectangle (* == and)
         if self.include_border:
             inds = (
-                (pos[0, :] - xmin > -abs_tol)
-                * (pos[0, :] - xmax < abs_tol)
-                * (pos[1, :] - ymin > -abs_tol)
-                * (pos[1, :] - ymax < abs_tol)
+                (pos[0, :] - xmin >= -abs_tol)
+                * (pos[0, :] - xmax <= abs_tol)
+                * (pos[1, :] - ymin >= -abs_tol)
+                * (pos[1, :] - ymax <= abs_tol)
             )
         else:
             inds = (
@@ -1318,12 +1318,12 @@ class RectSector3D(RectSector):
         # get pos indices inside rectangle (* == and)
         if self.include_border:
             inds = (
-                (pos[0, :] - xmin > -abs_tol)
-                * (pos[0, :] - xmax < abs_tol)
-                * (pos[1, :] - ymin > -abs_tol)
-                * (pos[1, :] - ymax < abs_tol)
-                * (pos[2, :] - zmin > -abs_tol)
-                * (pos[2, :] - zmax < abs_tol)
+                (pos[0, :] - xmin >= -abs_tol)
+                * (pos[0, :] - xmax <= abs_tol)
+                * (pos[1, :] - ymin >= -abs_tol)
+                * (pos[1, :] - ymax <= abs_tol)
+                * (pos[2, :] - zmin >= -abs_tol)
+                * (pos[2, :] - zmax <= abs_tol)
             )
         else:
             inds = (
@@ -1405,7 +1405,7 @@ class CircSector(SingleSector):
         """
         dr2 = (pos[0, :] - self.x) ** 2 + (pos[1, :] - self.y) ** 2
         # which points are in the circle?
-        inds = dr2 - self.r**2 < self.abs_tol if self.include_border else dr2 - self.r**2 < -self.abs_tol
+        inds = dr2 - self.r**2 <= self.abs_tol if self.include_border else dr2 - self.r**2 < -self.abs_tol
 
         # if there's no point inside
         if ~inds.any() and self.default_nearest:
@@ -1468,7 +1468,7 @@ class PolySector(SingleSector):
         """
         poly = Polygon(array(self.edges).reshape(-1, 2)[:, 0], array(self.edges).reshape(-1, 2)[:, 1])
         dists = poly.is_inside(pos[0, :], pos[1, :])
-        inds = dists >= -self.abs_tol if self.include_border else dists > 0
+        inds = dists >= -self.abs_tol if self.include_border else dists > self.abs_tol
 
         # if none inside, take nearest
         if ~inds.any() and self.default_nearest:
-- 
2.43.0


From 5f986c0026de8e3d494aa332a52111d3492f8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 54/82] fix: trajectories traversed until time 0

---
 acoular/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/trajectory.py b/acoular/trajectory.py
index fca6b6f..594249d 100644
--- a/acoular/trajectory.py
+++ b/acoular/trajectory.py
@@ -190,7 +190,7 @@ class Trajectory(HasStrictTraits):
         if not delta_t:
             delta_t = t_start
             t_start, t_end = self.interval
-        if not t_end:
+        if t_end is None:
             t_end = self.interval[1]
         # all locations are fetched in one go because that is much faster further improvement could
         # be possible if interpolated locations are fetched in blocks
-- 
2.43.0


From 63b08d39537e9e2e13fe1ec15a83ab4f0a33067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 55/82] fix: distance of identical points in a uniform flow

---
 acoular/environments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index 44ab7fb..bb9f4ac 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -48,6 +48,7 @@ from numpy import (
     sqrt,
     sum,  # noqa: A004
     vstack,
+    where,
     zeros_like,
 )
 from scipy.integrate import ode
@@ -308,7 +309,9 @@ class UniformFlowEnvironment(Environment):
         mpos = mpos[:, newaxis, :]
         rmv = gpos[:, :, newaxis] - mpos
         rm = sqrt(sum(rmv * rmv, 0))
-        macostheta = (self.ma * sum(rmv.reshape((3, -1)) * fdv[:, newaxis], 0) / rm.reshape(-1)).reshape(rm.shape)
+        # (no direction if both points are the same)
+        length = where(rm > 0, rm, 1)
+        macostheta = (self.ma * sum(rmv.reshape((3, -1)) * fdv[:, newaxis], 0) / length.reshape(-1)).reshape(rm.shape)
         rm *= 1 / (-macostheta + sqrt(macostheta * macostheta - self.ma * self.ma + 1))
         if rm.shape[1] == 1:
             rm = rm[:, 0]
-- 
2.43.0


From d0385527b6d4d8424460ec2614adc72ce701f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 56/82] fix: jets at the nozzle plane

---
 acoular/environments.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/acoular/environments.py b/acoular/environments.py
index bb9f4ac..e554830 100644
--- a/acoular/environments.py
+++ b/acoular/environments.py
@@ -436,6 +436,9 @@ class SlotJet(FlowField):
             Ux = self.v0
             Udx = 0
             Udy = 0
+        elif x == 0.0:
+            # slot exit plane, outside of the slot
+            Ux = Udx = Udy = 0
         else:
             # shear layer
             Ux = self.v0 * exp(-h1 * h1 / (2 * x1 * x1))
@@ -537,20 +540,23 @@ class OpenJet(FlowField):
         r = sqrt(y * y + z * z)
         x1 = 0.5022 / self.l * x  # C2 in Albertson1950
         h1 = r + x1 - 0.5 * self.D
-        U = self.v0 * exp(-h1 * h1 / (2 * x1 * x1))
         if h1 < 0.0:
-            Udr = 0.0
+            # core jet
             U = self.v0
+            Udr = Udx = 0.0
+        elif x == 0.0:
+            # nozzle exit plane, outside of the nozzle
+            U = Udr = Udx = 0.0
         else:
+            # shear layer
+            U = self.v0 * exp(-h1 * h1 / (2 * x1 * x1))
             Udr = -h1 * U / (x1 * x1)
+            Udx = (h1 * h1 / (x * x1 * x1) - h1 / (x * x1)) * U
         if r > 0.0:
             Udy = y * Udr / r
             Udz = z * Udr / r
         else:
             Udy = Udz = 0.0
-        Udx = (h1 * h1 / (x * x1 * x1) - h1 / (x * x1)) * U
-        if h1 < 0.0:
-            Udx = 0
 
         # flow field
         v = array((U, 0.0, 0.0))
-- 
2.43.0


From cb7ee3087bdfa788acb2253def3da02151b2c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 57/82] fix: line sources honour prepadding

---
 acoular/sources.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 04b96c9..4df9d53 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -119,6 +119,14 @@ def _get_looped(signal, ind):
     return signal[mod(floor(0.5 + ind).astype(int64), signal.shape[-1])]
 
 
+def _get_padded(signal, ind, prepadding):
+    # samples of the signal that are nearest to the given indices, outside the signal as configured
+    samples = _get_looped(signal, ind)
+    if prepadding == 'zeros':
+        samples[(ind < 0) | (floor(0.5 + ind) >= signal.shape[-1])] = 0
+    return samples
+
+
 def spherical_hn1(n, z):
     r"""
     Compute the spherical Hankel function of the first kind.
@@ -1667,7 +1675,7 @@ class LineSource(PointSource):
             n -= 1
             for s in range(self.num_sources):
                 # sum sources
-                out[i] += _get_looped(signals[s], inds[:, s] * self.up) / rms[:, s]
+                out[i] += _get_padded(signals[s], inds[:, s] * self.up, self.prepadding) / rms[:, s]
 
             inds += 1.0
             i += 1
@@ -1902,7 +1910,7 @@ class MovingLineSource(LineSource, MovingPointSource):
             t += 1.0 / self.sample_freq
             for s in range(self.num_sources):
                 # sum sources
-                out[i] += _get_looped(signals[s], inds[:, s] * self.up) / rms[:, s]
+                out[i] += _get_padded(signals[s], inds[:, s] * self.up, self.prepadding) / rms[:, s]
 
             i += 1
             if i == num:
-- 
2.43.0


From 4288fd174a1b1aa0c944861a1f91c39ee8e3752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 58/82] fix: mixing of integer and float data

---
 acoular/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 4df9d53..4234917 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -2294,7 +2294,7 @@ class SourceMixer(SamplesGenerator):
                 temp1 = next(g) * weights[j + 1]
                 if temp.shape[0] > temp1.shape[0]:
                     temp = temp[: temp1.shape[0]]
-                temp += temp1[: temp.shape[0]]
+                temp = temp + temp1[: temp.shape[0]]
             yield temp
             if sh > temp.shape[0]:
                 break
-- 
2.43.0


From fb83fe9775c5435735f1e2cb835c1fef4a624ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:38 +0000
Subject: [PATCH 59/82] fix: moving dipoles and line sources use the position
 of every microphone's emission time

---
 acoular/sources.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/acoular/sources.py b/acoular/sources.py
index 4234917..13c76c6 100644
--- a/acoular/sources.py
+++ b/acoular/sources.py
@@ -1524,20 +1524,20 @@ class MovingPointSourceDipole(PointSourceDipole, MovingPointSource):
             n -= 1
             te, rm, Mr, locs = self.get_emission_time(t, 0)
             t += 1.0 / self.sample_freq
-            # location of the center
-            loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
+            # location of the center at the emission time of every microphone
+            loc = array(self.trajectory.location(te), dtype=float)
             # distance of the dipoles from the center
             diff = self.get_moving_direction(dir2, te)
 
             # distance of sources
-            rm1 = self.env._r(loc + diff, mpos)
-            rm2 = self.env._r(loc - diff, mpos)
+            rm1 = self.env._r(loc + diff, mpos).reshape((self.num_channels, -1)).diagonal()
+            rm2 = self.env._r(loc - diff, mpos).reshape((self.num_channels, -1)).diagonal()
 
             ind = (te - self.start_t) * self.sample_freq
             if self.conv_amp:
                 rm *= (1 - Mr) ** 2
-                rm1 *= (1 - Mr) ** 2  # assume that Mr is the same for both poles
-                rm2 *= (1 - Mr) ** 2
+                rm1 = rm1 * (1 - Mr) ** 2  # assume that Mr is the same for both poles
+                rm2 = rm2 * (1 - Mr) ** 2
             # subtract the second signal b/c of phase inversion
             out[i] = (
                 rm / dist * (_get_looped(signal, ind * self.up) / rm1 - _get_looped(signal, ind * self.up) / rm2)
@@ -1901,9 +1901,10 @@ class MovingLineSource(LineSource, MovingPointSource):
             for s in range(self.num_sources):
                 diff = self.get_moving_direction(dir2, te1)
                 te, rm, Mr, locs = self.get_emission_time(t, tile((diff * s).T, (self.num_channels, 1)).T)
-                loc = array(self.trajectory.location(te), dtype=float)[:, 0][:, newaxis]
+                # location at the emission time of every microphone
+                loc = array(self.trajectory.location(te), dtype=float)
                 diff = self.get_moving_direction(dir2, te)
-                rms[:, s] = self.env._r((loc + diff * s), mpos)
+                rms[:, s] = self.env._r((loc + diff * s), mpos).reshape((self.num_channels, -1)).diagonal()
                 inds[:, s] = (te - self.start_t) * self.sample_freq
                 if self.conv_amp:
                     rms[:, s] *= (1 - Mr) ** 2
-- 
2.43.0


From 7804165d5213149e8dc67e41067e387c5e54bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:41 +0000
Subject: [PATCH 60/82] fix: all channels marked invalid

---
 acoular/calib.py       | 2 +-
 acoular/microphones.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/calib.py b/acoular/calib.py
index cf25360..f95d782 100644
--- a/acoular/calib.py
+++ b/acoular/calib.py
@@ -109,7 +109,7 @@ class Calib(InOut):
         if len(self.invalid_channels) == 0:
             return slice(0, None, None)
         allr = [i for i in range(self.num_mics) if i not in self.invalid_channels]
-        return array(allr)
+        return array(allr, dtype=int)
 
     @cached_property
     def _get_digest(self):
diff --git a/acoular/microphones.py b/acoular/microphones.py
index bcb7b48..713e804 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -165,7 +165,7 @@ class MicGeom(HasStrictTraits):
         if len(self.invalid_channels) == 0:
             return self.pos_total
         allr = [i for i in range(self.pos_total.shape[-1]) if i not in self.invalid_channels]
-        return self.pos_total[:, array(allr)]
+        return self.pos_total[:, array(allr, dtype=int)]
 
     @cached_property
     def _get_num_mics(self):
-- 
2.43.0


From 775a6c13cd53544f77d00528fdace7b6fe2c7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:42 +0000
Subject: [PATCH 61/82] fix: export microphone geometries to files with special
 characters in their names

---
 acoular/microphones.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acoular/microphones.py b/acoular/microphones.py
index 713e804..5a8d2a6 100644
--- a/acoular/microphones.py
+++ b/acoular/microphones.py
@@ -13,6 +13,7 @@ Implements support for array microphone arrangements.
 # imports from other packages
 import xml.dom.minidom
 from pathlib import Path
+from xml.sax.saxutils import quoteattr
 
 from numpy import array, average
 from scipy.spatial.distance import cdist
@@ -252,9 +253,9 @@ class MicGeom(HasStrictTraits):
           :attr:`invalid_channels`).
         """
         filepath = Path(filename)
-        basename = filepath.stem
+        name = quoteattr(filepath.stem)
         with filepath.open('w', encoding='utf-8') as f:
-            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name="{basename}">\n')
+            f.write(f'<?xml version="1.1" encoding="utf-8"?><MicArray name={name}>\n')
             for i in range(self.pos.shape[-1]):
                 f.write(
                     f'  <pos Name="Point {i+1}" x="{self.pos[0, i]}" y="{self.pos[1, i]}" z="{self.pos[2, i]}"/>\n',
-- 
2.43.0


From 2f851d1000d4256d827dec954494a6545672f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:42 +0000
Subject: [PATCH 62/82] fix: text in the metadata of HDF5 files that is not
 ASCII

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index fb7530d..48af2fc 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1920,7 +1920,7 @@ class WriteH5(TimeOut):
             f5h.create_new_group('metadata', '/')
             for key, value in self.metadata.items():
                 if isinstance(value, str):
-                    value = array(value, dtype='S')
+                    value = array(value.encode('utf-8'))
                 f5h.create_array('/metadata', key, value)
 
     def result(self, num):
-- 
2.43.0


From 7b9b34009b7093839f3f3c13a72b46c22aa8f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:42 +0000
Subject: [PATCH 63/82] fix: write data that is not contiguous in memory with
 PyTables

---
 acoular/h5files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acoular/h5files.py b/acoular/h5files.py
index abb8061..8cbd441 100644
--- a/acoular/h5files.py
+++ b/acoular/h5files.py
@@ -2,6 +2,8 @@
 # Copyright (c) Acoular Development Team.
 # ------------------------------------------------------------------------------
 
+from numpy import ascontiguousarray
+
 from .configuration import config
 
 
@@ -75,7 +77,7 @@ if config.have_tables:
             return node._v_attrs[attrname]  # noqa: SLF001
 
         def append_data(self, node, data):
-            node.append(data)
+            node.append(ascontiguousarray(data))
 
         def remove_data(self, nodename):
             self.remove_node('/', nodename, recursive=True)
-- 
2.43.0


From 82a32aa06f1a243a84b08cfe85d3ffd58236429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:42 +0000
Subject: [PATCH 64/82] fix: refuse an HDF5 library that is not installed

---
 acoular/configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acoular/configuration.py b/acoular/configuration.py
index e5d9118..ed5b3a0 100644
--- a/acoular/configuration.py
+++ b/acoular/configuration.py
@@ -149,6 +149,9 @@ class Config(HasStrictTraits):
         return self._h5library
 
     def _set_h5library(self, name):
+        if (name == 'h5py' and not self.have_h5py) or (name in ('pytables', 'tables') and not self.have_tables):
+            error_msg = f'The package needed for {name} is not installed!'
+            raise ImportError(error_msg)
         self._h5library = name
 
     def _get_use_traitsui(self):
-- 
2.43.0


From 8da2465b5d583a5aaba6f12e55d0c98bf5102591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:42 +0000
Subject: [PATCH 65/82] fix: refuse a cache directory that is a file

---
 acoular/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/configuration.py b/acoular/configuration.py
index ed5b3a0..e368056 100644
--- a/acoular/configuration.py
+++ b/acoular/configuration.py
@@ -179,7 +179,7 @@ class Config(HasStrictTraits):
         return self._cache_dir
 
     def _set_cache_dir(self, cdir):
-        if not path.exists(cdir):
+        if not path.isdir(cdir):
             mkdir(cdir)
         self._cache_dir = cdir
 
-- 
2.43.0


From d549fe79c502ab46c95c7f84ccd3bed62e2180fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 66/82] fix: metrics without multiple assignment

---
 acoular/tools/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tools/metrics.py b/acoular/tools/metrics.py
index 0484833..01d9b6f 100644
--- a/acoular/tools/metrics.py
+++ b/acoular/tools/metrics.py
@@ -117,7 +117,7 @@ class MetricEvaluator(HasStrictTraits):
         sectors = self.sectors
         results = empty(shape=self.target_data.shape)
         for f in range(self.target_data.shape[0]):
-            data = self.data[f]
+            data = self.data[f].reshape(self.grid.shape).copy()
             for i in range(self.target_data.shape[1]):
                 sector = sectors[i]
                 results[f, i] = integrate(data, self.grid, sector)
-- 
2.43.0


From c05628791b0564b7603eff6104c3f3fee38eb170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 67/82] fix: give every metric evaluator a sector of its own by
 default

---
 acoular/tools/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tools/metrics.py b/acoular/tools/metrics.py
index 01d9b6f..bda73ce 100644
--- a/acoular/tools/metrics.py
+++ b/acoular/tools/metrics.py
@@ -51,7 +51,7 @@ class MetricEvaluator(HasStrictTraits):
     target_grid = Instance(Grid, desc='Grid instance that belongs to the ground-truth data')
 
     #: sector type. Currently only circular sectors are supported.
-    sector = Instance(CircSector, default=CircSector())
+    sector = Instance(CircSector, args=())
 
     #: if set True: use shrink integration area if two sources are closer
     #: than 2*r. The radius of the integration area is then set to half the
-- 
2.43.0


From f4a364e190115e1b4737bd356061e0c667c5035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:48 +0000
Subject: [PATCH 68/82] fix: Trigger: first block, memory of the last sample,
 mean of the signal, warning

---
 acoular/tprocess.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 48af2fc..711df54 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -417,7 +417,7 @@ class Trigger(TimeOut):  # pragma: no cover
                 peakLoc = append(peakLoc, localTrigger + dSamples)
                 trigger_data = append(trigger_data, triggerSignal[localTrigger])
             dSamples += num
-            x0 = triggerSignal[-1]
+            x0 = triggerSignal[-1].copy()  # the source may use the memory of the block again
         if len(peakLoc) <= 1:
             msg = 'Not enough trigger info. Check *threshold* sign and value!'
             raise Exception(msg)
@@ -450,7 +450,7 @@ class Trigger(TimeOut):  # pragma: no cover
         if faultyInd.size != 0:
             warn(
                 f'In Trigger-Identification: The distances between the peaks (and therefore the lengths of the \
-                revolutions) vary too much (check samples {peakLoc[faultyInd] + self.source.start}).',
+                revolutions) vary too much (check samples {peakLoc[faultyInd] + (getattr(self.source, 'start', 0) or 0)}).',
                 Warning,
                 stacklevel=2,
             )
@@ -461,8 +461,8 @@ class Trigger(TimeOut):  # pragma: no cover
         return self._trigger_value_comp(x, threshold)
 
     def _trigger_rect(self, x0, x, threshold):
-        # x0 stores the last value of the the last generator cycle
-        xNew = append(x0, x)
+        # x0 stores the last value of the the last generator cycle, there is none for the first one
+        xNew = append(x0 if len(x0) else x[0], x)
         # indPeakHunk = abs(xNew[1:] - xNew[:-1]) > abs(threshold)
         # with above line, every edge would be located
         return self._trigger_value_comp(xNew[1:] - xNew[:-1], threshold)
@@ -480,8 +480,8 @@ class Trigger(TimeOut):  # pragma: no cover
             for trigger_data in self.source.result(num):
                 maxVal = max(maxVal, trigger_data.max())
                 minVal = min(minVal, trigger_data.min())
-                meanVal += trigger_data.mean()
-                cntMean += 1
+                meanVal += trigger_data.sum()
+                cntMean += trigger_data.size
             meanVal /= cntMean
 
             # get 75% of maximum absolute value of trigger signal
-- 
2.43.0


From b79663fb4e1dd55dac0e6127e0765dfd3f084e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:04 +0000
Subject: [PATCH 69/82] fix: AngleTracker: use the triggers around each sample

---
 acoular/tprocess.py | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 711df54..4cbcbc7 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -46,7 +46,6 @@ from numpy import (
     argsort,
     array,
     array_equal,
-    asarray,
     broadcast_to,
     ceil,
     concatenate,
@@ -67,6 +66,7 @@ from numpy import (
     newaxis,
     pi,
     polymul,
+    searchsorted,
     sin,
     sinc,
     split,
@@ -570,11 +570,6 @@ class AngleTracker(MaskedTimeOut):
     def _get_digest(self):
         return digest(self)
 
-    # helperfunction for trigger index detection
-    def _find_nearest_idx(self, peakarray, value):
-        peakarray = asarray(peakarray)
-        return (abs(peakarray - value)).argmin()
-
     def _to_rpm_and_angle(self):
         """Internal helper function
         Calculates angles in radians for one or more instants in time.
@@ -597,29 +592,16 @@ class AngleTracker(MaskedTimeOut):
 
         # loop over all timesamples
         while ind < num:
-            # when starting spline forward
-            if ind < peakloc[InterpPoints]:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) + 1]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist : ind // peakdist + InterpPoints]),
-                    axis=0,
-                )
-            # spline backwards
-            else:
-                peakdist = (
-                    peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind)]
-                    - peakloc[self._find_nearest_idx(peakarray=peakloc, value=ind) - 1]
-                )
-                splineData = stack(
-                    (range(InterpPoints), peakloc[ind // peakdist - InterpPoints : ind // peakdist]),
-                    axis=0,
-                )
+            # the last triggers up to this sample, or the first ones at the beginning
+            first = searchsorted(peakloc, ind, side='right') - InterpPoints
+            first = max(0, min(first, len(peakloc) - InterpPoints))
+            splineData = stack(
+                (arange(first, first + InterpPoints), peakloc[first : first + InterpPoints]),
+                axis=0,
+            )
             # calc angles and rpm
             Spline = splrep(splineData[:, :][1], splineData[:, :][0], k=3)
-            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate
+            self._rpm[ind] = splev(ind, Spline, der=1, ext=0) * 60 * samplerate / TriggerPerRevo
             self._angle[ind] = (
                 splev(ind, Spline, der=0, ext=0) * 2 * pi * rotDirection / TriggerPerRevo + self.start_angle
             ) % (2 * pi)
-- 
2.43.0


From 392443516e40fdaa3200fd5dd431dc43a2fd338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:28 +0000
Subject: [PATCH 70/82] fix: SpatialInterpolator: IDW distances in the plane of
 the array

---
 acoular/tprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 4cbcbc7..246ba78 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -1065,8 +1065,8 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                     newPoint3_M = append(newPoint2_M, zeros([1, self.num_channels]), axis=0)
                     newPointCart = cylToCart(newPoint3_M)
                     for ind in arange(len(newPoint[:, 0])):
-                        newPoint_Rep = tile(newPointCart[:, ind], (len(newPoint[:, 0]), 1)).T
-                        subtract = newPoint_Rep - newCoordCart
+                        # distances within the plane of the array
+                        subtract = newPointCart[:2, ind, newaxis] - newCoordCart[:2]
                         normDistance = norm(subtract, axis=0)
                         index_norm = argsort(normDistance)[: self.num_IDW]
                         pHelpNew = pHelp[cntTime, index_norm]
-- 
2.43.0


From 8ccc5f10bc1a90dd75a633ac53e34f8ed7ac5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:46 +0000
Subject: [PATCH 71/82] fix: SpatialInterpolator: rotate the coordinates of
 virtual microphones by Q in 1D and ring

---
 acoular/tprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 246ba78..49e648e 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -813,7 +813,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
             newCoord = (cartToCyl(mpos, self.Q).T)[indReorderHelp].T
 
             # and for virtual mics
-            virtNewCoord = cartToCyl(mpos_virt)
+            virtNewCoord = cartToCyl(mpos_virt, self.Q)
 
         elif self.array_dimension == '2D':  # 2d case0
             # get virtual mic projections on new coord system
-- 
2.43.0


From a27d94a9ca3cdd6f19498f05b91d97d5113ed54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:53 +0000
Subject: [PATCH 72/82] fix: SpatialInterpolator: method sinc

---
 acoular/tprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 49e648e..5b3f60b 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -982,7 +982,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, :],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
@@ -1029,7 +1029,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, : len(newCoord[0])],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
@@ -1103,7 +1103,7 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
                         newCoord[1],
                         newCoord[2],
                         pHelp[cntTime, : len(newCoord[0])],
-                        function=self.sinc_mic,
+                        function=lambda r: self.sinc_mic(r),
                     )  # radial basis function interpolator instance
 
                     pInterp[cntTime] = rbfi(xInterp[cntTime, :], virtNewCoord[1], virtNewCoord[2])
-- 
2.43.0


From 347268352594eaa11f7d9320492484daaefca7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:05 +0000
Subject: [PATCH 73/82] fix: SpatialInterpolator: refuse methods that do not
 exist for the dimension

---
 acoular/tprocess.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acoular/tprocess.py b/acoular/tprocess.py
index 5b3f60b..52e1de7 100644
--- a/acoular/tprocess.py
+++ b/acoular/tprocess.py
@@ -916,6 +916,14 @@ class SpatialInterpolator(TimeOut):  # pragma: no cover
         """
         if phi_delay is None:
             phi_delay = []
+        unavailable = {
+            '1D': ('rbf-multiquadric', 'IDW'),
+            'ring': ('rbf-multiquadric', 'IDW'),
+            '3D': ('spline', 'IDW'),
+        }
+        if self.method in unavailable.get(self.array_dimension, ()):
+            msg = f'Method {self.method!r} is not available for array dimension {self.array_dimension!r}.'
+            raise ValueError(msg)
         # number of time samples
         nTime = p.shape[0]
         # number of virtual mixcs
-- 
2.43.0


From 724ce32a7d4a68d08b5b3b4f9b4270bad523eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:03 +0000
Subject: [PATCH 74/82] fix: BeamformerGIB: keep at least one point when the
 number of points is reduced

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 085d274..dae7937 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2248,7 +2248,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                                 # Reorder from the greatest to smallest magnitude to define a
                                 # reduced-point source distribution, and reform a reduced transfer
                                 # matrix
-                                leftpoints = int(round(num_points * self.beta ** (it + 1)))
+                                leftpoints = max(1, int(round(num_points * self.beta ** (it + 1))))
                                 idx = argsort(abs(qi[s, locpoints]))[::-1]
                                 # print(it, leftpoints, locpoints, idx )
                                 locpoints = delete(locpoints, [idx[leftpoints::]])
-- 
2.43.0


From 071ffee3aea28ede15093b345a1222d3d4838dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:06 +0000
Subject: [PATCH 75/82] fix: BeamformerGIB: weights of InverseIRLS

---
 acoular/fbeamform.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index dae7937..3bad16d 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -81,7 +81,7 @@ from numpy import (
     zeros_like,
 )
 from packaging.version import parse
-from scipy.linalg import eigh, eigvals, fractional_matrix_power, inv, norm
+from scipy.linalg import eigh, eigvals, fractional_matrix_power, inv, norm, pinv
 from scipy.optimize import fmin_l_bfgs_b, linprog, nnls, shgo
 from sklearn.linear_model import LassoLars, LassoLarsCV, LassoLarsIC, LinearRegression, OrthogonalMatchingPursuitCV
 from traits.api import (
@@ -2264,16 +2264,13 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                         locpoints = arange(num_points)
                         for _it in arange(self.n_iter):
                             if num_channels <= num_points:
-                                wtwi = inv(dot(weights.T, weights))
+                                wtw = dot(weights.T, weights)
                                 aH = A.conj().T
-                                qi[s, :] = dot(dot(wtwi, aH), dot(inv(dot(A, dot(wtwi, aH))), emode))
+                                qi[s, :] = dot(dot(wtw, aH), dot(pinv(dot(A, dot(wtw, aH))), emode))
                                 weights = diag(absolute(qi[s, :]) ** ((2 - self.pnorm) / 2))
                                 weights = weights / sum(absolute(weights))
                             elif num_channels > num_points:
-                                wtw = dot(weights.T, weights)
-                                qi[s, :] = dot(dot(inv(dot(dot(A.conj.T, wtw), A)), dot(A.conj().T, wtw)), emode)
-                                weights = diag(absolute(qi[s, :]) ** ((2 - self.pnorm) / 2))
-                                weights = weights / sum(absolute(weights))
+                                qi[s, :] = dot(pinv(A), emode)
                     else:
                         locpoints = arange(num_points)
                         unit = self.unit_mult
-- 
2.43.0


From ac02c4d1417d041dde68cc036ad06a4350917b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:14 +0000
Subject: [PATCH 76/82] fix: BeamformerGIB: regularisation of Suzuki

---
 acoular/fbeamform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 3bad16d..34ad6ff 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2225,7 +2225,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                         leftpoints = num_points
                         locpoints = arange(num_points)
                         weights = diag(ones(num_points))
-                        epsilon = arange(self.n_iter)
+                        epsilon = zeros(self.n_iter)
                         for it in arange(self.n_iter):
                             if num_channels <= leftpoints:
                                 AWA = dot(dot(A[:, locpoints], weights), A[:, locpoints].conj().T)
@@ -2239,7 +2239,7 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                                 )
                             elif num_channels > leftpoints:
                                 AA = dot(A[:, locpoints].conj().T, A[:, locpoints])
-                                epsilon[it] = max(absolute(eigvals(AA))) * self.eps_perc
+                                epsilon[it] = max(absolute(eigvals(dot(AA, weights)))) * self.eps_perc
                                 qi[s, locpoints] = dot(
                                     dot(inv(AA + inv(weights) * epsilon[it]), A[:, locpoints].conj().T),
                                     emode,
-- 
2.43.0


From 817dabb76469374b82a93047e645446e1aa404d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:20 +0000
Subject: [PATCH 77/82] fix: BeamformerGIB: no positivity and no intercept for
 complex amplitudes

---
 acoular/fbeamform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 34ad6ff..9d7ed5d 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -2277,13 +2277,13 @@ class BeamformerGIB(BeamformerEig):  # BeamformerEig #BeamformerBase
                         AB = vstack([hstack([A.real, -A.imag]), hstack([A.imag, A.real])])
                         R = hstack([emode.real.T, emode.imag.T]) * unit
                         if self.method == 'LassoLars':
-                            model = LassoLars(alpha=self.alpha * unit, max_iter=self.n_iter, positive=True)
+                            model = LassoLars(alpha=self.alpha * unit, max_iter=self.n_iter, fit_intercept=False)
                         elif self.method == 'LassoLarsBIC':
-                            model = LassoLarsIC(criterion='bic', max_iter=self.n_iter, positive=True)
+                            model = LassoLarsIC(criterion='bic', max_iter=self.n_iter, fit_intercept=False)
                         elif self.method == 'OMPCV':
-                            model = OrthogonalMatchingPursuitCV()
+                            model = OrthogonalMatchingPursuitCV(fit_intercept=False)
                         elif self.method == 'LassoLarsCV':
-                            model = LassoLarsCV(max_iter=self.n_iter, positive=True)
+                            model = LassoLarsCV(max_iter=self.n_iter, fit_intercept=False)
                         elif self.method == 'NNLS':
                             model = LinearRegression(positive=True)
                         model.normalize = False
-- 
2.43.0


From 81fcebbd6c963b1e0bcd880e9abdbbfb92d747f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:39 +0000
Subject: [PATCH 78/82] fix: BeamformerDamasPlus: objective of linear
 programming

---
 acoular/fbeamform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/fbeamform.py b/acoular/fbeamform.py
index 9d7ed5d..6e75a98 100644
--- a/acoular/fbeamform.py
+++ b/acoular/fbeamform.py
@@ -1353,7 +1353,7 @@ class BeamformerDamasPlus(BeamformerDamas):
                         Warning,
                         stacklevel=5,
                     )
-                cT = -1 * psf.sum(1)  # turn the minimization into a maximization
+                cT = -1 * psf.sum(0)  # turn the minimization into a maximization
                 self._ac[i] = linprog(c=cT, A_ub=psf, b_ub=y).x / unit  # defaults to simplex method and non-negative x
             else:
                 if self.method == 'LassoLars':
-- 
2.43.0


From 51b56417fa922605e7aa049f5b7fd25012d0c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:29 +0000
Subject: [PATCH 79/82] fix: sound device: running is reset when a recording is
 abandoned or fails

---
 acoular/sdinput.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/acoular/sdinput.py b/acoular/sdinput.py
index 005ff10..f674f80 100644
--- a/acoular/sdinput.py
+++ b/acoular/sdinput.py
@@ -118,19 +118,21 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
             dtype=self.precision,
         )
 
-        with stream_obj as stream:
-            self.running = True
-            if self.num_samples == -1:
-                while self.collect_samples:  # yield data as long as collect_samples is True
-                    data, self.overflow = stream.read(num)
-                    yield data[:num]
-
-            elif self.num_samples > 0:  # amount of samples to collect is specified by user
-                samples_count = 0  # num_samples counter
-                while samples_count < self.num_samples:
-                    anz = min(num, self.num_samples - samples_count)
-                    data, self.overflow = stream.read(num)
-                    yield data[:anz]
-                    samples_count += anz
-        self.running = False
+        try:
+            with stream_obj as stream:
+                self.running = True
+                if self.num_samples == -1:
+                    while self.collect_samples:  # yield data as long as collect_samples is True
+                        data, self.overflow = stream.read(num)
+                        yield data[:num]
+
+                elif self.num_samples > 0:  # amount of samples to collect is specified by user
+                    samples_count = 0  # num_samples counter
+                    while samples_count < self.num_samples:
+                        anz = min(num, self.num_samples - samples_count)
+                        data, self.overflow = stream.read(num)
+                        yield data[:anz]
+                        samples_count += anz
+        finally:
+            self.running = False
         return
-- 
2.43.0


From 61e1777e862f6ff5056da7a44e0737db376ab38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:47 +0000
Subject: [PATCH 80/82] fix: sound device: default sample rate follows the
 device

---
 acoular/sdinput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acoular/sdinput.py b/acoular/sdinput.py
index f674f80..6252e12 100644
--- a/acoular/sdinput.py
+++ b/acoular/sdinput.py
@@ -50,7 +50,7 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
     collect_samples = Bool(True, desc='Indicates if samples are collected')
 
     #: Sampling frequency of the signal, changes with sinusdevices
-    sample_freq = Property(desc='sampling frequency')
+    sample_freq = Property(depends_on=['device', '_sample_freq'], desc='sampling frequency')
 
     _sample_freq = Float(default_value=None)
 
@@ -80,7 +80,7 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
 
     def _get_sample_freq(self):
         if self._sample_freq is None:
-            self._sample_freq = sd.query_devices(self.device)['default_samplerate']
+            return sd.query_devices(self.device)['default_samplerate']
         return self._sample_freq
 
     def _set_sample_freq(self, f):
-- 
2.43.0


From 68fc4cb11a337df45dd41da5548301ff87968c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:06 +0000
Subject: [PATCH 81/82] fix: sound device: digest depends on sample rate and
 precision

---
 acoular/sdinput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acoular/sdinput.py b/acoular/sdinput.py
index 6252e12..0e041ea 100644
--- a/acoular/sdinput.py
+++ b/acoular/sdinput.py
@@ -67,7 +67,7 @@ class SoundDeviceSamplesGenerator(SamplesGenerator):
     stream = Any
 
     # internal identifier
-    digest = Property(depends_on=['device', 'num_channels', 'num_samples'])
+    digest = Property(depends_on=['device', 'num_channels', 'num_samples', 'sample_freq', 'precision'])
 
     @cached_property
     def _get_digest(self):
-- 
2.43.0


From 126afa3f59502d39aeb6742a3be92b189efe5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:41 +0000
Subject: [PATCH 82/82] fix: BeamformerTime: refuse sources whose channels do
 not fit the microphones

---
 acoular/tbeamform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acoular/tbeamform.py b/acoular/tbeamform.py
index 3061c8a..6003b68 100644
--- a/acoular/tbeamform.py
+++ b/acoular/tbeamform.py
@@ -124,6 +124,12 @@ class BeamformerTime(TimeOut):
     def _get_weights(self):
         return self.weights_(self)[newaxis] if self.weights_ else 1.0
 
+    def _check_channels(self):
+        num_channels = self.source.num_channels
+        if num_channels != self.steer.mics.num_mics or num_channels == 0:
+            msg = f'{num_channels:d} channels do not fit {self.steer.mics.num_mics:d} mics'
+            raise ValueError(msg)
+
     def result(self, num=2048):
         """Python generator that yields the time-domain beamformer output.
 
@@ -144,6 +150,7 @@ class BeamformerTime(TimeOut):
                 large (number of grid points).
                 The last block returned by the generator may be shorter than num.
         """
+        self._check_channels()
         # initialize values
         steer_func = self.steer._steer_funcs_time[self.steer.steer_type]
         fdtype = float64
@@ -382,6 +389,7 @@ class BeamformerTimeTraj(BeamformerTime):
                 large (number of grid points).
                 The last block returned by the generator may be shorter than num.
         """
+        self._check_channels()
         # initialize values
         if self.precision == 64:
             fdtype = float64
-- 
2.43.0

