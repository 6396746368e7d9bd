From 3c0aecfabe730e8ae621e88bb5a7115ab8288b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 01/71] fix: fir_state must not move from an lvalue tap
 container

fir_state(Cont&&) applied std::move to a forwarding reference, so
constructing a state (or fir_filter) from a caller's univector left the
caller's taps empty.
---
 include/kfr/dsp/fir.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index d1a8918..d51da5a 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -99,7 +99,8 @@ struct fir_state
     {
     }
     template <typename Cont, CMT_HAS_DATA_SIZE(Cont)>
-    fir_state(Cont&& taps) : params(std::move(taps)), delayline(params.taps.size(), U(0)), delayline_cursor(0)
+    fir_state(Cont&& taps)
+        : params(std::forward<Cont>(taps)), delayline(params.taps.size(), U(0)), delayline_cursor(0)
     {
     }
     template <typename Cont, CMT_HAS_DATA_SIZE(Cont)>
-- 
2.43.0


From cf78b6df1dfb32761e15ab3ba0fd52fd1d85b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 02/71] fix: IIR cascade loses its state after a block shorter
 than the cascade

When a block had at most filters - 1 samples, begin_pass consumed all of
it and no later step saved the state at the end of the block, so end_pass
restored a stale one.
---
 include/kfr/dsp/biquad.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 48b1be8..c39a17f 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -314,7 +314,8 @@ KFR_INTRINSIC void begin_pass(const expression_iir<filters, T, E1, Stateless>& s
     {
         in[i] = i < size ? get_elements(self.first(), shape<1>{ i }, axis_params_v<0, 1>).front() : 0;
     }
-    internal::biquad_process(*self.state, in);
+    // If the whole block fits into the latency of the cascade, the state at its end is reached here
+    internal::biquad_process(*self.state, in, size <= filters - 1 ? size : static_cast<size_t>(-1));
 }
 
 template <typename T, typename E1, bool Stateless>
-- 
2.43.0


From 356d63494793003f51f6a659975b401e4fa26492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 03/71] fix: iir_filter::reset had no effect

reset() was the empty default of filter<T>, so the C++ object and
kfr_filter_reset_f32/f64 left the delay elements of an IIR filter as they
were. Keep the parameters and rebuild the filter expression.
---
 include/kfr/dsp/biquad.hpp |  6 ++++++
 src/dsp/biquad.cpp         | 12 ++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index c39a17f..aaa7a96 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -505,11 +505,17 @@ class iir_filter : public expression_filter<T>
 public:
     iir_filter(const iir_params<T>& params);
 
+    /// Reset internal filter state
+    void reset() override;
+
     [[deprecated("iir_filter(bq, count) is deprecated. Use iir_filter(iir_params{bq, count})")]] iir_filter(
         const biquad_section<T>* bq, size_t count)
         : iir_filter(iir_params<T>(bq, count))
     {
     }
+
+protected:
+    iir_params<T> params;
 };
 
 template <typename T>
diff --git a/src/dsp/biquad.cpp b/src/dsp/biquad.cpp
index e8f7ed2..60af841 100644
--- a/src/dsp/biquad.cpp
+++ b/src/dsp/biquad.cpp
@@ -52,13 +52,21 @@ template expression_handle<double, 1> create_iir_filter<double>(const iir_params
 #ifdef CMT_MULTI_NEEDS_GATE
 
 template <typename T>
-iir_filter<T>::iir_filter(const iir_params<T>& params)
+iir_filter<T>::iir_filter(const iir_params<T>& params) : params(params)
 {
-    CMT_MULTI_GATE(this->filter_expr = ns::impl::create_iir_filter<T>(params));
+    iir_filter<T>::reset();
+}
+
+template <typename T>
+void iir_filter<T>::reset()
+{
+    CMT_MULTI_GATE(this->filter_expr = ns::impl::create_iir_filter<T>(this->params));
 }
 
 template iir_filter<float>::iir_filter(const iir_params<float>&);
 template iir_filter<double>::iir_filter(const iir_params<double>&);
+template void iir_filter<float>::reset();
+template void iir_filter<double>::reset();
 
 #endif
 
-- 
2.43.0


From 1dbd4173e626417f7886613f49e819d339d0d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 04/71] fix: ring buffer transfers larger than the buffer

ringbuf_write of more elements than the buffer holds advanced the source
by the quotient of the sizes and dropped most of the data; ringbuf_read
left part of the destination unwritten.
---
 include/kfr/base/univector.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/kfr/base/univector.hpp b/include/kfr/base/univector.hpp
index 945412d..d702743 100644
--- a/include/kfr/base/univector.hpp
+++ b/include/kfr/base/univector.hpp
@@ -162,15 +162,17 @@ struct univector_base<T, Class, true>
 
     void ringbuf_write(size_t& cursor, const T* src, size_t srcsize)
     {
-        if (CMT_UNLIKELY(srcsize == 0))
-            return;
-        // skip redundant data
         const size_t size = get_size();
-        T* data           = get_data();
+        if (CMT_UNLIKELY(srcsize == 0 || size == 0))
+            return;
+        T* data = get_data();
+        // skip redundant data (everything that would be overwritten by this call)
         if (srcsize > size)
         {
-            src     = src + srcsize / size;
-            srcsize = srcsize % size;
+            const size_t skipped = srcsize - size;
+            ringbuf_step(cursor, skipped % size);
+            src     = src + skipped;
+            srcsize = size;
         }
         const size_t fsize = size - cursor;
         // one fragment
@@ -215,15 +217,17 @@ struct univector_base<T, Class, true>
     }
     void ringbuf_read(size_t& cursor, T* dest, size_t destsize) const
     {
-        if (CMT_UNLIKELY(destsize == 0))
-            return;
-        // skip redundant data
         const size_t size = get_size();
-        const T* data     = get_data();
-        if (destsize > size)
+        if (CMT_UNLIKELY(destsize == 0 || size == 0))
+            return;
+        const T* data = get_data();
+        // go round the buffer as many times as needed
+        while (destsize > size)
         {
-            dest     = dest + destsize / size;
-            destsize = destsize % size;
+            copy(dest, data + cursor, size - cursor);
+            copy(dest + (size - cursor), data, cursor);
+            dest += size;
+            destsize -= size;
         }
         const size_t fsize = size - cursor;
         // one fragment
-- 
2.43.0


From 686f79b72730e062315bdfde6493d0eecedc02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 05/71] fix: moving_sum of length one read outside its delay
 line

The tail cursor started at 1 in a delay line of one element.
---
 include/kfr/dsp/fir.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index d51da5a..ddab8f3 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -119,14 +119,17 @@ fir_state(Cont&&) -> fir_state<container_value_type<Cont>>;
 template <typename U, univector_tag Tag = tag_dynamic_vector>
 struct moving_sum_state
 {
-    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(Tag > 1 ? 1 : 0) {}
     univector<U, Tag> delayline;
     size_t head_cursor, tail_cursor;
 };
 template <typename U>
 struct moving_sum_state<U, tag_dynamic_vector>
 {
-    moving_sum_state(size_t sum_length) : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state(size_t sum_length)
+        : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(sum_length > 1 ? 1 : 0)
+    {
+    }
     univector<U> delayline;
     size_t head_cursor, tail_cursor;
 };
-- 
2.43.0


From e08ac25ffe0fbb2e6ca831e14afb38c1f9bfe342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 06/71] fix: Bluestein chirp loses precision with transform
 size

The phase pi*k^2/size was evaluated in the working precision without range
reduction, so the error of DFTs of sizes with a prime factor above 100 grew
linearly with size (2e-3 of the norm for a float DFT of size 8191).
---
 src/dft/dft-impl.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index 21fe447..f9dee74 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -211,8 +211,15 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->temp_size   = plan.temp_size;
         this->stage_size  = size;
 
-        chirp_ = render(cexp(sqr(linspace(T(1) - size, size - T(1), size * 2 - 1, true, ctrue)) *
-                             complex<T>(0, -1) * c_pi<T> / size));
+        // exp(-i*pi*k^2/size) for k in (-size, size). k^2 is reduced modulo the period (2 * size) using integers,
+        // otherwise the phase error grows with size
+        univector<T> phase(size * 2 - 1);
+        for (size_t i = 0; i < phase.size(); ++i)
+        {
+            const uint64_t k = i < size ? size - 1 - i : i - (size - 1);
+            phase[i]         = static_cast<T>((k * k) % (2 * static_cast<uint64_t>(size)));
+        }
+        chirp_ = render(cexp(phase * complex<T>(0, -1) * c_pi<T> / size));
 
         ichirpp_ = render(truncate(padded(1 / slice(chirp_, 0, 2 * size - 1)), fftsize));
 
-- 
2.43.0


From ccf86965a9b649a01ab5da677b9044872562b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 07/71] fix: DFT plans of sizes with large prime factors are
 not reentrant

The Bluestein stage kept its intermediate buffers inside the plan, so two
threads executing one plan corrupted each other's results. Take them from
the caller's scratch buffer like every other stage does.
---
 src/dft/dft-impl.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index f9dee74..6474e7c 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -208,7 +208,7 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->repeats     = 1;
         this->recursion   = false;
         this->can_inplace = false;
-        this->temp_size   = plan.temp_size;
+        this->temp_size   = work_offset() + 2 * sizeof(complex<T>) * fftsize;
         this->stage_size  = size;
 
         // exp(-i*pi*k^2/size) for k in (-size, size). k^2 is reduced modulo the period (2 * size) using integers,
@@ -225,8 +225,6 @@ struct dft_arblen_stage_impl : dft_stage<T>
 
         univector<u8> temp(plan.temp_size);
         plan.execute(ichirpp_, ichirpp_, temp);
-        xp.resize(fftsize, 0);
-        xp_fft.resize(fftsize);
         invN2 = T(1) / fftsize;
     }
 
@@ -236,8 +234,14 @@ struct dft_arblen_stage_impl : dft_stage<T>
     {
         const size_t n = this->size;
 
+        // The plan may be executed by several threads at once: all intermediate data is kept in temp
+        complex<T>* work                 = ptr_cast<complex<T>>(temp + work_offset());
+        univector_ref<complex<T>> xp     = make_univector(work, fftsize);
+        univector_ref<complex<T>> xp_fft = make_univector(work + fftsize, fftsize);
+
         auto&& chirp = apply_conj(chirp_, cbool<inverse>);
 
+        xp.slice(n) = zeros<complex<T>>();
         xp.slice(0, n) = make_univector(in, n) * slice(chirp, n - 1);
 
         plan.execute(xp_fft.data(), xp.data(), temp);
@@ -251,14 +255,14 @@ struct dft_arblen_stage_impl : dft_stage<T>
         make_univector(out, n) = xp_fft.slice(n - 1, n) * slice(chirp, n - 1, n) * invN2;
     }
 
+    size_t work_offset() const { return align_up(plan.temp_size, platform<>::native_cache_alignment); }
+
     const size_t size;
     const size_t fftsize;
     T invN2;
     dft_plan<T> plan;
     univector<complex<T>> chirp_;
     univector<complex<T>> ichirpp_;
-    univector<complex<T>> xp;
-    univector<complex<T>> xp_fft;
 };
 
 template <typename T, size_t radix1, size_t radix2, size_t size = radix1 * radix2>
-- 
2.43.0


From 56867cbc60c8f20ac922e6310a7c6cbf98ba4c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 08/71] fix: DCT buffers overlap the scratch memory of the
 underlying DFT

dft_execute locates its scratch at the end of temp using temp_size, which
dct_plan enlarges for its own buffers, so for sizes that need the scratch the
two overlapped and the result was wrong.
---
 include/kfr/dft/fft.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index cfc075e..8e18d11 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -853,7 +853,12 @@ private:
 template <typename T>
 struct dct_plan : dft_plan<T>
 {
-    dct_plan(size_t size) : dft_plan<T>(size) { this->temp_size += sizeof(complex<T>) * size * 2; }
+    dct_plan(size_t size) : dft_plan<T>(size)
+    {
+        // dft_plan takes its scratch from the end of the temp buffer, so the buffers of dct_plan are placed
+        // between the memory used by the stages and that scratch
+        this->temp_size += sizeof(complex<T>) * size * 2 + dft_scratch_size();
+    }
 
     [[deprecated("cpu parameter is deprecated. Runtime dispatch is used if built with "
                  "KFR_ENABLE_MULTIARCH")]] dct_plan(cpu_t cpu, size_t size)
@@ -863,12 +868,12 @@ struct dct_plan : dft_plan<T>
 
     KFR_MEM_INTRINSIC void execute(T* out, const T* in, u8* temp, bool inverse = false) const
     {
-        const size_t size                  = this->size;
-        const size_t halfSize              = size / 2;
-        univector_ref<complex<T>> mirrored = make_univector(
-            ptr_cast<complex<T>>(temp + this->temp_size - sizeof(complex<T>) * size * 2), size);
-        univector_ref<complex<T>> mirrored_dft =
-            make_univector(ptr_cast<complex<T>>(temp + this->temp_size - sizeof(complex<T>) * size), size);
+        const size_t size     = this->size;
+        const size_t halfSize = size / 2;
+        complex<T>* buffers   = ptr_cast<complex<T>>(temp + this->temp_size - dft_scratch_size() -
+                                                     sizeof(complex<T>) * size * 2);
+        univector_ref<complex<T>> mirrored     = make_univector(buffers, size);
+        univector_ref<complex<T>> mirrored_dft = make_univector(buffers + size, size);
         auto t = counter() * c_pi<T> / (size * 2);
         if (!inverse)
         {
@@ -907,6 +912,12 @@ struct dct_plan : dft_plan<T>
     {
         execute(out.data(), in.data(), temp.data(), inverse);
     }
+
+private:
+    size_t dft_scratch_size() const
+    {
+        return align_up(sizeof(complex<T>) * (this->size + 1), platform<>::native_cache_alignment);
+    }
 };
 
 inline namespace CMT_ARCH_NAME
-- 
2.43.0


From c95eb35929abdd40bd3602a7108e869658d3be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 09/71] fix: dct_plan::execute dereferences a null temp buffer

The base class allocates the scratch when temp is null; do the same.
---
 include/kfr/dft/fft.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index 8e18d11..716f628 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -868,6 +868,11 @@ struct dct_plan : dft_plan<T>
 
     KFR_MEM_INTRINSIC void execute(T* out, const T* in, u8* temp, bool inverse = false) const
     {
+        if (temp == nullptr)
+        {
+            return call_with_temp(this->temp_size,
+                                  [&](u8* allocated) { execute(out, in, allocated, inverse); });
+        }
         const size_t size     = this->size;
         const size_t halfSize = size / 2;
         complex<T>* buffers   = ptr_cast<complex<T>>(temp + this->temp_size - dft_scratch_size() -
-- 
2.43.0


From 89492da71fcff2070a02bcd1631e6eb07d339fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 10/71] fix: direction checks of dft_plan_md_real are swapped

execute(..., bool inverse) rejected the direction the overload performs and
accepted the opposite one.
---
 include/kfr/dft/fft.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index 716f628..8c8c156 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -719,12 +719,12 @@ struct dft_plan_md_real
     }
     void execute(complex<T>* out, const T* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(cfalse, out, in, temp);
     }
     void execute(T* out, const complex<T>* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(ctrue, out, in, temp);
     }
 
-- 
2.43.0


From 7ce1c9d6165efa75ea4d0a63c2dc563bd0ff1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 11/71] fix: convolution of complex data drops the imaginary
 part

---
 src/dft/convolution-impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dft/convolution-impl.cpp b/src/dft/convolution-impl.cpp
index 5c58803..e5048b0 100644
--- a/src/dft/convolution-impl.cpp
+++ b/src/dft/convolution-impl.cpp
@@ -121,7 +121,10 @@ univector<T> convolve(const univector_ref<const T>& src1, const univector_ref<co
     src1padded = src1padded * src2padded;
     dft->execute(src1padded, src1padded, temp, true);
     const ST invsize = reciprocal<ST>(static_cast<ST>(size));
-    return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
+    if constexpr (std::is_same_v<T, complex<ST>>)
+        return truncate(src1padded, src1.size() + src2.size() - 1) * invsize;
+    else
+        return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
 }
 template univector<f32> convolve<f32>(const univector_ref<const f32>&, const univector_ref<const f32>&, bool);
 template univector<f64> convolve<f64>(const univector_ref<const f64>&, const univector_ref<const f64>&, bool);
-- 
2.43.0


From a23776f6d583e7cbc31ee75e40f24b3c95b71688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 12/71] fix: correlation of complex data does not conjugate the
 second operand

---
 src/dft/convolution-impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dft/convolution-impl.cpp b/src/dft/convolution-impl.cpp
index e5048b0..197f31b 100644
--- a/src/dft/convolution-impl.cpp
+++ b/src/dft/convolution-impl.cpp
@@ -108,7 +108,11 @@ univector<T> convolve(const univector_ref<const T>& src1, const univector_ref<co
     univector<complex<ST>> src1padded = src1;
     univector<complex<ST>> src2padded;
     if (correlate)
+    {
         src2padded = reverse(src2);
+        if constexpr (std::is_same_v<T, complex<ST>>)
+            src2padded = cconj(src2padded);
+    }
     else
         src2padded = src2;
     src1padded.resize(size);
-- 
2.43.0


From bda2dac52976def23865840c905114686d579ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 13/71] fix: modzerobessel overflows in single precision

Powers of (x/2)^2 were accumulated without the coefficient, so the function
returned infinity from about x=16 and the Kaiser window of single precision
resampling at perfect quality was NaN.
---
 include/kfr/math/impl/modzerobessel.hpp | 47 +++----------------------
 1 file changed, 5 insertions(+), 42 deletions(-)

diff --git a/include/kfr/math/impl/modzerobessel.hpp b/include/kfr/math/impl/modzerobessel.hpp
index ec462b6..5948952 100644
--- a/include/kfr/math/impl/modzerobessel.hpp
+++ b/include/kfr/math/impl/modzerobessel.hpp
@@ -41,56 +41,19 @@ namespace intrinsics
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> modzerobessel(const vec<T, N>& x)
 {
-    constexpr static T bessel_coef[] = { T(0.25),
-                                         T(0.027777777777777776236),
-                                         T(0.0017361111111111110147),
-                                         T(6.9444444444444444384e-005),
-                                         T(1.9290123456790123911e-006),
-                                         T(3.9367598891408417495e-008),
-                                         T(6.1511873267825652335e-010),
-                                         T(7.5940584281266239246e-012),
-                                         T(7.5940584281266233693e-014),
-                                         T(6.2760813455591932909e-016),
-                                         T(4.3583898233049949985e-018),
-                                         T(2.5789288895295827557e-020),
-                                         T(1.3157800456783586208e-022),
-                                         T(5.8479113141260384983e-025),
-                                         T(2.2843403570804837884e-027),
-                                         T(7.904291893012054025e-030),
-                                         T(2.4395962632753252792e-032),
-                                         T(6.75788438580422547e-035),
-                                         T(1.689471096451056426e-037),
-                                         T(3.8310002187098784929e-040),
-                                         T(7.9152897080782616517e-043),
-                                         T(1.4962740468957016443e-045),
-                                         T(2.5976979980828152196e-048),
-                                         T(4.1563167969325041577e-051),
-                                         T(6.1483976285983795968e-054),
-                                         T(8.434015951438105991e-057),
-                                         T(1.0757673407446563809e-059),
-                                         T(1.2791526049282476926e-062),
-                                         T(1.4212806721424974034e-065),
-                                         T(1.4789601166935457918e-068),
-                                         T(1.4442969889585408123e-071),
-                                         T(1.3262598613026086927e-074),
-                                         T(1.1472836170437790782e-077),
-                                         T(9.3655805472961564331e-081),
-                                         T(7.2265282000741942594e-084),
-                                         T(5.2786911614858977913e-087),
-                                         T(3.6556032974279072401e-090),
-                                         T(2.4034209713529963119e-093),
-                                         T(1.5021381070956226783e-096) };
-
     const vec<T, N> x_2     = x * 0.5;
     const vec<T, N> x_2_sqr = x_2 * x_2;
-    vec<T, N> num           = x_2_sqr;
+    vec<T, N> term          = x_2_sqr;
     vec<T, N> result;
     result = 1 + x_2_sqr;
 
+    // Every term is derived from the previous one, because x_2_sqr to the power of i overflows T long before
+    // the function itself does
     CMT_LOOP_UNROLL
     for (size_t i = 0; i < (sizeof(T) == 4 ? 20 : 39); i++)
     {
-        result = fmadd((num *= x_2_sqr), bessel_coef[i], result);
+        term *= x_2_sqr * (T(1) / static_cast<T>((i + 2) * (i + 2)));
+        result = result + term;
     }
     return result;
 }
-- 
2.43.0


From b8d727616e58040e2f1c1f10b0b47c7c1fce44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 14/71] fix: samplerate_converter::output_size_for_input
 disagrees with input_size_for_output

When downsampling it reported outputs for which process() needs more input
than was announced, so pushed streams were padded with zeros in the middle.
---
 include/kfr/dsp/sample_rate_conversion.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/sample_rate_conversion.hpp b/include/kfr/dsp/sample_rate_conversion.hpp
index 249b132..9588f06 100644
--- a/include/kfr/dsp/sample_rate_conversion.hpp
+++ b/include/kfr/dsp/sample_rate_conversion.hpp
@@ -199,8 +199,10 @@ public:
      */
     KFR_MEM_INTRINSIC itype output_size_for_input(itype input_size) const
     {
-        return input_position_to_output(input_position + input_size - 1) -
-               input_position_to_output(input_position - 1);
+        // last input position that may be consumed without reading past the input
+        const itype last_input = output_position_to_input(output_position - 1) + input_size;
+        // number of outputs (from the start) that depend only on inputs up to last_input, rounded up
+        return -input_position_to_output(-(last_input + 1)) - output_position;
     }
 
     /**
-- 
2.43.0


From 3367ef65539f16d97db20349f63145582ac29d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 15/71] fix: aligned_malloc returns null when the requested
 size cannot be represented

size + alignment - 1 + header wrapped around for sizes near SIZE_MAX, so a
tiny block was handed out as one of the requested size.
---
 include/kfr/cometa/memory.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 26f7d15..01b4f48 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -61,6 +61,8 @@ inline void* aligned_malloc(size_t size, size_t alignment)
 {
     if (alignment == 0 || alignment > 32768)
         return nullptr;
+    if (size > SIZE_MAX - (alignment - 1) - sizeof(mem_header))
+        return nullptr;
     get_memory_statistics().allocation_count++;
     get_memory_statistics().allocation_size += size;
     void* ptr = malloc(size + (alignment - 1) + sizeof(mem_header));
-- 
2.43.0


From f8e31e0f2e79ca982a234437e165ca6e64c732f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 16/71] fix: aligned_reallocate keeps the block and returns
 null when it cannot allocate

The contents were copied to the null pointer.
---
 include/kfr/cometa/memory.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 01b4f48..c9f2b06 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -100,7 +100,9 @@ inline void* aligned_reallocate(void* ptr, size_t new_size, size_t alignment)
     {
         if (new_size)
         {
-            void* new_ptr   = aligned_malloc(new_size, alignment);
+            void* new_ptr = aligned_malloc(new_size, alignment);
+            if (new_ptr == nullptr)
+                return nullptr;
             size_t old_size = aligned_size(ptr);
             memcpy(new_ptr, ptr, std::min(old_size, new_size));
             aligned_release(ptr);
-- 
2.43.0


From 0023e73d19afb20154fffaa13c18a46be670bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 17/71] fix: aligned_allocate does not wrap around for huge
 element counts

---
 include/kfr/cometa/memory.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index c9f2b06..88fbe6a 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -130,12 +130,22 @@ inline void* aligned_reallocate(void* ptr, size_t new_size, size_t alignment)
 
 constexpr inline size_t default_memory_alignment = 64;
 
+namespace details
+{
+/// @brief Size in bytes of the given number of elements, SIZE_MAX (never satisfiable) if it is not representable
+template <typename T>
+constexpr size_t elements_to_bytes(size_t count)
+{
+    return count > SIZE_MAX / elementsize<T>() ? SIZE_MAX : count * elementsize<T>();
+}
+} // namespace details
+
 /// @brief Allocates aligned memory
 template <typename T = void, size_t alignment = default_memory_alignment>
 CMT_INTRINSIC T* aligned_allocate(size_t size = 1)
 {
     T* ptr = static_cast<T*>(CMT_ASSUME_ALIGNED(
-        details::aligned_malloc(std::max(alignment, size * details::elementsize<T>()), alignment),
+        details::aligned_malloc(std::max(alignment, details::elements_to_bytes<T>(size)), alignment),
         alignment));
     return ptr;
 }
@@ -144,7 +154,7 @@ template <typename T = void>
 CMT_INTRINSIC T* aligned_allocate(size_t size, size_t alignment)
 {
     T* ptr = static_cast<T*>(CMT_ASSUME_ALIGNED(
-        details::aligned_malloc(std::max(alignment, size * details::elementsize<T>()), alignment),
+        details::aligned_malloc(std::max(alignment, details::elements_to_bytes<T>(size)), alignment),
         alignment));
     return ptr;
 }
-- 
2.43.0


From e713df7165436992caf2146bffc9552d39d1efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 18/71] fix: tensor self-assignment released the storage before
 copying from it

---
 include/kfr/base/tensor.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index a0fdacc..85c43d8 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -361,14 +361,20 @@ public:
 #if defined(CMT_COMPILER_IS_MSVC) || true
     tensor& operator=(const tensor& src) &
     {
-        this->~tensor();
-        new (this) tensor(src);
+        if (this != &src)
+        {
+            this->~tensor();
+            new (this) tensor(src);
+        }
         return *this;
     }
     tensor& operator=(tensor&& src) &
     {
-        this->~tensor();
-        new (this) tensor(std::move(src));
+        if (this != &src)
+        {
+            this->~tensor();
+            new (this) tensor(std::move(src));
+        }
         return *this;
     }
 #else
-- 
2.43.0


From 7a1fa0709bc43a72ea3bc1c02c8b93a94a580130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 19/71] fix: assigning a non-const tensor rebinds the target
 like assigning a const one

The expression overload won for non-const sources, so an empty target stayed
empty and a non-empty one was overwritten element by element.
---
 include/kfr/base/tensor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 85c43d8..8935217 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -377,6 +377,8 @@ public:
         }
         return *this;
     }
+    tensor& operator=(tensor& src) & { return *this = const_cast<const tensor&>(src); }
+    tensor& operator=(const tensor&& src) & { return *this = static_cast<const tensor&>(src); }
 #else
     tensor& operator=(const tensor& src) & = default;
     tensor& operator=(tensor&& src) &      = default;
-- 
2.43.0


From 7d3f5eeb2de3cc4bd68f1df334d6cded205c2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 20/71] fix: tensor ranges with a negative step honour negative
 start and stop

The offset by one that turns an inclusive start into an exclusive one was
added before negative values were resolved, so -1 meant the first element.
---
 include/kfr/base/tensor.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 8935217..7840bb0 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -439,8 +439,12 @@ public:
         }
         else
         {
-            tstart = iidx.start ? *iidx.start + 1 : tsize;
-            tstop  = iidx.stop ? *iidx.stop + 1 : 0;
+            // negative values count from the end of the axis, as they do for positive steps
+            tstart = iidx.start ? (*iidx.start < 0 ? tsize + *iidx.start : *iidx.start) + 1 : tsize;
+            tstop  = iidx.stop ? (*iidx.stop < 0 ? tsize + *iidx.stop : *iidx.stop) + 1 : 0;
+            // before the first element
+            tstart = std::max(tstart, signed_index_t(0));
+            tstop  = std::max(tstop, signed_index_t(0));
         }
         tstart = tstart < 0 ? tsize + tstart : tstart;
         tstart = std::max(std::min(tstart, tsize), signed_index_t(0));
-- 
2.43.0


From aee3bf88eedec433e948fcf6d82a0c48f026cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 21/71] fix: expressions of three or more operands accept
 incompatible shapes

---
 include/kfr/base/shape.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/shape.hpp b/include/kfr/base/shape.hpp
index 2a95757..b6ccf9a 100644
--- a/include/kfr/base/shape.hpp
+++ b/include/kfr/base/shape.hpp
@@ -708,7 +708,7 @@ KFR_MEM_INTRINSIC constexpr shape<outdims> common_shape(const shape<dims1>& shap
                                                         const shape<dims2>& shape2,
                                                         const shape<dims>&... shapes)
 {
-    return common_shape<checked>(shape1, common_shape(shape2, shapes...));
+    return common_shape<checked>(shape1, common_shape<checked>(shape2, shapes...));
 }
 
 template <index_t dims1, index_t dims2>
-- 
2.43.0


From 2fa8354a0a5563464e51d5039792f4322b81da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 22/71] fix: reads and writes of array elements with padding

---
 include/kfr/simd/read_write.hpp | 37 ++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/include/kfr/simd/read_write.hpp b/include/kfr/simd/read_write.hpp
index 1337e17..111c36d 100644
--- a/include/kfr/simd/read_write.hpp
+++ b/include/kfr/simd/read_write.hpp
@@ -33,17 +33,48 @@ namespace kfr
 inline namespace CMT_ARCH_NAME
 {
 
+namespace internal
+{
+// True if array elements of type T have padding (vectors of non-power-of-two size)
+template <typename T>
+constexpr inline bool is_padded_element =
+    sizeof(T) != sizeof(deep_subtype<T>) * compound_type_traits<T>::deep_width;
+} // namespace internal
+
 template <size_t N, bool A = false, typename T>
 KFR_INTRINSIC vec<T, N> read(const T* src)
 {
-    return vec<T, N>::from_flatten(intrinsics::read(cbool<A>, csize<N * compound_type_traits<T>::deep_width>,
-                                                    ptr_cast<deep_subtype<T>>(src)));
+    constexpr size_t width = compound_type_traits<T>::deep_width;
+    if constexpr (internal::is_padded_element<T>)
+    {
+        portable_vec<deep_subtype<T>, N * width> result;
+        for (size_t i = 0; i < N; ++i)
+            for (size_t j = 0; j < width; ++j)
+                result[i * width + j] = ptr_cast<deep_subtype<T>>(src + i)[j];
+        return vec<T, N>::from_flatten(result);
+    }
+    else
+    {
+        return vec<T, N>::from_flatten(
+            intrinsics::read(cbool<A>, csize<N * width>, ptr_cast<deep_subtype<T>>(src)));
+    }
 }
 
 template <bool A = false, size_t N, typename T>
 KFR_INTRINSIC void write(T* dest, const vec<T, N>& value)
 {
-    intrinsics::write(cbool<A>, ptr_cast<deep_subtype<T>>(dest), value.flatten());
+    if constexpr (internal::is_padded_element<T>)
+    {
+        constexpr size_t width = compound_type_traits<T>::deep_width;
+        const portable_vec<deep_subtype<T>, N * width> flat = value.flatten();
+        for (size_t i = 0; i < N; ++i)
+            for (size_t j = 0; j < width; ++j)
+                ptr_cast<deep_subtype<T>>(dest + i)[j] = flat[i * width + j];
+    }
+    else
+    {
+        intrinsics::write(cbool<A>, ptr_cast<deep_subtype<T>>(dest), value.flatten());
+    }
 }
 
 namespace internal
-- 
2.43.0


From 241edaedcecfd459657df1e81aa38a282e0333a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 23/71] fix: broadcasting over an axis other than the last uses
 the wrong mask

---
 include/kfr/base/expression.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 34aea3e..0edb234 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -552,19 +552,19 @@ KFR_MEM_INTRINSIC vec<typename Traits::value_type, N> get_arg(const expression_f
     {
         constexpr size_t NewVecAxis = Traits::dims - (Dims - VecAxis);
         auto indices                = internal_generic::adapt<Traits::dims>(index, self.getmask(csize<idx>));
-        constexpr index_t last_dim  = Traits::get_shape().back();
-        if constexpr (last_dim != undefined_size)
+        constexpr index_t vec_dim   = Traits::get_shape()[NewVecAxis];
+        if constexpr (vec_dim != undefined_size)
         {
-            constexpr index_t last_dim_pot = prev_poweroftwo(last_dim);
-            return repeat<N / std::min(last_dim_pot, static_cast<index_t>(N))>(
+            constexpr index_t vec_dim_pot = prev_poweroftwo(vec_dim);
+            return repeat<N / std::min(vec_dim_pot, static_cast<index_t>(N))>(
                 get_elements(std::get<idx>(self.args), indices,
-                             axis_params<NewVecAxis, std::min(last_dim_pot, static_cast<index_t>(N))>{}));
+                             axis_params<NewVecAxis, std::min(vec_dim_pot, static_cast<index_t>(N))>{}));
         }
         else
         {
             if constexpr (sizeof...(Args) > 1 && N > 1)
             {
-                if (CMT_UNLIKELY(self.masks[idx].back() == 0))
+                if (CMT_UNLIKELY(self.masks[idx][maximum_dims - Traits::dims + NewVecAxis] == 0))
                     return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, 1>{})
                         .front();
                 else
-- 
2.43.0


From 4ead0103f8529bbd51db7541aa908eb81513a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 24/71] fix: evaluating a part of an expression writes past its
 end; unit axes are repeated on assignment

---
 include/kfr/base/expression.hpp | 61 +++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 0edb234..86b7406 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -603,6 +603,28 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_function<Fn, Args...>& sel
                          { return self.fn(internal::get_arg<Tr::dims>(self, index, sh, idx)...); });
 }
 
+template <index_t OutAxis, size_t w, size_t gw, typename Out, typename Tin, index_t outdims>
+KFR_INTRINSIC static void tprocess_fill(Out&& out, const vec<Tin, 1>& val, size_t start, size_t stop,
+                                        shape<outdims> outidx)
+{
+    size_t x = start;
+    if constexpr (w > gw)
+    {
+        CMT_LOOP_NOUNROLL
+        for (; x + w <= stop; x += w)
+        {
+            outidx[OutAxis] = x;
+            set_elements(out, outidx, axis_params_v<OutAxis, w>, repeat<w>(val));
+        }
+    }
+    CMT_LOOP_NOUNROLL
+    for (; x + gw <= stop; x += gw)
+    {
+        outidx[OutAxis] = x;
+        set_elements(out, outidx, axis_params_v<OutAxis, gw>, repeat<gw>(val));
+    }
+}
+
 template <typename Out, typename In, index_t OutAxis, size_t w, size_t gw, typename Tin, index_t outdims,
           index_t indims>
 KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t stop, size_t insize,
@@ -610,32 +632,28 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
 {
     if constexpr (indims == 0)
     {
-        size_t x              = start;
         const vec<Tin, 1> val = get_elements(in, inidx, axis_params_v<0, 1>);
-        if constexpr (w > gw)
-        {
-            CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
-            {
-                outidx[OutAxis] = x;
-                set_elements(out, outidx, axis_params_v<OutAxis, w>, repeat<w>(val));
-            }
-        }
-        CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
-        {
-            outidx[OutAxis] = x;
-            set_elements(out, outidx, axis_params_v<OutAxis, gw>, repeat<gw>(val));
-        }
+        tprocess_fill<OutAxis, w, gw>(out, val, start, stop, outidx);
     }
     else
     {
         constexpr index_t InAxis = OutAxis + indims - outdims;
         size_t x                 = start;
+        if (CMT_UNLIKELY(insize == 1))
+        {
+            // unit axis is repeated along the axis of the output
+            if (start < stop)
+            {
+                inidx[InAxis]         = 0;
+                const vec<Tin, 1> val = get_elements(in, inidx, axis_params_v<InAxis, 1>);
+                tprocess_fill<OutAxis, w, gw>(out, val, start, stop, outidx);
+            }
+            return;
+        }
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; x + w <= stop; x += w)
             {
                 outidx[OutAxis] = x;
                 inidx[InAxis]   = std::min(x, insize - 1);
@@ -645,7 +663,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; x + gw <= stop; x += gw)
         {
             outidx[OutAxis] = x;
             inidx[InAxis]   = std::min(x, insize - 1);
@@ -748,7 +766,12 @@ static auto process(Out&& out, In&& in, shape<outdims> start = shape<outdims>(0)
     const shape<indims> inshape   = Trin::get_shape(in);
     if (CMT_UNLIKELY(!internal_generic::can_assign_from(outshape, inshape)))
         return shape<outdims>{ 0 };
-    shape<outdims> stop = min(min(add_shape(start, size), outshape), inshape.template extend<outdims>());
+    // unit axes of the input are repeated along the axes of the output
+    shape<outdims> instop = inshape.template extend<outdims>();
+    for (index_t i = 0; i < outdims; ++i)
+        if (instop[i] == 1)
+            instop[i] = outshape[i] == infinite_size ? 1 : outshape[i];
+    shape<outdims> stop = min(min(add_shape(start, size), outshape), instop);
 
     index_t in_size = 0;
     if constexpr (indims > 0)
-- 
2.43.0


From dd1ae0fdda92edec7d895319d9780de71b0f4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 25/71] fix: multidimensional lambda expressions advance along
 the wrong axis

---
 include/kfr/base/basic_expressions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 51be798..1a1c2fe 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -316,7 +316,7 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_lambda<T, Dims, Fn, Rnd>&
         for (index_t i = 0; i < N; ++i)
         {
             result[i] = self.fn(cur_index);
-            ++cur_index.back();
+            ++cur_index[Axis];
         }
         return result;
     }
-- 
2.43.0


From 7e40cac6d64b42d5a3facb5fc650647e8a43c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 26/71] fix: reverse of multidimensional expressions

---
 include/kfr/base/basic_expressions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 1a1c2fe..32c1cf0 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -450,7 +450,9 @@ template <typename Arg, index_t Axis, size_t N, typename Traits = expression_tra
 KFR_INTRINSIC vec<T, N> get_elements(const expression_reverse<Arg>& self, const shape<Traits::dims>& index,
                                      const axis_params<Axis, N>& sh)
 {
-    return reverse(get_elements(self.first(), self.input_shape.sub(index).sub(shape<Traits::dims>(N)), sh));
+    shape<Traits::dims> first_index = self.input_shape.sub(index).sub(shape<Traits::dims>(1));
+    first_index[Axis] -= N - 1;
+    return reverse(get_elements(self.first(), first_index, sh));
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From 0bf6b450a07fa9c842e44bc2d74d0c65e9b53086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 27/71] fix: reshape reads wrong elements across rows

---
 include/kfr/base/basic_expressions.hpp | 29 ++++++++++----------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 32c1cf0..b4de509 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -548,7 +548,7 @@ struct expression_reshape : public expression_with_arguments<Arg>
     shape<OutDims> out_shape;
 
     KFR_MEM_INTRINSIC expression_reshape(Arg&& arg, const shape<OutDims>& out_shape)
-        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) }, in_shape(ArgTraits::get_shape(arg)),
+        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) }, in_shape(ArgTraits::get_shape(this->first())),
           out_shape(out_shape)
     {
     }
@@ -598,24 +598,19 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_reshape<Arg, outdims>& sel
         const shape<indims> last_idx =
             self.in_shape.from_flat(self.out_shape.to_flat(index.add_at(N - 1, cindex<Axis>)));
 
-        const shape<indims> diff_idx = last_idx.sub(first_idx);
-
         vec<T, N> result;
         bool done = false;
 
-        if (diff_idx.sum() == N - 1)
-        {
-            cforeach(cvalseq_t<index_t, indims, 0>{},
-                     [&](auto n) CMT_INLINE_LAMBDA
+        cforeach(cvalseq_t<index_t, indims, 0>{},
+                 [&](auto n) CMT_INLINE_LAMBDA
+                 {
+                     constexpr index_t axis = val_of<decltype(n)>({});
+                     if (!done && first_idx.add_at(N - 1, cindex<axis>) == last_idx)
                      {
-                         constexpr index_t axis = val_of<decltype(n)>({});
-                         if (!done && diff_idx[axis] == N - 1)
-                         {
-                             result = get_elements(self.first(), first_idx, axis_params<axis, N>{});
-                             done   = true;
-                         }
-                     });
-        }
+                         result = get_elements(self.first(), first_idx, axis_params<axis, N>{});
+                         done   = true;
+                     }
+                 });
 
         if (!done)
         {
@@ -653,15 +648,13 @@ KFR_INTRINSIC void set_elements(expression_reshape<Arg, outdims>& self, const sh
         const shape<indims> last_idx =
             self.in_shape.from_flat(self.out_shape.to_flat(index.add_at(N - 1, cindex<Axis>)));
 
-        const shape<indims> diff_idx = last_idx.sub(first_idx);
-
         bool done = false;
 
         cforeach(cvalseq_t<index_t, indims, 0>{},
                  [&](auto n) CMT_INLINE_LAMBDA
                  {
                      constexpr index_t axis = val_of<decltype(n)>({});
-                     if (!done && diff_idx[axis] == N - 1)
+                     if (!done && first_idx.add_at(N - 1, cindex<axis>) == last_idx)
                      {
                          set_elements(self.first(), first_idx, axis_params<axis, N>{}, value);
                          done = true;
-- 
2.43.0


From 66c433d2d291f0699a364463a4611274f182bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 28/71] fix: linspace ignores endpoint, and is NaN for a single
 point

---
 include/kfr/base/basic_expressions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index b4de509..5402d20 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -693,7 +693,8 @@ struct expression_linspace
     T invsize;
 
     expression_linspace(T start, T stop, size_t size, bool endpoint = false)
-        : start(start), stop(stop), size(size), invsize(T(1.0) / T(endpoint ? size - 1 : size))
+        : start(start), stop(stop), size(size), endpoint(endpoint),
+          invsize(T(1.0) / T(endpoint && size > 1 ? size - 1 : size))
     {
     }
 
-- 
2.43.0


From ebfc782c4ae7c650ef10c9bde35cc063b5b4e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 29/71] fix: concatenate loses its size for temporaries and
 empty parts

---
 include/kfr/base/basic_expressions.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 5402d20..b68f672 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -776,7 +776,7 @@ struct expression_concatenate : public expression_with_arguments<Arg1, Arg2>
 
     KFR_MEM_INTRINSIC expression_concatenate(Arg1&& arg1, Arg2&& arg2)
         : expression_with_arguments<Arg1, Arg2>{ std::forward<Arg1>(arg1), std::forward<Arg2>(arg2) },
-          size1(expression_traits<Arg1>::get_shape(arg1))
+          size1(expression_traits<Arg1>::get_shape(std::get<0>(this->args)))
     {
     }
 };
@@ -791,10 +791,10 @@ struct expression_traits<expression_concatenate<Arg1, Arg2, ConcatAxis>> : expre
     constexpr static size_t dims        = ArgTraits1::dims;
     constexpr static bool random_access = ArgTraits1::random_access && ArgTraits2::random_access;
 
-    KFR_INTRINSIC static shape<dims> concat_shape(const shape<dims>& sh1, const shape<dims>& sh2)
+    KFR_INTRINSIC static shape<dims> concat_shape(const shape<dims>& sh1, const shape<dims>& sh2,
+                                                  const shape<dims>& sum)
     {
         shape<dims> result = min(sh1, sh2);
-        shape<dims> sum    = add_shape_undef(sh1, sh2);
         result[ConcatAxis] = sum[ConcatAxis];
         return result;
     }
@@ -802,12 +802,16 @@ struct expression_traits<expression_concatenate<Arg1, Arg2, ConcatAxis>> : expre
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape(
         const expression_concatenate<Arg1, Arg2, ConcatAxis>& self)
     {
-        return concat_shape(ArgTraits1::get_shape(std::get<0>(self.args)),
-                            ArgTraits2::get_shape(std::get<1>(self.args)));
+        // both shapes are known here, zero means empty rather than undefined
+        const shape<dims> sh1 = ArgTraits1::get_shape(std::get<0>(self.args));
+        const shape<dims> sh2 = ArgTraits2::get_shape(std::get<1>(self.args));
+        return concat_shape(sh1, sh2, add_shape(sh1, sh2));
     }
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape()
     {
-        return concat_shape(ArgTraits1::get_shape(), ArgTraits2::get_shape());
+        const shape<dims> sh1 = ArgTraits1::get_shape();
+        const shape<dims> sh2 = ArgTraits2::get_shape();
+        return concat_shape(sh1, sh2, add_shape_undef(sh1, sh2));
     }
 };
 
-- 
2.43.0


From 6d46bce17f5fe51dc3da945cca3696baf2d1ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 30/71] fix: dimensions() reads along the wrong axis

---
 include/kfr/base/basic_expressions.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index b68f672..0d49e04 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -1048,16 +1048,17 @@ struct expression_dimensions : public expression_with_traits<E>
 
     template <size_t N, index_t VecAxis>
     KFR_INTRINSIC friend vec<value_type, N> get_elements(const expression_dimensions& self, shape<dims> index,
-                                                         axis_params<VecAxis, N> sh)
+                                                         axis_params<VecAxis, N>)
     {
         shape<in_dims> inindex = index.template trim<in_dims>();
-        if constexpr (VecAxis >= in_dims)
+        // the added axes come first
+        if constexpr (VecAxis < dims - in_dims)
         {
             return repeat<N>(get_elements(self.first(), inindex, axis_params_v<0, 1>));
         }
         else
         {
-            return get_elements(self.first(), inindex, sh);
+            return get_elements(self.first(), inindex, axis_params_v<VecAxis - (dims - in_dims), N>);
         }
     }
 };
-- 
2.43.0


From 5572ef199e2d776420dec43a24bc26750c620007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 31/71] fix: matrix_transpose of an empty matrix divides by
 zero

---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index edace25..9f86c3c 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -600,7 +600,7 @@ void matrix_transpose(vec<T, N>* out, const vec<T, N>* in, shape<Dims> tshape)
     {
         const index_t rows = tshape[0];
         const index_t cols = tshape[1];
-        if (cols == 1 || rows == 1)
+        if (cols <= 1 || rows <= 1)
         {
             return internal::matrix_transpose_noop(out, in, tshape.product());
         }
-- 
2.43.0


From 508c97c69e3cda84f706857618eb8d2a535a2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 32/71] fix: matrix_transpose leaks or mismatches its temporary
 buffer

---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index 9f86c3c..4a68168 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -329,7 +329,7 @@ public:
     ~matrix_cycles()
     {
         if (data != on_stack)
-            delete data;
+            delete[] data;
     }
 
     size_t next_cycle_origin(size_t origin = 0)
-- 
2.43.0


From 0711a2f1b0fd0c19fe44400170287f58d460681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 33/71] fix: matrix_transpose of padded elements

---
 include/kfr/base/transpose.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index 4a68168..8f711c3 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -644,8 +644,9 @@ void matrix_transpose(vec<T, N>* out, const vec<T, N>* in, shape<Dims> tshape)
 template <typename T, index_t Dims>
 void matrix_transpose(T* out, const T* in, shape<Dims> shape)
 {
-    using U                = typename compound_type_traits<T>::deep_subtype;
-    constexpr size_t width = compound_type_traits<T>::deep_width;
+    using U = typename compound_type_traits<T>::deep_subtype;
+    // includes padding, if any
+    constexpr size_t width = sizeof(T) / sizeof(U);
     return internal::matrix_transpose<U, width, Dims>(ptr_cast<vec<U, width>>(out),
                                                       ptr_cast<vec<U, width>>(in), shape);
 }
-- 
2.43.0


From 40e3bae34324dc1f7a429290a0a6e09cc3d9d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 34/71] fix: histogram of integers overflows near the limits of
 the type

---
 include/kfr/base/reduce.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/reduce.hpp b/include/kfr/base/reduce.hpp
index 67ba03a..1817ced 100644
--- a/include/kfr/base/reduce.hpp
+++ b/include/kfr/base/reduce.hpp
@@ -193,8 +193,10 @@ struct histogram_data
         }
         else
         {
-            const vec<T, N> x = 1 + value;
-            indices           = cast<uint64_t>(clamp(x, T(0), T(size() + 1)));
+            // value + 1 and size() + 1 may not be representable in T
+            using W           = std::conditional_t<std::is_unsigned_v<T>, uint64_t, int64_t>;
+            const vec<W, N> x = cast<W>(value);
+            indices           = cast<uint64_t>(1 + clamp(x, W(std::is_unsigned_v<T> ? 0 : -1), W(size())));
         }
         CMT_LOOP_UNROLL
         for (size_t i = 0; i < N; ++i)
-- 
2.43.0


From 3cc6564e1bf67f63c3ebaa1bf7a4ad119847b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 35/71] fix: havg of negative integers

---
 include/kfr/simd/horizontal.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kfr/simd/horizontal.hpp b/include/kfr/simd/horizontal.hpp
index 38d7e43..91aa789 100644
--- a/include/kfr/simd/horizontal.hpp
+++ b/include/kfr/simd/horizontal.hpp
@@ -203,7 +203,11 @@ KFR_FN(hdot)
 template <typename T, size_t N>
 KFR_INTRINSIC T havg(const vec<T, N>& value)
 {
-    return hadd(value) / N;
+    if constexpr (std::is_integral_v<T>)
+        return static_cast<T>(hadd(value) /
+                              static_cast<std::conditional_t<std::is_signed_v<T>, intmax_t, uintmax_t>>(N));
+    else
+        return hadd(value) / N;
 }
 KFR_FN(havg)
 
-- 
2.43.0


From d199ad9475e3a3249e64808fa9dd14db87290a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 36/71] fix: saturating addition and subtraction of 32- and
 64-bit integers do not saturate

---
 include/kfr/simd/impl/saturation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/saturation.hpp b/include/kfr/simd/impl/saturation.hpp
index 57da206..551acad 100644
--- a/include/kfr/simd/impl/saturation.hpp
+++ b/include/kfr/simd/impl/saturation.hpp
@@ -45,7 +45,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_add(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> sum   = aa + bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), a, bitcast<T>(sum));
+    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), bitcast<T>(aa), bitcast<T>(sum));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>& b)
@@ -57,7 +57,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> diff  = aa - bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), a, bitcast<T>(diff));
+    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), bitcast<T>(aa), bitcast<T>(diff));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_unsigned_add(const vec<T, N>& a, const vec<T, N>& b)
-- 
2.43.0


From 7b716656dbda59bae7e4c59e6802cee6340dd607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 37/71] fix: shifts of 8-bit lanes by a common amount in the
 generic backend

---
 .../kfr/simd/impl/basicoperators_generic.hpp  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/kfr/simd/impl/basicoperators_generic.hpp b/include/kfr/simd/impl/basicoperators_generic.hpp
index 5da2829..d5f4ebd 100644
--- a/include/kfr/simd/impl/basicoperators_generic.hpp
+++ b/include/kfr/simd/impl/basicoperators_generic.hpp
@@ -195,7 +195,7 @@ KFR_INTRINSIC u8sse shl(const u8sse& x, unsigned y)
     __m128i ll = _mm_slli_epi16(l, y);
     __m128i hh = _mm_slli_epi16(h, y);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(_mm_srli_epi16(ll, 8), _mm_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8sse shl(const i8sse& x, unsigned y)
 {
@@ -205,7 +205,7 @@ KFR_INTRINSIC i8sse shl(const i8sse& x, unsigned y)
     __m128i ll = _mm_slli_epi16(l, y);
     __m128i hh = _mm_slli_epi16(h, y);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(_mm_srli_epi16(ll, 8), _mm_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC u8sse shr(const u8sse& x, unsigned y)
 {
@@ -215,7 +215,7 @@ KFR_INTRINSIC u8sse shr(const u8sse& x, unsigned y)
     __m128i ll = _mm_srli_epi16(l, y);
     __m128i hh = _mm_srli_epi16(h, y);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(_mm_srli_epi16(ll, 8), _mm_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8sse shr(const i8sse& x, unsigned y)
 {
@@ -225,7 +225,7 @@ KFR_INTRINSIC i8sse shr(const i8sse& x, unsigned y)
     __m128i ll = _mm_srai_epi16(l, y);
     __m128i hh = _mm_srai_epi16(h, y);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packs_epi16(_mm_srai_epi16(ll, 8), _mm_srai_epi16(hh, 8));
 }
 
 KFR_INTRINSIC i64sse shr(const i64sse& x, unsigned y)
@@ -692,7 +692,7 @@ KFR_INTRINSIC u8avx shl(const u8avx& x, unsigned y)
     __m256i ll = _mm256_slli_epi16(l, y);
     __m256i hh = _mm256_slli_epi16(h, y);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(_mm256_srli_epi16(ll, 8), _mm256_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8avx shl(const i8avx& x, unsigned y)
 {
@@ -701,7 +701,7 @@ KFR_INTRINSIC i8avx shl(const i8avx& x, unsigned y)
     __m256i ll = _mm256_slli_epi16(l, y);
     __m256i hh = _mm256_slli_epi16(h, y);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(_mm256_srli_epi16(ll, 8), _mm256_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC u8avx shr(const u8avx& x, unsigned y)
 {
@@ -710,7 +710,7 @@ KFR_INTRINSIC u8avx shr(const u8avx& x, unsigned y)
     __m256i ll = _mm256_srli_epi16(l, y);
     __m256i hh = _mm256_srli_epi16(h, y);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(_mm256_srli_epi16(ll, 8), _mm256_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8avx shr(const i8avx& x, unsigned y)
 {
@@ -719,7 +719,7 @@ KFR_INTRINSIC i8avx shr(const i8avx& x, unsigned y)
     __m256i ll = _mm256_srai_epi16(l, y);
     __m256i hh = _mm256_srai_epi16(h, y);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packs_epi16(_mm256_srai_epi16(ll, 8), _mm256_srai_epi16(hh, 8));
 }
 
 KFR_INTRINSIC u32sse shl(const u32sse& x, const u32sse& y) { return _mm_sllv_epi32(x.v, y.v); }
@@ -1362,7 +1362,7 @@ KFR_INTRINSIC u8avx512 shl(const u8avx512& x, unsigned y)
     __m512i ll = _mm512_slli_epi16(l, y);
     __m512i hh = _mm512_slli_epi16(h, y);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packus_epi16(_mm512_srli_epi16(ll, 8), _mm512_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8avx512 shl(const i8avx512& x, unsigned y)
 {
@@ -1371,7 +1371,7 @@ KFR_INTRINSIC i8avx512 shl(const i8avx512& x, unsigned y)
     __m512i ll = _mm512_slli_epi16(l, y);
     __m512i hh = _mm512_slli_epi16(h, y);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packus_epi16(_mm512_srli_epi16(ll, 8), _mm512_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC u8avx512 shr(const u8avx512& x, unsigned y)
 {
@@ -1380,7 +1380,7 @@ KFR_INTRINSIC u8avx512 shr(const u8avx512& x, unsigned y)
     __m512i ll = _mm512_srli_epi16(l, y);
     __m512i hh = _mm512_srli_epi16(h, y);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packus_epi16(_mm512_srli_epi16(ll, 8), _mm512_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8avx512 shr(const i8avx512& x, unsigned y)
 {
@@ -1389,7 +1389,7 @@ KFR_INTRINSIC i8avx512 shr(const i8avx512& x, unsigned y)
     __m512i ll = _mm512_srai_epi16(l, y);
     __m512i hh = _mm512_srai_epi16(h, y);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packs_epi16(_mm512_srai_epi16(ll, 8), _mm512_srai_epi16(hh, 8));
 }
 
 KFR_INTRINSIC u32avx512 shl(const u32avx512& x, const u32avx512& y) { return _mm512_sllv_epi32(x.v, y.v); }
-- 
2.43.0


From 29ac3ce424dd0ef3208374d86fdff91ff8baf04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 38/71] fix: generic two-source shuffle is selected only for
 power-of-two lane counts

---
 include/kfr/simd/impl/backend_generic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/backend_generic.hpp b/include/kfr/simd/impl/backend_generic.hpp
index 1a21f55..d40567a 100644
--- a/include/kfr/simd/impl/backend_generic.hpp
+++ b/include/kfr/simd/impl/backend_generic.hpp
@@ -397,7 +397,7 @@ KFR_INTRINSIC simd<double, Nout> simd_shuffle(simd_t<double, N>, const simd<doub
     return universal_shuffle(simd_t<double, N>{}, x, ind);
 }
 
-template <size_t N, size_t... indices, size_t Nout = sizeof...(indices)>
+template <size_t N, size_t... indices, size_t Nout = sizeof...(indices), KFR_ENABLE_IF(is_poweroftwo(N))>
 KFR_INTRINSIC simd<float, Nout> simd_shuffle(simd2_t<float, N, N>, const simd<float, N>& x,
                                              const simd<float, N>& y, csizes_t<indices...> ind,
                                              overload_priority<2>) CMT_NOEXCEPT
@@ -405,7 +405,7 @@ KFR_INTRINSIC simd<float, Nout> simd_shuffle(simd2_t<float, N, N>, const simd<fl
     return universal_shuffle(simd_t<float, 2 * N>{}, simd_from_halves(simd_t<float, 2 * N>{}, x, y), ind);
 }
 
-template <size_t N, size_t... indices, size_t Nout = sizeof...(indices)>
+template <size_t N, size_t... indices, size_t Nout = sizeof...(indices), KFR_ENABLE_IF(is_poweroftwo(N))>
 KFR_INTRINSIC simd<double, Nout> simd_shuffle(simd2_t<double, N, N>, const simd<double, N>& x,
                                               const simd<double, N>& y, csizes_t<indices...> ind,
                                               overload_priority<2>) CMT_NOEXCEPT
-- 
2.43.0


From 2d65450c46ad204b00604271dd2b0a7b3ebb9318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 39/71] fix: AVX shuffles of the generic backend read undefined
 or out-of-range indices

---
 include/kfr/simd/impl/backend_generic.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/kfr/simd/impl/backend_generic.hpp b/include/kfr/simd/impl/backend_generic.hpp
index d40567a..45101f2 100644
--- a/include/kfr/simd/impl/backend_generic.hpp
+++ b/include/kfr/simd/impl/backend_generic.hpp
@@ -1727,7 +1727,7 @@ KFR_INTRINSIC simd<float, 8> simd_vec_shuffle(simd_t<float, 8>, const simd<float
                                                       csizes<I0, I1, I2, I3>),
                                     universal_shuffle(simd_t<float, 4>{},
                                                       simd_get_high(simd_t<float, 8>{}, x),
-                                                      csizes<I4, I5, I6, I7>));
+                                                      csizes<I4 - 4, I5 - 4, I6 - 4, I7 - 4>));
         }
     }
     else
@@ -1754,11 +1754,11 @@ KFR_INTRINSIC simd<double, 4> simd_vec_shuffle(simd_t<double, 4>, const simd<dou
             universal_shuffle(simd_t<double, 2>{}, simd_get_low(simd_t<double, 4>{}, x), csizes<I0, I1>);
         return simd_from_halves(simd_t<double, 4>{}, tmp, tmp);
     }
-    else if constexpr (cmaxof(csizes<I0, I1>) < 4 && cminof(csizes<I2, I3>) >= 4)
+    else if constexpr (cmaxof(csizes<I0, I1>) < 2 && cminof(csizes<I2, I3>) >= 2)
     {
-        if constexpr (csizes<I0, I1, I2, I3>.equal(csizes<I0, I1, I2 + 2, I3 + 2>))
+        if constexpr (csizes<I0, I1, I2, I3>.equal(csizes<I0, I1, I0 + 2, I1 + 2>))
         {
-            return _mm256_shuffle_pd(x, x, (shuffle_mask<2, I0, I1>::value));
+            return _mm256_shuffle_pd(x, x, (shuffle_mask<4, I0, I1, I0, I1>::value));
         }
         else
         {
@@ -1766,7 +1766,7 @@ KFR_INTRINSIC simd<double, 4> simd_vec_shuffle(simd_t<double, 4>, const simd<dou
                 simd_t<double, 4>{},
                 universal_shuffle(simd_t<double, 2>{}, simd_get_low(simd_t<double, 4>{}, x), csizes<I0, I1>),
                 universal_shuffle(simd_t<double, 2>{}, simd_get_high(simd_t<double, 4>{}, x),
-                                  csizes<I2, I3>));
+                                  csizes<I2 - 2, I3 - 2>));
         }
     }
     else
@@ -1925,7 +1925,8 @@ KFR_INTRINSIC simd<T, Nout> universal_shuffle(simd_t<T, Nin>, const simd<T, Nin>
     }
     else if constexpr (Nin >= minwidth && Nin <= maxwidth && Nout >= minwidth && Nout <= maxwidth)
     {
-        return simd_vec_shuffle(simd_t<T, Nin>{}, x, Indices{});
+        // Undefined lanes may hold any value, so let them read the first one
+        return simd_vec_shuffle(simd_t<T, Nin>{}, x, csizes<(indices < Nin ? indices : 0)...>);
     }
     else
     {
-- 
2.43.0


From cbdf917b80b20ed8258ba38f7b95ce7a7c35ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 40/71] fix: sample conversion rounds to nearest and saturates
 at the largest 64-bit value

---
 include/kfr/base/conversion.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/conversion.hpp b/include/kfr/base/conversion.hpp
index 32f1b80..f5e2eef 100644
--- a/include/kfr/base/conversion.hpp
+++ b/include/kfr/base/conversion.hpp
@@ -29,6 +29,8 @@
 #include "../simd/types.hpp"
 #include "../simd/vec.hpp"
 #include "univector.hpp"
+#include <cmath>
+#include <limits>
 
 namespace kfr
 {
@@ -183,7 +185,19 @@ template <typename Tout, typename Tin, typename Tout_traits = audio_sample_trait
 inline Tout convert_sample(const Tin& in)
 {
     constexpr auto scale = Tout_traits::scale / Tin_traits::scale;
-    return broadcastto<Tout>(clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale));
+    const auto value     = clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale);
+    if constexpr (std::is_floating_point_v<Tout>)
+    {
+        return broadcastto<Tout>(value);
+    }
+    else
+    {
+        // the largest value may not be representable in floating point
+        if constexpr (std::is_same_v<Tout, i64>)
+            if (value >= Tout_traits::scale)
+                return std::numeric_limits<i64>::max();
+        return broadcastto<Tout>(std::rint(value));
+    }
 }
 
 /// @brief Deinterleaves and converts audio samples
-- 
2.43.0


From 47bbb73f4d101550e0c12212635ae03e4d5e4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 41/71] fix: boolean NPY arrays are saved as such and can be
 loaded

---
 include/kfr/base/endianness.hpp | 19 +++++++++++--------
 include/kfr/base/npy.hpp        | 10 +++++-----
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/kfr/base/endianness.hpp b/include/kfr/base/endianness.hpp
index 8b10e72..69a4b19 100644
--- a/include/kfr/base/endianness.hpp
+++ b/include/kfr/base/endianness.hpp
@@ -35,13 +35,16 @@ namespace kfr
 template <typename T>
 void convert_endianess(T* data, size_t size)
 {
-    block_process(size, csizes<2 * vector_width<T>, 1>,
-                  [&](size_t i, auto w)
-                  {
-                      constexpr size_t width = CMT_CVAL(w);
-                      vec<T, width> value    = read<width>(data + i);
-                      value                  = swapbyteorder(value);
-                      write(data + i, value);
-                  });
+    if constexpr (sizeof(T) > 1)
+    {
+        block_process(size, csizes<2 * vector_width<T>, 1>,
+                      [&](size_t i, auto w)
+                      {
+                          constexpr size_t width = CMT_CVAL(w);
+                          vec<T, width> value    = read<width>(data + i);
+                          value                  = swapbyteorder(value);
+                          write(data + i, value);
+                      });
+    }
 }
 } // namespace kfr
diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 7971a24..75584d3 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -40,7 +40,11 @@ std::string_view npy_format()
 {
     using namespace cometa;
     static_assert(is_poweroftwo(sizeof(T)) && is_between(sizeof(T), 1, 16));
-    if constexpr (std::is_floating_point_v<T>)
+    if constexpr (std::is_same_v<T, bool>)
+    {
+        return "|b1";
+    }
+    else if constexpr (std::is_floating_point_v<T>)
     {
         const std::string_view fmts[] = { "|f1", "<f2", "<f4", "<f8" };
         static_assert(sizeof(T) <= 8);
@@ -64,10 +68,6 @@ std::string_view npy_format()
         static_assert(sizeof(T) <= 16);
         return fmts[ilog2(sizeof(T))];
     }
-    else if constexpr (std::is_same_v<T, bool>)
-    {
-        return "|b1";
-    }
     else
     {
         static_assert("Cannot save type to python");
-- 
2.43.0


From 82407d1acc84305d4a8bb6b8ca48590f0318689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 42/71] fix: NPY files that are cut short, malformed or of
 impossible size are reported

---
 include/kfr/base/npy.hpp | 77 ++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index 75584d3..b44562e 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -27,6 +27,7 @@
 
 #include "tensor.hpp"
 #include <complex>
+#include <limits>
 #include <kfr/base/endianness.hpp>
 #include <kfr/simd/complex.hpp>
 
@@ -155,6 +156,9 @@ struct npy_header
     std::string descr;
     bool fortran_order = false;
     std::vector<index_t> shape;
+    bool has_descr         = false;
+    bool has_fortran_order = false;
+    bool has_shape         = false;
 };
 
 inline bool npy_skip_whitespace(std::string_view& data)
@@ -198,17 +202,26 @@ inline bool npy_skip_value(std::string_view& data, char close = '}', std::string
                 return false;
             break;
         case '(':
+            context += ')';
+            data = data.substr(1);
+            break;
         case '[':
+            context += ']';
+            data = data.substr(1);
+            break;
         case '{':
-            context += data[0];
+            context += '}';
+            data = data.substr(1);
             break;
         case ')':
         case ']':
         case '}':
             if (context.empty())
                 return data[0] == close;
-            if (context.back() == data[0])
-                context.pop_back();
+            if (context.back() != data[0])
+                return false;
+            context.pop_back();
+            data = data.substr(1);
             break;
         case ',':
             if (context.empty())
@@ -242,20 +255,28 @@ inline bool npy_parse_bool(std::string_view& data, bool& content)
 }
 inline bool npy_parse_integer(std::string_view& data, index_t& content)
 {
-    const char* orig = data.data();
-    if (data[0] < '0' || data[0] > '9')
+    if (data.empty() || data[0] < '0' || data[0] > '9')
         return false;
 
-    while (data[0] >= '0' && data[0] <= '9')
-        data = data.substr(1);
-    content = std::stoll(std::string(orig, data.data() - orig));
+    constexpr index_t max_value = std::numeric_limits<index_t>::max();
+
+    content = 0;
+    while (!data.empty() && data[0] >= '0' && data[0] <= '9')
+    {
+        const index_t digit = data[0] - '0';
+        if (content > (max_value - digit) / 10)
+            return false;
+        content = content * 10 + digit;
+        data    = data.substr(1);
+    }
     return true;
 }
 inline bool npy_parse_shape(std::string_view& data, std::vector<index_t>& content)
 {
-    if (data[0] != '(')
+    if (data.empty() || data[0] != '(')
         return false;
     data = data.substr(1);
+    content.clear();
     if (!npy_skip_whitespace(data))
         return false;
     for (;;)
@@ -303,27 +324,24 @@ inline bool npy_decode_field(std::string_view& data, npy_header& hdr)
 
     if (name == "descr")
     {
+        hdr.has_descr = true;
+        hdr.descr.clear();
         return npy_parse_string(data, hdr.descr);
     }
     else if (name == "fortran_order")
     {
+        hdr.has_fortran_order = true;
         return npy_parse_bool(data, hdr.fortran_order);
     }
     else if (name == "shape")
     {
+        hdr.has_shape = true;
         return npy_parse_shape(data, hdr.shape);
     }
     else
     {
         return npy_skip_value(data);
     }
-
-    if (!npy_skip_whitespace(data))
-        return false;
-    if (data.empty() || data[0] != ',')
-        return false;
-    data = data.substr(1);
-    return true;
 }
 
 inline bool npy_decode_dict(std::string_view data, npy_header& hdr)
@@ -331,21 +349,25 @@ inline bool npy_decode_dict(std::string_view data, npy_header& hdr)
     if (data.size() < 10 || data[0] != '{')
         return false;
     data = data.substr(1);
-    while (!data.empty() && data[0] != '}')
+    if (!npy_skip_whitespace(data))
+        return false;
+    while (data[0] != '}')
     {
         if (!npy_decode_field(data, hdr))
         {
             return false;
         }
+        if (!npy_skip_whitespace(data))
+            return false;
         if (data[0] == '}')
-            return true;
-        if (data.empty() || data[0] != ',')
+            break;
+        if (data[0] != ',')
             return false;
         data = data.substr(1);
         if (!npy_skip_whitespace(data))
             return false;
     }
-    return !data.empty() && data[0] == '}';
+    return hdr.has_descr && hdr.has_fortran_order && hdr.has_shape;
 }
 
 inline const std::string_view npy_magic = "\x93NUMPY";
@@ -444,6 +466,8 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
         header_len = header_len16;
     }
     std::string header = rd(ctype<char>, header_len);
+    if (header.size() != header_len)
+        return npy_decode_result::cannot_read;
 
     npy_header hdr;
     if (!npy_decode_dict(header, hdr))
@@ -453,7 +477,8 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
     bool convert_endianness = false;
     if (hdr.descr != tfmt)
     {
-        if (hdr.descr.size() > 1 && hdr.descr[0] != tfmt[0] && hdr.descr.substr(1) == tfmt.substr(1))
+        if (hdr.descr.size() > 1 && std::string_view("<>|=").find(hdr.descr[0]) != std::string_view::npos &&
+            hdr.descr.substr(1) == tfmt.substr(1))
         {
             convert_endianness = hdr.descr[0] == '>';
         }
@@ -469,10 +494,18 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
     std::copy(hdr.shape.begin(), hdr.shape.end(), sh.begin());
     if (sh.product() == 0)
         return npy_decode_result::invalid_shape;
+    index_t max_size = std::numeric_limits<index_t>::max() / sizeof(T);
+    for (index_t i = 0; i < Dims; ++i)
+    {
+        if (sh[i] > max_size)
+            return npy_decode_result::invalid_shape;
+        max_size /= sh[i];
+    }
 
     tensor<T, 1> buffer(shape<1>{ sh.product() });
 
-    rd(ctype<T>, buffer.data(), buffer.size());
+    if (buffer.data() == nullptr || !rd(ctype<T>, buffer.data(), buffer.size()))
+        return npy_decode_result::cannot_read;
     if (convert_endianness)
     {
         convert_endianess(buffer.data(), buffer.size());
-- 
2.43.0


From fe221a32321584a31be73df09ca09aad7f01b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 43/71] fix: deallocating a null aligned pointer does nothing

---
 include/kfr/cometa/memory.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index 88fbe6a..c8bfb6a 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -88,6 +88,8 @@ inline void aligned_add_ref(void* ptr) { aligned_header(ptr)->references()++; }
 
 inline void aligned_free(void* ptr)
 {
+    if (ptr == nullptr)
+        return;
     if (--aligned_header(ptr)->references() == 0)
         aligned_force_free(ptr);
 }
-- 
2.43.0


From 763087717fd3f0ff64c4b3ebc8c7ff2b03b0a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 44/71] fix: WAV writer takes the number of samples, not
 frames, when no conversion is needed

---
 src/io/audiofile-impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 4f54076..aa3d1f9 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -150,7 +150,7 @@ size_t audio_writer_wav<T>::write(const T* data, size_t size)
         return 0;
     if (fmt.type == audio_sample_traits<T>::type)
     {
-        const size_t sz = drwav_write_pcm_frames_le(f.get(), size, data);
+        const size_t sz = drwav_write_pcm_frames_le(f.get(), size / fmt.channels, data);
         fmt.length += sz;
         return sz * fmt.channels;
     }
-- 
2.43.0


From 6fbd1c25d7dce09447eff41bd242377c6493546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 45/71] fix: 8-bit WAV samples are unsigned

---
 src/io/audiofile-impl.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index aa3d1f9..8fe7f39 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -103,6 +103,13 @@ struct mp3_file : drmp3
 {
 };
 
+// 8-bit samples are stored unsigned in WAV files
+static void wav_flip_sign_8bit(uint8_t* data, size_t size)
+{
+    for (size_t i = 0; i < size; ++i)
+        data[i] ^= 0x80;
+}
+
 void wav_file_deleter::operator()(wav_file* f)
 {
     drwav_uninit(f);
@@ -158,6 +165,8 @@ size_t audio_writer_wav<T>::write(const T* data, size_t size)
     {
         univector<uint8_t> native(size * audio_sample_sizeof(fmt.type));
         convert(native.data(), fmt.type, data, size);
+        if (fmt.type == audio_sample_type::i8)
+            internal_generic::wav_flip_sign_8bit(native.data(), native.size());
         const size_t sz = drwav_write_pcm_frames_le(f.get(), size / fmt.channels, native.data());
         fmt.length += sz;
         return sz * fmt.channels;
@@ -256,6 +265,8 @@ size_t audio_reader_wav<T>::read(T* data, size_t size)
         univector<uint8_t> native(size * audio_sample_sizeof(fmt.type));
         const size_t sz = drwav_read_pcm_frames(f.get(), size / fmt.channels, native.data());
         position += sz;
+        if (fmt.type == audio_sample_type::i8)
+            internal_generic::wav_flip_sign_8bit(native.data(), sz * fmt.channels);
         convert(data, native.data(), fmt.type, sz * fmt.channels);
         return sz * fmt.channels;
     }
-- 
2.43.0


From a5e5e03a98f9235f169e47f0e0ec07c6a403ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 46/71] fix: Wave64 chunks are padded to a multiple of eight
 bytes

---
 src/io/dr/dr_wav.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/dr/dr_wav.h b/src/io/dr/dr_wav.h
index 44fc774..1562e73 100644
--- a/src/io/dr/dr_wav.h
+++ b/src/io/dr/dr_wav.h
@@ -1498,7 +1498,7 @@ static unsigned int drwav__chunk_padding_size_riff(drwav_uint64 chunkSize)
 
 static unsigned int drwav__chunk_padding_size_w64(drwav_uint64 chunkSize)
 {
-    return (unsigned int)(chunkSize % 8);
+    return (unsigned int)((8 - chunkSize % 8) % 8);
 }
 
 drwav_uint64 drwav_read_pcm_frames_s16__msadpcm(drwav* pWav, drwav_uint64 samplesToRead, drwav_int16* pBufferOut);
-- 
2.43.0


From 01a7b1696c0429fc2ab01eadf5acf465bbaf8897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 47/71] fix: audio readers report files they cannot open
 instead of crashing

---
 include/kfr/io/audiofile.hpp |  4 +++-
 src/io/audiofile-impl.cpp    | 40 ++++++++++++++++++++++++++++--------
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/kfr/io/audiofile.hpp b/include/kfr/io/audiofile.hpp
index 6071f11..b45cdfb 100644
--- a/include/kfr/io/audiofile.hpp
+++ b/include/kfr/io/audiofile.hpp
@@ -62,6 +62,8 @@ struct audio_reader : public abstract_reader<T>
 
     univector2d<T> read_channels(size_t size)
     {
+        if (format().channels == 0)
+            return {};
         univector<T> interleaved = read(size * format().channels);
         univector2d<T> input_channels(format().channels,
                                       univector<T>(interleaved.size() / format().channels));
@@ -163,7 +165,7 @@ struct audio_reader_wav : audio_reader<T>
 
 private:
     std::shared_ptr<abstract_reader<>> reader;
-    std::unique_ptr<internal_generic::wav_file> f;
+    std::unique_ptr<internal_generic::wav_file, internal_generic::wav_file_deleter> f;
     audio_format_and_length fmt;
     imax position = 0;
 };
diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index 8fe7f39..ccc7b90 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -139,6 +139,8 @@ audio_writer_wav<T>::audio_writer_wav(std::shared_ptr<abstract_writer<>>&& write
         fmt.type >= audio_sample_type::first_float ? DR_WAVE_FORMAT_IEEE_FLOAT : DR_WAVE_FORMAT_PCM;
     wav_fmt.bitsPerSample = static_cast<drwav_uint32>(audio_sample_bit_depth(fmt.type));
     wav_fmt.container     = fmt.use_w64 ? drwav_container_w64 : drwav_container_riff;
+    if (!this->writer)
+        return;
     f.reset(new internal_generic::wav_file());
     if (!drwav_init_write(f.get(), &wav_fmt, (drwav_write_proc)&internal_generic::drwav_writer_write_proc,
                           (drwav_seek_proc)&internal_generic::drwav_writer_seek_proc, this->writer.get(),
@@ -194,9 +196,17 @@ template struct audio_writer_wav<f64>;
 template <typename T>
 audio_reader_wav<T>::audio_reader_wav(std::shared_ptr<abstract_reader<>>&& reader) : reader(std::move(reader))
 {
+    fmt.channels = 0;
+    fmt.type     = audio_sample_type::unknown;
+    if (!this->reader)
+        return;
     f.reset(new internal_generic::wav_file());
-    drwav_init(f.get(), (drwav_read_proc)&internal_generic::drwav_reader_read_proc,
-               (drwav_seek_proc)&internal_generic::drwav_reader_seek_proc, this->reader.get(), nullptr);
+    if (!drwav_init(f.get(), (drwav_read_proc)&internal_generic::drwav_reader_read_proc,
+                    (drwav_seek_proc)&internal_generic::drwav_reader_seek_proc, this->reader.get(), nullptr))
+    {
+        delete f.release();
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(f->totalPCMFrameCount);
@@ -252,7 +262,7 @@ audio_reader_wav<T>::~audio_reader_wav()
 template <typename T>
 size_t audio_reader_wav<T>::read(T* data, size_t size)
 {
-    if (fmt.type == audio_sample_type::unknown)
+    if (!f || fmt.type == audio_sample_type::unknown)
         return 0;
     if (fmt.type == audio_sample_traits<T>::type)
     {
@@ -297,9 +307,15 @@ template <typename T>
 audio_reader_flac<T>::audio_reader_flac(std::shared_ptr<abstract_reader<>>&& reader)
     : reader(std::move(reader))
 {
+    fmt.channels = 0;
+    fmt.type     = audio_sample_type::unknown;
+    if (!this->reader)
+        return;
     f.reset(reinterpret_cast<internal_generic::flac_file*>(drflac_open(
         (drflac_read_proc)&internal_generic::drflac_reader_read_proc,
         (drflac_seek_proc)&internal_generic::drflac_reader_seek_proc, this->reader.get(), nullptr)));
+    if (!f)
+        return;
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(f->totalPCMFrameCount);
@@ -313,7 +329,7 @@ audio_reader_flac<T>::~audio_reader_flac()
 template <typename T>
 size_t audio_reader_flac<T>::read(T* data, size_t size)
 {
-    if (fmt.type == audio_sample_type::unknown)
+    if (!f || fmt.type == audio_sample_type::unknown)
         return 0;
     if (audio_sample_traits<T>::type == audio_sample_type::i32)
     {
@@ -359,10 +375,18 @@ static_assert(sizeof(mp3_config) == sizeof(uint32_t) * 2);
 template <typename T>
 audio_reader_mp3<T>::audio_reader_mp3(std::shared_ptr<abstract_reader<>>&& reader) : reader(std::move(reader))
 {
+    fmt.channels = 0;
+    fmt.type     = audio_sample_type::unknown;
+    if (!this->reader)
+        return;
     f.reset(new internal_generic::mp3_file());
-    drmp3_init(f.get(), (drmp3_read_proc)&internal_generic::drmp3_reader_read_proc,
-               (drmp3_seek_proc)&internal_generic::drmp3_reader_seek_proc, this->reader.get(),
-               reinterpret_cast<const drmp3_config*>(&config), nullptr);
+    if (!drmp3_init(f.get(), (drmp3_read_proc)&internal_generic::drmp3_reader_read_proc,
+                    (drmp3_seek_proc)&internal_generic::drmp3_reader_seek_proc, this->reader.get(),
+                    reinterpret_cast<const drmp3_config*>(&config), nullptr))
+    {
+        delete f.release();
+        return;
+    }
     fmt.channels   = f->channels;
     fmt.samplerate = f->sampleRate;
     fmt.length     = static_cast<imax>(drmp3_get_pcm_frame_count(f.get()));
@@ -376,7 +400,7 @@ audio_reader_mp3<T>::~audio_reader_mp3()
 template <typename T>
 size_t audio_reader_mp3<T>::read(T* data, size_t size)
 {
-    if (fmt.type == audio_sample_type::unknown)
+    if (!f || fmt.type == audio_sample_type::unknown)
         return 0;
     if (audio_sample_traits<T>::type == audio_sample_type::i16)
     {
-- 
2.43.0


From 37f472ef7d5c8c405dc27675b142c9af895d5651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:14 +0000
Subject: [PATCH 48/71] fix: seeking in audio readers keeps the position;
 positions outside the stream are refused

---
 src/io/audiofile-impl.cpp | 49 +++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/io/audiofile-impl.cpp b/src/io/audiofile-impl.cpp
index ccc7b90..2d3d5bb 100644
--- a/src/io/audiofile-impl.cpp
+++ b/src/io/audiofile-impl.cpp
@@ -285,16 +285,25 @@ size_t audio_reader_wav<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_wav<T>::seek(imax offset, seek_origin origin)
 {
+    if (!f)
+        return false;
     switch (origin)
     {
     case seek_origin::current:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
+        offset += position;
+        break;
     case seek_origin::begin:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
+        break;
     case seek_origin::end:
-        return drwav_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
+        offset += fmt.length;
+        break;
     }
-    return false;
+    if (offset < 0 || offset > fmt.length)
+        return false;
+    if (!drwav_seek_to_pcm_frame(f.get(), static_cast<drwav_uint64>(offset)))
+        return false;
+    position = offset;
+    return true;
 }
 
 template struct audio_reader_wav<i16>;
@@ -351,16 +360,24 @@ size_t audio_reader_flac<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_flac<T>::seek(imax offset, seek_origin origin)
 {
+    if (!f)
+        return false;
     switch (origin)
     {
     case seek_origin::current:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
+        offset += position;
+        break;
     case seek_origin::begin:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
+        break;
     case seek_origin::end:
-        return drflac_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
+        offset += fmt.length;
+        break;
     }
-    return false;
+    if (offset < 0 || offset > fmt.length)
+        return false;
+    const bool result = drflac_seek_to_pcm_frame(f.get(), static_cast<drflac_uint64>(offset));
+    position          = static_cast<imax>(f->currentPCMFrame);
+    return result;
 }
 
 template struct audio_reader_flac<i16>;
@@ -422,16 +439,24 @@ size_t audio_reader_mp3<T>::read(T* data, size_t size)
 template <typename T>
 bool audio_reader_mp3<T>::seek(imax offset, seek_origin origin)
 {
+    if (!f)
+        return false;
     switch (origin)
     {
     case seek_origin::current:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(this->position + offset));
+        offset += position;
+        break;
     case seek_origin::begin:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
+        break;
     case seek_origin::end:
-        return drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(fmt.length + offset));
+        offset += fmt.length;
+        break;
     }
-    return false;
+    if (offset < 0 || offset > fmt.length)
+        return false;
+    const bool result = drmp3_seek_to_pcm_frame(f.get(), static_cast<drmp3_uint64>(offset));
+    position          = static_cast<imax>(f->currentPCMFrame);
+    return result;
 }
 
 template struct audio_reader_mp3<i16>;
-- 
2.43.0


From 542c22041ccfca4b86f5c9899c5a48b8e4b7fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:14 +0000
Subject: [PATCH 49/71] fix: WAV reader seeks to the end and past a partial
 last frame; Wave64 chunk sizes below 24 are invalid

---
 src/io/dr/dr_wav.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/dr/dr_wav.h b/src/io/dr/dr_wav.h
index 1562e73..bf48a34 100644
--- a/src/io/dr/dr_wav.h
+++ b/src/io/dr/dr_wav.h
@@ -1532,6 +1532,9 @@ static drwav_result drwav__read_chunk_header(drwav_read_proc onRead, void* pUser
             return DRWAV_INVALID_FILE;
         }
 
+        if (drwav__bytes_to_u64(sizeInBytes) < 24) {
+            return DRWAV_INVALID_FILE;
+        }
         pHeaderOut->sizeInBytes = drwav__bytes_to_u64(sizeInBytes) - 24;    /* <-- Subtract 24 because w64 includes the size of the header. */
         pHeaderOut->paddingSize = drwav__chunk_padding_size_w64(pHeaderOut->sizeInBytes);
         *pRunningBytesReadOut += 24;
@@ -2940,8 +2943,8 @@ drwav_bool32 drwav_seek_to_pcm_frame(drwav* pWav, drwav_uint64 targetFrameIndex)
     }
 
     /* Make sure the sample is clamped. */
-    if (targetFrameIndex >= pWav->totalPCMFrameCount) {
-        targetFrameIndex  = pWav->totalPCMFrameCount - 1;
+    if (targetFrameIndex > pWav->totalPCMFrameCount) {
+        targetFrameIndex  = pWav->totalPCMFrameCount;
     }
 
     /*
@@ -2993,7 +2996,8 @@ drwav_bool32 drwav_seek_to_pcm_frame(drwav* pWav, drwav_uint64 targetFrameIndex)
         drwav_uint64 targetBytePos;
         drwav_uint64 offset;
 
-        totalSizeInBytes = pWav->totalPCMFrameCount * drwav_get_bytes_per_pcm_frame(pWav);
+        /* The data chunk may end with a partial frame. */
+        totalSizeInBytes = pWav->dataChunkDataSize;
         DRWAV_ASSERT(totalSizeInBytes >= pWav->bytesRemaining);
 
         currentBytePos = totalSizeInBytes - pWav->bytesRemaining;
-- 
2.43.0


From 11cf0fb0ee2b8f09a9cef24b6528facd3ebaeddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:14 +0000
Subject: [PATCH 50/71] fix: FLAC reader neither crashes, hangs nor loses its
 place in truncated or failing streams

---
 src/io/dr/dr_flac.h | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/io/dr/dr_flac.h b/src/io/dr/dr_flac.h
index a38abf9..b8ea6de 100644
--- a/src/io/dr/dr_flac.h
+++ b/src/io/dr/dr_flac.h
@@ -1955,6 +1955,9 @@ static DRFLAC_INLINE drflac_bool32 drflac__read_uint32(drflac_bs* bs, unsigned i
         if (!drflac__reload_cache(bs)) {
             return DRFLAC_FALSE;
         }
+        if (bitCountLo > DRFLAC_CACHE_L1_BITS_REMAINING(bs)) {
+            return DRFLAC_FALSE; /* This happens when we get to the end of the stream. */
+        }
 
         *pResultOut = (resultHi << bitCountLo) | (drflac_uint32)DRFLAC_CACHE_L1_SELECT_AND_SHIFT(bs, bitCountLo);
         bs->consumedBits += bitCountLo;
@@ -2379,6 +2382,9 @@ static drflac_bool32 drflac__seek_to_byte(drflac_bs* bs, drflac_uint64 offsetFro
     DRFLAC_ASSERT(bs != NULL);
     DRFLAC_ASSERT(offsetFromStart > 0);
 
+    /* The cache should be reset to force a reload of fresh data from the client, also when the client cannot seek. */
+    drflac__reset_cache(bs);
+
     /*
     Seeking from the start is not quite as trivial as it sounds because the onSeek callback takes a signed 32-bit integer (which
     is intentional because it simplifies the implementation of the onSeek callbacks), however offsetFromStart is unsigned 64-bit.
@@ -2409,8 +2415,6 @@ static drflac_bool32 drflac__seek_to_byte(drflac_bs* bs, drflac_uint64 offsetFro
         }
     }
 
-    /* The cache should be reset to force a reload of fresh data from the client. */
-    drflac__reset_cache(bs);
     return DRFLAC_TRUE;
 }
 
@@ -2861,6 +2865,9 @@ static DRFLAC_INLINE drflac_bool32 drflac__read_rice_parts(drflac_bs* bs, drflac
             if (!drflac__reload_cache(bs)) {
                 return DRFLAC_FALSE;
             }
+            if (bitCountLo > DRFLAC_CACHE_L1_BITS_REMAINING(bs)) {
+                return DRFLAC_FALSE; /* This happens when we get to the end of the stream. */
+            }
         }
 
         riceParamPart = (drflac_uint32)(resultHi | DRFLAC_CACHE_L1_SELECT_AND_SHIFT_SAFE(bs, bitCountLo));
@@ -2941,6 +2948,9 @@ static DRFLAC_INLINE drflac_bool32 drflac__read_rice_parts_x1(drflac_bs* bs, drf
                 if (!drflac__reload_cache(bs)) {
                     return DRFLAC_FALSE;
                 }
+                if (riceParamPartLoBitCount > DRFLAC_CACHE_L1_BITS_REMAINING(bs)) {
+                    return DRFLAC_FALSE; /* This happens when we get to the end of the stream. */
+                }
 
                 bs_cache = bs->cache;
                 bs_consumedBits = bs->consumedBits + riceParamPartLoBitCount;
@@ -3050,6 +3060,9 @@ static DRFLAC_INLINE drflac_bool32 drflac__seek_rice_parts(drflac_bs* bs, drflac
                 if (!drflac__reload_cache(bs)) {
                     return DRFLAC_FALSE;
                 }
+                if (riceParamPartLoBitCount > DRFLAC_CACHE_L1_BITS_REMAINING(bs)) {
+                    return DRFLAC_FALSE; /* This happens when we get to the end of the stream. */
+                }
 
                 bs_cache = bs->cache;
                 bs_consumedBits = bs->consumedBits + riceParamPartLoBitCount;
@@ -5053,6 +5066,7 @@ static drflac_bool32 drflac__read_and_decode_next_flac_frame(drflac* pFlac)
         drflac_result result;
 
         if (!drflac__read_next_flac_frame_header(&pFlac->bs, pFlac->bitsPerSample, &pFlac->currentFLACFrame.header)) {
+            DRFLAC_ZERO_MEMORY(&pFlac->currentFLACFrame, sizeof(pFlac->currentFLACFrame)); /* There is no decoded frame to seek in. */
             return DRFLAC_FALSE;
         }
 
@@ -5061,6 +5075,7 @@ static drflac_bool32 drflac__read_and_decode_next_flac_frame(drflac* pFlac)
             if (result == DRFLAC_CRC_MISMATCH) {
                 continue;   /* CRC mismatch. Skip to the next frame. */
             } else {
+                DRFLAC_ZERO_MEMORY(&pFlac->currentFLACFrame, sizeof(pFlac->currentFLACFrame));
                 return DRFLAC_FALSE;
             }
         }
@@ -5271,6 +5286,9 @@ static drflac_bool32 drflac__seek_to_approximate_flac_frame_to_byte(drflac* pFla
     *pLastSuccessfulSeekOffset = pFlac->firstFLACFramePosInBytes;
 
     for (;;) {
+        /* After rangeLo == rangeHi == targetByte fails, we need to break out. */
+        drflac_uint64 lastTargetByte = targetByte;
+
         /* When seeking to a byte, failure probably means we've attempted to seek beyond the end of the stream. To counter this we just halve it each attempt. */
         if (!drflac__seek_to_byte(&pFlac->bs, targetByte)) {
             /* If we couldn't even seek to the first byte in the stream we have a problem. Just abandon the whole thing. */
@@ -5311,6 +5329,12 @@ static drflac_bool32 drflac__seek_to_approximate_flac_frame_to_byte(drflac* pFla
             }
 #endif
         }
+
+        /* We already tried this byte and there are no more to try, break out. */
+        if (targetByte == lastTargetByte) {
+            drflac__seek_to_first_frame(pFlac); /* Try to recover. */
+            return DRFLAC_FALSE;
+        }
     }
 
     /* The current PCM frame needs to be updated based on the frame we just seeked to. */
@@ -10317,6 +10341,12 @@ drflac_bool32 drflac_seek_to_pcm_frame(drflac* pFlac, drflac_uint64 pcmFrameInde
             }
         }
 
+        if (!wasSuccessful) {
+            /* The stream is at an unknown place, and the current frame may be only half decoded. Go back to the start. */
+            drflac__seek_to_first_frame(pFlac);
+            return DRFLAC_FALSE;
+        }
+
         pFlac->currentPCMFrame = pcmFrameIndex;
         return wasSuccessful;
     }
-- 
2.43.0


From 7270029f61ffd1be2cf01d1d88496004f8753213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:53 +0000
Subject: [PATCH 51/71] fix: random numbers: integer ranges start at min,
 uniform expressions compile, normal numbers are finite, ranges exclude max

---
 include/kfr/base/random.hpp | 41 ++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 72295a8..47d72bb 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -86,7 +86,9 @@ KFR_INTRINSIC vec<T, N> random_uniform(random_state& state)
 template <size_t N, typename T, KFR_ENABLE_IF(is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 {
-    return mix(random_uniform<T, N>(state), min, max);
+    const vec<T, N> r = mix(random_uniform<T, N>(state), min, max);
+    // the largest numbers may be rounded up to max, which is not in the range
+    return select(r == max, min, r);
 }
 
 /**
@@ -104,11 +106,29 @@ KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 template <size_t N, typename T, KFR_ENABLE_IF(!is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 {
-    using big_type = findinttype<sqr(std::numeric_limits<T>::min()), sqr(std::numeric_limits<T>::max())>;
+    using U = std::make_unsigned_t<T>;
 
-    vec<T, N> u                = random_uniform<T, N>(state);
-    const vec<big_type, N> tmp = u;
-    return (tmp * (max - min) + min) >> typebits<T>::bits;
+    // scale the raw bits (as a fraction of 2^bits) to the size of the range, then shift the range to start at min
+    const U size      = static_cast<U>(static_cast<U>(max) - static_cast<U>(min));
+    const vec<U, N> u = random_uniform<U, N>(state);
+    vec<U, N> scaled;
+    if constexpr (sizeof(T) < sizeof(u64))
+    {
+        using big_type = unsigned_type<typebits<U>::bits * 2>;
+
+        scaled = cast<U>((cast<big_type>(u) * static_cast<big_type>(size)) >> typebits<U>::bits);
+    }
+    else
+    {
+        // upper half of the 128-bit product
+        const u64 size_lo        = size & 0xFFFFFFFFull;
+        const u64 size_hi        = size >> 32;
+        const vec<u64, N> lo     = u & 0xFFFFFFFFull;
+        const vec<u64, N> hi     = u >> 32;
+        const vec<u64, N> middle = hi * size_lo + ((lo * size_lo) >> 32);
+        scaled                   = hi * size_hi + (middle >> 32) + ((lo * size_hi + (middle & 0xFFFFFFFFull)) >> 32);
+    }
+    return bitcast<T>(scaled + static_cast<U>(min));
 }
 
 /**
@@ -132,7 +152,8 @@ KFR_INTRINSIC vec<T, N> random_normal(random_state& state, T mu, T sigma)
 
     vec<T, M> u = random_uniform<T, M>(state);
 
-    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(even(u)));
+    // 1 - u is in (0, 1], u may be zero
+    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(T(1) - even(u)));
     vec<T, M> z       = dup(mag) * cossin(c_pi<T, 2> * dupodd(u)) + mu;
     return slice<0, N>(z);
 }
@@ -154,7 +175,7 @@ struct expression_random_uniform : expression_traits_defaults
     friend KFR_INTRINSIC vec<T, N> get_elements(const expression_random_uniform& self, shape<Dims>,
                                                 axis_params<VecAxis, N>)
     {
-        return random_uniform<N, T>(*self.state);
+        return random_uniform<T, N>(*self.state);
     }
 };
 
@@ -218,7 +239,7 @@ KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform(const random_
  * Use std::ref(gen) to use this overload.
  */
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
+KFR_FUNCTION expression_random_uniform<T, Dims, true> gen_random_uniform(
     std::reference_wrapper<random_state> state)
 {
     return { {}, state };
@@ -227,9 +248,9 @@ KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
 #ifndef KFR_DISABLE_READCYCLECOUNTER
 /// @brief Returns expression that produces uniform pseudorandom values using cycle counter entropy.
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims> gen_random_uniform()
+KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform()
 {
-    return expression_random_uniform<T, Dims>{ random_init() };
+    return { {}, random_init() };
 }
 #endif
 
-- 
2.43.0


From 5fccebb35c6f78f4bb1b80576d101473913746cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 52/71] fix: loudness meter checks its arguments first and
 reset empties the history before the next packet

---
 include/kfr/dsp/ebu.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/kfr/dsp/ebu.hpp b/include/kfr/dsp/ebu.hpp
index b3cfbcd..de12537 100644
--- a/include/kfr/dsp/ebu.hpp
+++ b/include/kfr/dsp/ebu.hpp
@@ -262,12 +262,13 @@ public:
     // Correct values for packet_size_factor: 1 (10Hz refresh rate), 2 (20Hz), 3 (30Hz)
     ebu_r128(int sample_rate, const std::vector<Speaker>& channels, int packet_size_factor = 1)
         : m_sample_rate(sample_rate), m_running(true), m_need_reset(false),
-          m_packet_size(sample_rate / 10 / packet_size_factor)
+          m_packet_size(0)
     {
         KFR_LOGIC_CHECK(!channels.empty(), "channels must not be empty");
         KFR_LOGIC_CHECK(sample_rate > 0, "sample_rate must be greater than 0");
         KFR_LOGIC_CHECK(packet_size_factor >= 1 && packet_size_factor <= 6,
                         "packet_size_factor must be in range [1..6]");
+        m_packet_size = sample_rate / 10 / packet_size_factor;
         for (Speaker sp : channels)
         {
             m_channels.emplace_back(sample_rate, sp, packet_size_factor, T(1));
@@ -311,6 +312,16 @@ public:
     template <univector_tag Tag>
     void process_packet(const std::vector<univector<T, Tag>>& source)
     {
+        if (m_need_reset)
+        {
+            m_need_reset = false;
+            for (size_t ch = 0; ch < m_channels.size(); ch++)
+            {
+                m_channels[ch].reset();
+            }
+            m_integrated_buffer.reset();
+            m_lra_buffer.reset();
+        }
         T momentary = 0;
         T shortterm = 0;
         for (size_t ch = 0; ch < m_channels.size(); ch++)
@@ -327,16 +338,6 @@ public:
             }
         }
 
-        if (m_need_reset)
-        {
-            m_need_reset = false;
-            for (size_t ch = 0; ch < m_channels.size(); ch++)
-            {
-                m_channels[ch].reset();
-            }
-            m_integrated_buffer.reset();
-            m_lra_buffer.reset();
-        }
         if (m_running)
         {
             m_integrated_buffer.push(momentary);
-- 
2.43.0


From a4d7f35f5e759433afe97ae44e58fa0db72f518f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 53/71] fix: logarithms of subnormal numbers are not NaN

---
 include/kfr/math/impl/log_exp.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 57109b8..6859e37 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -65,8 +65,9 @@ KFR_INTRINSIC vec<f32, N> vldexpk(const vec<f32, N>& x, const vec<i32, N>& q)
     m                    = (((m + q) >> 6) - m) << 4;
     const vec<i32, N> qq = q - (m << 2);
     m                    = clamp(m + 0x7f, vec<i32, N>(0xff));
-    vec<f32, N> u        = pow4(bitcast<f32>(broadcastto<i32>(m) << 23));
-    return x * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
+    // in two steps: the whole factor overflows where x is subnormal
+    vec<f32, N> u        = sqr(bitcast<f32>(broadcastto<i32>(m) << 23));
+    return x * u * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
 }
 
 template <size_t N>
@@ -76,8 +77,8 @@ KFR_INTRINSIC vec<f64, N> vldexpk(const vec<f64, N>& x, const vec<i64, N>& q)
     m                    = (((m + q) >> 9) - m) << 7;
     const vec<i64, N> qq = q - (m << 2);
     m                    = clamp(m + 0x3ff, i64(0x7ff));
-    vec<f64, N> u        = pow4(bitcast<f64>(broadcastto<i64>(m) << 52));
-    return x * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
+    vec<f64, N> u        = sqr(bitcast<f64>(broadcastto<i64>(m) << 52));
+    return x * u * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From f93c0a680d62e765aa1f2e1aaa6458013ae3182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:04 +0000
Subject: [PATCH 54/71] fix: dB_to_power accepts vectors and expressions

---
 include/kfr/dsp/units.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dsp/units.hpp b/include/kfr/dsp/units.hpp
index 83c397c..2c61ff4 100644
--- a/include/kfr/dsp/units.hpp
+++ b/include/kfr/dsp/units.hpp
@@ -86,10 +86,8 @@ KFR_INTRINSIC Tout power_to_dB(const T& x)
 template <typename T, typename Tout = flt_type<T>>
 KFR_INTRINSIC Tout dB_to_power(const T& x)
 {
-    if (CMT_UNLIKELY(x == -c_infinity<Tout>))
-        return 0.0;
-    else
-        return exp(x * (c_log_10<Tout> / 10.0));
+    return exp(x * subtype<Tout>(0.23025850929940456840179914546844));
+    // return exp10( x / 10 );
 }
 
 template <typename T, typename TF = flt_type<T>>
-- 
2.43.0


From ebee3da9d00dd8d724b68c2cf9fc64c298fe09ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 55/71] fix: handles destroy what they own, substitution
 reaches placeholders behind other arguments, 2-D and output handles compile

---
 include/kfr/base/handle.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index 7ecd09a..a4f3499 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -173,7 +173,11 @@ KFR_INTRINSIC std::shared_ptr<expression_resource> make_resource(E&& e)
 {
     using T = expression_resource_impl<std::decay_t<E>>;
     return std::static_pointer_cast<expression_resource>(std::shared_ptr<T>(
-        new (aligned_allocate<T>()) T(std::move(e)), [](T* pi) { aligned_deallocate<T>(pi); }));
+        new (aligned_allocate<T>()) T(std::move(e)), [](T* pi)
+        {
+            pi->~T();
+            aligned_deallocate<T>(pi);
+        }));
 }
 
 template <typename T, index_t Dims = 1>
@@ -264,7 +268,9 @@ KFR_INTRINSIC void set_elements(const expression_handle<T, NDims>& self, const s
     }
     else
     {
-        self.vtable->fn_set_elements[Axis][Nsize](self.instance, index, &value.front());
+        portable_vec<T, N> source;
+        write(source.elem, value);
+        self.vtable->fn_set_elements[Axis][Nsize](self.instance, index, source.elem);
     }
 }
 } // namespace CMT_ARCH_NAME
@@ -292,7 +298,7 @@ KFR_INTRINSIC expression_vtable<T, Dims>* make_expression_vtable()
 template <typename E, typename T = expression_value_type<E>, index_t Dims = expression_dims<E>>
 KFR_INTRINSIC expression_handle<T, Dims> to_handle(E& expr)
 {
-    return expression_handle<T>(std::addressof(expr), internal::make_expression_vtable<T, Dims, E>());
+    return expression_handle<T, Dims>(std::addressof(expr), internal::make_expression_vtable<T, Dims, E>());
 }
 
 /** @brief Converts the given expression into an opaque object.
@@ -396,7 +402,8 @@ KFR_INTRINSIC bool substitute_helper(expression_with_arguments<Args...>& expr,
                                      expression_handle<T, Dims> new_handle, csize_t<Key>,
                                      csizes_t<indices...>)
 {
-    return (substitute(std::get<indices>(expr.args), std::move(new_handle), csize_t<Key>()) || ...);
+    // every argument that refuses the handle leaves it to the next one
+    return (substitute(std::get<indices>(expr.args), new_handle, csize_t<Key>()) || ...);
 }
 
 template <typename Expression, typename T, index_t Dims, size_t Key>
-- 
2.43.0


From 9294f5b15d340256c75353c93eb8521927310254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 56/71] fix: inline vectors of different sizes are not equal,
 small buffers may append their own elements

---
 include/kfr/base/inline_vector.hpp | 2 +-
 include/kfr/base/small_buffer.hpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/inline_vector.hpp b/include/kfr/base/inline_vector.hpp
index b559c2f..9be468c 100644
--- a/include/kfr/base/inline_vector.hpp
+++ b/include/kfr/base/inline_vector.hpp
@@ -121,7 +121,7 @@ struct inline_vector
 
     constexpr bool operator==(const inline_vector& other) const
     {
-        return std::equal(begin(), end(), other.begin());
+        return std::equal(begin(), end(), other.begin(), other.end());
     }
     constexpr bool operator!=(const inline_vector& other) const { return !operator==(other); }
 
diff --git a/include/kfr/base/small_buffer.hpp b/include/kfr/base/small_buffer.hpp
index 4633774..3cfe6a3 100644
--- a/include/kfr/base/small_buffer.hpp
+++ b/include/kfr/base/small_buffer.hpp
@@ -106,8 +106,9 @@ public:
     const T& operator[](std::size_t i) const { return m_data[i]; }
     void push_back(const T& value)
     {
+        T copy = value; // may be an element of this buffer
         resize(m_size + 1);
-        m_data[m_size - 1] = value;
+        m_data[m_size - 1] = std::move(copy);
     }
 
 protected:
-- 
2.43.0


From 388ce7e978e19c52d78e821171510a90adfb469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 57/71] fix: fastcos does not compile

---
 include/kfr/math/impl/sin_cos.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/kfr/math/impl/sin_cos.hpp b/include/kfr/math/impl/sin_cos.hpp
index 7065169..afa2e57 100644
--- a/include/kfr/math/impl/sin_cos.hpp
+++ b/include/kfr/math/impl/sin_cos.hpp
@@ -215,9 +215,8 @@ KFR_INTRINSIC vec<T, N> fastsin(const vec<T, N>& x)
 template <typename T, size_t N, KFR_ENABLE_IF(is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> fastcos(const vec<T, N>& x)
 {
-    x += c_pi<T, 1, 2>;
-    x = select(x >= c_pi<T, 2>, x - c_pi<T, 2>, x);
-    return fastsin(x);
+    const vec<T, N> y = x + c_pi<T, 1, 2>;
+    return fastsin(vec<T, N>(select(y >= c_pi<T, 2>, y - c_pi<T, 2>, y)));
 }
 
 template <typename T, size_t N, KFR_ENABLE_IF(N > 1 && is_f_class<T>)>
-- 
2.43.0


From 1010dc0313880846b0057bafc5d255a486cd9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 58/71] fix: log and exp of infinite, huge and not-a-number
 arguments

---
 include/kfr/math/impl/log_exp.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 6859e37..784d67e 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -96,7 +96,7 @@ KFR_INTRINSIC vec<f32, N> log(const vec<f32, N>& d)
     vec<f32, N> x  = (m - 1.0f) / (m + 1.0f);
     vec<f32, N> x2 = x * x;
 
-    vec<f32, N> sp = select(d < 0, constants<f32>::qnan, constants<f32>::neginfinity);
+    vec<f32, N> sp = select(d == 0, constants<f32>::neginfinity, constants<f32>::qnan);
 
     vec<f32, N> t;
     t = fmadd(0.2371599674224853515625f, x2, 0.285279005765914916992188f);
@@ -106,6 +106,7 @@ KFR_INTRINSIC vec<f32, N> log(const vec<f32, N>& d)
 
     x = x * t + c_log_2<f32> * broadcastto<f32>(e);
     x = select(d > 0, x, sp);
+    x = select(d == constants<f32>::infinity, constants<f32>::infinity, x);
 
     return x;
 }
@@ -119,7 +120,7 @@ KFR_INTRINSIC vec<f64, N> log(const vec<f64, N>& d)
     vec<f64, N> x  = (m - 1.0) / (m + 1.0);
     vec<f64, N> x2 = x * x;
 
-    vec<f64, N> sp = select(d < 0, constants<f64>::qnan, constants<f64>::neginfinity);
+    vec<f64, N> sp = select(d == 0, constants<f64>::neginfinity, constants<f64>::qnan);
 
     vec<f64, N> t;
     t = fmadd(0.148197055177935105296783, x2, 0.153108178020442575739679);
@@ -132,6 +133,7 @@ KFR_INTRINSIC vec<f64, N> log(const vec<f64, N>& d)
 
     x = x * t + constants<f64>::log_2 * broadcastto<f64>(e);
     x = select(d > 0, x, sp);
+    x = select(d == constants<f64>::infinity, constants<f64>::infinity, x);
 
     return x;
 }
@@ -175,7 +177,8 @@ KFR_INTRINSIC vec<f32, N> exp(const vec<f32, N>& d)
     u = s * s * u + s + 1.0f;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f32>::neginfinity, 0.f, u);
+    u = select(d < -150.f, 0.f, u);
+    u = select(d > 100.f, constants<f32>::infinity, u);
 
     return u;
 }
@@ -216,7 +219,8 @@ KFR_INTRINSIC vec<f64, N> exp(const vec<f64, N>& d)
     u = s * s * u + s + 1.0;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f64>::neginfinity, 0.0, u);
+    u = select(d < -800.0, 0.0, u);
+    u = select(d > 720.0, constants<f64>::infinity, u);
 
     return u;
 }
-- 
2.43.0


From a0bdc7ad18d3b3d72b79ab4222d2b1d2f6922024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 59/71] fix: tanh and coth are not a number for large arguments

---
 include/kfr/math/impl/hyperbolic.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/hyperbolic.hpp b/include/kfr/math/impl/hyperbolic.hpp
index bd1841d..0d09a97 100644
--- a/include/kfr/math/impl/hyperbolic.hpp
+++ b/include/kfr/math/impl/hyperbolic.hpp
@@ -52,17 +52,24 @@ KFR_INTRINSIC vec<Tout, N> cosh(const vec<T, N>& x)
     return (exp(xx) + exp(-xx)) * Tout(0.5);
 }
 
+// limits the argument to the range where exp(2 * x) does not overflow, tanh and coth are +-1 beyond
+template <typename T, size_t N>
+KFR_INTRINSIC vec<T, N> tanh_limit(const vec<T, N>& x)
+{
+    return select(x > T(40), T(40), select(x < T(-40), T(-40), x));
+}
+
 template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> tanh(const vec<T, N>& x)
 {
-    const vec<Tout, N> a = exp(2 * x);
+    const vec<Tout, N> a = exp(2 * tanh_limit(static_cast<vec<Tout, N>>(x)));
     return (a - 1) / (a + 1);
 }
 
 template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> coth(const vec<T, N>& x)
 {
-    const vec<Tout, N> a = exp(2 * x);
+    const vec<Tout, N> a = exp(2 * tanh_limit(static_cast<vec<Tout, N>>(x)));
     return (a + 1) / (a - 1);
 }
 
-- 
2.43.0


From 6eac46eb807e99d464bed97ee7834431306a9ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 60/71] fix: atan2 takes any argument with all exponent bits in
 the mask, or minus zero, for an infinity

---
 include/kfr/math/impl/atan.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/atan.hpp b/include/kfr/math/impl/atan.hpp
index 9a783b4..9e8e562 100644
--- a/include/kfr/math/impl/atan.hpp
+++ b/include/kfr/math/impl/atan.hpp
@@ -111,8 +111,8 @@ KFR_INTRINSIC vec<f32, N> atan2(const vec<f32, N>& y, const vec<f32, N>& x)
     constexpr f32 pi_over_2 = 1.5707963267948966192313216916398f;
     constexpr f32 pi_over_4 = 0.78539816339744830961566084581988f;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0f), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0f), r);
+    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0f), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0f), r);
     r = select(y == 0.0f, select(x < 0.f, pi, 0.f), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
@@ -126,8 +126,8 @@ KFR_INTRINSIC vec<f64, N> atan2(const vec<f64, N>& y, const vec<f64, N>& x)
     constexpr f64 pi_over_2 = 1.5707963267948966192313216916398;
     constexpr f64 pi_over_4 = 0.78539816339744830961566084581988;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0), r);
+    r = select(isinf(x) || x == 0.0, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0), r);
     r = select(y == 0.0, select(x < 0., pi, 0.), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
-- 
2.43.0


From a62e9e3542f4b2e519bdc2d3202407b8c138a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 61/71] fix: SSE2 rounding of halves' neighbours, large odd
 numbers and NaN

---
 include/kfr/simd/impl/round.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/kfr/simd/impl/round.hpp b/include/kfr/simd/impl/round.hpp
index d20ad45..8207ec4 100644
--- a/include/kfr/simd/impl/round.hpp
+++ b/include/kfr/simd/impl/round.hpp
@@ -135,53 +135,55 @@ KFR_HANDLE_ALL_SIZES_1_IF(fract, is_f_class<T>)
 template <typename T>
 constexpr inline T fp_precision_limit = 4503599627370496.0;
 template <>
-constexpr inline f32 fp_precision_limit<f32> = 16777216.0f;
+constexpr inline f32 fp_precision_limit<f32> = 8388608.0f;
 
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> floor(const vec<f32, N>& x)
 {
     vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) >= fp_precision_limit<f32>, x, t - select(x < t, 1.f, 0.f));
+    return select(abs(x) < fp_precision_limit<f32>, t - select(x < t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> floor(const vec<f64, N>& x)
 {
     vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) >= fp_precision_limit<f64>, x, t - select(x < t, 1., 0.));
+    return select(abs(x) < fp_precision_limit<f64>, t - select(x < t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> ceil(const vec<f32, N>& x)
 {
     vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) >= fp_precision_limit<f32>, x, t + select(x > t, 1.f, 0.f));
+    return select(abs(x) < fp_precision_limit<f32>, t + select(x > t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> ceil(const vec<f64, N>& x)
 {
     vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) >= fp_precision_limit<f64>, x, t + select(x > t, 1., 0.));
+    return select(abs(x) < fp_precision_limit<f64>, t + select(x > t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> round(const vec<f32, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f32>, x,
-                  broadcastto<f32>(broadcastto<i32>(x + mulsign(broadcast<N>(0.5f), x))));
+    vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
+    return select(abs(x) < fp_precision_limit<f32>,
+                  t + mulsign(vec<f32, N>(select(abs(x - t) >= 0.5f, 1.f, 0.f)), x), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> round(const vec<f64, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f64>, x,
-                  broadcastto<f64>(broadcastto<i64>(x + mulsign(broadcast<N>(0.5), x))));
+    vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
+    return select(abs(x) < fp_precision_limit<f64>,
+                  t + mulsign(vec<f64, N>(select(abs(x - t) >= 0.5, 1., 0.)), x), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> trunc(const vec<f32, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f32>, x, broadcastto<f32>(broadcastto<i32>(x)));
+    return select(abs(x) < fp_precision_limit<f32>, broadcastto<f32>(broadcastto<i32>(x)), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> trunc(const vec<f64, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f64>, x, broadcastto<f64>(broadcastto<i64>(x)));
+    return select(abs(x) < fp_precision_limit<f64>, broadcastto<f64>(broadcastto<i64>(x)), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> fract(const vec<f32, N>& x)
-- 
2.43.0


From 59ae3c44e6eb8a53009691b69302d78e75ab4b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 62/71] fix: copysign keeps the sign of a negative first
 argument

---
 include/kfr/simd/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/operators.hpp b/include/kfr/simd/operators.hpp
index 2b0c9bb..40d98cf 100644
--- a/include/kfr/simd/operators.hpp
+++ b/include/kfr/simd/operators.hpp
@@ -593,7 +593,7 @@ KFR_FN(mulsign)
 template <typename T, size_t N>
 constexpr KFR_INTRINSIC vec<T, N> copysign(const vec<T, N>& x, const vec<T, N>& y)
 {
-    return (x & special_constants<T>::highbitmask()) | (y & special_constants<T>::highbitmask());
+    return (x & special_constants<T>::invhighbitmask()) | (y & special_constants<T>::highbitmask());
 }
 
 /// @brief Swap byte order
-- 
2.43.0


From 719bba98ba11de7565b219bc3cd973b2860e6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 63/71] fix: cartesian multiplies by (r, r) and csqrt of zero
 is not a number

---
 include/kfr/math/complex_math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index d03acb4..e767752 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -122,7 +122,7 @@ KFR_INTRINSIC vec<complex<T>, N> polar(const vec<complex<T>, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> cartesian(const vec<complex<T>, N>& x)
 {
-    return cdupreal(x) * ccomp(cossin(cdecom(cdupimag(x))));
+    return ccomp(cdecom(cdupreal(x)) * cossin(cdecom(cdupimag(x))));
 }
 
 template <typename T, size_t N>
@@ -136,7 +136,7 @@ template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> csqrt(const vec<complex<T>, N>& x)
 {
     const vec<T, N> s        = sqrt((abs(real(x)) + cabs(x)) * 0.5);
-    const vec<T, N> d        = abs(imag(x)) * 0.5 / s;
+    const vec<T, N> d        = select(s == T(0), T(0), abs(imag(x)) * 0.5 / s);
     const mask<T, N> posreal = real(x) >= T(0);
     const vec<T, N> imagsign = imag(x) & special_constants<T>::highbitmask();
     return make_complex(select(posreal, s, d), select(posreal, d ^ imagsign, s ^ imagsign));
-- 
2.43.0


From dbeb6aee6ebad9c3cf6a35b702749256e8192c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 64/71] fix: cubic and Catmull-Rom interpolation use their
 coefficients in reverse order

---
 include/kfr/math/interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/interpolation.hpp b/include/kfr/math/interpolation.hpp
index 180a4a3..4f80dd6 100644
--- a/include/kfr/math/interpolation.hpp
+++ b/include/kfr/math/interpolation.hpp
@@ -78,7 +78,7 @@ KFR_FUNCTION T cubic(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - x1 - a0;
     const T a2 = x2 - x0;
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 /**
@@ -93,7 +93,7 @@ KFR_FUNCTION T catmullrom(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - T(2.5) * x1 + T(2) * x2 - T(0.5) * x3;
     const T a2 = T(0.5) * (x2 - x0);
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From 2e7c24db856baa7cefa9c8e724448c0caab8f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 65/71] fix: gen_cossin is wrong after reading an odd number of
 values

---
 include/kfr/base/generators.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/generators.hpp b/include/kfr/base/generators.hpp
index bc68e0b..0724f8c 100644
--- a/include/kfr/base/generators.hpp
+++ b/include/kfr/base/generators.hpp
@@ -196,11 +196,11 @@ protected:
 };
 
 template <typename T, size_t VecWidth = internal::generator_width<T>(1)>
-struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecWidth>>
+struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecWidth>, vec<T, 2>>
 {
     static_assert(VecWidth % 2 == 0);
     generator_cossin(T start, T step)
-        : step(step), alpha(2 * sqr(sin(VecWidth / 2 * step / 2))), beta(-sin(VecWidth / 2 * step))
+        : step(step), alpha(2 * sqr(sin(VecWidth / 2 * step / 2))), beta(sin(VecWidth / 2 * step))
     {
         this->resync(start);
     }
@@ -208,16 +208,23 @@ struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecW
 
     KFR_MEM_INTRINSIC void next() const CMT_NOEXCEPT
     {
-        this->value = this->value - subadd(alpha * this->value, beta * swap<2>(this->value));
+        vec<T, 2 * VecWidth> cs = flatten(this->value);
+
+        cs = cs - addsub(alpha * cs, beta * swap<2>(cs));
+
+        this->value = vec<vec<T, 2>, VecWidth>::from_flatten(cs);
     }
+    KFR_MEM_INTRINSIC vec<T, VecWidth> get_value() const { return even(flatten(this->value)); }
 
 protected:
     T step;
     T alpha;
     T beta;
-    CMT_NOINLINE static vec<T, VecWidth> init_cossin(T w, T phase)
+    // Every value is stored with its quadrature component, so that values can be read in any quantity
+    CMT_NOINLINE static vec<vec<T, 2>, VecWidth> init_cossin(T w, T phase)
     {
-        return cossin(dup(phase + enumerate(vec_shape<T, VecWidth / 2>{}, w)));
+        const vec<T, VecWidth> cs = cossin(dup(phase + enumerate(vec_shape<T, VecWidth / 2>{}, w)));
+        return vec<vec<T, 2>, VecWidth>::from_flatten(interleave(cs, negodd(swap<2>(cs))));
     }
 };
 
-- 
2.43.0


From 0d827be353df214f612229b8334ca5ee93f1bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 66/71] fix: C interface lacks multidimensional
 double-precision real plans and crashes on filters without taps

---
 src/capi/capi.cpp | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/capi/capi.cpp b/src/capi/capi.cpp
index e050d70..d698461 100644
--- a/src/capi/capi.cpp
+++ b/src/capi/capi.cpp
@@ -411,6 +411,40 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_plan_f64(size_t size, KF
         nullptr);
 }
 
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_2d_plan_f64(size_t size1, size_t size2,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 2>(shape{ size1, size2 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_3d_plan_f64(size_t size1, size_t size2, size_t size3,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 3>(shape{ size1, size2, size3 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_md_plan_f64(size_t dims, const unsigned* shape,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, dynamic_shape>(init_shape(dims, shape), real_out_is_enough));
+        },
+        nullptr);
+}
+
 KFR_API_SPEC void kfr_dft_real_dump_f32(KFR_DFT_REAL_PLAN_F32* plan)
 {
     try_fn([&]() { reinterpret_cast<var_dft_plan<float>*>(plan)->dump(); });
@@ -555,14 +589,20 @@ KFR_API_SPEC KFR_FILTER_F32* kfr_filter_create_fir_plan_f32(const kfr_f32* taps,
 {
     return try_fn(
         [&]()
-        { return reinterpret_cast<KFR_FILTER_F32*>(new fir_filter<float>(make_univector(taps, size))); },
+        {
+            KFR_LOGIC_CHECK(size > 0, "kfr_filter: no taps");
+            return reinterpret_cast<KFR_FILTER_F32*>(new fir_filter<float>(make_univector(taps, size)));
+        },
         nullptr);
 }
 KFR_API_SPEC KFR_FILTER_F64* kfr_filter_create_fir_plan_f64(const kfr_f64* taps, size_t size)
 {
     return try_fn(
         [&]()
-        { return reinterpret_cast<KFR_FILTER_F64*>(new fir_filter<double>(make_univector(taps, size))); },
+        {
+            KFR_LOGIC_CHECK(size > 0, "kfr_filter: no taps");
+            return reinterpret_cast<KFR_FILTER_F64*>(new fir_filter<double>(make_univector(taps, size)));
+        },
         nullptr);
 }
 
@@ -572,6 +612,7 @@ KFR_API_SPEC KFR_FILTER_F32* kfr_filter_create_convolution_plan_f32(const kfr_f3
     return try_fn(
         [&]()
         {
+            KFR_LOGIC_CHECK(size > 0, "kfr_filter: no taps");
             return reinterpret_cast<KFR_FILTER_F32*>(
                 new convolve_filter<float>(make_univector(taps, size), block_size ? block_size : 1024));
         },
@@ -583,6 +624,7 @@ KFR_API_SPEC KFR_FILTER_F64* kfr_filter_create_convolution_plan_f64(const kfr_f6
     return try_fn(
         [&]()
         {
+            KFR_LOGIC_CHECK(size > 0, "kfr_filter: no taps");
             return reinterpret_cast<KFR_FILTER_F64*>(
                 new convolve_filter<double>(make_univector(taps, size), block_size ? block_size : 1024));
         },
-- 
2.43.0


From 26229e9d4d1b3ceeb4029e8a888484d92ffcd1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 67/71] fix: failed allocations are reported instead of using a
 null pointer

---
 include/kfr/base/handle.hpp       |  2 +-
 include/kfr/base/small_buffer.hpp |  2 +-
 include/kfr/base/tensor.hpp       |  5 ++++-
 include/kfr/cometa/function.hpp   |  9 ++++++---
 include/kfr/cometa/memory.hpp     | 29 ++++++++++++++++++++---------
 include/kfr/dsp/biquad.hpp        |  8 ++++----
 6 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/include/kfr/base/handle.hpp b/include/kfr/base/handle.hpp
index a4f3499..8ed23df 100644
--- a/include/kfr/base/handle.hpp
+++ b/include/kfr/base/handle.hpp
@@ -173,7 +173,7 @@ KFR_INTRINSIC std::shared_ptr<expression_resource> make_resource(E&& e)
 {
     using T = expression_resource_impl<std::decay_t<E>>;
     return std::static_pointer_cast<expression_resource>(std::shared_ptr<T>(
-        new (aligned_allocate<T>()) T(std::move(e)), [](T* pi)
+        new (cometa::details::check_allocated(aligned_allocate<T>())) T(std::move(e)), [](T* pi)
         {
             pi->~T();
             aligned_deallocate<T>(pi);
diff --git a/include/kfr/base/small_buffer.hpp b/include/kfr/base/small_buffer.hpp
index 3cfe6a3..e2ce00e 100644
--- a/include/kfr/base/small_buffer.hpp
+++ b/include/kfr/base/small_buffer.hpp
@@ -75,7 +75,7 @@ public:
         }
         else
         {
-            m_newdata = aligned_allocate<T>(newsize);
+            m_newdata = cometa::details::check_allocated(aligned_allocate<T>(newsize));
         }
         if (m_newdata != m_data)
         {
diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 7840bb0..5fba482 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -184,7 +184,10 @@ public:
     {
     }
 
-    KFR_INTRINSIC static T* allocate(size_t size) { return aligned_allocate<T>(size, 64); }
+    KFR_INTRINSIC static T* allocate(size_t size)
+    {
+        return cometa::details::check_allocated(aligned_allocate<T>(size, 64));
+    }
 
     KFR_INTRINSIC static void deallocate(T* ptr) { aligned_deallocate(ptr); }
 
diff --git a/include/kfr/cometa/function.hpp b/include/kfr/cometa/function.hpp
index b85f6d7..f47dbe0 100644
--- a/include/kfr/cometa/function.hpp
+++ b/include/kfr/cometa/function.hpp
@@ -63,13 +63,16 @@ struct function_abstract
 template <typename Fn, typename R, typename... Args>
 struct function_impl : public function_abstract<R, Args...>
 {
-    inline static void* operator new(size_t size) noexcept { return aligned_allocate(size, alignof(Fn)); }
+    inline static void* operator new(size_t size)
+    {
+        return check_allocated(aligned_allocate(size, alignof(Fn)));
+    }
     inline static void operator delete(void* ptr) noexcept { return aligned_deallocate(ptr); }
 
 #ifdef __cpp_aligned_new
-    inline static void* operator new(size_t size, std::align_val_t al) noexcept
+    inline static void* operator new(size_t size, std::align_val_t al)
     {
-        return aligned_allocate(size, static_cast<size_t>(al));
+        return check_allocated(aligned_allocate(size, static_cast<size_t>(al)));
     }
     inline static void operator delete(void* ptr, std::align_val_t al) noexcept
     {
diff --git a/include/kfr/cometa/memory.hpp b/include/kfr/cometa/memory.hpp
index c8bfb6a..3d1142d 100644
--- a/include/kfr/cometa/memory.hpp
+++ b/include/kfr/cometa/memory.hpp
@@ -161,6 +161,18 @@ CMT_INTRINSIC T* aligned_allocate(size_t size, size_t alignment)
     return ptr;
 }
 
+namespace details
+{
+/// @brief Throws if the memory has not been allocated
+template <typename T>
+CMT_INTRINSIC T* check_allocated(T* ptr)
+{
+    if (!ptr)
+        CMT_THROW(std::bad_alloc());
+    return ptr;
+}
+} // namespace details
+
 /// @brief Deallocates aligned memory
 template <typename T = void>
 CMT_INTRINSIC void aligned_deallocate(T* ptr)
@@ -185,7 +197,9 @@ struct autofree
     CMT_MEM_INTRINSIC autofree() {}
 
     /// @brief Allocates aligned memory for given size.
-    explicit CMT_MEM_INTRINSIC autofree(size_t size) : ptr(aligned_allocate<T>(size)) {}
+    explicit CMT_MEM_INTRINSIC autofree(size_t size) : ptr(details::check_allocated(aligned_allocate<T>(size)))
+    {
+    }
 
     autofree(const autofree&)                    = delete;
     autofree& operator=(const autofree&)         = delete;
@@ -248,10 +262,7 @@ struct data_allocator
     }
     pointer allocate(size_type n) const
     {
-        pointer result = aligned_allocate<value_type>(n);
-        if (!result)
-            CMT_THROW(std::bad_alloc());
-        return result;
+        return details::check_allocated(aligned_allocate<value_type>(n));
     }
     void deallocate(pointer p, size_type) { aligned_deallocate(p); }
 };
@@ -271,14 +282,14 @@ constexpr inline bool operator!=(const data_allocator<T1>&, const data_allocator
 
 struct aligned_new
 {
-    inline static void* operator new(size_t size) noexcept { return aligned_allocate(size); }
+    inline static void* operator new(size_t size) { return details::check_allocated(aligned_allocate(size)); }
     inline static void operator delete(void* ptr) noexcept { return aligned_deallocate(ptr); }
 
 #ifdef __cpp_aligned_new
-    inline static void* operator new(size_t size, std::align_val_t al) noexcept
+    inline static void* operator new(size_t size, std::align_val_t al)
     {
-        return details::aligned_malloc(size,
-                                       std::max(size_t(default_memory_alignment), static_cast<size_t>(al)));
+        return details::check_allocated(details::aligned_malloc(
+            size, std::max(size_t(default_memory_alignment), static_cast<size_t>(al))));
     }
     inline static void operator delete(void* ptr, std::align_val_t al) noexcept
     {
diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index aaa7a96..c85b3ef 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -142,7 +142,7 @@ struct iir_params
     CMT_GNU_CONSTEXPR iir_params(const biquad_section<T>& one) CMT_NOEXCEPT : iir_params(&one, 1) {}
 
     template <typename Container, CMT_HAS_DATA_SIZE(Container)>
-    constexpr iir_params(Container&& cont) CMT_NOEXCEPT : iir_params(std::data(cont), std::size(cont))
+    constexpr iir_params(Container&& cont) : iir_params(std::data(cont), std::size(cont))
     {
     }
 };
@@ -158,14 +158,14 @@ struct iir_params<T, tag_dynamic_vector> : public std::vector<biquad_section<T>>
 
     iir_params(size_t count) : base(count) {}
 
-    iir_params(const biquad_section<T>* bq, size_t count) CMT_NOEXCEPT : base(bq, bq + count) {}
+    iir_params(const biquad_section<T>* bq, size_t count) : base(bq, bq + count) {}
 
-    iir_params(const biquad_section<T>& one) CMT_NOEXCEPT : iir_params(&one, 1) {}
+    iir_params(const biquad_section<T>& one) : iir_params(&one, 1) {}
 
     iir_params(std::vector<biquad_section<T>>&& sections) CMT_NOEXCEPT : base(std::move(sections)) {}
 
     template <typename Container, CMT_HAS_DATA_SIZE(Container)>
-    constexpr iir_params(Container&& cont) CMT_NOEXCEPT : iir_params(std::data(cont), std::size(cont))
+    constexpr iir_params(Container&& cont) : iir_params(std::data(cont), std::size(cont))
     {
     }
 
-- 
2.43.0


From 88c6b09810742f51cd46912b207abc1bb8a367b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 68/71] fix: biquad_allpass is not an all-pass filter

The denominator was not normalised, the frequency taken in radians and the
Q factor applied inverted.
---
 include/kfr/dsp/biquad_design.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/kfr/dsp/biquad_design.hpp b/include/kfr/dsp/biquad_design.hpp
index 27f9362..421f2f4 100644
--- a/include/kfr/dsp/biquad_design.hpp
+++ b/include/kfr/dsp/biquad_design.hpp
@@ -42,16 +42,15 @@ inline namespace CMT_ARCH_NAME
 template <typename T = fbase>
 KFR_FUNCTION biquad_section<T> biquad_allpass(identity<T> frequency, identity<T> Q)
 {
-    const T alpha = std::sin(frequency) / 2.0 * Q;
-    const T cs    = std::cos(frequency);
-
-    const T b0 = 1.0 / (1.0 + alpha);
-    const T b1 = -2.0 * cs * b0;
-    const T b2 = (1.0 - alpha) * b0;
-    const T a0 = (1.0 - alpha) * b0;
-    const T a1 = -2.0 * cs * b0;
-    const T a2 = (1.0 + alpha) * b0;
-    return { b0, b1, b2, a0, a1, a2 };
+    const T K    = std::tan(c_pi<T, 1> * frequency);
+    const T K2   = K * K;
+    const T norm = 1 / (1 + K / Q + K2);
+    const T a0   = (1 - K / Q + K2) * norm;
+    const T a1   = 2 * (K2 - 1) * norm;
+    const T a2   = 1;
+    const T b1   = a1;
+    const T b2   = a0;
+    return { 1.0, b1, b2, a0, a1, a2 };
 }
 
 /**
-- 
2.43.0


From b998883b4da023f4b8b2c1b89a08844575aed990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 69/71] fix: to_sos pairs the wrong poles and zeros

Positions in a filtered list were used in the unfiltered one, the real partner
of a real pole was searched among all poles or among the zeros, conjugates were
only found next to each other in a list sorted by real part, and poles real
except for rounding were treated as complex. The gain of a filter without poles
and zeros was lost.
---
 include/kfr/dsp/iir_design.hpp | 65 ++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/include/kfr/dsp/iir_design.hpp b/include/kfr/dsp/iir_design.hpp
index fe3e076..1e048f0 100644
--- a/include/kfr/dsp/iir_design.hpp
+++ b/include/kfr/dsp/iir_design.hpp
@@ -900,19 +900,29 @@ KFR_FUNCTION univector<complex<T>> cplxreal(const univector<complex<T>>& list)
     univector<complex<T>> x = list;
     std::sort(x.begin(), x.end(),
               [](const complex<T>& a, const complex<T>& b) { return a.real() < b.real(); });
-    T tol                        = std::numeric_limits<T>::epsilon() * 100;
-    univector<complex<T>> result = x;
-    for (size_t i = result.size(); i > 1; i--)
+    univector<complex<T>> result;
+    while (!x.empty())
     {
-        if (!isreal(result[i - 1]) && !isreal(result[i - 2]))
+        complex<T> c = x.back();
+        x.pop_back();
+        const T tol = std::numeric_limits<T>::epsilon() * 100 * std::max(T(1), cabs(c));
+        if (!isreal(c))
         {
-            if (abs(result[i - 1].real() - result[i - 2].real()) < tol &&
-                abs(result[i - 1].imag() + result[i - 2].imag()) < tol)
+            // the conjugate may be anywhere among the values with the same real part
+            size_t i = x.size();
+            while (i > 0 && cabs(x[i - 1] - cconj(c)) > tol)
+                --i;
+            if (i > 0)
             {
-                result.erase(result.begin() + i - 1);
-                result[i - 2].imag(abs(result[i - 2].imag()));
+                x.erase(x.begin() + i - 1);
+                c.imag(abs(c.imag()));
+            }
+            else if (abs(c.imag()) <= tol)
+            {
+                c.imag(T(0)); // real except for rounding
             }
         }
+        result.insert(result.begin(), c);
     }
     return result;
 }
@@ -921,29 +931,20 @@ template <typename T>
 KFR_FUNCTION size_t nearest_real_or_complex(const univector<complex<T>>& list, const complex<T>& val,
                                             bool mustbereal = true)
 {
-    univector<complex<T>> filtered;
-    for (complex<T> v : list)
-    {
-        if (isreal(v) == mustbereal)
-        {
-            filtered.push_back(v);
-        }
-    }
-    TESTO_ASSERT(!filtered.empty());
-    if (filtered.empty())
-        return std::numeric_limits<size_t>::max();
-
-    size_t minidx = 0;
-    T minval      = cabs(val - filtered[0]);
-    for (size_t i = 1; i < filtered.size(); i++)
+    size_t minidx = std::numeric_limits<size_t>::max();
+    T minval      = 0;
+    for (size_t i = 0; i < list.size(); i++)
     {
-        T newminval = cabs(val - filtered[i]);
-        if (newminval < minval)
+        if (isreal(list[i]) != mustbereal)
+            continue;
+        T newminval = cabs(val - list[i]);
+        if (minidx == std::numeric_limits<size_t>::max() || newminval < minval)
         {
             minval = newminval;
             minidx = i;
         }
     }
+    TESTO_ASSERT(minidx != std::numeric_limits<size_t>::max());
     return minidx;
 }
 
@@ -1113,7 +1114,7 @@ template <typename T>
 KFR_FUNCTION iir_params<T> to_sos(const zpk<T>& filter)
 {
     if (filter.p.empty() && filter.z.empty())
-        return { biquad_section<T>(filter.k, T(0.), T(0.), T(1.), T(0.), 0) };
+        return { biquad_section<T>(T(1.), T(0.), T(0.), filter.k, T(0.), T(0.)) };
 
     zpk<T> filt   = filter;
     size_t length = std::max(filter.p.size(), filter.z.size());
@@ -1202,18 +1203,20 @@ KFR_FUNCTION iir_params<T> to_sos(const zpk<T>& filter)
                 if (!isreal(z1))
                 {
                     z2     = cconj(z1);
-                    p2_idx = internal::nearest_real_or_complex(filt.z, p1, true);
+                    p2_idx = internal::nearest_real_or_complex(filt.p, p1, true);
                     p2     = filt.p[p2_idx];
                     TESTO_ASSERT(isreal(p2));
                 }
                 else
                 {
-                    size_t worstidx = 0;
-                    T worstval      = abs(cabs(filt.p[0]) - 1);
-                    for (size_t i = 1; i < filt.p.size(); i++)
+                    size_t worstidx = std::numeric_limits<size_t>::max();
+                    T worstval      = 0;
+                    for (size_t i = 0; i < filt.p.size(); i++)
                     {
+                        if (!isreal(filt.p[i]))
+                            continue;
                         T val = abs(cabs(filt.p[i]) - 1);
-                        if (val < worstval)
+                        if (worstidx == std::numeric_limits<size_t>::max() || val < worstval)
                         {
                             worstidx = i;
                             worstval = val;
-- 
2.43.0


From 51eadb8776fda3d8780d1aa77a6085b7328849a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:06 +0000
Subject: [PATCH 70/71] fix: Chebyshev prototypes are computed in single
 precision

---
 include/kfr/dsp/iir_design.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dsp/iir_design.hpp b/include/kfr/dsp/iir_design.hpp
index 1e048f0..2d22ea6 100644
--- a/include/kfr/dsp/iir_design.hpp
+++ b/include/kfr/dsp/iir_design.hpp
@@ -60,7 +60,7 @@ KFR_FUNCTION zpk<T> chebyshev1(int N, identity<T> rp)
     T eps = sqrt(exp10(T(0.1) * rp) - T(1.0));
     T mu  = T(1.0) / N * std::asinh(1 / eps);
 
-    univector<T> m = linspace(-N + 1, N + 1, N, false, ctrue);
+    univector<T> m = linspace<T>(-N + 1, N + 1, N, false, ctrue);
 
     univector<T> theta      = c_pi<T> * m / (2 * N);
     univector<complex<T>> p = -csinh(make_complex(mu, theta));
@@ -85,17 +85,17 @@ KFR_FUNCTION zpk<T> chebyshev2(int N, identity<T> rs)
 
     if (N % 2)
     {
-        m = concatenate(linspace(-N + 1, -2, N / 2, true, ctrue), linspace(2, N - 1, N / 2, true, ctrue));
+        m = concatenate(linspace<T>(-N + 1, -2, N / 2, true, ctrue), linspace<T>(2, N - 1, N / 2, true, ctrue));
     }
     else
     {
-        m = linspace(-N + 1, N + 1, N, false, ctrue);
+        m = linspace<T>(-N + 1, N + 1, N, false, ctrue);
     }
 
     univector<complex<T>> z = -cconj(complex<T>(0, 1) / sin(m * c_pi<T> / (T(2.0) * N)));
 
     univector<complex<T>> p =
-        -cexp(complex<T>(0, 1) * c_pi<T> * linspace(-N + 1, N + 1, N, false, ctrue) / (2 * N));
+        -cexp(complex<T>(0, 1) * c_pi<T> * linspace<T>(-N + 1, N + 1, N, false, ctrue) / (2 * N));
     p = make_complex(sinh(mu) * real(p), cosh(mu) * imag(p));
     p = T(1.0) / p;
 
-- 
2.43.0


From f1949296c1ea93a748e1a5216b94917aabc5050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:02 +0000
Subject: [PATCH 71/71] fix: loading an array file larger than the memory
 throws instead of reporting an error

---
 include/kfr/base/npy.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/npy.hpp b/include/kfr/base/npy.hpp
index b44562e..0c0a6ef 100644
--- a/include/kfr/base/npy.hpp
+++ b/include/kfr/base/npy.hpp
@@ -502,9 +502,13 @@ npy_decode_result load_from_npy(tensor<T, Dims>& result, Fn&& read_callback)
         max_size /= sh[i];
     }
 
-    tensor<T, 1> buffer(shape<1>{ sh.product() });
+    T* data = aligned_allocate<T>(sh.product(), 64);
+    if (data == nullptr)
+        return npy_decode_result::cannot_read;
+    tensor<T, 1> buffer(data, shape<1>{ sh.product() },
+                        make_memory_finalizer([data]() { aligned_deallocate(data); }));
 
-    if (buffer.data() == nullptr || !rd(ctype<T>, buffer.data(), buffer.size()))
+    if (!rd(ctype<T>, buffer.data(), buffer.size()))
         return npy_decode_result::cannot_read;
     if (convert_endianness)
     {
-- 
2.43.0

