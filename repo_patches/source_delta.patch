From 7e37334e90da78a2bfbfc71838d09d9d949a54e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:55 +0000
Subject: [PATCH 01/36] fix: forget the audio file handle once it is closed

close() left the handle set, so is_open() stayed true, the next close(), open()
or the destructor closed the file a second time and reads, writes and seeks used
a released handle.
---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 1 +
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 328cb8f..dd9b05c 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -105,6 +105,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c84c887..c0c9cbc 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -121,6 +121,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
-- 
2.43.0


From f2d6f4f1b90aa586e924cca9c46677957b4e16da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:02 +0000
Subject: [PATCH 02/36] fix: single owner for audio file and converter handles

The implicitly copied encoders, decoders and resamplers shared the raw handle,
so both copies released it.
---
 bindings/python/src/io.cpp                                  | 6 +++---
 .../edsp/io/internal/decoder/libsndfile_decoder_impl.hpp    | 4 ++++
 .../edsp/io/internal/encoder/libsndfile_encoder_impl.hpp    | 4 ++++
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp   | 4 ++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 1199587..88bf99a 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -93,7 +93,7 @@ void add_io_package() {
         .def("artist", &edsp::io::metadata::artist)
         .def("track", &edsp::io::metadata::track);
 
-    bp::class_<encoder>("Encoder", bp::init<std::size_t, std::size_t>())
+    bp::class_<encoder, boost::noncopyable>("Encoder", bp::init<std::size_t, std::size_t>())
         .def("open", &encoder::open)
         .def("is_open", &encoder::is_open)
         .def("close", &encoder::close)
@@ -101,7 +101,7 @@ void add_io_package() {
         .def("samplerate", &encoder::sample_rate)
         .def("write", encoder_wrapper);
 
-    bp::class_<decoder>("Decoder", bp::init<>())
+    bp::class_<decoder, boost::noncopyable>("Decoder", bp::init<>())
         .def("open", &decoder::open)
         .def("is_open", &decoder::is_open)
         .def("close", &decoder::close)
@@ -119,7 +119,7 @@ void add_io_package() {
         .value("Fastest", edsp::io::resample_quality::sinc_fastest)
         .value("ZeroOrderHold", edsp::io::resample_quality::zero_order_hold);
 
-    bp::class_<resampler>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
+    bp::class_<resampler, boost::noncopyable>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
         .def("process", resampler_process_wrapper)
         .def("error_string", resampler_error_string_wrapper)
         .def("quality", &resampler::quality)
diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index dd9b05c..4cdb0e7 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -81,6 +81,10 @@ namespace edsp { namespace io {
         using value_type = T;
 
         libsndfile_decoder() = default;
+
+        /* The file handle has a single owner */
+        libsndfile_decoder(const libsndfile_decoder&) = delete;
+        libsndfile_decoder& operator=(const libsndfile_decoder&) = delete;
         ~libsndfile_decoder() {
             close();
         }
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c0c9cbc..785da64 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -97,6 +97,10 @@ namespace edsp { namespace io {
             info_.format     = SF_FORMAT_WAV | internal::writer<T>::FORMAT;
         }
 
+        /* The file handle has a single owner */
+        libsndfile_encoder(const libsndfile_encoder&) = delete;
+        libsndfile_encoder& operator=(const libsndfile_encoder&) = delete;
+
         ~libsndfile_encoder() {
             close();
         }
diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 0ef7745..1a17838 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -45,6 +45,10 @@ namespace edsp { namespace io {
             report_error(__PRETTY_FUNCTION__);
         }
 
+        /* The converter has a single owner */
+        libsamplerate_impl(const libsamplerate_impl&) = delete;
+        libsamplerate_impl& operator=(const libsamplerate_impl&) = delete;
+
         ~libsamplerate_impl() {
             src_delete(state_);
         }
-- 
2.43.0


From d08400ccea4b22cf888a2d2b7699d218dd7f8897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:16 +0000
Subject: [PATCH 03/36] fix: make an FFT plan only run what it was planned for,
 and plan one at a time

---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 115 ++++++++++++++++++
 1 file changed, 115 insertions(+)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index f015ea7..724a2cc 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -32,6 +32,8 @@
 #include <complex>
 #include <fftw3.h>
 #include <algorithm>
+#include <mutex>
+#include <stdexcept>
 
 namespace edsp { inline namespace spectral {
     namespace internal {
@@ -47,6 +49,27 @@ namespace edsp { inline namespace spectral {
         inline fftw_complex* fftw_cast(const std::complex<double>* p) {
             return const_cast<fftw_complex*>(reinterpret_cast<const fftw_complex*>(p));
         }
+
+        // The FFTW planner is not reentrant: only one thread at a time may create or destroy a plan.
+        inline std::mutex& fftw_planner() {
+            static std::mutex planner;
+            return planner;
+        }
+
+        enum class fftw_kind { none, dft, idft, dft_real, idft_real, dht, dct, idct };
+
+        // A plan can only be executed on buffers that look like the ones it was created with.
+        struct fftw_signature {
+            fftw_kind kind{fftw_kind::none};
+            bool in_place{false};
+            int src_alignment{0};
+            int dst_alignment{0};
+
+            bool operator==(const fftw_signature& other) const noexcept {
+                return kind == other.kind && in_place == other.in_place && src_alignment == other.src_alignment &&
+                       dst_alignment == other.dst_alignment;
+            }
+        };
     } // namespace internal
 
     template <typename T>
@@ -59,65 +82,82 @@ namespace edsp { inline namespace spectral {
         using size_type    = int;
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
+        fftw_impl(const fftw_impl&) = delete;
+        fftw_impl& operator=(const fftw_impl&) = delete;
 
         ~fftw_impl() {
             if (!meta::is_null(plan_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 fftwf_destroy_plan(plan_);
             }
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
+            auto lock = select(internal::fftw_kind::dft, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            release(lock);
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
+            auto lock = select(internal::fftw_kind::idft, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
+            release(lock);
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
+            auto lock = select(internal::fftw_kind::dft_real, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
+            release(lock);
             fftwf_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
+            auto lock = select(internal::fftw_kind::idft_real, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
+            release(lock);
             fftwf_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
+            auto lock = select(internal::fftw_kind::dht, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
+            release(lock);
             fftwf_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dct(const value_type* src, value_type* dst) {
+            auto lock = select(internal::fftw_kind::dct, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
+            release(lock);
             fftwf_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idct(const value_type* src, value_type* dst) {
+            auto lock = select(internal::fftw_kind::idct, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
+            release(lock);
             fftwf_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
@@ -143,6 +183,35 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
+        template <typename In, typename Out>
+        inline std::unique_lock<std::mutex> select(internal::fftw_kind kind, const In* src, Out* dst) {
+            internal::fftw_signature signature;
+            signature.kind          = kind;
+            signature.in_place      = static_cast<const void*>(src) == static_cast<const void*>(dst);
+            signature.src_alignment = fftwf_alignment_of(reinterpret_cast<value_type*>(internal::fftw_cast(src)));
+            signature.dst_alignment = fftwf_alignment_of(reinterpret_cast<value_type*>(internal::fftw_cast(dst)));
+            if (!meta::is_null(plan_) && signature == signature_) {
+                return {};
+            }
+            std::unique_lock<std::mutex> lock(internal::fftw_planner());
+            if (!meta::is_null(plan_)) {
+                fftwf_destroy_plan(plan_);
+                plan_ = nullptr;
+            }
+            signature_ = signature;
+            return lock;
+        }
+
+        inline void release(std::unique_lock<std::mutex>& lock) {
+            if (lock.owns_lock()) {
+                lock.unlock();
+            }
+            if (meta::is_null(plan_)) {
+                throw std::runtime_error("FFTW could not create a plan");
+            }
+        }
+
+        internal::fftw_signature signature_{};
         ::fftwf_plan plan_{nullptr};
         size_type nfft_;
     };
@@ -154,62 +223,79 @@ namespace edsp { inline namespace spectral {
         using size_type    = int;
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
+        fftw_impl(const fftw_impl&) = delete;
+        fftw_impl& operator=(const fftw_impl&) = delete;
 
         ~fftw_impl() {
             if (!meta::is_null(plan_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 fftw_destroy_plan(plan_);
             }
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
+            auto lock = select(internal::fftw_kind::dft, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            release(lock);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
+            auto lock = select(internal::fftw_kind::idft, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            release(lock);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
+            auto lock = select(internal::fftw_kind::dft_real, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            release(lock);
             fftw_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
+            auto lock = select(internal::fftw_kind::idft_real, src, dst);
             if (meta::is_null(plan_))
                 plan_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            release(lock);
             fftw_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
+            auto lock = select(internal::fftw_kind::dht, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
+            release(lock);
             fftw_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dct(const value_type* src, value_type* dst) {
+            auto lock = select(internal::fftw_kind::dct, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
+            release(lock);
             fftw_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idct(const value_type* src, value_type* dst) {
+            auto lock = select(internal::fftw_kind::idct, src, dst);
             if (meta::is_null(plan_)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
+            release(lock);
             fftw_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
@@ -235,6 +321,35 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
+        template <typename In, typename Out>
+        inline std::unique_lock<std::mutex> select(internal::fftw_kind kind, const In* src, Out* dst) {
+            internal::fftw_signature signature;
+            signature.kind          = kind;
+            signature.in_place      = static_cast<const void*>(src) == static_cast<const void*>(dst);
+            signature.src_alignment = fftw_alignment_of(reinterpret_cast<value_type*>(internal::fftw_cast(src)));
+            signature.dst_alignment = fftw_alignment_of(reinterpret_cast<value_type*>(internal::fftw_cast(dst)));
+            if (!meta::is_null(plan_) && signature == signature_) {
+                return {};
+            }
+            std::unique_lock<std::mutex> lock(internal::fftw_planner());
+            if (!meta::is_null(plan_)) {
+                fftw_destroy_plan(plan_);
+                plan_ = nullptr;
+            }
+            signature_ = signature;
+            return lock;
+        }
+
+        inline void release(std::unique_lock<std::mutex>& lock) {
+            if (lock.owns_lock()) {
+                lock.unlock();
+            }
+            if (meta::is_null(plan_)) {
+                throw std::runtime_error("FFTW could not create a plan");
+            }
+        }
+
+        internal::fftw_signature signature_{};
         ::fftw_plan plan_{nullptr};
         size_type nfft_;
     };
-- 
2.43.0


From e6c6a3caa4ed19960970bc576531348267d6fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:14 +0000
Subject: [PATCH 04/36] fix: read whole frames whatever the channel count, fail
 on a closed decoder

---
 .../decoder/libsndfile_decoder_impl.hpp         | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 4cdb0e7..0f15309 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -133,10 +133,16 @@ namespace edsp { namespace io {
         }
 
         index_type seek(libsndfile_decoder::index_type position) noexcept {
+            if (!is_open()) {
+                return -1;
+            }
             return sf_seek(file_, position, SEEK_SET);
         }
 
         index_type current() const noexcept {
+            if (!is_open()) {
+                return -1;
+            }
             return sf_seek(file_, 0, SEEK_CUR);
         }
 
@@ -149,15 +155,22 @@ namespace edsp { namespace io {
             using value_type = meta::value_type_t<OutputIt>;
             static_assert(std::is_same<value_type, underlying_t>::value, "Expecting iterator of the same type");
 
+            if (!is_open()) {
+                return 0;
+            }
+
+            /* The codec only accepts whole frames */
+            const index_type block  = N - N % channels();
             index_type total        = std::distance(first, last);
             index_type remaining    = total;
             index_type samples_read = 0;
+            index_type counter      = 0;
             do {
-                const auto counter = (remaining > N) ? N : remaining;
+                counter            = (remaining > block) ? block : remaining - remaining % channels();
                 samples_read       = internal::reader<T>{}.read(file_, meta::data(buffer_), counter);
                 remaining -= samples_read;
                 first = std::copy(std::cbegin(buffer_), std::cbegin(buffer_) + samples_read, first);
-            } while (remaining > 0 && samples_read > 0);
+            } while (remaining > 0 && samples_read > 0 && samples_read == counter);
             return total - remaining;
         }
 
-- 
2.43.0


From 4c35034905e185ce820ca5f7b4deb26aa5a50f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 05/36] fix: a rejected resampling call neither consumes nor
 produces

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 1a17838..8f67cb0 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -24,6 +24,7 @@
 #define EDSP_LIBSAMPLERATE_IMPL_HPP
 
 #include <edsp/core/logger.hpp>
+#include <edsp/meta/is_null.hpp>
 #include <samplerate.h>
 
 namespace edsp { namespace io {
@@ -55,6 +56,9 @@ namespace edsp { namespace io {
 
         template <typename InputIt, typename OutputIt>
         std::pair<size_type, size_type> process(InputIt first, InputIt last, OutputIt d_first) {
+            if (meta::is_null(state_)) {
+                return {0, 0};
+            }
             const auto size          = std::distance(first, last);
             const auto input_frames  = size / channels_;
             const auto output_frames = static_cast<std::size_t>(ratio_ * input_frames);
@@ -64,6 +68,9 @@ namespace edsp { namespace io {
             data_.data_out           = &(*d_first);
             data_.src_ratio          = ratio_;
             data_.end_of_input       = 0;
+            /* A rejected call neither consumes nor produces */
+            data_.input_frames_used  = 0;
+            data_.output_frames_gen  = 0;
             error_                   = src_process(state_, &data_);
             report_error(__PRETTY_FUNCTION__);
             return {data_.input_frames_used, data_.output_frames_gen};
-- 
2.43.0


From 96475c5e960ac3296914819a624b99a7955ee165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 06/36] fix: read metadata of files without tags and beyond
 Latin-1

---
 .../edsp/io/internal/metadata/libtag_impl.hpp | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/edsp/io/internal/metadata/libtag_impl.hpp b/include/edsp/io/internal/metadata/libtag_impl.hpp
index efba48d..892cbce 100644
--- a/include/edsp/io/internal/metadata/libtag_impl.hpp
+++ b/include/edsp/io/internal/metadata/libtag_impl.hpp
@@ -32,30 +32,53 @@ namespace edsp { namespace io {
         explicit libtag_metadata(const std::string& file) : ref_(meta::data(file)) {}
 
         std::string title() const {
-            return ref_.tag()->title().to8Bit();
+            if (!has_tag()) {
+                return {};
+            }
+            return ref_.tag()->title().to8Bit(true);
         }
 
         std::string artist() const {
-            return ref_.tag()->artist().to8Bit();
+            if (!has_tag()) {
+                return {};
+            }
+            return ref_.tag()->artist().to8Bit(true);
         }
 
         std::string album() const {
-            return ref_.tag()->album().to8Bit();
+            if (!has_tag()) {
+                return {};
+            }
+            return ref_.tag()->album().to8Bit(true);
         }
 
         std::string genre() const {
-            return ref_.tag()->genre().to8Bit();
+            if (!has_tag()) {
+                return {};
+            }
+            return ref_.tag()->genre().to8Bit(true);
         }
 
         size_t track() const {
+            if (!has_tag()) {
+                return 0;
+            }
             return ref_.tag()->track();
         }
 
         size_t year() const {
+            if (!has_tag()) {
+                return 0;
+            }
             return ref_.tag()->year();
         }
 
     private:
+        /* There is no tag when the file is missing or is no audio file */
+        bool has_tag() const {
+            return ref_.tag() != nullptr;
+        }
+
         TagLib::FileRef ref_;
     };
 
-- 
2.43.0


From 41621b87b0ae22be438203d3ec64e93acf476a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:18 +0000
Subject: [PATCH 07/36] fix: log characters, tabs and views as they are, and
 survive a failing stream

---
 include/edsp/core/logger.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 0f52df8..d688745 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -160,6 +160,7 @@ namespace edsp { inline namespace core {
         // clang-format off
         using logger_manipulator = std::function<edsp::core::logger&(edsp::core::logger&)>;
         inline logger& operator<<(logger_manipulator manipulator);
+        inline logger& operator<<(char);
         inline logger& operator<<(std::uint8_t);
         inline logger& operator<<(std::uint16_t);
         inline logger& operator<<(std::uint32_t);
@@ -224,11 +225,13 @@ namespace edsp { inline namespace core {
     inline namespace internal {
         struct logger_impl {
             inline static logger& tab(logger& stream) {
-                return stream << '\t';
+                stream.msg_ << '\t';
+                return stream;
             }
 
             inline static logger& endl(logger& stream) {
-                return stream << '\n';
+                stream.msg_ << '\n';
+                return stream;
             }
 
             inline static logger& red(logger& stream) {
@@ -427,8 +430,14 @@ namespace edsp { inline namespace core {
     logger::logger(logger::levels message_type) : logger(global_name(), "", message_type) {}
 
     logger::~logger() {
-        edsp::endc(*this);
-        std::cout << msg_.str();
+        // Logging must neither end the process nor write parts of a message
+        try {
+            edsp::endc(*this);
+            if (msg_.good()) {
+                std::cout << msg_.str();
+            }
+        } catch (...) {
+        }
     }
 
     logger& logger::space() {
@@ -483,13 +492,18 @@ namespace edsp { inline namespace core {
 
     template <typename Char>
     logger& logger::operator<<(const std::basic_string<Char>& str) {
-        msg_ << str.data();
+        msg_.write(str.data(), static_cast<std::streamsize>(str.size()));
         return space();
     }
 
     template <typename Char>
     logger& logger::operator<<(const edsp::basic_string_view<Char>& str) {
-        msg_ << str.data();
+        msg_.write(str.data(), static_cast<std::streamsize>(str.size()));
+        return space();
+    }
+
+    logger& logger::operator<<(char value) {
+        msg_ << value;
         return space();
     }
 
-- 
2.43.0


From fe553beb59474fc26fd0234651845aff99d4277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:18 +0000
Subject: [PATCH 08/36] fix: use environment names and values with their own
 length, tell empty from unset

---
 include/edsp/core/system.hpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 05b9a14..25b5380 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -29,7 +29,10 @@
 #include <edsp/meta/expects.hpp>
 #include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
+#include <cstdlib>
 #include <mutex>
+#include <new>
+#include <string>
 
 namespace edsp { inline namespace core {
 
@@ -184,15 +187,20 @@ namespace edsp { inline namespace core {
         static edsp::expected<edsp::string_view, error>
             get_env(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            const char* env_p = std::getenv(variable_name.data());
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
-            } else {
-                if (!meta::is_null(env_p)) {
+            }
+            try {
+                // The view is not necessarily null-terminated
+                const std::string name(variable_name.data(), variable_name.size());
+                const char* env_p = std::getenv(name.c_str());
+                if (env_p != nullptr) {
                     return env_p;
                 } else {
                     return edsp::make_unexpected(error::not_found);
                 }
+            } catch (const std::bad_alloc&) {
+                return edsp::make_unexpected(error::no_memory);
             }
         }
 
@@ -208,9 +216,15 @@ namespace edsp { inline namespace core {
             std::lock_guard<std::mutex> lock(mutex());
             if (meta::empty(variable_name)) {
                 return error::empty;
-            } else {
-                const auto result = setenv(meta::data(variable_name), meta::data(variable_value), overwrite);
+            }
+            try {
+                // The views are not necessarily null-terminated
+                const std::string name(variable_name.data(), variable_name.size());
+                const std::string value(variable_value.data(), variable_value.size());
+                const auto result = setenv(name.c_str(), value.c_str(), overwrite);
                 return static_cast<error>(result);
+            } catch (const std::bad_alloc&) {
+                return error::no_memory;
             }
         }
 
@@ -219,9 +233,10 @@ namespace edsp { inline namespace core {
         * @param variable_name Variable name.
         * @return true if the variable exist in the system environment.
         */
-        static bool exist(const edsp::string_view& variable_name) noexcept {
+        static bool exist(const edsp::string_view& variable_name) {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(meta::data(variable_name)));
+            const std::string name(variable_name.data(), variable_name.size());
+            return std::getenv(name.c_str()) != nullptr;
         }
 
     private:
-- 
2.43.0


From ebe1964b5c4cb07da2331f8d399a3c2eb0346059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:11 +0000
Subject: [PATCH 09/36] fix: a ring insertion that throws leaves the ring as it
 was, and one into a ring without room does nothing

---
 include/edsp/thirdparty/nonstd/ring_span.hpp | 36 +++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/ring_span.hpp b/include/edsp/thirdparty/nonstd/ring_span.hpp
index 1485ff7..0e71ec5 100644
--- a/include/edsp/thirdparty/nonstd/ring_span.hpp
+++ b/include/edsp/thirdparty/nonstd/ring_span.hpp
@@ -494,34 +494,40 @@ namespace nonstd {
         void push_back(value_type const& value)
 #    endif
         {
+            if (m_capacity == 0)
+                return;
+
+            m_data[normalize_(m_front_idx + m_size)] = value; // may throw, nothing has changed yet
             if (full())
                 increment_front_and_back_();
             else
                 increment_back_();
-
-            back_() = value;
         }
 
 #    if nsrs_CPP11_OR_GREATER
         template <bool b = true, typename = nonstd::enable_if_t<b && std::is_move_assignable<T>::value>>
         void push_back(value_type&& value) nsrs_noexcept_op((std::is_nothrow_move_assignable<T>::value)) {
+            if (m_capacity == 0)
+                return;
+
+            m_data[normalize_(m_front_idx + m_size)] = std::move(value); // may throw, nothing has changed yet
             if (full())
                 increment_front_and_back_();
             else
                 increment_back_();
-
-            back_() = std::move(value);
         }
 
         template <class... Args>
         void emplace_back(Args&&... args) nsrs_noexcept_op((std::is_nothrow_constructible<T, Args...>::value &&
                                                             std::is_nothrow_move_assignable<T>::value)) {
+            if (m_capacity == 0)
+                return;
+
+            m_data[normalize_(m_front_idx + m_size)] = T(std::forward<Args>(args)...); // may throw, nothing has changed yet
             if (full())
                 increment_front_and_back_();
             else
                 increment_back_();
-
-            back_() = T(std::forward<Args>(args)...);
         }
 #    endif
 
@@ -534,34 +540,40 @@ namespace nonstd {
         void push_front(T const& value)
 #        endif
         {
+            if (m_capacity == 0)
+                return;
+
+            m_data[normalize_(m_front_idx + m_capacity - 1)] = value; // may throw, nothing has changed yet
             if (full())
                 decrement_front_and_back_();
             else
                 decrement_front_();
-
-            front_() = value;
         }
 
 #        if nsrs_CPP11_OR_GREATER
         template <bool b = true, typename = nonstd::enable_if_t<b && std::is_move_assignable<T>::value>>
         void push_front(T&& value) nsrs_noexcept_op((std::is_nothrow_move_assignable<T>::value)) {
+            if (m_capacity == 0)
+                return;
+
+            m_data[normalize_(m_front_idx + m_capacity - 1)] = std::move(value); // may throw, nothing has changed yet
             if (full())
                 decrement_front_and_back_();
             else
                 decrement_front_();
-
-            front_() = std::move(value);
         }
 
         template <typename... Args>
         void emplace_front(Args&&... args) nsrs_noexcept_op((std::is_nothrow_constructible<T, Args...>::value &&
                                                              std::is_nothrow_move_assignable<T>::value)) {
+            if (m_capacity == 0)
+                return;
+
+            m_data[normalize_(m_front_idx + m_capacity - 1)] = T(std::forward<Args>(args)...); // may throw, nothing has changed yet
             if (full())
                 decrement_front_and_back_();
             else
                 decrement_front_();
-
-            front_() = T(std::forward<Args>(args)...);
         }
 #        endif
 #    endif // nsrs_RING_SPAN_LITE_EXTENSION
-- 
2.43.0


From 16880cffb5f000253b1ff1460a890ed173dc5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:39 +0000
Subject: [PATCH 10/36] fix: ring buffers own their view when copied or moved,
 and can be indexed

---
 include/edsp/types/fixed_ring_buffer.hpp | 60 +++++++++++++++++++----
 include/edsp/types/ring_buffer.hpp       | 62 ++++++++++++++++++++----
 2 files changed, 103 insertions(+), 19 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 726b8c1..04f8c92 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -26,6 +26,9 @@
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
 #include <array>
+#include <memory>
+#include <stdexcept>
+#include <type_traits>
 
 namespace edsp { inline namespace types {
 
@@ -59,10 +62,36 @@ namespace edsp { inline namespace types {
         typedef std::array<T, MaxSize> container_type;
 
         fixed_ring_buffer()                             = default;
-        fixed_ring_buffer(const fixed_ring_buffer&)     = default;
-        fixed_ring_buffer(fixed_ring_buffer&&) noexcept = default;
-        fixed_ring_buffer& operator=(const fixed_ring_buffer&) = default;
-        fixed_ring_buffer& operator=(fixed_ring_buffer&&) noexcept = default;
+        fixed_ring_buffer(const fixed_ring_buffer& other) :
+            buffer_(other.buffer_),
+            ring_(std::begin(buffer_), std::end(buffer_), std::begin(buffer_) + other.offset(), other.size()) {}
+
+        fixed_ring_buffer(fixed_ring_buffer&& other) noexcept(std::is_nothrow_move_constructible<T>::value) :
+            buffer_(std::move(other.buffer_)),
+            ring_(std::begin(buffer_), std::end(buffer_), std::begin(buffer_) + other.offset(), other.size()) {
+            other.clear();
+        }
+
+        fixed_ring_buffer& operator=(const fixed_ring_buffer& other) {
+            if (this != &other) {
+                clear();
+                buffer_ = other.buffer_;
+                ring_   = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_),
+                                           std::begin(buffer_) + other.offset(), other.size());
+            }
+            return *this;
+        }
+
+        fixed_ring_buffer& operator=(fixed_ring_buffer&& other) noexcept(std::is_nothrow_move_assignable<T>::value) {
+            if (this != &other) {
+                clear();
+                buffer_ = std::move(other.buffer_);
+                ring_   = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_),
+                                           std::begin(buffer_) + other.offset(), other.size());
+                other.clear();
+            }
+            return *this;
+        }
 
         /**
          *  @brief Default destructor.
@@ -266,7 +295,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -281,7 +310,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -296,7 +325,8 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            check(i);
+            return (*this)[i];
         }
 
         /**
@@ -311,7 +341,8 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            check(i);
+            return (*this)[i];
         }
 
         /**
@@ -426,11 +457,22 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
     private:
+        // The view always refers to the storage of this object.
+        difference_type offset() const {
+            return empty() ? 0 : std::addressof(front()) - buffer_.data();
+        }
+
+        void check(size_type i) const {
+            if (i >= size()) {
+                throw std::out_of_range("Index out of the range of the ring buffer");
+            }
+        }
+
         container_type buffer_{};
         edsp::ring_span<T> ring_{std::begin(buffer_), std::end(buffer_)};
     };
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index f3e6da6..37a11a9 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -28,6 +28,9 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <algorithm>
+#include <memory>
+#include <stdexcept>
 #include <vector>
 
 namespace edsp { inline namespace types {
@@ -45,7 +48,6 @@ namespace edsp { inline namespace types {
      * @tparam T  Type of element.
      * @tparam Allocator  Allocator type, defaults to std::allocator<T>.
      */
-    // TODO: Check why the default copy constructor is disabled!
     template <typename T, typename Allocator = std::allocator<T>>
     class ring_buffer {
     public:
@@ -63,10 +65,28 @@ namespace edsp { inline namespace types {
         typedef std::vector<T, Allocator> container_type;
 
         constexpr ring_buffer()                       = default;
-        constexpr ring_buffer(const ring_buffer&)     = default;
-        constexpr ring_buffer(ring_buffer&&) noexcept = default;
-        constexpr ring_buffer& operator=(const ring_buffer&) = default;
-        constexpr ring_buffer& operator=(ring_buffer&&) noexcept = default;
+        ring_buffer(const ring_buffer& other) :
+            buffer_(other.buffer_),
+            ring_(std::begin(buffer_), std::end(buffer_), std::begin(buffer_) + other.offset(), other.size()) {}
+
+        ring_buffer(ring_buffer&& other) noexcept : ring_buffer() {
+            take(other);
+        }
+
+        ring_buffer& operator=(const ring_buffer& other) {
+            if (this != &other) {
+                ring_buffer copy(other);
+                take(copy);
+            }
+            return *this;
+        }
+
+        ring_buffer& operator=(ring_buffer&& other) noexcept {
+            if (this != &other) {
+                take(other);
+            }
+            return *this;
+        }
 
         /**
          *  @brief Creates a %ring_buffer with default constructed elements.
@@ -304,7 +324,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -319,7 +339,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -334,7 +354,8 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            check(i);
+            return (*this)[i];
         }
 
         /**
@@ -349,7 +370,8 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            check(i);
+            return (*this)[i];
         }
 
         /**
@@ -463,11 +485,31 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
     private:
+        // The view always refers to the storage of this object.
+        difference_type offset() const {
+            return empty() ? 0 : std::addressof(front()) - buffer_.data();
+        }
+
+        void take(ring_buffer& other) noexcept {
+            const auto first = other.offset();
+            const auto count = other.size();
+            buffer_          = std::move(other.buffer_);
+            ring_ = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_), std::begin(buffer_) + first, count);
+            other.buffer_.clear();
+            other.clear();
+        }
+
+        void check(size_type i) const {
+            if (i >= size()) {
+                throw std::out_of_range("Index out of the range of the ring buffer");
+            }
+        }
+
         container_type buffer_{};
         edsp::ring_span<T> ring_{std::begin(buffer_), std::end(buffer_)};
     };
-- 
2.43.0


From 18dc4839465c657c2c1e131ba1cec23d233a5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:43 +0000
Subject: [PATCH 11/36] fix: a reset or resized moving filter forgets its past

---
 include/edsp/filter/moving_average_filter.hpp | 6 ++++--
 include/edsp/filter/moving_median_filter.hpp  | 4 ++--
 include/edsp/filter/moving_rms_filter.hpp     | 9 ++++++---
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 1df4456..649ea10 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -105,7 +105,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::reset() {
-        window_.clear();
+        std::fill(window_.begin(), window_.end(), T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
@@ -116,7 +117,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_median_filter.hpp b/include/edsp/filter/moving_median_filter.hpp
index a8251b7..231111f 100644
--- a/include/edsp/filter/moving_median_filter.hpp
+++ b/include/edsp/filter/moving_median_filter.hpp
@@ -100,7 +100,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::reset() {
-        window_.clear();
+        std::fill(window_.begin(), window_.end(), T());
     }
 
     template <typename T, typename Allocator>
@@ -111,7 +111,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 92dde0f..2a77371 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -106,7 +106,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::reset() {
-        window_.clear();
+        std::fill(window_.begin(), window_.end(), T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
@@ -117,7 +118,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
@@ -126,7 +128,8 @@ namespace edsp { namespace filter {
         accumulated_ -= window_.front();
         accumulated_ += sqr;
         window_.push_back(sqr);
-        return std::sqrt(accumulated_ / static_cast<T>(window_.size()));
+        // rounding may leave a tiny negative sum
+        return std::sqrt(std::max(accumulated_, T()) / static_cast<T>(window_.size()));
     }
 
 }} // namespace edsp::filter
-- 
2.43.0


From 26a0df0144fe18a28cad230e6be72eb6e5a3c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:43 +0000
Subject: [PATCH 12/36] fix: compute the median

---
 include/edsp/statistics/median.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/edsp/statistics/median.hpp b/include/edsp/statistics/median.hpp
index 2da6ad5..74498aa 100644
--- a/include/edsp/statistics/median.hpp
+++ b/include/edsp/statistics/median.hpp
@@ -23,9 +23,9 @@
 #define EDSP_STATISTICAL_MEDIANT_HPP
 
 #include <edsp/meta/iterator.hpp>
-#include <edsp/meta/unused.hpp>
 #include <algorithm>
-#include <numeric>
+#include <iterator>
+#include <vector>
 
 namespace edsp { namespace statistics {
 
@@ -41,11 +41,18 @@ namespace edsp { namespace statistics {
      * @returns The median of the input range.
      */
     template <typename ForwardIt>
-    constexpr meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
-        // TODO: implement the median: do not use sorting algorithm.
-        meta::unused(first);
-        meta::unused(last);
-        return 0;
+    meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
+        using value_type = meta::value_type_t<ForwardIt>;
+        std::vector<value_type> values(first, last);
+        if (values.empty()) {
+            return 0;
+        }
+        const auto middle = std::begin(values) + static_cast<meta::diff_type_t<ForwardIt>>(values.size() / 2);
+        std::nth_element(std::begin(values), middle, std::end(values));
+        if (values.size() % 2 != 0) {
+            return *middle;
+        }
+        return (*std::max_element(std::begin(values), middle) + *middle) / 2;
     }
 
 }} // namespace edsp::statistics
-- 
2.43.0


From 7b81d41deef0e144d47360c1c12a78bc0a62aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:01 +0000
Subject: [PATCH 13/36] fix: an ADSR reports its release rate

---
 include/edsp/experimental/envelope/adsr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/experimental/envelope/adsr.hpp b/include/edsp/experimental/envelope/adsr.hpp
index d7b0659..a625fc9 100644
--- a/include/edsp/experimental/envelope/adsr.hpp
+++ b/include/edsp/experimental/envelope/adsr.hpp
@@ -68,7 +68,7 @@ namespace edsp { namespace envelope {
         }
 
         constexpr value_type release_rate() const {
-            return release_time_;
+            return release_rate_;
         }
 
         constexpr value_type decay_rate() const {
-- 
2.43.0


From 504f4d52029f6ac35cfc49be56944744d8b89923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:01 +0000
Subject: [PATCH 14/36] fix: attack and release times take effect in the AR
 envelope

---
 include/edsp/experimental/envelope/ar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/envelope/ar.hpp b/include/edsp/experimental/envelope/ar.hpp
index 1333b07..d27e55f 100644
--- a/include/edsp/experimental/envelope/ar.hpp
+++ b/include/edsp/experimental/envelope/ar.hpp
@@ -197,9 +197,9 @@ namespace edsp { namespace envelope {
 
     template <typename T>
     constexpr void ar<T>::reset() noexcept {
-        attack_gain_ = (attack_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
+        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (attack_time_ * sample_rate_))) : 0;
         release_gain_ =
-            (release_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
+            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (release_time_ * sample_rate_))) : 0;
         last_ = 0;
     }
 
-- 
2.43.0


From 555a5ba3afbb4e0e54d1a391241353f6d4e82528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:01 +0000
Subject: [PATCH 15/36] fix: a square oscillator follows a change of frequency

---
 include/edsp/oscillators/sinusoidal.hpp | 3 ++-
 include/edsp/oscillators/square.hpp     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/edsp/oscillators/sinusoidal.hpp b/include/edsp/oscillators/sinusoidal.hpp
index aa93f17..71b3204 100644
--- a/include/edsp/oscillators/sinusoidal.hpp
+++ b/include/edsp/oscillators/sinusoidal.hpp
@@ -183,7 +183,8 @@ namespace edsp { namespace oscillators {
 
     template <typename T>
     constexpr void oscillator<T>::set_frequency(value_type frequency) noexcept {
-        frequency_ = frequency;
+        frequency_         = frequency;
+        inverse_frequency_ = math::inv(frequency);
     }
 
     template <typename T>
diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index af62169..6a34bfe 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -98,19 +98,19 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr void square_oscillator<T>::set_duty(value_type duty) noexcept {
         meta::expects(duty >= 0 && duty <= 1, "duty must be a real number between 0 and 1.");
-        duty_ = duty * oscillator<T>::inverse_frequency_;
+        duty_ = duty;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::duty() const noexcept {
-        return duty_ * oscillator<T>::frequency_;
+        return duty_;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
         const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (current_t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (current_t >= duty_ * oscillator<T>::inverse_frequency_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From ae95fe17e00ca34208cfb9e83f6df2b8874b723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:01 +0000
Subject: [PATCH 16/36] fix: a square oscillator is active during its duty
 cycle

---
 include/edsp/oscillators/square.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index 6a34bfe..c0fd3c0 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -110,7 +110,7 @@ namespace edsp { namespace oscillators {
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
         const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (current_t >= duty_ * oscillator<T>::inverse_frequency_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (current_t >= duty_ * oscillator<T>::inverse_frequency_ ? -1 : 1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From c220a1692226d0ee6c9363b5ac6e13180081a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:51 +0000
Subject: [PATCH 17/36] fix: random generators can be constructed and drawn
 from

---
 include/edsp/random/random_generator.hpp | 71 ++++++++++++++++++------
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/include/edsp/random/random_generator.hpp b/include/edsp/random/random_generator.hpp
index e98d5ea..e8c2043 100644
--- a/include/edsp/random/random_generator.hpp
+++ b/include/edsp/random/random_generator.hpp
@@ -24,6 +24,7 @@
 
 #include <random>
 #include <chrono>
+#include <utility>
 
 namespace edsp { namespace random {
 
@@ -56,12 +57,12 @@ namespace edsp { namespace random {
 
         template <typename Distribution, typename Engine = std::mt19937>
         struct RandomGeneratorImpl {
-            using value_type = typename Distribution::value_type;
+            using value_type = typename Distribution::result_type;
             template <typename... Args>
             explicit RandomGeneratorImpl(Args... arg) :
                 generator_(
                     Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-                distribution_(Distribution(std::forward(arg...))) {}
+                distribution_(Distribution(std::forward<Args>(arg)...)) {}
 
             inline value_type operator()() {
                 return static_cast<value_type>(distribution_(generator_));
@@ -77,73 +78,107 @@ namespace edsp { namespace random {
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Uniform, T>
-            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {};
+            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {
+            using RandomGeneratorImpl<std::uniform_real_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Bernoulli, T>
-            : public RandomGeneratorImpl<std::bernoulli_distribution, T> {};
+            : public RandomGeneratorImpl<std::bernoulli_distribution> {
+            using RandomGeneratorImpl<std::bernoulli_distribution>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Binomial, T>
-            : public RandomGeneratorImpl<std::binomial_distribution<T>> {};
+            : public RandomGeneratorImpl<std::binomial_distribution<T>> {
+            using RandomGeneratorImpl<std::binomial_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Geometric, T>
-            : public RandomGeneratorImpl<std::geometric_distribution<T>> {};
+            : public RandomGeneratorImpl<std::geometric_distribution<T>> {
+            using RandomGeneratorImpl<std::geometric_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Poisson, T>
-            : public RandomGeneratorImpl<std::poisson_distribution<T>> {};
+            : public RandomGeneratorImpl<std::poisson_distribution<T>> {
+            using RandomGeneratorImpl<std::poisson_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Exponential, T>
-            : public RandomGeneratorImpl<std::exponential_distribution<T>> {};
+            : public RandomGeneratorImpl<std::exponential_distribution<T>> {
+            using RandomGeneratorImpl<std::exponential_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
-        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {};
+        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {
+            using RandomGeneratorImpl<std::gamma_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Weibull, T>
-            : public RandomGeneratorImpl<std::weibull_distribution<T>> {};
+            : public RandomGeneratorImpl<std::weibull_distribution<T>> {
+            using RandomGeneratorImpl<std::weibull_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ExtremeValue, T>
-            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {};
+            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {
+            using RandomGeneratorImpl<std::extreme_value_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Normal, T> : public RandomGeneratorImpl<std::normal_distribution<T>> {
+            using RandomGeneratorImpl<std::normal_distribution<T>>::RandomGeneratorImpl;
         };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::LogNormal, T>
-            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {};
+            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {
+            using RandomGeneratorImpl<std::lognormal_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ChiSquared, T>
-            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {};
+            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {
+            using RandomGeneratorImpl<std::chi_squared_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Fisher, T>
-            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {};
+            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {
+            using RandomGeneratorImpl<std::fisher_f_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Student, T>
-            : public RandomGeneratorImpl<std::student_t_distribution<T>> {};
+            : public RandomGeneratorImpl<std::student_t_distribution<T>> {
+            using RandomGeneratorImpl<std::student_t_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Discrete, T>
-            : public RandomGeneratorImpl<std::discrete_distribution<T>> {};
+            : public RandomGeneratorImpl<std::discrete_distribution<T>> {
+            using RandomGeneratorImpl<std::discrete_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseConstant, T>
-            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_constant_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseLinear, T>
-            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_linear_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Cauchy, T> : public RandomGeneratorImpl<std::cauchy_distribution<T>> {
+            using RandomGeneratorImpl<std::cauchy_distribution<T>>::RandomGeneratorImpl;
         };
 
     } // namespace internal
-- 
2.43.0


From fda975bd71d323365f5e68c9ca0adac88b5da2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:51 +0000
Subject: [PATCH 18/36] fix: noise generators work for real numbers, and Perlin
 noise stays in range

---
 .../random/noise/brown_noise_generator.hpp    |  2 +-
 .../random/noise/perlin_noise_generator.hpp   | 20 ++++++++++++-------
 .../random/noise/pink_noise_generator.hpp     |  2 +-
 .../random/noise/white_noise_generator.hpp    |  6 ++++--
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/edsp/random/noise/brown_noise_generator.hpp b/include/edsp/random/noise/brown_noise_generator.hpp
index 9f57e8d..3048041 100644
--- a/include/edsp/random/noise/brown_noise_generator.hpp
+++ b/include/edsp/random/noise/brown_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a brown noise sequence generator.
          */
         inline brown_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index 124f112..384a27f 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -25,10 +25,12 @@
 #include <array>
 #include <random>
 #include <chrono>
+#include <cmath>
+#include <cstdint>
 
 namespace edsp { namespace random {
 
-    inline namespace internal {
+    namespace internal {
         template <typename T>
         constexpr T fade(T t) noexcept {
             return t * t * t * (t * (t * 6 - 15) + 10);
@@ -59,7 +61,7 @@ namespace edsp { namespace random {
          */
         inline perlin_noise_generator() :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(0, 511)) {}
+            distribution_(0, 511) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -69,16 +71,16 @@ namespace edsp { namespace random {
             const auto random_value = distribution_(generator_);
             const auto index        = static_cast<std::int64_t>(random_value) & 0xFF;
             const auto floor_value  = random_value - std::floor(random_value);
-            const auto fade_value   = fade(random_value);
-            return lerp(fade_value, grad(permutation[index], floor_value),
-                        grad(permutation[index + 1], floor_value - 1)) *
+            const auto fade_value   = internal::fade(floor_value);
+            return internal::lerp(fade_value, internal::grad(permutation[index], floor_value),
+                                  internal::grad(permutation[(index + 1) & 0xFF], floor_value - 1)) *
                    2;
         }
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
-        static constexpr const std::array<T, 512> permutation = {
+        std::uniform_real_distribution<T> distribution_;
+        static constexpr const std::array<int, 256> permutation = {
             {151, 160, 137, 91,  90,  15,  131, 13,  201, 95,  96,  53,  194, 233, 7,   225, 140, 36,  103, 30,
              69,  142, 8,   99,  37,  240, 21,  10,  23,  190, 6,   148, 247, 120, 234, 75,  0,   26,  197, 62,
              94,  252, 219, 203, 117, 35,  11,  32,  57,  177, 33,  88,  237, 149, 56,  87,  174, 20,  125, 136,
@@ -94,5 +96,9 @@ namespace edsp { namespace random {
              222, 114, 67,  29,  24,  72,  243, 141, 128, 195, 78,  66,  215, 61,  156, 180}};
     };
 
+
+    template <typename T, typename Engine>
+    constexpr const std::array<int, 256> perlin_noise_generator<T, Engine>::permutation;
+
 }}     // namespace edsp::random
 #endif // EDSP_PERLIN_NOISE_GENERATOR_HPP
diff --git a/include/edsp/random/noise/pink_noise_generator.hpp b/include/edsp/random/noise/pink_noise_generator.hpp
index 7f9410f..8dbc305 100644
--- a/include/edsp/random/noise/pink_noise_generator.hpp
+++ b/include/edsp/random/noise/pink_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a pink noise sequence generator.
          */
         inline pink_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
diff --git a/include/edsp/random/noise/white_noise_generator.hpp b/include/edsp/random/noise/white_noise_generator.hpp
index 02d2cd4..bbc0c02 100644
--- a/include/edsp/random/noise/white_noise_generator.hpp
+++ b/include/edsp/random/noise/white_noise_generator.hpp
@@ -24,6 +24,7 @@
 
 #include <random>
 #include <chrono>
+#include <type_traits>
 
 namespace edsp { namespace random {
 
@@ -40,7 +41,7 @@ namespace edsp { namespace random {
          */
         inline white_noise_generator(value_type min, value_type max) :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(min, max)) {}
+            distribution_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -52,7 +53,8 @@ namespace edsp { namespace random {
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
+        std::conditional_t<std::is_integral<T>::value, std::uniform_int_distribution<T>, std::uniform_real_distribution<T>>
+            distribution_;
     };
 
 }} // namespace edsp::random
-- 
2.43.0


From abf7b3c2e35eda7df7c7e40384c6cc1e0c453dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:21 +0000
Subject: [PATCH 19/36] fix: a biquad takes its a0 coefficient into account

---
 include/edsp/filter/biquad.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 52b5be2..d6fb1f1 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -275,7 +275,7 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr bool biquad<T>::stability() const noexcept {
-        return std::abs(a2_) < 1 && (std::abs(a1_) < (1 + a2_));
+        return std::abs(a2_ / a0_) < 1 && (std::abs(a1_ / a0_) < (1 + a2_ / a0_));
     }
 
     template <typename T>
@@ -324,7 +324,7 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr typename biquad<T>::value_type biquad<T>::tick(const value_type value) noexcept {
-        const auto out = b0_ * value + w0_;
+        const auto out = (b0_ * value + w0_) / a0_;
         w0_            = b1_ * value - a1_ * out + w1_;
         w1_            = b2_ * value - a2_ * out;
         return out;
-- 
2.43.0


From 68685ac93da8057ecb6f12dce50368832339a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:50 +0000
Subject: [PATCH 20/36] fix: report a missing environment variable to Python by
 its error code

---
 bindings/python/src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/core.cpp b/bindings/python/src/core.cpp
index 18de363..879b84d 100644
--- a/bindings/python/src/core.cpp
+++ b/bindings/python/src/core.cpp
@@ -27,7 +27,7 @@
 bp::tuple get_environment_python(const char* tag) {
     int error = 0;
     const char* data = get_environment(tag, &error);
-    return bp::make_tuple(std::string(data), error);
+    return bp::make_tuple(std::string(data ? data : ""), error);
 }
 
 void add_core_package() {
-- 
2.43.0


From 07af1117007420f17814141bd3df5b05393afb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:50 +0000
Subject: [PATCH 21/36] fix: return to Python the samples a read or a
 resampling call produced, no more

---
 bindings/python/src/io.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 88bf99a..a01ebf7 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -22,6 +22,7 @@
 
 #define ENABLE_SINGLE
 #include <cedsp/types.h>
+#include <algorithm>
 
 #include <edsp/io/metadata.hpp>
 #include <edsp/io/encoder.hpp>
@@ -47,9 +48,7 @@ auto decoder_wrapper(decoder& dec, unsigned int size) {
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
     const auto sizes     = dec.read(data, data + size);
-    const auto frames    = sizes / dec.channels();
-    result.reshape(bp::make_tuple(frames, dec.channels()));
-    return result;
+    return bp::object(result[bp::slice(0, std::max<long>(sizes, 0))]);
 }
 
 std::string resampler_error_string_wrapper(resampler& res) {
@@ -62,7 +61,10 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
     }
 
     const auto size          = input.shape(0);
-    const auto expected_size = static_cast<unsigned int>(size * res.ratio());
+    const auto channels      = res.channels();
+    const auto in_frames     = channels > 0 ? size / channels : 0;
+    const auto out_frames    = resampler::valid_ratio(res.ratio()) ? static_cast<double>(res.ratio()) * in_frames : 0;
+    const auto expected_size = static_cast<Py_intptr_t>(out_frames) * channels;
 
     Py_intptr_t shape[1] = {expected_size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
@@ -70,13 +72,7 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
     auto in              = reinterpret_cast<real_t*>(input.get_data());
     const auto sizes     = res.process(in, in + size, data);
 
-    Py_intptr_t final_shape[2] = {sizes.second, res.channels()};
-    const auto final_samples   = sizes.second * res.channels();
-    auto final_result          = bn::empty(1, final_shape, bn::dtype::get_builtin<real_t>());
-    auto final_data            = reinterpret_cast<real_t*>(final_result.get_data());
-    std::copy(data, data + final_samples, final_data);
-    final_result.reshape(bp::make_tuple(sizes.second, res.channels()));
-    return bp::make_tuple(final_result, sizes.first);
+    return bp::make_tuple(bp::object(result[bp::slice(0, sizes.second * channels)]), sizes.first);
 }
 
 void add_io_package() {
-- 
2.43.0


From 9057085c46feaacd981a0ab2fe4fa34ea6d267a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:38 +0000
Subject: [PATCH 22/36] fix: reject a resampler without channels instead of
 aborting

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 8f67cb0..8a08165 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -42,7 +42,11 @@ namespace edsp { namespace io {
             channels_(channels),
             quality_(quality),
             ratio_(factor) {
-            state_ = src_new(quality, static_cast<int>(channels), &error_);
+            if (static_cast<int>(channels) > 0) {
+                state_ = src_new(quality, static_cast<int>(channels), &error_);
+            } else {
+                error_ = bad_channel_count; // some converters abort instead of rejecting it
+            }
             report_error(__PRETTY_FUNCTION__);
         }
 
@@ -113,6 +117,8 @@ namespace edsp { namespace io {
             }
         }
 
+        static constexpr error_type bad_channel_count = 11;
+
         SRC_DATA data_{};
         SRC_STATE* state_{nullptr};
         error_type error_{0};
-- 
2.43.0


From 4996ead721802e24b3f8159fb7311af89110900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:00 +0000
Subject: [PATCH 23/36] fix: convert Python arrays to contiguous arrays of
 samples

---
 bindings/python/include/boost_numpy_dependencies.hpp | 7 +++++++
 bindings/python/src/filter.cpp                       | 3 ++-
 bindings/python/src/io.cpp                           | 8 +++++---
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index 0a5bd0c..ef4261e 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -40,4 +40,11 @@ namespace bp = boost::python;
 namespace bn = boost::python::numpy;
 #endif
 
+/* A contiguous array of T with the elements of the input, which is the input itself if it is one already. */
+template <typename T>
+inline bn::ndarray as_array(const bn::ndarray& input) {
+    const auto type = bn::dtype::get_builtin<T>();
+    return bn::from_object(input.get_dtype() == type ? input : input.astype(type), type, bn::ndarray::CARRAY_RO);
+}
+
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
diff --git a/bindings/python/src/filter.cpp b/bindings/python/src/filter.cpp
index 2d813af..d5160c6 100644
--- a/bindings/python/src/filter.cpp
+++ b/bindings/python/src/filter.cpp
@@ -30,7 +30,8 @@ auto wrapper_filter(Class& obj, bn::ndarray& input) {
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto data            = reinterpret_cast<real_t*>(input.get_data());
+    const auto samples   = as_array<real_t>(input);
+    auto data            = reinterpret_cast<real_t*>(samples.get_data());
     auto output          = reinterpret_cast<real_t*>(result.get_data());
     obj.filter(data, data + size, output);
     return result;
diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index a01ebf7..e9d3625 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -38,8 +38,9 @@ auto encoder_wrapper(encoder& enc, bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
 
-    const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto size    = input.shape(0);
+    const auto samples = as_array<real_t>(input);
+    auto in            = reinterpret_cast<real_t*>(samples.get_data());
     return enc.write(in, in + size);
 }
 
@@ -69,7 +70,8 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
     Py_intptr_t shape[1] = {expected_size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
-    auto in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto samples   = as_array<real_t>(input);
+    auto in              = reinterpret_cast<real_t*>(samples.get_data());
     const auto sizes     = res.process(in, in + size, data);
 
     return bp::make_tuple(bp::object(result[bp::slice(0, sizes.second * channels)]), sizes.first);
-- 
2.43.0


From b3acb18c9216ff6771bd7bf04f67b07f074bf7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:23 +0000
Subject: [PATCH 24/36] fix: reject a moving filter without a window

---
 include/edsp/filter/moving_average_filter.hpp | 8 +++++++-
 include/edsp/filter/moving_median_filter.hpp  | 8 +++++++-
 include/edsp/filter/moving_rms_filter.hpp     | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 649ea10..94607a8 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -23,6 +23,7 @@
 #define EDSP_FILTER_MOVING_AVERAGE_FILTER_H
 
 #include <edsp/types/ring_buffer.hpp>
+#include <stdexcept>
 
 namespace edsp { namespace filter {
 
@@ -96,7 +97,9 @@ namespace edsp { namespace filter {
     };
 
     template <typename T, typename Allocator>
-    moving_average<T, Allocator>::moving_average(size_type N) : window_(N, T()) {}
+    moving_average<T, Allocator>::moving_average(size_type N) {
+        resize(N);
+    }
 
     template <typename T, typename Allocator>
     typename moving_average<T, Allocator>::size_type moving_average<T, Allocator>::size() const {
@@ -117,6 +120,9 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::resize(size_type N) {
+        if (N == 0) {
+            throw std::invalid_argument("Expected a window of at least one sample");
+        }
         window_ = edsp::ring_buffer<T, Allocator>(N, T());
         accumulated_ = T();
     }
diff --git a/include/edsp/filter/moving_median_filter.hpp b/include/edsp/filter/moving_median_filter.hpp
index 231111f..0e9be27 100644
--- a/include/edsp/filter/moving_median_filter.hpp
+++ b/include/edsp/filter/moving_median_filter.hpp
@@ -23,6 +23,7 @@
 #define EDSP_FILTER_MOVING_MEDIAN_FILTER_H
 
 #include <edsp/types/ring_buffer.hpp>
+#include <stdexcept>
 #include <edsp/statistics/median.hpp>
 
 namespace edsp { namespace filter {
@@ -91,7 +92,9 @@ namespace edsp { namespace filter {
     };
 
     template <typename T, typename Allocator>
-    moving_median<T, Allocator>::moving_median(size_type N) : window_(N, T()) {}
+    moving_median<T, Allocator>::moving_median(size_type N) {
+        resize(N);
+    }
 
     template <typename T, typename Allocator>
     typename moving_median<T, Allocator>::size_type moving_median<T, Allocator>::size() const {
@@ -111,6 +114,9 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::resize(size_type N) {
+        if (N == 0) {
+            throw std::invalid_argument("Expected a window of at least one sample");
+        }
         window_ = edsp::ring_buffer<T, Allocator>(N, T());
     }
 
diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 2a77371..07cb6a4 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -23,6 +23,7 @@
 #define EDSP_MOVING_RMS_FILTER_HPP
 
 #include <edsp/types/ring_buffer.hpp>
+#include <stdexcept>
 #include <cmath>
 
 namespace edsp { namespace filter {
@@ -97,7 +98,9 @@ namespace edsp { namespace filter {
     };
 
     template <typename T, typename Allocator>
-    moving_rms<T, Allocator>::moving_rms(size_type N) : window_(N, T()) {}
+    moving_rms<T, Allocator>::moving_rms(size_type N) {
+        resize(N);
+    }
 
     template <typename T, typename Allocator>
     typename moving_rms<T, Allocator>::size_type moving_rms<T, Allocator>::size() const {
@@ -118,6 +121,9 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::resize(size_type N) {
+        if (N == 0) {
+            throw std::invalid_argument("Expected a window of at least one sample");
+        }
         window_ = edsp::ring_buffer<T, Allocator>(N, T());
         accumulated_ = T();
     }
-- 
2.43.0


From 9a7828318b723b470434faf1a95eaf004cd11c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:46 +0000
Subject: [PATCH 25/36] fix: square and sawtooth oscillators repeat before the
 time origin too

---
 include/edsp/oscillators/sawtooth.hpp | 5 ++++-
 include/edsp/oscillators/square.hpp   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/edsp/oscillators/sawtooth.hpp b/include/edsp/oscillators/sawtooth.hpp
index 16371eb..66d7f8b 100644
--- a/include/edsp/oscillators/sawtooth.hpp
+++ b/include/edsp/oscillators/sawtooth.hpp
@@ -99,7 +99,10 @@ namespace edsp { namespace oscillators {
 
     template <typename T>
     constexpr typename sawtooth_oscillator<T>::value_type sawtooth_oscillator<T>::operator()() {
-        const auto t = std::fmod(oscillator<T>::frequency_ * oscillator<T>::timestamp_, 1);
+        auto t = std::fmod(oscillator<T>::frequency_ * oscillator<T>::timestamp_, 1);
+        if (t < 0) { // the waveform repeats before the time origin too
+            t = t + 1 < 1 ? t + 1 : 0;
+        }
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
         if (width_ != 0 and t < width_) {
             return oscillator<T>::amplitude_ * (2 * t / width_ - 1);
diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index c0fd3c0..8399ae3 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -108,7 +108,10 @@ namespace edsp { namespace oscillators {
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
-        const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
+        auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
+        if (current_t < 0) { // the waveform repeats before the time origin too
+            current_t += oscillator<T>::inverse_frequency_;
+        }
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
         return (current_t >= duty_ * oscillator<T>::inverse_frequency_ ? -1 : 1) * oscillator<T>::amplitude_;
     }
-- 
2.43.0


From 93e6811c3d54ae6eb1aa1110c75f6128c9ae3e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:34 +0000
Subject: [PATCH 26/36] fix: C environment functions treat a null name as an
 empty one

Python's None reaches them as a null pointer and crashed the interpreter.
---
 bindings/c/src/core.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bindings/c/src/core.c b/bindings/c/src/core.c
index a9c6dcc..a3ae2a2 100644
--- a/bindings/c/src/core.c
+++ b/bindings/c/src/core.c
@@ -80,8 +80,13 @@ const char *get_resample_library() {
     return "";
 }
 
+/* A null pointer is no text, i.e. an empty one */
+static edsp::string_view text_of(const char *text) {
+    return text ? edsp::string_view(text) : edsp::string_view();
+}
+
 const char *get_environment(const char *tag, int *error) {
-    const auto expect = edsp::system_env::get_env(tag);
+    const auto expect = edsp::system_env::get_env(text_of(tag));
     const char* result = nullptr;
     if (expect) {
         result = edsp::meta::data(expect.value());
@@ -97,10 +102,10 @@ const char *get_environment(const char *tag, int *error) {
 }
 
 int set_environment(const char *tag, const char *data) {
-    return static_cast<int>(edsp::system_env::set_env(tag, data));
+    return static_cast<int>(edsp::system_env::set_env(text_of(tag), text_of(data)));
 }
 
 int exist_environment(const char *tag) {
-    return edsp::system_env::exist(tag);
+    return edsp::system_env::exist(text_of(tag));
 }
 
-- 
2.43.0


From b983967c9dbec00675403ba3702d7b7c2655d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 27/36] fix: spectral flux sums the previous spectrum, not the
 memory between the two

---
 include/edsp/feature/statistics/flux.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/flux.hpp b/include/edsp/feature/statistics/flux.hpp
index d9ecc30..be01426 100644
--- a/include/edsp/feature/statistics/flux.hpp
+++ b/include/edsp/feature/statistics/flux.hpp
@@ -49,7 +49,7 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_type        = meta::value_type_t<InputIt>;
         const auto size         = std::distance(first1, last1);
         const auto current_sum  = std::accumulate(first1, last1, static_cast<value_type>(0));
-        const auto previous_sum = std::accumulate(first1, meta::advance(first2, size), static_cast<value_type>(0));
+        const auto previous_sum = std::accumulate(first2, meta::advance(first2, size), static_cast<value_type>(0));
         auto accumulated        = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
             accumulated += distance<d>(*first1 / current_sum, *first2 / previous_sum);
-- 
2.43.0


From 37cb83ebabc409fe3c901e842f29aea472452a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:50 +0000
Subject: [PATCH 28/36] fix: join and split let a failed allocation reach the
 caller

Their string streams swallowed it and the result was silently cut short.
---
 include/edsp/string/join.hpp  | 1 +
 include/edsp/string/split.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/edsp/string/join.hpp b/include/edsp/string/join.hpp
index 476e5c9..ae812cd 100644
--- a/include/edsp/string/join.hpp
+++ b/include/edsp/string/join.hpp
@@ -39,6 +39,7 @@ namespace edsp { namespace string {
     template <typename InputIt, typename Char>
     inline void join(InputIt first, InputIt last, std::basic_string<Char>& d_str, Char delimiter = ' ') {
         std::stringstream ss;
+        ss.exceptions(std::ios::badbit); // a failing insertion must not truncate the result silently
         const auto size = std::distance(first, last);
         if (size) {
             for (auto i = 0; i < size - 1; ++i, ++first) {
diff --git a/include/edsp/string/split.hpp b/include/edsp/string/split.hpp
index ccc6577..b6f81d3 100644
--- a/include/edsp/string/split.hpp
+++ b/include/edsp/string/split.hpp
@@ -37,6 +37,7 @@ namespace edsp { namespace string {
     template <typename Char, typename OutputIt>
     inline void split(const std::basic_string<Char>& str, OutputIt d_first, Char character = ' ') {
         std::stringstream test(str);
+        test.exceptions(std::ios::badbit); // a failing extraction must not end the list silently
         std::basic_string<Char> segment;
         while (std::getline(test, segment, character)) {
             if (!segment.empty()) {
-- 
2.43.0


From 7e5d333f58a25651bb5c963c5516003df4771c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:50 +0000
Subject: [PATCH 29/36] fix: array functions called from Python convert their
 arguments to contiguous arrays of samples

---
 bindings/python/src/algorithm.cpp          | 23 +++++++++++++--------
 bindings/python/src/converter.cpp          | 20 +++++++++++-------
 bindings/python/src/feature_spectral.cpp   | 11 ++++++----
 bindings/python/src/feature_statistics.cpp | 11 ++++++----
 bindings/python/src/feature_temporal.cpp   |  8 +++++---
 bindings/python/src/spectral.cpp           | 24 ++++++++++++++--------
 bindings/python/src/statistics.cpp         |  5 +++--
 7 files changed, 66 insertions(+), 36 deletions(-)

diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index 9cf43b0..e5d4680 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -34,7 +34,8 @@ bn::ndarray execute_inplace(Functor&& f, bn::ndarray& input, Args... arg) {
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto samples = as_array<real_t>(input);
+    auto in              = reinterpret_cast<real_t*>(samples.get_data());
     auto out             = reinterpret_cast<real_t*>(result.get_data());
     f(in, size, out, arg...);
     return result;
@@ -46,8 +47,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
 
-    const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto size    = input.shape(0);
+    const auto samples = as_array<real_t>(input);
+    auto in            = reinterpret_cast<real_t*>(samples.get_data());
     return f(in, size, arg...);
 }
 
@@ -127,8 +129,10 @@ bool equal_python(bn::ndarray& first, bn::ndarray& second) {
         return false;
     }
 
-    auto* first_in  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_in = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_samples = as_array<real_t>(first);
+    auto* first_in  = reinterpret_cast<real_t*>(first_samples.get_data());
+    const auto second_samples = as_array<real_t>(second);
+    auto* second_in = reinterpret_cast<real_t*>(second_samples.get_data());
     return equal(first_in, size, second_in);
 }
 
@@ -141,8 +145,10 @@ bn::ndarray concatenate_python(bn::ndarray& first, bn::ndarray& second) {
     const auto second_size = second.shape(0);
     Py_intptr_t shape[1]   = {first_size + second_size};
     auto result            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto* first_in         = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_in        = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_samples = as_array<real_t>(first);
+    auto* first_in         = reinterpret_cast<real_t*>(first_samples.get_data());
+    const auto second_samples = as_array<real_t>(second);
+    auto* second_in        = reinterpret_cast<real_t*>(second_samples.get_data());
     auto* result_data      = reinterpret_cast<real_t*>(result.get_data());
 
     array_concatenate(first_in, first_size, second_in, second_size, result_data);
@@ -157,7 +163,8 @@ bn::ndarray padder_python(bn::ndarray& input, long size) {
     const auto input_size = input.shape(0);
     Py_intptr_t shape[1]  = {size};
     auto result           = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto* in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto samples = as_array<real_t>(input);
+    auto* in              = reinterpret_cast<real_t*>(samples.get_data());
     auto* result_data     = reinterpret_cast<real_t*>(result.get_data());
 
     array_padder(in, input_size, result_data, size);
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 265f9dd..0b91e70 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -28,8 +28,9 @@ real_t peak2rms_python(bn::ndarray& input) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
-    const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto size    = input.shape(0);
+    const auto samples = as_array<real_t>(input);
+    auto* data         = reinterpret_cast<real_t*>(samples.get_data());
 
     return peak2rms(data, size);
 }
@@ -38,8 +39,9 @@ real_t peak2peak_python(bn::ndarray& input) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
-    const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto size    = input.shape(0);
+    const auto samples = as_array<real_t>(input);
+    auto* data         = reinterpret_cast<real_t*>(samples.get_data());
 
     return peak2peak(data, size);
 }
@@ -68,8 +70,11 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real_data   = reinterpret_cast<real_t*>(real.get_data());
-    auto* imag_data   = reinterpret_cast<real_t*>(imag.get_data());
+    const auto real_samples = as_array<real_t>(real);
+    const auto imag_samples = as_array<real_t>(imag);
+
+    auto* real_data   = reinterpret_cast<real_t*>(real_samples.get_data());
+    auto* imag_data   = reinterpret_cast<real_t*>(imag_samples.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     ri2complex(real_data, imag_data, size, result_data);
     return result;
@@ -85,7 +90,8 @@ bp::tuple complex2real_python(bn::ndarray& input) {
     auto real            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto imag            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* complex_data = reinterpret_cast<complex_t*>(input.get_data());
+    const auto samples = as_array<std::complex<real_t>>(input);
+    auto* complex_data = reinterpret_cast<complex_t*>(samples.get_data());
     auto* real_data    = reinterpret_cast<real_t*>(real.get_data());
     auto* imag_data    = reinterpret_cast<real_t*>(imag.get_data());
     complex2real(complex_data, size, real_data, imag_data);
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 201a045..5d6f5ef 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -40,8 +40,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
-    const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto size    = input.shape(0);
+    const auto samples = as_array<real_t>(input);
+    auto* data         = reinterpret_cast<real_t*>(samples.get_data());
     return f(data, data + size, arg...);
 }
 
@@ -51,8 +52,10 @@ auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size   = first.shape(0);
-    auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_data = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_samples = as_array<real_t>(first);
+    auto* first_data  = reinterpret_cast<real_t*>(first_samples.get_data());
+    const auto second_samples = as_array<real_t>(second);
+    auto* second_data = reinterpret_cast<real_t*>(second_samples.get_data());
     return f(first_data, first_data + size, second_data);
 }
 
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index aa7e70b..163ffb9 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -37,8 +37,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
-    const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto size    = input.shape(0);
+    const auto samples = as_array<real_t>(input);
+    auto* data         = reinterpret_cast<real_t*>(samples.get_data());
     return f(data, data + size, arg...);
 }
 
@@ -48,8 +49,10 @@ auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size   = first.shape(0);
-    auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_data = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_samples = as_array<real_t>(first);
+    auto* first_data  = reinterpret_cast<real_t*>(first_samples.get_data());
+    const auto second_samples = as_array<real_t>(second);
+    auto* second_data = reinterpret_cast<real_t*>(second_samples.get_data());
     return f(first_data, first_data + size, second_data);
 }
 
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index ceedb3c..9a27dab 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -37,8 +37,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
 
-    const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto size    = input.shape(0);
+    const auto samples = as_array<real_t>(input);
+    auto in            = reinterpret_cast<real_t*>(samples.get_data());
     return f(in, in + size, arg...);
 }
 
@@ -53,7 +54,8 @@ bn::ndarray execute_numpy(Functor&& f, bn::ndarray& input, Args... arg) {
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
 
-    auto in = reinterpret_cast<real_t*>(input.get_data());
+    const auto samples = as_array<real_t>(input);
+    auto in = reinterpret_cast<real_t*>(samples.get_data());
     f(in, in + size, data, arg...);
     return result;
 }
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index 8f3bd56..b1b867a 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -34,8 +34,10 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* left_data  = reinterpret_cast<real_t*>(left.get_data());
-    auto* right_data = reinterpret_cast<real_t*>(right.get_data());
+    const auto left_samples = as_array<real_t>(left);
+    auto* left_data  = reinterpret_cast<real_t*>(left_samples.get_data());
+    const auto right_samples = as_array<real_t>(right);
+    auto* right_data = reinterpret_cast<real_t*>(right_samples.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(left_data, right_data, size, result_data);
     return result;
@@ -51,7 +53,8 @@ bn::ndarray execute(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto samples = as_array<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(samples.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -67,7 +70,8 @@ bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto samples = as_array<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(samples.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -83,7 +87,8 @@ bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto samples = as_array<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(samples.get_data());
     auto result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -99,7 +104,8 @@ bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto samples = as_array<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(samples.get_data());
     auto result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -115,7 +121,8 @@ bn::ndarray execute_c2r(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_ifft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<complex_t*>(input.get_data());
+    const auto samples = as_array<std::complex<real_t>>(input);
+    auto* input_data = reinterpret_cast<complex_t*>(samples.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -131,7 +138,8 @@ bn::ndarray execute_c2c(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data  = reinterpret_cast<complex_t*>(input.get_data());
+    const auto samples = as_array<std::complex<real_t>>(input);
+    auto* input_data  = reinterpret_cast<complex_t*>(samples.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index cf684e0..dd6ca28 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -30,8 +30,9 @@ inline auto execute(Functor&& f, bn::ndarray& input, Arg... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
 
-    const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto size    = input.shape(0);
+    const auto samples = as_array<real_t>(input);
+    auto in            = reinterpret_cast<real_t*>(samples.get_data());
     return f(in, size, arg...);
 }
 
-- 
2.43.0


From 990d2e5269eda43676cb76bb538bf9937bb38c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 30/36] fix: functions of two arrays called from Python refuse
 arrays of different sizes

---
 bindings/python/src/converter.cpp          | 3 +++
 bindings/python/src/feature_spectral.cpp   | 5 ++++-
 bindings/python/src/feature_statistics.cpp | 5 ++++-
 bindings/python/src/spectral.cpp           | 3 +++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 0b91e70..8e80c61 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -65,6 +65,9 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
     if (real.get_nd() != 1 || imag.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (real.shape(0) != imag.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
 
     const auto size      = real.shape(0);
     Py_intptr_t shape[1] = {size};
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 5d6f5ef..16c24b7 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -48,9 +48,12 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
+    if (first.get_nd() != 1 or second.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (first.shape(0) != second.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
     const auto size   = first.shape(0);
     const auto first_samples = as_array<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_samples.get_data());
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index 163ffb9..37744bf 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -45,9 +45,12 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
+    if (first.get_nd() != 1 or second.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (first.shape(0) != second.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
     const auto size   = first.shape(0);
     const auto first_samples = as_array<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_samples.get_data());
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index b1b867a..688e5f6 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -29,6 +29,9 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
     if (left.get_nd() != 1 || right.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (left.shape(0) != right.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
 
     const auto size      = left.shape(0);
     Py_intptr_t shape[1] = {size};
-- 
2.43.0


From acc7bd88f3862d9548cdc24d8eb501e6af37e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 31/36] fix: real2complex called from Python reads its
 argument, not its result

---
 bindings/python/src/converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 8e80c61..30d9b95 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -55,7 +55,8 @@ bn::ndarray real2complex_python(bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real        = reinterpret_cast<real_t*>(result.get_data());
+    const auto samples = as_array<real_t>(input);
+    auto* real        = reinterpret_cast<real_t*>(samples.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     real2complex(real, size, result_data);
     return result;
-- 
2.43.0


From 57c490896f486072c24b9f3fd45db13abd49e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 32/36] fix: a refused array in the auditory spaces reaches
 Python as an exception

---
 bindings/python/src/auditory.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/src/auditory.cpp b/bindings/python/src/auditory.cpp
index 323e508..b8e694d 100644
--- a/bindings/python/src/auditory.cpp
+++ b/bindings/python/src/auditory.cpp
@@ -37,7 +37,7 @@ constexpr auto converter_python(Functor&& f, T frequency) noexcept {
 }
 
 template <class Functor, typename T, typename Integer>
-bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) noexcept {
+bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
@@ -77,19 +77,19 @@ real_t erb2hertz(real_t frequency) noexcept {
     return converter_python(edsp::auditory::erb2hertz<real_t>, frequency);
 }
 
-bn::ndarray erbspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray erbspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::erbspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray barkspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray barkspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::barkspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray centspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray centspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::centspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray melspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray melspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::melspace<real_t*, real_t>, min, max, size);
 }
 
-- 
2.43.0


From b588e8ffd4114a2b822340858232343b06d27945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 33/36] fix: padding from Python refuses a size smaller than
 the input

---
 bindings/python/src/algorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index e5d4680..afec62a 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -161,6 +161,10 @@ bn::ndarray padder_python(bn::ndarray& input, long size) {
     }
 
     const auto input_size = input.shape(0);
+    if (size < input_size) {
+        throw std::invalid_argument("Expected a size that fits the input");
+    }
+
     Py_intptr_t shape[1]  = {size};
     auto result           = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     const auto samples = as_array<real_t>(input);
-- 
2.43.0


From 3eb6e435069063a3703d09e6aa312895d11909bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:41 +0000
Subject: [PATCH 34/36] fix: peak_abs in the C binding looks for the absolute
 peak

---
 bindings/c/src/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/statistics.c b/bindings/c/src/statistics.c
index 74f23ef..9e106c7 100644
--- a/bindings/c/src/statistics.c
+++ b/bindings/c/src/statistics.c
@@ -99,7 +99,7 @@ Peak peak(const real_t* data, int size) {
 }
 
 Peak peak_abs(const real_t* data, int size) {
-    const auto peak = edsp::statistics::peak(data, data + size);
+    const auto peak = edsp::statistics::peakabs(data, data + size);
     return Peak{static_cast<int>(peak.first), peak.second};
 }
 
-- 
2.43.0


From a7a4b9c6dc4ef4e4b96392ccf2b6bf33886142da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 35/36] fix: statistics and features called from Python refuse
 an empty array

---
 bindings/python/src/converter.cpp          | 6 ++++++
 bindings/python/src/feature_spectral.cpp   | 6 ++++++
 bindings/python/src/feature_statistics.cpp | 6 ++++++
 bindings/python/src/feature_temporal.cpp   | 3 +++
 bindings/python/src/statistics.cpp         | 3 +++
 5 files changed, 24 insertions(+)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 30d9b95..8915ec8 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -28,6 +28,9 @@ real_t peak2rms_python(bn::ndarray& input) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (input.shape(0) == 0) {
+        throw std::invalid_argument("Expected an array with elements");
+    }
     const auto size    = input.shape(0);
     const auto samples = as_array<real_t>(input);
     auto* data         = reinterpret_cast<real_t*>(samples.get_data());
@@ -39,6 +42,9 @@ real_t peak2peak_python(bn::ndarray& input) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (input.shape(0) == 0) {
+        throw std::invalid_argument("Expected an array with elements");
+    }
     const auto size    = input.shape(0);
     const auto samples = as_array<real_t>(input);
     auto* data         = reinterpret_cast<real_t*>(samples.get_data());
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 16c24b7..18277eb 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -40,6 +40,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (input.shape(0) == 0) {
+        throw std::invalid_argument("Expected an array with elements");
+    }
     const auto size    = input.shape(0);
     const auto samples = as_array<real_t>(input);
     auto* data         = reinterpret_cast<real_t*>(samples.get_data());
@@ -54,6 +57,9 @@ auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
     if (first.shape(0) != second.shape(0)) {
         throw std::invalid_argument("Expected arrays of the same size");
     }
+    if (first.shape(0) == 0) {
+        throw std::invalid_argument("Expected an array with elements");
+    }
     const auto size   = first.shape(0);
     const auto first_samples = as_array<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_samples.get_data());
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index 37744bf..a8b9cad 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -37,6 +37,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (input.shape(0) == 0) {
+        throw std::invalid_argument("Expected an array with elements");
+    }
     const auto size    = input.shape(0);
     const auto samples = as_array<real_t>(input);
     auto* data         = reinterpret_cast<real_t*>(samples.get_data());
@@ -51,6 +54,9 @@ auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
     if (first.shape(0) != second.shape(0)) {
         throw std::invalid_argument("Expected arrays of the same size");
     }
+    if (first.shape(0) == 0) {
+        throw std::invalid_argument("Expected an array with elements");
+    }
     const auto size   = first.shape(0);
     const auto first_samples = as_array<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_samples.get_data());
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index 9a27dab..efaa237 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -36,6 +36,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (input.shape(0) == 0) {
+        throw std::invalid_argument("Expected an array with elements");
+    }
 
     const auto size    = input.shape(0);
     const auto samples = as_array<real_t>(input);
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index dd6ca28..31ce149 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -29,6 +29,9 @@ inline auto execute(Functor&& f, bn::ndarray& input, Arg... arg) {
     if (input.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    if (input.shape(0) == 0) {
+        throw std::invalid_argument("Expected an array with elements");
+    }
 
     const auto size    = input.shape(0);
     const auto samples = as_array<real_t>(input);
-- 
2.43.0


From 3bbfde051293f2e68ec55325de13ff2ed54f0a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 36/36] fix: normalizing an empty range reads nothing

---
 include/edsp/algorithm/normalize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/edsp/algorithm/normalize.hpp b/include/edsp/algorithm/normalize.hpp
index 42a7a52..fbf8929 100644
--- a/include/edsp/algorithm/normalize.hpp
+++ b/include/edsp/algorithm/normalize.hpp
@@ -44,6 +44,9 @@ namespace edsp { inline namespace algorithm {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void normalize(InputIt first, InputIt last, OutputIt d_first) {
+        if (first == last) {
+            return;
+        }
         const auto factor = statistics::maxabs(first, last);
         std::transform(first, last, d_first,
                        [factor](const meta::value_type_t<InputIt> value) -> meta::value_type_t<OutputIt> {
-- 
2.43.0

