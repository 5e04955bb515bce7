// The public operations of the library as self-contained programs: each draws its data from its own
// seed, works on data of its own and folds everything observable into a digest. C01 runs them
// concurrently, C02 with failing allocations.
#pragma once
#include "../core/alloc.hpp"
#include "../core/sched.hpp"
#include "../core/disk.hpp"
#include "../core/handles.hpp"
#include "../core/sim.hpp"
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <vector>

// first: its names do not bear the other vendored headers before it
#include <edsp/types/fixed_ring_buffer.hpp>
#include <edsp/types/ring_buffer.hpp>

#include <edsp/algorithm.hpp>
#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/cent2hertz.hpp>
#include <edsp/auditory/converter/erb2hertz.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/auditory/converter/hertz2cent.hpp>
#include <edsp/auditory/converter/hertz2erb.hpp>
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/auditory/converter/mel2hertz.hpp>
#include <edsp/auditory/barkspace.hpp>
#include <edsp/auditory/centspace.hpp>
#include <edsp/auditory/erbspace.hpp>
#include <edsp/auditory/melspace.hpp>
#include <edsp/converter.hpp>
#include <edsp/core/library_info.hpp>
#include <edsp/core/logger.hpp>
#include <edsp/core/system.hpp>
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>
#include <edsp/feature/perceptual/loudness.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/filter.hpp>
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/metadata.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/oscillator.hpp>
#include <edsp/random.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/fft_engine.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/statistics.hpp>
#include <edsp/string/join.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
#include <edsp/windowing.hpp>

#include <cedsp/algorithm.h>
#include <cedsp/converter.h>
#include <cedsp/core.h>
#include <cedsp/spectral.h>
#include <cedsp/statistics.h>
#include <cedsp/windowing.h>

namespace catalog {
    // One execution of one operation.
    struct ctx {
        // ---- data of its own
        std::uint64_t s;
        std::uint64_t id; // no two programs of a run share it
        std::uint64_t twist; // a seed is its lower half and the number of the choice in which it differs from the plain one
        enum : std::uint64_t { seeds = 4096 };
        ctx(std::uint64_t seed, std::uint64_t i) : s(seed % seeds * 0x9E3779B97F4A7C15ull + 1), id(i), twist(0) {
            next();
            twist = seed / seeds;
        }
        std::uint64_t next() { // what the harness does with its data is no matter of schedules
            sim::sched::no_preempt quiet;
            s ^= s >> 12;
            s ^= s << 25;
            s ^= s >> 27;
            const auto r = s * 0x2545F4914F6CDD1Dull;
            return twist && --twist == 0 ? ~r * 0x9E3779B97F4A7C15ull : r;
        }
        std::uint64_t below(std::uint64_t n) { sim::sched::no_preempt quiet; return (next() >> 11) % n; }
        bool coin() { return below(2) != 0; }
        double real(double lo, double hi) { sim::sched::no_preempt quiet; return lo + (hi - lo) * (static_cast<double>(next() >> 11) * 0x1p-53); }
        std::size_t size(std::size_t lo = 1) {
            sim::sched::no_preempt quiet;
            static const std::size_t some[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33};
            const auto n = some[below(16)];
            return n < lo ? lo : n;
        }
        template <typename T>
        std::vector<T> signal(std::size_t n, double lo = -1, double hi = 1) {
            sim::sched::no_preempt quiet;
            std::vector<T> v(n);
            for (auto& x : v) x = static_cast<T>(real(lo, hi));
            return v;
        }
        template <typename T>
        std::vector<std::complex<T>> complex_signal(std::size_t n) {
            sim::sched::no_preempt quiet;
            std::vector<std::complex<T>> v(n);
            for (auto& x : v) x = {static_cast<T>(real(-1, 1)), static_cast<T>(real(-1, 1))};
            return v;
        }
        std::string text(std::size_t max) {
            sim::sched::no_preempt quiet;
            static const char alphabet[] = "aB c,D;e\tF ";
            std::string t(below(max + 1), ' ');
            for (auto& c : t) c = alphabet[below(sizeof alphabet - 1)];
            return t;
        }
        // ---- what it observes
        std::uint64_t h{14695981039346656037ull};
        void bits(std::uint64_t v) { h = (h ^ v) * 1099511628211ull ^ (h >> 29); }
        void put(double v) {
            sim::sched::no_preempt quiet;
            std::uint64_t u;
            if (v != v) u = 0x7ff8000000000000ull;
            else std::memcpy(&u, &v, 8);
            bits(u);
        }
        void put(float v) { put(static_cast<double>(v)); }
        void put(bool v) { bits(v ? 3 : 5); }
        void put(int v) { bits(static_cast<std::uint64_t>(v)); }
        void put(long v) { bits(static_cast<std::uint64_t>(v)); }
        void put(long long v) { bits(static_cast<std::uint64_t>(v)); }
        void put(unsigned long v) { bits(v); }
        template <typename T>
        void put(const std::complex<T>& v) {
            put(v.real());
            put(v.imag());
        }
        void put(const complex_t& v) {
            double d[2];
            static_assert(sizeof d == sizeof v, "complex_t is two reals");
            std::memcpy(d, &v, sizeof d);
            put(d[0]);
            put(d[1]);
        }
        void put(const std::string& v) {
            sim::sched::no_preempt quiet;
            bits(v.size());
            for (char c : v) bits(static_cast<unsigned char>(c));
        }
        void put(const char* v) { sim::sched::no_preempt quiet; put(std::string(v ? v : "(null)")); }
        template <typename T>
        void put(const std::vector<T>& v) {
            sim::sched::no_preempt quiet;
            bits(v.size());
            for (const auto& x : v) put(x);
        }
        // ---- calls into the library
        bool counting{false};        // C02 only: the simulator watches what library calls acquire
        std::int64_t fail_alloc{-1}; // which of this operation's allocations fails
        std::uint64_t burst{1};
        int fail_kind{-1};           // or which of its handles
        std::int64_t fail_handle{-1};
        bool go_on{false};           // after a failure: use the objects again
        std::uint64_t calls{0}, allocs{0}, delivered{0}, handles[sim::handles::kinds]{};
        bool threw{false}; // or reported by the documented error value
        void (*around)(bool begins){nullptr};
        std::uint64_t before[sim::handles::kinds], failed_before[sim::handles::kinds];
        void begin() {
            if (around) around(true);
            ++calls;
            const auto at = static_cast<std::uint64_t>(fail_alloc);
            if (fail_alloc >= 0 && at + burst > allocs) {
                sim::alloc::arm(at > allocs ? at - allocs : 0, at > allocs ? burst : burst - (allocs - at));
            } else {
                sim::alloc::arm(~0ull >> 1);
            }
            for (int k = 0; k < sim::handles::kinds; ++k) {
                const auto kind  = static_cast<sim::handles::kind>(k);
                before[k]        = sim::handles::attempts[k];
                failed_before[k] = sim::handles::failed(kind);
                if (k == fail_kind && fail_handle >= static_cast<std::int64_t>(handles[k])) {
                    sim::handles::fail_nth[k] = fail_handle - static_cast<std::int64_t>(handles[k]);
                }
            }
        }
        void end() {
            allocs += sim::alloc::seen();
            delivered += sim::alloc::disarm();
            for (int k = 0; k < sim::handles::kinds; ++k) {
                handles[k] += sim::handles::attempts[k] - before[k];
                delivered += sim::handles::failed(static_cast<sim::handles::kind>(k)) - failed_before[k];
                sim::handles::fail_nth[k] = -1;
            }
            if (around) around(false);
        }
        template <typename F>
        bool lib(F&& f) {
            if (!counting) {
                f();
                return true;
            }
            begin();
            try {
                f();
            } catch (...) {
                end();
                threw = true;
                if (!go_on) throw;
                return false;
            }
            end();
            return true;
        }
    };
    struct operation {
        const char* name;
        void (*run)(ctx&);
        unsigned flags;
    };
    // shared: uses a facility of the process; foreign: works in a library that does not survive failing allocations
    enum : unsigned { io = 1, planner = 2, shared = 4, foreign = 8 };

    // ---- stateless functions -----------------------------------------------------------------
    template <template <typename> class Op>
    void either(ctx& c) {
        if (c.coin()) Op<double>::run(c);
        else Op<float>::run(c);
    }
#define OP(NAME)                    \
    template <typename T>           \
    struct NAME {                   \
        static void run(ctx& c);    \
    };                              \
    template <typename T>           \
    void NAME<T>::run(ctx& c)

    // A function of one array of n samples that fills an array.
#define MAP(NAME, MIN, LO, HI, CALL)                                \
    OP(NAME) {                                                      \
        const auto n = c.size(MIN);                                 \
        auto x       = c.signal<T>(n, LO, HI);                      \
        std::vector<T> y(n);                                        \
        const T p = static_cast<T>(c.real(-2, 2)), q = static_cast<T>(c.real(0, 2)); \
        (void) p;                                                   \
        (void) q;                                                   \
        const auto b = x.begin(), e = x.end();                      \
        const auto o = y.begin();                                   \
        c.lib([&] { CALL; });                                       \
        c.put(y);                                                   \
        c.put(x);                                                   \
    }
    // A function of one array that returns a value.
#define RED(NAME, MIN, LO, HI, CALL)                                \
    OP(NAME) {                                                      \
        const auto n = c.size(MIN);                                 \
        auto x       = c.signal<T>(n, LO, HI);                      \
        auto x2      = c.signal<T>(n, LO, HI);                      \
        const T p = static_cast<T>(c.real(-1, 1)), q = static_cast<T>(c.real(0.1, 0.9)); \
        (void) p;                                                   \
        (void) q;                                                   \
        const auto b = x.begin(), e = x.end(), b2 = x2.begin();     \
        (void) b2;                                                  \
        T r{};                                                      \
        c.lib([&] { r = static_cast<T>(CALL); });                   \
        c.put(r);                                                   \
        c.put(x);                                                   \
    }
    namespace ea = edsp::algorithm;
    namespace es = edsp::statistics;
    namespace ef = edsp::feature;
    namespace ec = edsp::converter;
    namespace ew = edsp::windowing;
    namespace eu = edsp::auditory;

    MAP(amplifier, 1, -1, 1, ea::amplifier(b, e, o, p))
    MAP(amplifier_clip, 1, -1, 1, ea::amplifier(b, e, o, p, -q, q))
    MAP(ceil, 1, -9, 9, ea::ceil(b, e, o))
    MAP(floor, 1, -9, 9, ea::floor(b, e, o))
    MAP(fix, 1, -9, 9, ea::fix(b, e, o))
    MAP(round, 1, -9, 9, ea::round(b, e, o))
    MAP(clipper, 1, -3, 3, ea::clipper(b, e, o, -q, q))
    MAP(linspace, 2, -1, 1, (void) b; (void) e; ea::linspace(o, p, q, n))
    MAP(logspace, 2, -1, 1, (void) b; (void) e; ea::logspace(o, p, q, n))
    MAP(normalize, 1, -1, 1, ea::normalize(b, e, o))
    MAP(normalize_rms, 1, -1, 1, ea::normalize_rms(b, e, o))
    MAP(rectify, 1, -1, 1, ea::rectify(b, e, o))
    MAP(barkspace, 2, -1, 1, (void) b; (void) e; eu::barkspace(o, y.end(), static_cast<T>(20), static_cast<T>(9000 + 999 * q)))
    MAP(centspace, 2, -1, 1, (void) b; (void) e; eu::centspace(o, y.end(), static_cast<T>(20), static_cast<T>(9000 + 999 * q)))
    MAP(erbspace, 2, -1, 1, (void) b; (void) e; eu::erbspace(o, y.end(), static_cast<T>(20), static_cast<T>(9000 + 999 * q)))
    MAP(melspace, 2, -1, 1, (void) b; (void) e; eu::melspace(o, y.end(), static_cast<T>(20), static_cast<T>(9000 + 999 * q)))
    MAP(amdf, 1, -1, 1, ef::amdf(b, e, o))
    MAP(asdf, 1, -1, 1, ef::asdf(b, e, o))
    OP(concatenate) {
        auto x = c.signal<T>(c.size()), y = c.signal<T>(c.size());
        std::vector<T> z(x.size() + y.size());
        c.lib([&] { ea::concatenate(x.begin(), x.end(), y.begin(), y.end(), z.begin()); });
        c.put(z);
    }
    OP(padder) {
        auto x = c.signal<T>(c.size());
        std::vector<T> z(x.size() + c.below(9), static_cast<T>(7));
        c.lib([&] { ea::padder(x.begin(), x.end(), z.begin(), z.end()); });
        c.put(z);
    }
    OP(searches) {
        auto x = c.signal<T>(c.size());
        std::sort(x.begin(), x.end());
        const T v = c.coin() ? x[c.below(x.size())] : static_cast<T>(c.real(-1, 1));
        long r[3] = {};
        bool same = false;
        c.lib([&] {
            r[0] = ea::binary_search(x.begin(), x.end(), v) - x.begin();
            r[1] = ea::linear_search(x.begin(), x.end(), v) - x.begin();
            r[2] = ea::index_of(x.begin(), x.end(), v);
            same = ea::equal(x.begin(), x.end(), x.begin(), x.end());
        });
        for (auto k : r) c.put(k);
        c.put(same);
    }
    RED(mean, 1, -1, 1, es::mean(b, e))
    RED(median, 1, -1, 1, es::median(b, e))
    RED(variance, 1, -1, 1, es::variance(b, e))
    RED(deviation, 1, -1, 1, es::standard_deviation(b, e))
    RED(kurtosis, 2, -1, 1, es::kurtosis(b, e))
    RED(skewness, 2, -1, 1, es::skewness(b, e))
    RED(moment3, 1, -1, 1, es::moment<3>(b, e))
    RED(moment5, 1, -1, 1, es::moment<5>(b, e, p))
    RED(geometric_mean, 1, 0.1, 1, es::geometric_mean(b, e))
    RED(generalized_mean, 1, 0.1, 1, es::generalized_mean(b, e, 2))
    RED(harmonic_mean, 1, 0.1, 1, es::harmonic_mean(b, e))
    RED(max, 1, -1, 1, es::max(b, e))
    RED(min, 1, -1, 1, es::min(b, e))
    RED(maxabs, 1, -1, 1, es::maxabs(b, e))
    RED(minabs, 1, -1, 1, es::minabs(b, e))
    RED(norm, 1, -1, 1, es::norm(b, e))
    RED(peak, 1, -1, 1, es::peak(b, e).second + static_cast<T>(es::peakabs(b, e).second))
    RED(peak2peak, 1, -1, 1, ec::peak2peak(b, e))
    RED(peak2rms, 1, -1, 1, ec::peak2rms(b, e))
    RED(centroid, 1, 0.1, 1, ef::statistics::centroid(b, e))
    RED(spread, 1, 0.1, 1, ef::statistics::spread(b, e))
    RED(entropy, 1, 0.1, 1, ef::statistics::entropy(b, e))
    RED(spectral_centroid, 1, 0.1, 1, ef::spectral_centroid(b, e, b2))
    RED(spectral_crest, 1, 0.1, 1, ef::spectral_crest(b, e))
    RED(spectral_decrease, 2, 0.1, 1, ef::spectral_decrease(b, e))
    RED(spectral_entropy, 1, 0.1, 1, ef::spectral_entropy(b, e))
    RED(spectral_flatness, 1, 0.1, 1, ef::spectral_flatness(b, e))
    RED(spectral_flux, 1, 0.1, 1, ef::spectral_flux(b, e, b2))
    RED(spectral_irregularity, 2, 0.1, 1, ef::spectral_irregularity(b, e))
    RED(spectral_kurtosis, 2, 0.1, 1, ef::spectral_kurtosis(b, e))
    RED(spectral_rolloff, 2, 0.1, 1, ef::spectral_rolloff(b, e, q))
    RED(spectral_skewness, 2, 0.1, 1, ef::spectral_skewness(b, e))
    RED(spectral_slope, 2, 0.1, 1, ef::spectral_slope(b, e, b2))
    RED(spectral_spread, 1, 0.1, 1, ef::spectral_spread(b, e, b2))
    RED(spectral_variation, 1, 0.1, 1, ef::spectral_variation(b, e, b2))
    RED(azcr, 2, -1, 1, ef::azcr(b, e))
    RED(duration, 1, -1, 1, ef::duration(b, e, static_cast<T>(48000)) + ef::effective_duration(b, e, static_cast<T>(48000), q))
    RED(energy, 1, -1, 1, ef::energy(b, e))
    RED(power, 1, -1, 1, ef::power(b, e))
    RED(leq, 1, -1, 1, ef::leq(b, e))
    RED(loudness, 1, -1, 1, ef::perceptual::loudness(b, e))
    RED(rms, 1, -1, 1, ef::rms(b, e))
    RED(rssq, 1, -1, 1, ef::rssq(b, e))
    OP(scalars) {
        const T v = static_cast<T>(c.real(0.01, 9000));
        T r[18] = {};
        c.lib([&] {
            r[0]  = ec::db2mag(v / 1000);
            r[1]  = ec::db2pow(v / 1000);
            r[2]  = ec::mag2db(v);
            r[3]  = ec::pow2db(v);
            r[4]  = ec::deg2rad(v);
            r[5]  = ec::rad2deg(v);
            r[6]  = static_cast<T>(eu::bark2hertz(v / 1000));
            r[7]  = static_cast<T>(eu::hertz2bark(v));
            r[8]  = static_cast<T>(eu::cent2hertz(v));
            r[9]  = static_cast<T>(eu::hertz2cent(v));
            r[10] = static_cast<T>(eu::erb2hertz(v / 1000));
            r[11] = static_cast<T>(eu::hertz2erb(v));
            r[12] = static_cast<T>(eu::mel2hertz(v));
            r[13] = static_cast<T>(eu::hertz2mel(v));
            r[14] = edsp::math::fract(v);
            r[15] = edsp::math::inv(v);
            r[16] = static_cast<T>(edsp::math::next_power_two(static_cast<int>(v)));
            r[17] = static_cast<T>(edsp::math::is_power_two(static_cast<int>(v)) + 2 * edsp::math::is_prime(static_cast<int>(v)));
        });
        for (auto x : r) c.put(x);
    }
    OP(complexes) {
        auto z = c.complex_signal<T>(c.size());
        std::vector<T> re(z.size()), im(z.size());
        std::vector<std::complex<T>> back(z.size()), real_only(z.size());
        c.lib([&] {
            ec::complex2real(z.begin(), z.end(), re.begin(), im.begin());
            ec::real2complex(re.begin(), re.end(), im.begin(), back.begin());
            ec::real2complex(re.begin(), re.end(), real_only.begin());
        });
        c.put(re);
        c.put(im);
        c.put(back);
        c.put(real_only);
        c.put(edsp::math::magnitude(z[0]));
        c.put(edsp::math::phase(z[0]));
    }
    template <ew::WindowType W>
    struct window {
        template <typename T>
        struct op {
            static void run(ctx& c) {
                std::vector<T> w(c.size(2));
                c.lib([&] { ew::make_window<W>(w.begin(), w.end()); });
                c.put(w);
            }
        };
    };
    // ---- spectral ----------------------------------------------------------------------------
    MAP(cepstrum, 2, -1, 1, edsp::cepstrum(b, e, o))
    MAP(dct, 1, -1, 1, edsp::dct(b, e, o))
    MAP(idct, 1, -1, 1, edsp::idct(b, e, o))
    MAP(hartley, 1, -1, 1, edsp::hartley(b, e, o))
    MAP(xcorr1, 1, -1, 1, edsp::xcorr(b, e, o, n % 2 ? edsp::CorrelationScale::Biased : edsp::CorrelationScale::None))
    OP(spectrum) {
        auto x = c.signal<T>(c.size(2));
        std::vector<T> y(edsp::make_fft_size(x.size()));
        c.lib([&] { edsp::spectrum(x.begin(), x.end(), y.begin()); });
        c.put(y);
    }
    OP(conv) {
        auto x = c.signal<T>(c.size()), y = c.signal<T>(x.size());
        std::vector<T> z(x.size());
        c.lib([&] { edsp::conv(x.begin(), x.end(), y.begin(), z.begin()); });
        c.put(z);
    }
    OP(xcorr2) {
        auto x = c.signal<T>(c.size()), y = c.signal<T>(x.size());
        std::vector<T> z(x.size());
        c.lib([&] { edsp::xcorr(x.begin(), x.end(), y.begin(), z.begin()); });
        c.put(z);
    }
    OP(dft) {
        auto x = c.signal<T>(c.size(2));
        std::vector<std::complex<T>> y(edsp::make_fft_size(x.size()));
        std::vector<T> back(static_cast<std::size_t>(edsp::make_ifft_size(static_cast<long>(y.size()))));
        bool ok = c.lib([&] { edsp::dft(x.begin(), x.end(), y.begin()); });
        c.put(y);
        ok = ok && c.lib([&] { edsp::idft(y.begin(), y.end(), back.begin()); });
        c.put(back);
    }
    OP(cdft) {
        auto x = c.complex_signal<T>(c.size());
        std::vector<std::complex<T>> y(x.size()), back(x.size());
        c.lib([&] { edsp::cdft(x.begin(), x.end(), y.begin()); });
        c.put(y);
        c.lib([&] { edsp::cidft(y.begin(), y.end(), back.begin()); });
        c.put(back);
    }
    OP(hilbert) {
        auto x = c.signal<T>(c.size(2));
        std::vector<std::complex<T>> y(x.size());
        c.lib([&] { edsp::hilbert(x.begin(), x.end(), y.begin()); });
        c.put(y);
    }
    OP(engine) { // an engine used for several kinds of transform in turn
        const auto n = c.size(2);
        edsp::fft_engine<T> e(static_cast<typename edsp::fft_engine<T>::size_type>(n));
        auto x = c.signal<T>(n);
        auto z = c.complex_signal<T>(n);
        std::vector<T> y(n + 2);
        std::vector<std::complex<T>> w(n + 2);
        for (auto k = 1 + c.below(4); k; --k) {
            const auto what = c.below(6);
            c.lib([&] {
                switch (what) {
                    case 0: e.dft(x.data(), w.data()); break;
                    case 1: e.dft(z.data(), w.data()); break;
                    case 2: e.dct(x.data(), y.data()); break;
                    case 3: e.dht(x.data(), y.data()); break;
                    case 4: e.idct(x.data(), y.data()); e.idct_scale(y.data()); break;
                    case 5: e.idft(z.data(), w.data()); e.idft_scale(w.data()); break;
                }
            });
            c.put(y);
            c.put(w);
        }
    }
    // ---- strings -----------------------------------------------------------------------------
    inline void split(ctx& c) {
        const auto t = c.text(40);
        const char d = c.coin() ? ' ' : ',';
        std::vector<std::string> out;
        c.lib([&] { edsp::string::split(t, std::back_inserter(out), d); });
        c.put(out);
    }
    inline void join(ctx& c) {
        std::vector<std::string> in(c.below(6));
        for (auto& x : in) x = c.text(20);
        std::string out;
        c.lib([&] { edsp::string::join(in.begin(), in.end(), out, ';'); });
        c.put(out);
    }
    inline void trims(ctx& c) {
        auto t = "  " + c.text(40) + " ";
        std::string up(t.size(), '.'), low(t.size(), '.');
        c.lib([&] {
            edsp::string::toupper(t.begin(), t.end(), up.begin());
            edsp::string::tolower(t.begin(), t.end(), low.begin());
            edsp::string::trim(t);
        });
        c.put(t);
        c.put(up);
        c.put(low);
    }
    // ---- C interface -------------------------------------------------------------------------
    inline void c_algorithm(ctx& c) {
        const auto n = c.size(2);
        auto x       = c.signal<double>(n, -3, 3), z = c.signal<double>(n);
        std::vector<double> y(2 * n, 7.0);
        const int m = static_cast<int>(n);
        const double p = c.real(-2, 2), q = c.real(0.1, 2);
        long r = 0;
        const auto what = c.below(19);
        c.lib([&] {
            switch (what) {
                case 0: array_scale(x.data(), m, y.data(), p); break;
                case 1: array_scale_clip(x.data(), m, y.data(), p, -q, q); break;
                case 2: array_clip(x.data(), m, y.data(), -q, q); break;
                case 3: array_concatenate(x.data(), m, z.data(), m, y.data()); break;
                case 4: array_ceil(x.data(), m, y.data()); break;
                case 5: array_floor(x.data(), m, y.data()); break;
                case 6: array_round(x.data(), m, y.data()); break;
                case 7: array_trunc(x.data(), m, y.data()); break;
                case 8: array_abs(x.data(), m, y.data()); break;
                case 9: array_linspace(y.data(), m, p, q); break;
                case 10: array_logspace(y.data(), m, p, q); break;
                case 11: array_padder(x.data(), m, y.data(), m + m / 2); break;
                case 12: array_normalize(x.data(), m, y.data()); break;
                case 13: r = ::equal(x.data(), m, z.data()); break;
                case 14: r = ::binary_search(x.data(), m, p); break;
                case 15: r = ::linear_search(x.data(), m, x[n / 2]); break;
                case 16: r = ::index_of(x.data(), m, x[n / 3]); break;
                case 17: r = ::contains(x.data(), m, p); break;
                case 18: r = ::contains(x.data(), m, x[n - 1]); break;
            }
        });
        c.put(y);
        c.put(r);
    }
    inline void c_converter(ctx& c) {
        const auto n = c.size(2);
        auto x = c.signal<double>(n), z = c.signal<double>(n);
        std::vector<complex_t> w(n), w2(n);
        std::vector<double> re(n), im(n);
        const double v = c.real(0.1, 90);
        double r[8]    = {};
        c.lib([&] {
            ri2complex(x.data(), z.data(), static_cast<long>(n), w.data());
            ::real2complex(x.data(), static_cast<long>(n), w2.data());
            ::complex2real(w.data(), static_cast<long>(n), re.data(), im.data());
            r[0] = ::db2mag(v);
            r[1] = ::db2pow(v);
            r[2] = ::deg2rad(v);
            r[3] = ::mag2db(v);
            r[4] = ::pow2db(v);
            r[5] = ::rad2deg(v);
            r[6] = ::peak2peak(x.data(), static_cast<long>(n));
            r[7] = ::peak2rms(x.data(), static_cast<long>(n));
        });
        c.put(w);
        c.put(w2);
        c.put(re);
        c.put(im);
        for (auto k : r) c.put(k);
    }
    inline void c_statistics(ctx& c) {
        const auto n = c.size(2);
        auto x       = c.signal<double>(n, 0.1, 3);
        const int m  = static_cast<int>(n);
        double r     = 0;
        const auto what = c.below(17);
        const auto order = static_cast<int>(1 + c.below(6));
        c.lib([&] {
            switch (what) {
                case 0: r = ::kurtosis(x.data(), m); break;
                case 1: r = ::skewness(x.data(), m); break;
                case 2: r = ::moment(x.data(), m, order); break;
                case 3: r = ::geometric_mean(x.data(), m); break;
                case 4: r = ::generalized_mean(x.data(), m, order); break;
                case 5: r = ::harmonic_mean(x.data(), m); break;
                case 6: r = ::max(x.data(), m); break;
                case 7: r = ::min(x.data(), m); break;
                case 8: r = ::max_abs(x.data(), m); break;
                case 9: r = ::min_abs(x.data(), m); break;
                case 10: r = ::mean(x.data(), m); break;
                case 11: r = ::median(x.data(), m); break;
                case 12: r = ::variance(x.data(), m); break;
                case 13: r = ::standard_deviation(x.data(), m); break;
                case 14: r = ::norm(x.data(), m); break;
                case 15: { const auto p = ::peak(x.data(), m); r = p.value + p.index; break; }
                case 16: { const auto p = ::peak_abs(x.data(), m); r = p.value + p.index; break; }
            }
        });
        c.put(r);
    }
    inline void c_windowing(ctx& c) {
        using fn                = void (*)(double*, int);
        static const fn all[11] = {::bartlett, ::blackman, ::blackman_harris, ::blackman_nutall, ::boxcar, ::flattop, ::hamming, ::hanning, ::triangular, ::welch, ::rectangular};
        std::vector<double> w(c.size(2));
        const auto f = all[c.below(11)];
        c.lib([&] { f(w.data(), static_cast<int>(w.size())); });
        c.put(w);
    }
    inline void c_spectral(ctx& c) {
        const auto n = 2 * c.size(1);
        const int m  = static_cast<int>(n);
        auto x = c.signal<double>(n), x2 = c.signal<double>(n);
        auto zs = c.complex_signal<double>(n);
        std::vector<complex_t> z(n), w(n + 2);
        std::memcpy(static_cast<void*>(z.data()), zs.data(), n * sizeof(complex_t));
        std::vector<double> y(2 * n + 2);
        int r           = 0;
        const auto what = c.below(14);
        c.lib([&] {
            switch (what) {
                case 0: ::cepstrum(x.data(), m, y.data()); break;
                case 1: ::conv(x.data(), x2.data(), m, y.data()); break;
                case 2: ::xcorr(x.data(), x2.data(), m, y.data()); break;
                case 3: ::hartley(x.data(), m, y.data()); break;
                case 4: ::hilbert(x.data(), m, w.data()); break;
                case 5: ::spectrum(x.data(), m, y.data()); break;
                case 6: ::dct(x.data(), m, y.data()); break;
                case 7: ::idct(x.data(), m, y.data()); break;
                case 8: ::fft(x.data(), m, w.data()); break;
                case 9: ::ifft(z.data(), m / 2 + 1, y.data()); break;
                case 10: ::complex_fft(z.data(), m, w.data()); break;
                case 11: ::complex_ifft(z.data(), m, w.data()); break;
                case 12: r = get_fft_size(m); break;
                case 13: r = get_ifft_size(m / 2 + 1); break;
            }
        });
        c.put(y);
        c.put(w);
        c.put(r);
    }
    inline void c_core(ctx& c) {
        const char* s[6] = {};
        int v[3]         = {};
        c.lib([&] {
            s[0] = get_version();
            s[1] = get_fft_library();
            s[2] = get_codec_library();
            s[3] = get_resample_library();
            s[4] = get_build_date();
            s[5] = get_build_time();
            v[0] = get_major_version();
            v[1] = get_minor_version();
            v[2] = get_patch_version();
        });
        for (auto* p : s) c.put(p);
        for (auto k : v) c.put(k);
    }
    // ---- facilities of the process -----------------------------------------------------------
    inline void environment(ctx& c) {
        const std::string name = "VAR_" + std::to_string(c.id); // nobody else's
        for (auto k = 1 + c.below(3); k; --k) {
            const auto value = c.text(30);
            int set   = 0;
            bool is   = false;
            std::string got;
            c.lib([&] { set = static_cast<int>(edsp::system_env::set_env(name, value)); });
            c.lib([&] { is = edsp::system_env::exist(name); });
            c.lib([&] {
                const auto r = edsp::system_env::get_env(name);
                got          = r.has_value() ? std::string(r->data(), r->size()) : std::string("none");
                if (!r.has_value() && r.error() == edsp::system_env::error::no_memory) c.threw = true;
            });
            if (set == ENOMEM) c.threw = true;
            c.put(set);
            c.put(is);
            c.put(got);
        }
    }
    inline void c_environment(ctx& c) {
        const std::string name = "CVAR_" + std::to_string(c.id);
        const auto value       = c.text(30);
        int e = 7, r = 0, is = 0;
        const char* got = nullptr;
        c.lib([&] { r = set_environment(name.c_str(), value.c_str()); });
        c.lib([&] { is = exist_environment(name.c_str()); });
        c.lib([&] { got = get_environment(name.c_str(), &e); });
        if (r == ENOMEM || e == ENOMEM) c.threw = true;
        c.put(r);
        c.put(is);
        c.put(e);
        c.put(got);
    }
    inline void logging(ctx& c) {
        const auto t = c.text(30);
        const auto k = c.below(6);
        const int i  = static_cast<int>(c.below(1000));
        c.lib([&] {
            switch (k) {
                case 0: eInfo() << t << i << 2.5; break;
                case 1: eWarning() << edsp::string_view(t.data(), t.size()) << 'x'; break;
                case 2: eError() << i << ' ' << t; break;
                case 3: eCritical() << t.c_str() << true; break;
                case 4: eDebug() << i; break;
                case 5: eTrace() << t; break;
            }
        });
        c.put(t);
    }
    OP(reports) { // calls that report a broken precondition through the logger
        T r[3] = {};
        const auto k = c.below(6);
        const auto v = static_cast<T>(c.real(1, 2));
        c.lib([&] {
            switch (k) {
                case 0: r[0] = ec::mag2db(-v); break;
                case 1: r[0] = ec::pow2db(-v); break;
                case 2: {
                    edsp::oscillators::square_oscillator<T> o(1, 48000, 440, static_cast<T>(0.5));
                    o.set_duty(v + 1);
                    r[0] = o.duty();
                    break;
                }
                case 3: {
                    edsp::oscillators::sawtooth_oscillator<T> o(1, 48000, 440, static_cast<T>(0.5));
                    o.set_width(v + 1);
                    r[0] = o.width();
                    break;
                }
                case 4: {
                    edsp::filter::biquad<T> b(std::complex<T>(0, v), std::complex<T>(0, v));
                    r[0] = b.a1();
                    break;
                }
                case 5: {
                    edsp::envelope::adsr<T> a;
                    a.set_attack_rate(-v);
                    r[0] = a.attack_rate();
                    break;
                }
            }
        });
        for (auto x : r) c.put(x);
    }
    // ---- filters -----------------------------------------------------------------------------
    template <template <typename, typename> class F, typename T>
    void moving(ctx& c) {
        std::unique_ptr<F<T, std::allocator<T>>> f;
        const auto w = 1 + c.below(9);
        if (!c.lib([&] { f.reset(new F<T, std::allocator<T>>(w)); })) return;
        for (auto k = 1 + c.below(5); k; --k) {
            auto x = c.signal<T>(1 + c.below(12));
            std::vector<T> y(x.size());
            switch (c.below(6)) {
                case 0: {
                    const auto w2 = 1 + c.below(9);
                    c.lib([&] { f->resize(w2); });
                    break;
                }
                case 1: f->reset(); break;
                case 2:
                    c.lib([&] {
                        auto g = *f;
                        g.filter(x.begin(), x.end(), y.begin());
                    });
                    break;
                default: c.lib([&] { f->filter(x.begin(), x.end(), y.begin()); }); break;
            }
            c.put(y);
            c.put(static_cast<long>(f->size()));
        }
    }
    OP(moving_average) { moving<edsp::filter::moving_average, T>(c); }
    OP(moving_rms) { moving<edsp::filter::moving_rms, T>(c); }
    OP(moving_median) { moving<edsp::filter::moving_median, T>(c); }
    template <typename T, typename F>
    void feed(ctx& c, F f) {
        for (auto k = 1 + c.below(3); k; --k) {
            auto x = c.signal<T>(1 + c.below(12));
            std::vector<T> y(x.size());
            c.lib([&] { f.filter(x.begin(), x.end(), y.begin()); });
            c.put(y);
            if (c.below(4) == 0) f.reset();
        }
    }
    OP(biquad) {
        const auto p = c.real(-0.9, 0.9), z = c.real(-0.9, 0.9);
        feed<T>(c, edsp::filter::biquad<T>(std::complex<T>(static_cast<T>(p), 0), std::complex<T>(static_cast<T>(z), 0)));
    }
    OP(cascade) {
        edsp::filter::biquad_cascade<T, 6> f;
        for (auto k = 1 + c.below(5); k; --k) {
            const auto p = c.real(-0.9, 0.9), z = c.real(-0.9, 0.9);
            f.push_back(edsp::filter::biquad<T>(std::complex<T>(static_cast<T>(p), 0), std::complex<T>(static_cast<T>(z), 0)));
        }
        feed<T>(c, f);
    }
    OP(design) {
        namespace fl = edsp::filter;
        using ft     = fl::filter_type;
        using dt     = fl::designer_type;
        const std::size_t n = 1 + c.below(8);
        const T rate = 48000, fc = static_cast<T>(c.real(300, 9000)), bw = static_cast<T>(c.real(100, 800)), g = static_cast<T>(c.real(-9, 9)),
                rp = static_cast<T>(c.real(0.2, 3)), sb = static_cast<T>(c.real(20, 60)), q = static_cast<T>(c.real(0.4, 3));
        const auto use = [&](const auto& f) { feed<T>(c, f); };
        switch (c.below(20)) {
            case 0: use(fl::make_filter<T, dt::Butterworth, ft::LowPass, 16>(n, rate, fc)); break;
            case 1: use(fl::make_filter<T, dt::Butterworth, ft::HighPass, 16>(n, rate, fc)); break;
            case 2: use(fl::make_filter<T, dt::Butterworth, ft::BandPass, 16>(n, rate, fc, bw)); break;
            case 3: use(fl::make_filter<T, dt::Butterworth, ft::BandStop, 16>(n, rate, fc, bw)); break;
            case 4: use(fl::make_filter<T, dt::Butterworth, ft::LowShelf, 16>(n, rate, fc, g)); break;
            case 5: use(fl::make_filter<T, dt::ChebyshevI, ft::LowPass, 16>(n, rate, fc, rp)); break;
            case 6: use(fl::make_filter<T, dt::ChebyshevI, ft::HighPass, 16>(n, rate, fc, rp)); break;
            case 7: use(fl::make_filter<T, dt::ChebyshevI, ft::BandPass, 16>(n, rate, fc, bw, rp)); break;
            case 8: use(fl::make_filter<T, dt::ChebyshevI, ft::BandShelf, 16>(n, rate, fc, bw, g, rp)); break;
            case 9: use(fl::make_filter<T, dt::ChebyshevII, ft::LowPass, 16>(n, rate, fc, sb)); break;
            case 10: use(fl::make_filter<T, dt::ChebyshevII, ft::HighPass, 16>(n, rate, fc, sb)); break;
            case 11: use(fl::make_filter<T, dt::ChebyshevII, ft::BandStop, 16>(n, rate, fc, bw, sb)); break;
            case 12: use(fl::make_filter<T, dt::RBJ, ft::LowPass, 16>(fc, rate, q)); break;
            case 13: use(fl::make_filter<T, dt::RBJ, ft::HighPass, 16>(fc, rate, q)); break;
            case 14: use(fl::make_filter<T, dt::RBJ, ft::BandPass, 16>(fc, rate, q)); break;
            case 15: use(fl::make_filter<T, dt::RBJ, ft::AllPass, 16>(fc, rate, q)); break;
            case 16: use(fl::make_filter<T, dt::RBJ, ft::LowShelf, 16>(fc, rate, q, g)); break;
            case 17: use(fl::make_filter<T, dt::Zolzer, ft::LowPass, 16>(fc, rate, q)); break;
            case 18: use(fl::make_filter<T, dt::Zolzer, ft::HighPass, 16>(fc, rate, q)); break;
            case 19: use(fl::make_filter<T, dt::Zolzer, ft::LowShelf, 16>(fc, rate, q, g)); break;
        }
    }
    // ---- oscillators, envelopes, generators --------------------------------------------------
    template <typename T, typename O>
    void oscillate(ctx& c, O o) {
        for (auto k = 1 + c.below(3); k; --k) {
            std::vector<T> y(1 + c.below(16));
            c.lib([&] { std::generate(y.begin(), y.end(), std::ref(o)); });
            c.put(y);
            switch (c.below(4)) {
                case 0: o.set_frequency(static_cast<T>(c.real(1, 20000))); break;
                case 1: o.set_amplitude(static_cast<T>(c.real(-2, 2))); break;
                case 2: o.reset(); break;
                default: break;
            }
            c.put(o.timestamp());
        }
    }
    OP(oscillators) {
        const T a = static_cast<T>(c.real(0.1, 2)), fs = static_cast<T>(c.real(8000, 96000)), f = static_cast<T>(c.real(1, 9000)), p = static_cast<T>(c.real(0, 1));
        switch (c.below(4)) {
            case 0: oscillate<T>(c, edsp::oscillators::sin_oscillator<T>(a, fs, f, p)); break;
            case 1: oscillate<T>(c, edsp::oscillators::square_oscillator<T>(a, fs, f, p)); break;
            case 2: oscillate<T>(c, edsp::oscillators::sawtooth_oscillator<T>(a, fs, f, p)); break;
            case 3: oscillate<T>(c, edsp::oscillators::triangular_oscillator<T>(a, fs, f)); break;
        }
    }
    OP(adsr) {
        edsp::envelope::adsr<T> e;
        e.set_sample_rate(1000);
        e.set_attack_rate(static_cast<T>(c.real(0.01, 0.5)));
        e.set_decay_rate(static_cast<T>(c.real(0.01, 0.5)));
        e.set_release_rate(static_cast<T>(c.real(0.01, 0.5)));
        e.set_sustain_level(static_cast<T>(c.real(0, 1)));
        for (auto k = 1 + c.below(4); k; --k) {
            auto x = c.signal<T>(1 + c.below(12));
            std::vector<T> y(x.size());
            if (c.coin()) e.key_on();
            else e.key_off();
            c.lib([&] { e.apply(x.begin(), x.end(), y.begin()); });
            c.put(y);
        }
    }
    OP(ar) {
        edsp::envelope::ar<T> e(static_cast<T>(1000), static_cast<T>(c.real(0.001, 0.1)), static_cast<T>(c.real(0.001, 0.1)), c.coin());
        for (auto k = 1 + c.below(4); k; --k) {
            auto x = c.signal<T>(1 + c.below(12));
            std::vector<T> y(x.size());
            c.lib([&] { e.apply(x.begin(), x.end(), y.begin()); });
            c.put(y);
        }
    }
    template <typename T, typename G>
    void generate(ctx& c, G g) {
        std::vector<T> y(1 + c.below(16));
        c.lib([&] {
            for (auto& v : y) v = static_cast<T>(g());
        });
        c.put(y);
    }
    OP(generators) {
        const T lo = static_cast<T>(c.real(-2, 0)), hi = static_cast<T>(c.real(0.1, 2));
        switch (c.below(8)) {
            case 0: generate<T>(c, edsp::random::white_noise_generator<T, std::mt19937>(lo, hi)); break;
            case 1: generate<T>(c, edsp::random::pink_noise_generator<T, std::mt19937>(lo, hi)); break;
            case 2: generate<T>(c, edsp::random::brown_noise_generator<T, std::mt19937>(lo, hi)); break;
            case 3: generate<T>(c, edsp::random::perlin_noise_generator<T, std::mt19937>()); break;
            case 4: generate<T>(c, edsp::random::binary_generator<T, std::mt19937>(c.real(0, 1))); break;
            case 5: generate<T>(c, edsp::random::constant_generator<T>(lo)); break;
            case 6: generate<T>(c, edsp::random::random_generator<edsp::random::DistributionType::Normal, T>(lo, hi)); break;
            case 7: generate<T>(c, edsp::random::random_generator<edsp::random::DistributionType::Uniform, T>(lo, hi)); break;
        }
    }
    // ---- ring buffers ------------------------------------------------------------------------
    template <typename R, typename E>
    void ring_steps(ctx& c, R& r, E element) {
        for (auto k = 1 + c.below(12); k; --k) {
            switch (c.below(5)) {
                case 0:
                    if (!r.empty()) c.lib([&] { r.pop_front(); });
                    break;
                case 1:
                    c.lib([&] {
                        R copy(r);
                        for (auto& x : copy) x = element();
                    });
                    break;
                default: {
                    auto v = element();
                    c.lib([&] { r.push_back(v); });
                    break;
                }
            }
            c.put(static_cast<long>(r.size()));
            for (const auto& x : r) c.put(x);
        }
    }
    template <typename E, typename F>
    void ring(ctx& c, F element) {
        if (c.coin()) {
            std::unique_ptr<edsp::ring_buffer<E>> r;
            const auto n = 1 + c.below(8);
            if (!c.lib([&] { r.reset(new edsp::ring_buffer<E>(n)); })) return;
            ring_steps(c, *r, element);
            const auto m = 1 + c.below(8);
            c.lib([&] { r->resize(m); });
            ring_steps(c, *r, element);
        } else {
            edsp::fixed_ring_buffer<E, 5> r;
            ring_steps(c, r, element);
        }
    }
    inline void ring_numbers(ctx& c) {
        ring<double>(c, [&c] { return c.real(-1, 1); });
    }
    inline void ring_strings(ctx& c) {
        ring<std::string>(c, [&c] { return std::string(20 + c.below(20), static_cast<char>('a' + c.below(26))); });
    }
    // ---- input and output --------------------------------------------------------------------
    inline std::string own_path(ctx& c) { return "/sim/own_" + std::to_string(c.id) + ".wav"; }
    OP(record) { // a recording, read back
        const auto path     = own_path(c);
        const auto channels = static_cast<long>(1 + c.below(3));
        std::vector<std::vector<T>> blocks(1 + c.below(3));
        for (auto& b : blocks) b = c.signal<T>(static_cast<std::size_t>(channels) * (1 + c.below(40)));
        const auto chunk = static_cast<std::size_t>(channels) * (1 + c.below(50));
        {
            std::unique_ptr<edsp::io::encoder<T>> e;
            if (!c.lib([&] { e.reset(new edsp::io::encoder<T>(48000, channels)); })) return;
            bool open = false;
            c.lib([&] { open = e->open(path); });
            c.put(open);
            for (auto& b : blocks) {
                long n = 0;
                c.lib([&] { n = static_cast<long>(e->write(b.begin(), b.end())); });
                c.put(n);
            }
            e->close();
        }
        std::unique_ptr<edsp::io::decoder<T, 16>> d;
        if (!c.lib([&] { d.reset(new edsp::io::decoder<T, 16>); })) return;
        bool open = false;
        c.lib([&] { open = d->open(path); });
        c.put(open);
        if (open) {
            c.put(static_cast<long>(d->channels()));
            c.put(static_cast<double>(d->sample_rate()));
            c.put(static_cast<long>(d->frames()));
            for (int k = 0; k < 3; ++k) {
                std::vector<T> y(chunk);
                long n = 0;
                c.lib([&] { n = static_cast<long>(d->read(y.begin(), y.end())); });
                c.put(n);
                c.put(y);
            }
            c.put(static_cast<long>(d->seek(0)));
        }
        d->close();
    }
    inline void tags(ctx& c) { // a tagged file, read
        const auto path = "/sim/own_" + std::to_string(c.id) + ".mp3";
        std::unique_ptr<sim::sched::no_preempt> quiet(new sim::sched::no_preempt);
        sim::disk::bytes b(400, 0);
        auto field = [&](std::size_t at, std::size_t n) {
            for (std::size_t i = 0; i < n; ++i) b[272 + at + i] = static_cast<std::uint8_t>('a' + c.below(26));
        };
        std::memcpy(b.data() + 272, "TAG", 3);
        field(3, 1 + c.below(30));
        field(33, 1 + c.below(30));
        field(63, 1 + c.below(30));
        std::memcpy(b.data() + 272 + 93, std::to_string(1000 + c.below(9000)).data(), 4);
        b[272 + 126] = static_cast<std::uint8_t>(1 + c.below(255));
        b[272 + 127] = static_cast<std::uint8_t>(c.below(80));
        {
            sim::alloc::exempt ex;
            sim::disk::put(path, b);
        }
        quiet.reset();
        std::unique_ptr<edsp::io::metadata> m;
        if (!c.lib([&] { m.reset(new edsp::io::metadata(path)); })) return;
        for (auto k = 1 + c.below(3); k; --k) {
            std::string t[4];
            std::size_t n[2] = {0, 0};
            c.lib([&] { t[0] = m->title(), t[1] = m->artist(), t[2] = m->album(), t[3] = m->genre(), n[0] = m->track(), n[1] = m->year(); });
            for (const auto& x : t) c.put(x);
            for (const auto x : n) c.put(static_cast<unsigned long>(x));
        }
    }
    inline void resample(ctx& c) {
        using T        = float;
        const auto ch  = static_cast<long>(1 + c.below(2));
        const auto q   = static_cast<int>(c.below(5));
        const T ratio  = static_cast<T>(c.real(0.3, 3));
        std::unique_ptr<edsp::io::resampler<T>> r;
        if (!c.lib([&] { r.reset(new edsp::io::resampler<T>(ch, static_cast<edsp::io::resample_quality>(q), ratio)); })) return;
        for (auto k = 1 + c.below(3); k; --k) {
            const auto frames = 2 + c.below(40);
            auto x = c.signal<T>(frames * static_cast<std::size_t>(ch));
            std::vector<T> y(static_cast<std::size_t>(static_cast<double>(frames) * ratio + 2) * static_cast<std::size_t>(ch));
            std::pair<long, long> n{-1, -1};
            c.lib([&] {
                const auto got = r->process(x.begin(), x.end(), y.begin());
                n              = {static_cast<long>(got.first), static_cast<long>(got.second)};
            });
            c.put(n.first);
            c.put(n.second);
            c.put(y);
        }
        c.put(r->error());
    }
    template <ew::WindowType W>
    void win(ctx& c) {
        if (c.coin()) window<W>::template op<double>::run(c);
        else window<W>::template op<float>::run(c);
    }

#define E(NAME) {#NAME, either<NAME>, 0}
#define P(NAME) {#NAME, either<NAME>, planner}
#define W(NAME) {"window " #NAME, win<ew::WindowType::NAME>, 0}
    inline const std::vector<operation>& all() {
        static const std::vector<operation> ops = {
            E(amplifier), E(amplifier_clip), E(ceil), E(floor), E(fix), E(round), E(clipper), E(linspace), E(logspace), E(normalize), E(normalize_rms), E(rectify),
            E(barkspace), E(centspace), E(erbspace), E(melspace), E(amdf), E(asdf), E(concatenate), E(padder), E(searches),
            E(mean), E(median), E(variance), E(deviation), E(kurtosis), E(skewness), E(moment3), E(moment5), E(geometric_mean), E(generalized_mean), E(harmonic_mean),
            E(max), E(min), E(maxabs), E(minabs), E(norm), E(peak), E(peak2peak), E(peak2rms), E(centroid), E(spread), E(entropy),
            E(spectral_centroid), E(spectral_crest), E(spectral_decrease), E(spectral_entropy), E(spectral_flatness), E(spectral_flux), E(spectral_irregularity), E(spectral_kurtosis),
            E(spectral_rolloff), E(spectral_skewness), E(spectral_slope), E(spectral_spread), E(spectral_variation),
            E(azcr), E(duration), E(energy), E(power), E(leq), E(loudness), E(rms), E(rssq), E(scalars), E(complexes),
            W(Bartlett), W(Blackman), W(BlackmanHarris), W(BlackmanNuttall), W(Boxcar), W(FlatTop), W(Hamming), W(Hanning), W(Rectangular), W(Triangular), W(Welch),
            P(cepstrum), P(dct), P(idct), P(hartley), P(xcorr1), P(xcorr2), P(spectrum), P(conv), P(dft), P(cdft), P(hilbert), P(engine),
            {"split", split, 0}, {"join", join, 0}, {"trims", trims, 0},
            {"C algorithm", c_algorithm, 0}, {"C converter", c_converter, 0}, {"C statistics", c_statistics, 0}, {"C windowing", c_windowing, 0}, {"C spectral", c_spectral, planner}, {"C core", c_core, 0},
            {"environment", environment, shared}, {"C environment", c_environment, shared}, {"logging", logging, shared}, {"reports", either<reports>, shared},
            E(moving_average), E(moving_rms), E(moving_median), E(biquad), E(cascade), E(design), E(oscillators), E(adsr), E(ar), E(generators),
            {"ring of numbers", ring_numbers, 0}, {"ring of strings", ring_strings, 0},
            {"record", either<record>, io}, {"resample", resample, io}, {"tags", tags, io | shared | foreign},
        };
        return ops;
    }
#undef E
#undef P
#undef W
} // namespace catalog
