// C12: a transform's result does not depend on what the engine did before.
#include "../core/alloc.hpp"
#include "../core/handles.hpp"
#include "../core/quiet.hpp"
#include "../core/sim.hpp"
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/fft_engine.hpp>
#include <edsp/spectral/hartley.hpp>
#include <cmath>
#include <complex>
#include <memory>
const char* const prop_id = "C12";
using namespace sim;

namespace {
    using ld  = long double;
    using cld = std::complex<ld>;
    const ld PI = 3.14159265358979323846264338327950288L;

    // ---- the definitions ----------------------------------------------------------------------
    // cos(pi*a/b) and sin(pi*a/b) with the argument reduced exactly
    cld turn(long long a, long long b) { // exp(i*pi*a/b)
        a %= 2 * b;
        const ld x = PI * static_cast<ld>(a) / static_cast<ld>(b);
        return {std::cos(x), std::sin(x)};
    }
    using cvec = std::vector<cld>;
    using rvec = std::vector<ld>;
    cvec dft(const cvec& x, int sign) {
        const auto n = static_cast<long long>(x.size());
        std::vector<cld> w(x.size());
        for (long long k = 0; k < n; ++k) w[static_cast<std::size_t>(k)] = turn(2 * k * sign, n);
        cvec y(x.size());
        for (long long j = 0; j < n; ++j) {
            if (x[static_cast<std::size_t>(j)] == cld{}) continue; // the long signals have few non-zero values
            for (long long k = 0; k < n; ++k) y[static_cast<std::size_t>(k)] += x[static_cast<std::size_t>(j)] * w[static_cast<std::size_t>(j * k % n)];
        }
        return y;
    }
    rvec r2r(const rvec& x, int kind) { // 0 Hartley, 1 DCT-II, 2 DCT-III
        const auto n = static_cast<long long>(x.size());
        rvec y(x.size());
        std::vector<long long> used;
        for (long long j = 0; j < n; ++j) {
            if (x[static_cast<std::size_t>(j)] != 0) used.push_back(j);
        }
        for (long long k = 0; k < n; ++k) {
            ld s = 0;
            for (const auto j : used) {
                const ld v = x[static_cast<std::size_t>(j)];
                switch (kind) {
                    case 0: { const auto t = turn(2 * j * k, n); s += v * (t.real() + t.imag()); break; }
                    case 1: s += 2 * v * turn((2 * j + 1) * k, 2 * n).real(); break;
                    case 2: s += (j ? 2 : 1) * v * turn((2 * k + 1) * j, 2 * n).real(); break;
                }
            }
            y[static_cast<std::size_t>(k)] = s;
        }
        return y;
    }

    // ---- memory with controlled alignment and guards --------------------------------------------
    template <typename T>
    struct arena {
        static constexpr std::size_t guard = 16;
        std::vector<T> mem;
        std::size_t off, n;
        arena(std::size_t count, std::size_t shift) : mem(count + 2 * guard + 16), n(count) {
            const auto a = reinterpret_cast<std::uintptr_t>(mem.data());
            off          = guard;
            while ((a + off * sizeof(T)) % 64 != 0) ++off;
            off += shift;
            for (std::size_t i = 0; i < mem.size(); ++i) mem[i] = canary(i);
        }
        static T canary(std::size_t i) { return static_cast<T>(-1000.25 - static_cast<double>(i % 7)); }
        T* data() { return mem.data() + off; }
        bool intact() const {
            for (std::size_t i = 0; i < mem.size(); ++i) {
                if ((i < off || i >= off + n) && mem[i] != canary(i)) return false;
            }
            return true;
        }
    };

    enum op_kind { c_forward, c_inverse, r_forward, r_inverse, hart, dct2, dct3, s_real, s_cplx, s_dct, kinds };
    const char* const op_names[] = {"complex dft", "complex idft", "real dft", "real idft", "hartley", "dct", "idct", "idft_scale(real)", "idft_scale(complex)", "idct_scale"};

    template <typename T>
    void compare(const char* what, std::size_t n, const T* got, const rvec& want, ld scale) {
        ld err = 0;
        for (std::size_t i = 0; i < want.size(); ++i) {
            const ld d = std::fabs(static_cast<ld>(got[i]) - want[i]);
            if (!(d <= err)) err = d; // also catches NaN
        }
        const ld tol = (sizeof(T) == 4 ? 4e-6L : 1e-14L) * scale * (1 + std::log2(static_cast<ld>(n) + 1));
        SIM_CHECK(err <= tol, "wrong-transform", "%s of size %zu: off by %Lg, allowed %Lg", what, n, err, tol);
    }

    struct base {
        int id{0};
        virtual ~base() = default;
        virtual void op() = 0;
    };
    unsigned plan_fault = 0;

    template <typename T>
    struct engine : base {
        std::unique_ptr<edsp::fft_engine<T>> e;
        std::size_t n;
        int last{-1};
        engine(int i, std::size_t size) : e(new edsp::fft_engine<T>(size)), n(size) {
            id = i;
            event("engine%d %s size %zu", id, sizeof(T) == 4 ? "float" : "double", n);
        }
        void op() override {
            const auto k        = static_cast<int>(draw(kinds));
            const bool in_place = draw(3) == 1;
            const bool free_fn  = k <= dct3 && !chance(850);
            const auto half     = n / 2 + 1;
            // lengths in units of T
            const std::size_t in_len  = k == c_forward || k == c_inverse || k == s_cplx ? 2 * n : k == r_inverse ? 2 * half : n;
            const std::size_t out_len = k == c_forward || k == c_inverse || k == s_cplx ? 2 * n : k == r_forward ? 2 * half : n;
            const bool scale          = k == s_real || k == s_cplx || k == s_dct;
            const std::size_t as      = draw(4) ? 0 : 1 + draw(4), bs = draw(4) ? 0 : 1 + draw(4);
            // data
            rvec x(in_len);
            const auto shape = draw(4);
            if (n > 128) {
                const auto few = 1 + draw(6);
                for (std::size_t i = 0; i < few; ++i) {
                    const auto at = draw(8) == 0 ? 0 : draw(8) == 0 ? in_len - 1 : draw(in_len);
                    x[at] = static_cast<T>(real(-1, 1));
                }
            }
            for (std::size_t i = 0; i < in_len && n <= 128; ++i) {
                switch (shape) {
                    case 0: x[i] = static_cast<T>(real(-1, 1)); break;
                    case 1: x[i] = static_cast<T>(std::sin(0.3 * static_cast<double>(i)) + 0.1 * static_cast<double>(i % 5)); break;
                    case 2: x[i] = i == in_len / 3 ? 1 : 0; break;
                    case 3: x[i] = static_cast<T>(1000.0 * std::cos(1.7 * static_cast<double>(i * i % 101))); break;
                }
            }
            if (k == r_inverse) { // the spectrum of a real signal
                x[1] = 0;
                if (n % 2 == 0 && half > 1) x[2 * half - 1] = 0;
            }
            arena<T> a(in_place ? std::max(in_len, out_len) : in_len, as), b(out_len, bs);
            for (std::size_t i = 0; i < in_len; ++i) a.data()[i] = static_cast<T>(x[i]);
            T* src = a.data();
            T* dst = in_place || scale ? a.data() : b.data();
            using C = std::complex<T>;
            C *csrc = reinterpret_cast<C*>(src), *cdst = reinterpret_cast<C*>(dst);
            handles::fail_permille[handles::plan] = plan_fault;
            const auto f0                         = handles::failed(handles::plan);
            bool threw                            = false;
            bool scaled                           = false;
            try {
                if (free_fn) { // the one-shot functions use an engine of their own
                    scaled = k == c_inverse || k == r_inverse || k == dct3;
                    switch (k) {
                        case c_forward: edsp::cdft(csrc, csrc + n, cdst); break;
                        case c_inverse: edsp::cidft(csrc, csrc + n, cdst); break;
                        case r_forward: edsp::dft(src, src + n, cdst); break;
                        case r_inverse:
                            if (n % 2) { // the size cannot be told from the spectrum
                                scaled = false;
                                e->idft(csrc, dst);
                            } else {
                                edsp::idft(csrc, csrc + half, dst);
                            }
                            break;
                        case hart: edsp::hartley(src, src + n, dst); break;
                        case dct2: edsp::dct(src, src + n, dst); break;
                        case dct3: edsp::idct(src, src + n, dst); break;
                    }
                } else {
                    switch (k) {
                        case c_forward: e->dft(csrc, cdst); break;
                        case c_inverse: e->idft(csrc, cdst); break;
                        case r_forward: e->dft(src, cdst); break;
                        case r_inverse: e->idft(csrc, dst); break;
                        case hart: e->dht(src, dst); break;
                        case dct2: e->dct(src, dst); break;
                        case dct3: e->idct(src, dst); break;
                        case s_real: e->idft_scale(dst); break;
                        case s_cplx: e->idft_scale(cdst); break;
                        case s_dct: e->idct_scale(dst); break;
                    }
                }
            } catch (const std::exception&) {
                threw = true;
            }
            handles::fail_permille[handles::plan] = 0;
            const bool hit                        = handles::failed(handles::plan) != f0;
            event("engine%d %s%s%s, alignments %zu %zu%s", id, free_fn ? "one-shot " : "", op_names[k], in_place && !scale ? " in place" : "", as, bs,
                  threw ? " -> exception" : "");
            SIM_CHECK(a.intact() && b.intact(), "outside", "%s of size %zu wrote outside its output", op_names[k], n);
            if (!in_place && !scale) {
                for (std::size_t i = 0; i < in_len; ++i) {
                    SIM_CHECK(a.data()[i] == static_cast<T>(x[i]), "input-modified", "%s of size %zu changed its input", op_names[k], n);
                }
            }
            if (hit || threw) {
                SIM_CHECK(hit, "threw", "%s of size %zu threw without a fault", op_names[k], n);
                SIM_CHECK(threw, "plan-failure-hidden", "%s of size %zu: the plan could not be made and nothing was reported", op_names[k], n);
                count("probe.plan-failure-reported");
                return;
            }
            ld norm = 0;
            for (auto v : x) norm += std::fabs(v);
            norm = 2 * norm + 1e-30L;
            rvec want;
            switch (k) {
                case c_forward:
                case c_inverse: {
                    cvec c(n);
                    for (std::size_t i = 0; i < n; ++i) c[i] = {x[2 * i], x[2 * i + 1]};
                    for (auto& v : dft(c, k == c_forward ? -1 : 1)) {
                        want.push_back(v.real());
                        want.push_back(v.imag());
                    }
                    break;
                }
                case r_forward: {
                    cvec c(n);
                    for (std::size_t i = 0; i < n; ++i) c[i] = x[i];
                    const auto y = dft(c, -1);
                    for (std::size_t i = 0; i < half; ++i) {
                        want.push_back(y[i].real());
                        want.push_back(y[i].imag());
                    }
                    break;
                }
                case r_inverse: {
                    cvec c(n);
                    for (std::size_t i = 0; i < half; ++i) {
                        c[i] = {x[2 * i], x[2 * i + 1]};
                        if (i && n - i >= half) c[n - i] = std::conj(c[i]);
                    }
                    for (auto& v : dft(c, 1)) want.push_back(v.real());
                    break;
                }
                case hart: want = r2r(x, 0); break;
                case dct2: want = r2r(x, 1); break;
                case dct3: want = r2r(x, 2); break;
                default: want = x; break;
            }
            const ld f = scaled ? (k == dct3 ? 2 * static_cast<ld>(n) : static_cast<ld>(n))
                                : k == s_real || k == s_cplx ? static_cast<ld>(n) : k == s_dct ? 2 * static_cast<ld>(n) : 1;
            for (auto& v : want) v /= f;
            compare<T>(op_names[k], n, dst, want, norm / f);
            cover(mix(mix(static_cast<std::uint64_t>(last + 1), static_cast<std::uint64_t>(k)), mix(n, mix(in_place, as * 8 + bs))));
            if (!free_fn) last = k;
            add_sim_time_ns(1e9 * static_cast<double>(n) / 48000.0);
        }
    };
    // A planner is left over by whatever ran in the process before
} // namespace

void prop_run() {
    silence_cout();
    const auto mode = draw(2);
    if (mode == 1) plan_fault = 200;
    event("mode %d", static_cast<int>(mode));
    std::vector<std::unique_ptr<base>> es;
    int next = 0;
    while (more(35)) {
        span s;
        const auto what = draw(12);
        if (es.empty() || (what <= 1 && es.size() < 5)) {
            static const std::size_t sizes[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 31, 32, 33, 37, 48, 60, 64, 100, 128};
            static const std::size_t longs[] = {129, 200, 255, 256, 257, 512, 1000, 1024, 1025, 2048, 3000, 4096, 8192, 10000, 16384, 32768, 32770, 40000, 65536, 65600, 70000, 131072};
            const auto n = chance(60) ? longs[draw(chance(250) ? 22 : 12)] : sizes[draw(chance(100) ? 23 : 20)];
            if (coin()) {
                es.emplace_back(new engine<double>(next++, n));
            } else {
                es.emplace_back(new engine<float>(next++, n));
            }
        } else if (what == 2) {
            const auto i = draw(es.size());
            event("engine%d destroyed", es[i]->id);
            es.erase(es.begin() + static_cast<long>(i));
        } else {
            es[draw(es.size())]->op();
        }
    }
    es.clear();
    SIM_CHECK(handles::live(handles::plan) == 0, "leak", "plans live at the end");
    nontrivial();
}
