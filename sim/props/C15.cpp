// C15: biquads and cascades are causal, resettable and independent of block splits.
#include "../core/quiet.hpp"
#include "../core/sim.hpp"
#include <edsp/filter.hpp>
#include <algorithm>
#include <cmath>
#include <deque>
#include <limits>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
const char* const prop_id = "C15";
using namespace sim;
namespace ef = edsp::filter;

namespace {
    // ---- designs: what a fresh process answers ---------------------------------------------------
    constexpr std::size_t max_order = 8, max_stages = 8, variants = 11;
    struct answer {
        std::uint64_t n{0};
        double c[max_stages][6]{};
    };
    template <typename T, std::size_t N>
    answer read(const ef::biquad_cascade<T, N>& f) {
        answer a;
        a.n = f.size();
        for (std::size_t i = 0; i < f.size() && i < max_stages; ++i) {
            const double c[6] = {f[i].a0(), f[i].a1(), f[i].a2(), f[i].b0(), f[i].b1(), f[i].b2()};
            std::copy(c, c + 6, a.c[i]);
        }
        return a;
    }
    template <typename T>
    answer read(const ef::biquad<T>& f) {
        answer a;
        a.n            = 1;
        const double c[6] = {f.a0(), f.a1(), f.a2(), f.b0(), f.b1(), f.b2()};
        std::copy(c, c + 6, a.c[0]);
        return a;
    }
    struct params {
        std::size_t order;
        double rate, fc, bw, gain, ripple, stop, q;
    };
    const params variant[variants] = {{2, 48000, 1000, 400, 3, 0.5, 40, 0.7}, {5, 44100, 6000, 1500, -6, 1, 60, 2}, {8, 8000, 1000, 500, 12, 3, 24, 0.5},
                                      // the first one again, but for one parameter
                                      {3, 48000, 1000, 400, 3, 0.5, 40, 0.7}, {2, 32000, 1000, 400, 3, 0.5, 40, 0.7}, {2, 48000, 1500, 400, 3, 0.5, 40, 0.7}, {2, 48000, 1000, 300, 3, 0.5, 40, 0.7},
                                      {2, 48000, 1000, 400, 9, 0.5, 40, 0.7}, {2, 48000, 1000, 400, 3, 2, 40, 0.7}, {2, 48000, 1000, 400, 3, 0.5, 60, 0.7}, {2, 48000, 1000, 400, 3, 0.5, 40, 1.5}};
    enum design_kind { but_lp, but_hp, but_bp, but_bs, but_ls, but_hs, but_bsh, c1_lp, c1_hp, c1_bp, c1_bs, c1_ls, c1_hs, c1_bsh, c2_lp, c2_hp, c2_bp, c2_bs, c2_ls, c2_hs, c2_bsh,
                       rbj_lp, rbj_hp, rbj_bp, rbj_ap, rbj_ls, rbj_hs, zol_lp, zol_hp, zol_bp, zol_ls, zol_hs, designs };
    // calls `use` with the filter the library designs
    template <typename T, typename Use>
    void make(int kind, const params& p, Use use) {
        using ft = ef::filter_type;
        using dt = ef::designer_type;
        const auto n = p.order;
        const T rate = static_cast<T>(p.rate), fc = static_cast<T>(p.fc), bw = static_cast<T>(p.bw), g = static_cast<T>(p.gain), rp = static_cast<T>(p.ripple), sb = static_cast<T>(p.stop), q = static_cast<T>(p.q);
        switch (kind) {
            case but_lp: use(ef::make_filter<T, dt::Butterworth, ft::LowPass, max_order>(n, rate, fc)); break;
            case but_hp: use(ef::make_filter<T, dt::Butterworth, ft::HighPass, max_order>(n, rate, fc)); break;
            case but_bp: use(ef::make_filter<T, dt::Butterworth, ft::BandPass, max_order>(n, rate, fc, bw)); break;
            case but_bs: use(ef::make_filter<T, dt::Butterworth, ft::BandStop, max_order>(n, rate, fc, bw)); break;
            case but_ls: use(ef::make_filter<T, dt::Butterworth, ft::LowShelf, max_order>(n, rate, fc, g)); break;
            case but_hs: use(ef::make_filter<T, dt::Butterworth, ft::HighShelf, max_order>(n, rate, fc, g)); break;
            case but_bsh: use(ef::make_filter<T, dt::Butterworth, ft::BandShelf, max_order>(n, rate, fc, bw, g)); break;
            case c1_lp: use(ef::make_filter<T, dt::ChebyshevI, ft::LowPass, max_order>(n, rate, fc, rp)); break;
            case c1_hp: use(ef::make_filter<T, dt::ChebyshevI, ft::HighPass, max_order>(n, rate, fc, rp)); break;
            case c1_bp: use(ef::make_filter<T, dt::ChebyshevI, ft::BandPass, max_order>(n, rate, fc, bw, rp)); break;
            case c1_bs: use(ef::make_filter<T, dt::ChebyshevI, ft::BandStop, max_order>(n, rate, fc, bw, rp)); break;
            case c1_ls: use(ef::make_filter<T, dt::ChebyshevI, ft::LowShelf, max_order>(n, rate, fc, g, rp)); break;
            case c1_hs: use(ef::make_filter<T, dt::ChebyshevI, ft::HighShelf, max_order>(n, rate, fc, g, rp)); break;
            case c1_bsh: use(ef::make_filter<T, dt::ChebyshevI, ft::BandShelf, max_order>(n, rate, fc, bw, g, rp)); break;
            case c2_lp: use(ef::make_filter<T, dt::ChebyshevII, ft::LowPass, max_order>(n, rate, fc, sb)); break;
            case c2_hp: use(ef::make_filter<T, dt::ChebyshevII, ft::HighPass, max_order>(n, rate, fc, sb)); break;
            case c2_bp: use(ef::make_filter<T, dt::ChebyshevII, ft::BandPass, max_order>(n, rate, fc, bw, sb)); break;
            case c2_bs: use(ef::make_filter<T, dt::ChebyshevII, ft::BandStop, max_order>(n, rate, fc, bw, sb)); break;
            case c2_ls: use(ef::make_filter<T, dt::ChebyshevII, ft::LowShelf, max_order>(n, rate, fc, g, rp)); break;
            case c2_hs: use(ef::make_filter<T, dt::ChebyshevII, ft::HighShelf, max_order>(n, rate, fc, g, rp)); break;
            case c2_bsh: use(ef::make_filter<T, dt::ChebyshevII, ft::BandShelf, max_order>(n, rate, fc, bw, g, rp)); break;
            case rbj_lp: use(ef::make_filter<T, dt::RBJ, ft::LowPass, max_order>(fc, rate, q)); break;
            case rbj_hp: use(ef::make_filter<T, dt::RBJ, ft::HighPass, max_order>(fc, rate, q)); break;
            case rbj_bp: use(ef::make_filter<T, dt::RBJ, ft::BandPass, max_order>(fc, rate, q)); break;
            case rbj_ap: use(ef::make_filter<T, dt::RBJ, ft::AllPass, max_order>(fc, rate, q)); break;
            case rbj_ls: use(ef::make_filter<T, dt::RBJ, ft::LowShelf, max_order>(fc, rate, q, g)); break;
            case rbj_hs: use(ef::make_filter<T, dt::RBJ, ft::HighShelf, max_order>(fc, rate, q, g)); break;
            case zol_lp: use(ef::make_filter<T, dt::Zolzer, ft::LowPass, max_order>(fc, rate, q)); break;
            case zol_hp: use(ef::make_filter<T, dt::Zolzer, ft::HighPass, max_order>(fc, rate, q)); break;
            case zol_bp: use(ef::make_filter<T, dt::Zolzer, ft::BandPass, max_order>(fc, rate, q)); break;
            case zol_ls: use(ef::make_filter<T, dt::Zolzer, ft::LowShelf, max_order>(fc, rate, q, g)); break;
            case zol_hs: use(ef::make_filter<T, dt::Zolzer, ft::HighShelf, max_order>(fc, rate, q, g)); break;
        }
    }
    answer* reference = nullptr; // [precision][kind][variant]
    answer& ref(int prec, int kind, std::size_t v) { return reference[(static_cast<std::size_t>(prec) * designs + static_cast<std::size_t>(kind)) * variants + v]; }

    template <typename T>
    void reference_of(int prec, int kind, std::size_t v) {
        auto& slot = ref(prec, kind, v);
        make<T>(kind, variant[v], [&](const auto& f) { slot = read(f); });
    }
} // namespace

// Every design of the catalogue is asked for once in a process that designed nothing before.
extern "C" void sim_prop_setup() {
    const auto bytes = sizeof(answer) * 2 * designs * variants;
    void* p          = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) std::exit(3);
    reference = static_cast<answer*>(p);
    silence_cout();
    for (int prec = 0; prec < 2; ++prec) {
        for (int k = 0; k < designs; ++k) {
            for (std::size_t v = 0; v < variants; ++v) {
                const auto pid = fork();
                if (pid == 0) {
                    if (prec) reference_of<float>(prec, k, v);
                    else reference_of<double>(prec, k, v);
                    _exit(0);
                }
                int st = 0;
                if (pid < 0 || waitpid(pid, &st, 0) != pid) std::exit(3);
            }
        }
    }
}

namespace {
    using ld = long double;
    template <typename T> bool same(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)) || a == b; }

    struct base {
        std::string name;
        virtual ~base() = default;
        virtual void op(std::vector<std::unique_ptr<base>>& all, int& next) = 0;
    };
    using objects = std::vector<std::unique_ptr<base>>;

    template <typename T>
    struct signal {
        unsigned shape{0};
        std::uint64_t t{0};
        T next() {
            ++t;
            switch (shape) {
                case 0: return static_cast<T>(0.25 * static_cast<double>(range(-8, 8)));
                case 1: return static_cast<T>(std::sin(0.37 * static_cast<double>(t)));
                case 2: return static_cast<T>(t % 29 == 1 ? 1 : 0);
                case 3: return static_cast<T>(t % 2 ? 1 : -1);
                default: return static_cast<T>(1 + 0.125 * static_cast<double>(t % 11));
            }
        }
    };

    // Feeds one block through `f` in one of several ways and hands back what came out.
    template <typename T, typename F>
    std::vector<T> feed(const std::string& name, F& f, const std::vector<T>& x) {
        const auto n = x.size();
        std::vector<T> y(n + 2, T(-777));
        const auto how = draw(6);
        event("%s %zu samples, way %llu", name.c_str(), n, static_cast<unsigned long long>(how));
        switch (how) {
            case 0: for (std::size_t i = 0; i < n; ++i) y[i + 1] = f.tick(x[i]); break;
            case 1: f.filter(x.begin(), x.end(), y.begin() + 1); break;
            case 2:
                std::copy(x.begin(), x.end(), y.begin() + 1);
                f.filter(y.data() + 1, y.data() + 1 + n, y.data() + 1);
                break;
            case 3: {
                const std::deque<T> l(x.begin(), x.end());
                std::deque<T> d(n);
                f.filter(l.cbegin(), l.cend(), d.begin());
                std::copy(d.begin(), d.end(), y.begin() + 1);
                break;
            }
            case 4: {
                std::deque<T> g(n);
                f.filter(x.data(), x.data() + n, g.rbegin());
                std::reverse(g.begin(), g.end());
                std::copy(g.begin(), g.end(), y.begin() + 1);
                break;
            }
            case 5: {
                const std::vector<T> r(x.rbegin(), x.rend());
                f.filter(r.rbegin(), r.rend(), y.begin() + 1);
                break;
            }
        }
        SIM_CHECK(y.front() == T(-777) && y.back() == T(-777), "bounds", "%s wrote outside the output range", name.c_str());
        y.erase(y.begin());
        y.pop_back();
        add_sim_time_ns(static_cast<double>(n) * 1e9 / 48000);
        return y;
    }
    template <typename T>
    std::vector<T> block(signal<T>& in) {
        std::vector<T> x(in.shape && chance(20) ? large_size(67000) : size_near(80, {0, 1, 2, 3}));
        for (auto& v : x) v = in.next();
        return x;
    }

    // ---- one section against its difference equation ------------------------------------------------
    template <typename T>
    struct difference { // the last two inputs and outputs, zero before the last reset
        T x1{0}, x2{0}, y1{0}, y2{0};
        ld scale{0};
        bool lost{false}; // overflowed: nothing to compare until the next reset
        std::uint64_t n{0};
        void fresh() { *this = difference(); }
        void step(const char* who, const ef::biquad<T>& f, T x, T y) {
            ++n;
            const ld c[6] = {f.a0(), f.a1(), f.a2(), f.b0(), f.b1(), f.b2()};
            const ld terms[5] = {c[3] * x, c[4] * x1, c[5] * x2, -c[1] * y1, -c[2] * y2};
            ld want = 0, mag = 0;
            for (auto t : terms) {
                want += t;
                mag += std::fabs(t);
            }
            want /= c[0];
            scale = std::max(scale, mag / std::fabs(c[0]));
            if (!(scale < (sizeof(T) == 4 ? 1e28L : 1e200L))) lost = true;
            if (!lost) {
                const ld tol = 64 * static_cast<ld>(std::numeric_limits<T>::epsilon()) * scale + 64 * static_cast<ld>(std::numeric_limits<T>::min());
                SIM_CHECK(std::fabs(y - want) <= tol, "difference-equation", "%s: sample %llu since the last reset is %.9g, the difference equation gives %.9Lg (allowed %.3Lg)", who,
                          static_cast<unsigned long long>(n), static_cast<double>(y), want, tol);
            }
            x2 = x1, x1 = x, y2 = y1, y1 = y;
        }
    };
    template <typename T>
    ef::biquad<T> random_section(std::string& text) {
        char b[200];
        switch (draw(5)) {
            case 0: text = "pass-through"; return ef::biquad<T>();
            case 1: { // a pole and a zero
                const T p = static_cast<T>(0.1 * static_cast<double>(range(-9, 9))), z = coin() ? 1 : -1;
                const ef::biquad<T> f(std::complex<T>(p, 0), std::complex<T>(z, 0));
                SIM_CHECK(f.a0() == 1 && f.a1() == -p && f.a2() == 0, "pole", "a pole at %g gives a = %g %g %g", static_cast<double>(p), static_cast<double>(f.a0()), static_cast<double>(f.a1()), static_cast<double>(f.a2()));
                SIM_CHECK(f.b2() == 0 && f.b0() * z + f.b1() == 0 && f.b1() != 0, "zero", "the numerator does not vanish at %g", static_cast<double>(z));
                text = "pole and zero";
                return f;
            }
            case 2: { // pairs
                const T r = static_cast<T>(0.05 * static_cast<double>(range(1, 19))), w = static_cast<T>(0.1 * static_cast<double>(range(1, 30)));
                const auto p = std::polar(r, w), z = std::polar(static_cast<T>(1), w / 2);
                const bool rp = coin(), rz = coin();
                const std::complex<T> p1 = rp ? std::complex<T>(r, 0) : p, p2 = rp ? std::complex<T>(-r / 2, 0) : std::conj(p), z1 = rz ? std::complex<T>(1, 0) : z, z2 = rz ? std::complex<T>(-1, 0) : std::conj(z);
                const ef::biquad<T> f(p1, z1, p2, z2);
                const ld eps = 8 * static_cast<ld>(std::numeric_limits<T>::epsilon());
                const auto close = [&](T got, std::complex<T> a, std::complex<T> b2, bool sum) {
                    const auto v = sum ? -(a + b2) : a * b2;
                    return std::fabs(got - v.real()) <= 4 * eps;
                };
                SIM_CHECK(f.a0() == 1 && close(f.a1(), p1, p2, true) && close(f.a2(), p1, p2, false), "pole", "a pair of poles gives a = %g %g %g", static_cast<double>(f.a0()), static_cast<double>(f.a1()), static_cast<double>(f.a2()));
                SIM_CHECK(f.b0() == 1 && close(f.b1(), z1, z2, true) && close(f.b2(), z1, z2, false), "zero", "a pair of zeros gives b = %g %g %g", static_cast<double>(f.b0()), static_cast<double>(f.b1()), static_cast<double>(f.b2()));
                text = "pairs";
                return f;
            }
            default: {
                T c[6];
                for (auto& v : c) v = static_cast<T>(0.125 * static_cast<double>(range(-12, 12)));
                if (c[0] == 0) c[0] = 1;
                if (draw(4)) { // stable
                    c[2] = c[0] * static_cast<T>(0.1 * static_cast<double>(range(-9, 9)));
                    c[1] = (c[0] + c[2]) * static_cast<T>(0.1 * static_cast<double>(range(-9, 9)));
                }
                std::snprintf(b, sizeof b, "a=%g,%g,%g b=%g,%g,%g", static_cast<double>(c[0]), static_cast<double>(c[1]), static_cast<double>(c[2]), static_cast<double>(c[3]), static_cast<double>(c[4]), static_cast<double>(c[5]));
                text = b;
                const ef::biquad<T> f(c[0], c[1], c[2], c[3], c[4], c[5]);
                const T got[6] = {f.a0(), f.a1(), f.a2(), f.b0(), f.b1(), f.b2()};
                for (int i = 0; i < 6; ++i) { // the same transfer function, however it is scaled
                    const ld want = static_cast<ld>(c[i]) / c[0], g = static_cast<ld>(got[i]) / got[0];
                    SIM_CHECK(std::fabs(g - want) <= 4 * static_cast<ld>(std::numeric_limits<T>::epsilon()) * std::fabs(want), "coefficients", "coefficient %d of %s is %Lg relative to a0", i, b, g);
                }
                return f;
            }
        }
    }
    template <typename T>
    void check_stability(const char* who, const ef::biquad<T>& f) {
        const ld a1 = static_cast<ld>(f.a1()) / f.a0(), a2 = static_cast<ld>(f.a2()) / f.a0();
        const ld m1 = 1 - std::fabs(a2), m2 = 1 + a2 - std::fabs(a1);
        if (std::fabs(m1) < 1e-5L || std::fabs(m2) < 1e-5L || !std::isfinite(a1) || !std::isfinite(a2)) return; // on the border
        const bool want = m1 > 0 && m2 > 0;
        SIM_CHECK(f.stability() == want && static_cast<bool>(f) == want, "stability", "%s: stability() = %d for a1 %Lg, a2 %Lg", who, f.stability(), a1, a2);
    }

    template <typename T>
    struct section : base {
        ef::biquad<T> f;
        difference<T> d;
        signal<T> in;
        section(int id, const ef::biquad<T>& g, const std::string& text) : f(g) {
            name = "biquad" + std::to_string(id);
            in.shape = static_cast<unsigned>(draw(5));
            event("%s created: %s", name.c_str(), text.c_str());
            check_stability(name.c_str(), f);
        }
        section(int id, const section& o) : f(o.f), d(o.d), in(o.in) {
            name = "biquad" + std::to_string(id);
            event("%s copied from %s", name.c_str(), o.name.c_str());
        }
        void set() {
            const auto which = draw(6);
            const T v        = static_cast<T>(0.125 * static_cast<double>(range(which == 0 ? 1 : -8, 8)));
            event("%s coefficient %llu = %g", name.c_str(), static_cast<unsigned long long>(which), static_cast<double>(v));
            T want[6] = {f.a0(), f.a1(), f.a2(), f.b0(), f.b1(), f.b2()};
            switch (which) {
                case 0: f.set_a0(v); break;
                case 1: f.set_a1(v); break;
                case 2: f.set_a2(v); break;
                case 3: f.set_b0(v); break;
                case 4: f.set_b1(v); break;
                case 5: f.set_b2(v); break;
            }
            want[which]    = v;
            const T got[6] = {f.a0(), f.a1(), f.a2(), f.b0(), f.b1(), f.b2()};
            for (int i = 0; i < 6; ++i) SIM_CHECK(got[i] == want[i], "coefficients", "%s: coefficient %d is %g after setting %llu", name.c_str(), i, static_cast<double>(got[i]), static_cast<unsigned long long>(which));
            d.fresh();
            check_stability(name.c_str(), f);
        }
        void op(objects& all, int& next) override {
            cover(mix(11, mix(sizeof(T), mix(d.n < 4 ? d.n : 4, mix(f.stability(), f.a0() == 1)))));
            switch (draw(10)) {
                case 0: case 1: case 2: case 3: case 4: {
                    const auto x = block(in);
                    const auto y = feed(name, f, x);
                    for (std::size_t i = 0; i < x.size(); ++i) d.step(name.c_str(), f, x[i], y[i]);
                    break;
                }
                case 5:
                    f.reset();
                    d.fresh();
                    event("%s reset", name.c_str());
                    break;
                case 6: case 7: set(); break;
                case 8:
                    if (all.size() < 6) all.push_back(std::unique_ptr<base>(new section(next++, *this)));
                    break;
                case 9:
                    for (auto& o : all) {
                        auto* s = dynamic_cast<section*>(o.get());
                        if (s && s != this) {
                            f = s->f;
                            d = s->d;
                            event("%s assigned from %s", name.c_str(), s->name.c_str());
                            break;
                        }
                    }
                    break;
            }
        }
    };

    // ---- a cascade against its stages one after the other ---------------------------------------------
    template <typename T, std::size_t N>
    struct chain : base {
        ef::biquad_cascade<T, N> f;
        std::vector<ef::biquad<T>> stages; // the harness's own copies
        signal<T> in;
        chain(int id, const ef::biquad_cascade<T, N>& g, const char* how) : f(g) {
            name     = "cascade" + std::to_string(id);
            in.shape = static_cast<unsigned>(draw(5));
            for (std::size_t i = 0; i < f.size(); ++i) { // a designed cascade starts from rest
                stages.emplace_back(f[i].a0(), f[i].a1(), f[i].a2(), f[i].b0(), f[i].b1(), f[i].b2());
            }
            event("%s %s, %zu stages", name.c_str(), how, f.size());
            attributes();
        }
        chain(int id, const chain& o) : f(o.f), stages(o.stages), in(o.in) {
            name = "cascade" + std::to_string(id);
            event("%s copied from %s", name.c_str(), o.name.c_str());
            attributes();
        }
        void attributes() {
            SIM_CHECK(f.size() == stages.size(), "size", "%s: size() is %zu, %zu stages were added", name.c_str(), f.size(), stages.size());
            SIM_CHECK(f.max_size() == N && f.capacity() == N, "capacity", "%s: max_size() %zu, capacity() %zu, expected %zu", name.c_str(), f.max_size(), f.capacity(), N);
            std::size_t i  = 0;
            const auto& cf = f;
            SIM_CHECK(static_cast<std::size_t>(cf.end() - cf.begin()) == stages.size() && static_cast<std::size_t>(f.end() - f.begin()) == stages.size() && cf.cend() - cf.cbegin() == cf.end() - cf.begin(), "iteration", "%s: iteration does not cover the stages", name.c_str());
            for (const auto& s : cf) {
                const auto& w = stages[i];
                const auto& r = cf[i];
                SIM_CHECK(&r == &s, "iteration", "%s: stage %zu by index and by iterator differ", name.c_str(), i);
                const bool ok = same(s.a0(), w.a0()) && same(s.a1(), w.a1()) && same(s.a2(), w.a2()) && same(s.b0(), w.b0()) && same(s.b1(), w.b1()) && same(s.b2(), w.b2());
                SIM_CHECK(ok, "stage", "%s: stage %zu is not the one that was added there", name.c_str(), i);
                ++i;
            }
        }
        void run() {
            const auto x = block(in);
            const auto y = feed(name, f, x);
            for (std::size_t i = 0; i < x.size(); ++i) {
                T v = x[i];
                for (auto& s : stages) v = s.tick(v);
                SIM_CHECK(same(v, y[i]), "series", "%s: sample %zu of the block is %.9g, its stages one after the other give %.9g", name.c_str(), i, static_cast<double>(y[i]), static_cast<double>(v));
            }
        }
        void op(objects& all, int& next) override {
            cover(mix(12, mix(sizeof(T), mix(N, stages.size()))));
            std::string text;
            switch (draw(12)) {
                case 0: case 1: case 2: case 3: run(); break;
                case 4:
                    f.reset();
                    for (auto& s : stages) s = ef::biquad<T>(s.a0(), s.a1(), s.a2(), s.b0(), s.b1(), s.b2());
                    event("%s reset", name.c_str());
                    break;
                case 5:
                    if (draw(3) == 0) {
                        f.clear();
                        stages.clear();
                        event("%s cleared", name.c_str());
                    }
                    break;
                case 6: case 7:
                    if (stages.size() < N) {
                        auto s = random_section<T>(text);
                        for (auto k = draw(3) ? 0 : draw(5); k; --k) s.tick(in.next()); // a stage that is already running
                        f.push_back(s);
                        stages.push_back(s);
                        event("%s stage added: %s", name.c_str(), text.c_str());
                    }
                    break;
                case 8:
                    if (stages.size() < N) {
                        auto s = random_section<T>(text);
                        f.emplace_back(s.a0(), s.a1(), s.a2(), s.b0(), s.b1(), s.b2());
                        stages.emplace_back(s.a0(), s.a1(), s.a2(), s.b0(), s.b1(), s.b2());
                        event("%s stage emplaced: %s", name.c_str(), text.c_str());
                    }
                    break;
                case 9: // one stage is changed in place
                    if (!stages.empty()) {
                        const auto i = draw(stages.size());
                        const T v    = static_cast<T>(0.125 * static_cast<double>(range(-8, 8)));
                        if (coin()) f[i].set_b1(v);
                        else (f.begin() + static_cast<long>(i))->set_b1(v);
                        stages[i].set_b1(v);
                        event("%s stage %llu changed", name.c_str(), static_cast<unsigned long long>(i));
                    }
                    break;
                case 10:
                    if (all.size() < 6) all.push_back(std::unique_ptr<base>(new chain(next++, *this)));
                    break;
                case 11:
                    for (auto& o : all) {
                        auto* s = dynamic_cast<chain*>(o.get());
                        if (s && s != this) {
                            f      = s->f;
                            stages = s->stages;
                            event("%s assigned from %s", name.c_str(), s->name.c_str());
                            break;
                        }
                    }
                    break;
            }
            attributes();
        }
    };

    template <typename T>
    std::unique_ptr<base> wrap(int id, const ef::biquad<T>& f, const char* how) { return std::unique_ptr<base>(new section<T>(id, f, how)); }
    template <typename T, std::size_t N>
    std::unique_ptr<base> wrap(int id, const ef::biquad_cascade<T, N>& f, const char* how) { return std::unique_ptr<base>(new chain<T, N>(id, f, how)); }

    template <typename T>
    std::unique_ptr<base> design(int id) {
        const int kind = static_cast<int>(draw(designs));
        const auto v   = draw(variants);
        const int prec = sizeof(T) == 4;
        char how[64];
        std::snprintf(how, sizeof how, "design %d variant %llu %s", kind, static_cast<unsigned long long>(v), prec ? "float" : "double");
        std::unique_ptr<base> b;
        make<T>(kind, variant[v], [&](const auto& f) {
            const auto a  = read(f);
            const auto& r = ref(prec, kind, v);
            SIM_CHECK(a.n == r.n, "design", "%s: %llu stages, in a fresh process %llu", how, static_cast<unsigned long long>(a.n), static_cast<unsigned long long>(r.n));
            for (std::size_t i = 0; i < a.n && i < max_stages; ++i) {
                for (int k = 0; k < 6; ++k) SIM_CHECK(same(a.c[i][k], r.c[i][k]), "design", "%s: coefficient %d of stage %zu is %.17g, in a fresh process %.17g", how, k, i, a.c[i][k], r.c[i][k]);
            }
            count("designs");
            b = wrap(id, f, how);
        });
        return b;
    }
    std::unique_ptr<base> create(int id) {
        std::string text;
        switch (draw(8)) {
            case 0: { const auto f = random_section<double>(text); return std::unique_ptr<base>(new section<double>(id, f, text)); }
            case 1: { const auto f = random_section<float>(text); return std::unique_ptr<base>(new section<float>(id, f, text)); }
            case 2: return std::unique_ptr<base>(new chain<double, 3>(id, ef::biquad_cascade<double, 3>(), "created"));
            case 3: return std::unique_ptr<base>(new chain<float, 4>(id, ef::biquad_cascade<float, 4>(), "created"));
            case 4: case 5: return design<float>(id);
            default: return design<double>(id);
        }
    }
} // namespace

void prop_run() {
    silence_cout();
    objects all;
    int next = 0;
    all.reserve(8);
    while (more(40)) {
        span s;
        const auto what = draw(14);
        if (all.empty() || (what == 0 && all.size() < 5)) {
            all.push_back(create(next++));
        } else if (what == 1 && all.size() > 1) {
            const auto i = draw(all.size());
            event("%s destroyed", all[i]->name.c_str());
            all.erase(all.begin() + static_cast<long>(i));
        } else if (what == 2) { // designed and thrown away
            create(next++);
        } else {
            all[draw(all.size())]->op(all, next);
        }
    }
    nontrivial();
}
