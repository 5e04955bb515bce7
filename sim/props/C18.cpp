// C18: generators draw only on the clock reading at their construction, stay in range and follow their distribution.
#include "../core/quiet.hpp"
#include "../core/sim.hpp"
#include <edsp/random.hpp>
#include <edsp/random/random_generator.hpp>
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <random>
const char* const prop_id = "C18";
using namespace sim;
namespace er = edsp::random;

namespace {
    struct gen {
        virtual ~gen() = default;
        virtual double operator()() = 0;
        virtual gen* clone() const = 0;
    };
    using gen_ptr = std::unique_ptr<gen>;
    template <typename G>
    struct holder : gen {
        G g;
        explicit holder(const G& x) : g(x) {}
        double operator()() override { return static_cast<double>(g()); }
        gen* clone() const override { return new holder(g); }
    };
    template <typename G> gen_ptr hold(const G& g) { return gen_ptr(new holder<G>(g)); }

    // What is asked for; enough to ask for it again.
    struct request {
        std::string name;
        std::function<gen_ptr()> build;
        std::function<double(std::mt19937_64&)> reference; // the distribution asked for, if there is one
        double lo{-INFINITY}, hi{INFINITY};
        bool continuous{true}; // a value hardly ever repeats
        enum { any, independent, smooth } colour{independent};
    };

    template <er::DistributionType D, typename T, typename Ref, typename... A>
    request from_std(const char* name, double lo, double hi, bool continuous, A... a) {
        request r;
        r.name       = name;
        r.build      = [=]() { return hold(er::random_generator<D, T>(a...)); };
        auto dist    = std::make_shared<Ref>(a...);
        r.reference  = [dist](std::mt19937_64& e) { return static_cast<double>((*dist)(e)); };
        r.lo = lo, r.hi = hi, r.continuous = continuous;
        return r;
    }
    template <typename T>
    T share() { return static_cast<T>(0.05 * static_cast<double>(range(1, 19))); }
    template <typename T>
    T positive() { return static_cast<T>(0.25 * static_cast<double>(range(1, 20))); }

    template <typename T>
    request named() {
        using D   = er::DistributionType;
        const T a = positive<T>(), b = positive<T>();
        const T x = static_cast<T>(range(-8, 8));
        static const T w[] = {1, 2, 4, 5};
        switch (draw(18)) {
            case 0: return from_std<D::Uniform, T, std::uniform_real_distribution<T>>("uniform", x, x + a, true, x, static_cast<T>(x + a));
            case 1: {
                const T p = draw(4) ? share<T>() : static_cast<T>(draw(2));
                auto r    = from_std<D::Bernoulli, T, std::bernoulli_distribution>("bernoulli", p == 1, p != 0, false, static_cast<double>(p));
                return r;
            }
            case 2: { const int n = static_cast<int>(range(1, 30)); return from_std<D::Binomial, int, std::binomial_distribution<int>>("binomial", 0, n, false, n, share<double>()); }
            case 3: return from_std<D::Geometric, int, std::geometric_distribution<int>>("geometric", 0, INFINITY, false, share<double>());
            case 4: return from_std<D::Poisson, int, std::poisson_distribution<int>>("poisson", 0, INFINITY, false, static_cast<double>(a));
            case 5: return from_std<D::Exponential, T, std::exponential_distribution<T>>("exponential", 0, INFINITY, true, a);
            case 6: return from_std<D::Gamma, T, std::gamma_distribution<T>>("gamma", 0, INFINITY, true, a, b);
            case 7: return from_std<D::Weibull, T, std::weibull_distribution<T>>("weibull", 0, INFINITY, true, a, b);
            case 8: return from_std<D::ExtremeValue, T, std::extreme_value_distribution<T>>("extreme value", -INFINITY, INFINITY, true, x, b);
            case 9: return from_std<D::Normal, T, std::normal_distribution<T>>("normal", -INFINITY, INFINITY, true, x, b);
            case 10: return from_std<D::LogNormal, T, std::lognormal_distribution<T>>("log-normal", 0, INFINITY, true, static_cast<T>(x / 8), static_cast<T>(b / 8));
            case 11: return from_std<D::ChiSquared, T, std::chi_squared_distribution<T>>("chi-squared", 0, INFINITY, true, a);
            case 12: return from_std<D::Cauchy, T, std::cauchy_distribution<T>>("cauchy", -INFINITY, INFINITY, true, x, b);
            case 13: return from_std<D::Fisher, T, std::fisher_f_distribution<T>>("fisher", 0, INFINITY, true, a, b);
            case 14: return from_std<D::Student, T, std::student_t_distribution<T>>("student", -INFINITY, INFINITY, true, a);
            case 15: return from_std<D::Discrete, int, std::discrete_distribution<int>>("discrete", 0, 3, false, w, w + 4);
            case 16: return from_std<D::PieceWiseConstant, T, std::piecewise_constant_distribution<T>>("piecewise constant", 1, 5, true, w, w + 4, w);
            default: return from_std<D::PieceWiseLinear, T, std::piecewise_linear_distribution<T>>("piecewise linear", 1, 5, true, w, w + 4, w);
        }
    }
    template <typename T, typename Engine>
    request noise() {
        request r;
        const T lo = static_cast<T>(draw(3) ? -1 : 0.5 * static_cast<double>(range(-8, 2))), hi = static_cast<T>(lo == -1 ? 1 : lo + positive<T>());
        const double peak = std::max(std::fabs(static_cast<double>(lo)), std::fabs(static_cast<double>(hi)));
        const bool flat   = lo == -hi;
        switch (draw(7)) {
            case 0: {
                r.name      = "white noise";
                r.build     = [=]() { return hold(er::white_noise_generator<T, Engine>(lo, hi)); };
                r.reference = [=](std::mt19937_64& e) { return static_cast<double>(std::uniform_real_distribution<T>(lo, hi)(e)); };
                r.lo = lo, r.hi = hi;
                break;
            }
            case 1: {
                const int a = static_cast<int>(range(-20, 0)), b = static_cast<int>(range(0, 20));
                r.name      = "white noise of integers";
                r.build     = [=]() { return hold(er::white_noise_generator<int, Engine>(a, b)); };
                r.reference = [=](std::mt19937_64& e) { return static_cast<double>(std::uniform_int_distribution<int>(a, b)(e)); };
                r.lo = a, r.hi = b, r.continuous = false;
                break;
            }
            case 2: // the sum of the filter's absolute impulse response bounds it
                r.name   = "pink noise";
                r.build  = [=]() { return hold(er::pink_noise_generator<T, Engine>(lo, hi)); };
                r.lo     = -7.61 * peak, r.hi = 7.61 * peak;
                r.colour = flat ? request::smooth : request::any;
                break;
            case 3:
                r.name   = "brown noise";
                r.build  = [=]() { return hold(er::brown_noise_generator<T, Engine>(lo, hi)); };
                r.lo     = -3.5001 * peak, r.hi = 3.5001 * peak;
                r.colour = flat ? request::smooth : request::any;
                break;
            case 4:
                r.name  = "perlin noise";
                r.build = [=]() { return hold(er::perlin_noise_generator<T, Engine>()); };
                r.lo = -1, r.hi = 1;
                break;
            case 5: {
                const T p   = draw(3) ? share<T>() : static_cast<T>(draw(2));
                r.name      = "binary";
                r.build     = [=]() { return hold(er::binary_generator<T, Engine>(p)); };
                r.reference = [=](std::mt19937_64& e) { return static_cast<double>(std::bernoulli_distribution(static_cast<double>(p))(e)); };
                r.lo = p == 1, r.hi = p != 0, r.continuous = false;
                break;
            }
            default:
                r.name  = "constant";
                r.build = [=]() { return hold(er::constant_generator<T>(lo)); };
                r.lo = r.hi = lo, r.continuous = false, r.colour = request::any;
        }
        return r;
    }
    request draw_request() {
        switch (draw(6)) {
            case 0: return noise<double, std::mt19937>();
            case 1: return noise<float, std::mt19937>();
            case 2: return noise<double, std::mt19937_64>();
            case 3: return noise<float, std::minstd_rand>();
            case 4: return named<double>();
            default: return named<float>();
        }
    }

    // ---- the clock ------------------------------------------------------------------------------------------
    std::int64_t draw_reading() {
        switch (draw(8)) {
            case 0: return 1600000000000000000 + static_cast<std::int64_t>(draw(1000000000)) * 1000000;
            case 1: return 0;
            case 2: return -1 - static_cast<std::int64_t>(draw(2000000000));
            case 3: return std::numeric_limits<std::int64_t>::max() - static_cast<std::int64_t>(draw(3));
            case 4: return std::numeric_limits<std::int64_t>::min() + static_cast<std::int64_t>(draw(3)) + 1000000000;
            case 5: return static_cast<std::int64_t>(draw(10)) << 32; // the low half is zero
            case 6: return clock_.wall_ns;                              // stalled: the same reading again
            default: return clock_.wall_ns - static_cast<std::int64_t>(draw(1000000000)) * 4; // backwards
        }
    }
    void set_clock(std::int64_t ns) {
        clock_.active  = true;
        clock_.wall_ns = ns;
        clock_.step_ns = 0;
    }

    struct unit {
        std::string name;
        request want;
        std::int64_t reading;
        gen_ptr g;
        std::vector<double> seq;
        unit(int id, const request& r) : want(r), reading(draw_reading()) {
            name = r.name + " " + std::to_string(id);
            set_clock(reading);
            g = want.build();
            event("%s built at %lld", name.c_str(), static_cast<long long>(reading));
        }
        void draw_values(std::size_t n) {
            for (std::size_t i = 0; i < n; ++i) {
                if (draw(8) == 1) { // time jumps in the middle of a sequence
                    set_clock(draw_reading());
                    count("fault.clock-jump");
                }
                const double v = (*g)();
                SIM_CHECK(v >= want.lo && v <= want.hi, "range", "%s: value %zu is %.17g, allowed are %.9g to %.9g", name.c_str(), seq.size(), v, want.lo, want.hi);
                seq.push_back(v);
            }
            event("%s draws %zu, up to %.9g", name.c_str(), n, seq.back());
        }
        void draw_many(std::size_t n) { // a long piece of the sequence, with a few jumps of time in it
            for (std::size_t i = 0; i < n; ++i) {
                if (i % (n / 3 + 1) == n / 4) {
                    set_clock(draw_reading());
                    count("fault.clock-jump");
                }
                const double v = (*g)();
                SIM_CHECK(v >= want.lo && v <= want.hi, "range", "%s: value %zu is %.17g, allowed are %.9g to %.9g", name.c_str(), seq.size(), v, want.lo, want.hi);
                seq.push_back(v);
            }
            event("%s draws %zu, up to %.9g", name.c_str(), n, seq.back());
            count("probe.long-sequence");
        }
        static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
        void twin() {
            const auto keep = clock_.wall_ns;
            set_clock(reading);
            auto t = want.build();
            if (coin()) set_clock(keep);
            event("%s twin", name.c_str());
            for (std::size_t i = 0; i < seq.size(); ++i) {
                const double v = (*t)();
                SIM_CHECK(same(v, seq[i]), "twin", "%s: value %zu was %.17g, a twin built at the same reading gives %.17g", name.c_str(), i, seq[i], v);
            }
        }
        void copy() { // a copy goes on like the original, each on its own
            gen_ptr c(g->clone());
            const auto n    = 1 + draw(40);
            const auto from = seq.size();
            event("%s copied", name.c_str());
            if (coin()) {
                draw_values(n);
                for (std::size_t i = 0; i < n; ++i) {
                    const double v = (*c)();
                    SIM_CHECK(same(v, seq[from + i]), "copy", "%s: a copy's value %zu is %.17g, the original's %.17g", name.c_str(), i, v, seq[from + i]);
                }
            } else {
                std::vector<double> ahead;
                for (std::size_t i = 0; i < n; ++i) ahead.push_back((*c)());
                draw_values(n);
                for (std::size_t i = 0; i < n; ++i) SIM_CHECK(same(ahead[i], seq[from + i]), "copy", "%s: a copy's value %zu is %.17g, the original's %.17g", name.c_str(), i, ahead[i], seq[from + i]);
            }
        }
        void elsewhen() { // another reading, another sequence
            if (!want.continuous || seq.size() < 4) return;
            static const std::int64_t apart[] = {1000000000, 1000003, 60000000000, -1000000000, 86400000000000};
            auto other = reading;
            if (__builtin_add_overflow(reading, apart[draw(5)], &other)) return;
            const auto keep = clock_.wall_ns;
            set_clock(other);
            auto t = want.build();
            set_clock(keep);
            event("%s elsewhen", name.c_str());
            bool differ = false, late = seq.size() < 1000; // and the two never merge into one
            for (std::size_t i = 0; i < seq.size(); ++i) {
                const bool here = !same((*t)(), seq[i]);
                differ |= here;
                if (i + 64 >= seq.size()) late |= here;
            }
            SIM_CHECK(late || !differ, "clock-forgotten", "%s: built at readings %lld and %lld it gives the same last 64 of %zu values", name.c_str(), static_cast<long long>(reading), static_cast<long long>(other), seq.size());
            SIM_CHECK(differ, "clock-ignored", "%s: built at readings %lld and %lld it gives the same %zu values", name.c_str(), static_cast<long long>(reading), static_cast<long long>(other), seq.size());
        }
        void character() { // many values, against the distribution asked for
            const std::size_t n = 1500;
            gen_ptr c(g->clone());
            std::vector<double> y(n);
            for (auto& v : y) v = (*c)();
            event("%s character", name.c_str());
            count("characters");
            for (auto v : y) SIM_CHECK(v >= want.lo && v <= want.hi, "range", "%s: %.17g, allowed are %.9g to %.9g", name.c_str(), v, want.lo, want.hi);
            if (want.reference) {
                const std::size_t m = 3000;
                std::mt19937_64 e(12345);
                std::vector<double> r(m);
                for (auto& v : r) v = want.reference(e);
                std::sort(r.begin(), r.end());
                for (const double q : {0.05, 0.25, 0.5, 0.75, 0.95}) {
                    const double x  = r[static_cast<std::size_t>(q * m)];
                    const double p1 = static_cast<double>(std::count_if(r.begin(), r.end(), [x](double v) { return v < x; })) / m, p2 = static_cast<double>(std::count_if(y.begin(), y.end(), [x](double v) { return v < x; })) / n;
                    const double p  = std::min(0.99, std::max(0.01, p1));
                    const double s  = std::sqrt(p * (1 - p) * (1.0 / n + 1.0 / m));
                    SIM_CHECK(std::fabs(p1 - p2) < 8 * s, "distribution", "%s: a share of %.3f of its values is below %.9g, %.3f was asked for (8 sigma are %.3f)", name.c_str(), p2, x, p1, 8 * s);
                }
            }
            if (want.continuous && want.colour != request::any) {
                // neighbours: independent for white noise, alike for pink and brown; ranks resist heavy tails
                std::vector<double> s(y);
                std::sort(s.begin(), s.end());
                double r = 0;
                for (std::size_t i = 0; i + 1 < n; ++i) r += ((y[i] > s[n / 2]) == (y[i + 1] > s[n / 2])) ? 1 : -1;
                r /= n - 1;
                if (want.colour == request::independent) SIM_CHECK(std::fabs(r) < 8 / std::sqrt(static_cast<double>(n)), "distribution", "%s: neighbouring values are correlated (%.3f)", name.c_str(), r);
                else SIM_CHECK(r > 8 / std::sqrt(static_cast<double>(n)), "distribution", "%s: neighbouring values are not alike (%.3f)", name.c_str(), r);
            }
        }
    };
} // namespace

void prop_run() {
    silence_cout();
    set_clock(1600000000000000000);
    std::vector<std::unique_ptr<unit>> all;
    int next = 0;
    while (more(40)) {
        span s;
        const auto what = draw(16);
        if (all.empty() || (what < 3 && all.size() < 8)) {
            all.emplace_back(new unit(next++, draw_request()));
        } else if (what == 3 && all.size() > 1) {
            const auto i = draw(all.size());
            event("%s destroyed", all[i]->name.c_str());
            all.erase(all.begin() + static_cast<long>(i));
        } else if (what == 4) {
            set_clock(draw_reading());
            count("fault.clock-jump");
            event("clock %lld", static_cast<long long>(clock_.wall_ns));
        } else {
            auto& u = *all[draw(all.size())];
            cover(mix(hash_bytes(u.want.name.data(), u.want.name.size()), mix(u.reading < 0, mix(u.reading == 0, u.seq.size() < 3 ? u.seq.size() : 3))));
            if (u.seq.empty()) u.draw_values(1);
            switch (draw(10)) {
                case 0: case 1: u.twin(); break;
                case 2: u.copy(); break;
                case 3: u.elsewhen(); break;
                case 4: if (draw(3) == 0) u.character(); break;
                case 5:
                    if (draw(40) == 1 && u.seq.size() < 100000) {
                        static const std::size_t many[] = {1000, 3000, 6000, 10000, 30000, 70000, 140000};
                        u.draw_many(many[draw(7)]);
                        break;
                    }
                    [[fallthrough]];
                default: u.draw_values(1 + draw(60));
            }
        }
    }
    for (auto& u : all) u->twin();
    nontrivial();
}
