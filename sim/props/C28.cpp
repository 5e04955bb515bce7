// C28: random numbers depend on the entropy read for them alone, stay in range, and a failing source is reported.
#include "../core/alloc.hpp"
#include "../core/sched.hpp"
#include "../core/seam_entropy.hpp"
#include "../core/sim.hpp"
#include <edsp/math/numeric.hpp>
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
const char* const prop_id = "C28";
using namespace sim;

namespace {
    using real_t = long double; // holds every value of every type asked for exactly
    struct request {
        const char* type{""};
        bool whole{false}, integral{false};
        real_t lo{0}, hi{0};
        std::function<real_t()> call;
    };
    struct attempt {
        const request* what{nullptr};
        entropy::reading in;
        int thread{0};
        // outcome
        bool threw{false};
        real_t value{0};
        std::string error;
    };

    template <typename T>
    request make(const char* type) {
        using lim = std::numeric_limits<T>;
        request r;
        r.type     = type;
        r.integral = std::is_integral<T>::value;
        if (draw(5) == 1) {
            r.whole = true;
            r.lo = lim::min(), r.hi = lim::max();
            r.call = [] { return static_cast<real_t>(edsp::math::rand<T>()); };
            return r;
        }
        T lo, hi;
        if (r.integral) {
            switch (draw(5)) {
                case 0: lo = static_cast<T>(lim::is_signed ? range(-20, 20) : range(0, 20)), hi = static_cast<T>(lo + static_cast<T>(draw(16))); break;
                case 1: lo = lim::min(), hi = lim::max(); break;
                case 2: lo = static_cast<T>(lim::max() - static_cast<T>(draw(9))), hi = lim::max(); break;
                case 3: lo = lim::min(), hi = static_cast<T>(lim::min() + static_cast<T>(draw(9))); break;
                default: lo = static_cast<T>(lim::min() / 3), hi = static_cast<T>(lim::max() / 5); break;
            }
        } else {
            const T scale[] = {T(1), T(1e-30), T(1e30), T(1000), lim::min(), lim::max() / 8};
            const T s       = scale[draw(6)];
            lo              = static_cast<T>(range(-4, 4)) * s;
            hi              = lo + static_cast<T>(range(0, 4)) * s;
            if (draw(8) == 1) {
                lo = T(1), hi = std::nextafter(T(1), T(2)); // two values only
            }
        }
        r.lo = lo, r.hi = hi;
        r.call = [lo, hi] { return static_cast<real_t>(edsp::math::rand<T>(lo, hi)); };
        return r;
    }
    request any() {
        switch (draw(9)) {
            case 0: return make<int>("int");
            case 1: return make<double>("double");
            case 2: return make<float>("float");
            case 3: return make<unsigned>("unsigned");
            case 4: return make<std::int64_t>("int64");
            case 5: return make<std::uint64_t>("uint64");
            case 6: return make<std::int16_t>("int16");
            case 7: return make<std::uint16_t>("uint16");
            default: return make<long double>("long double");
        }
    }

    void perform(attempt& a, bool quiet) {
        sched::yield("before");
        a.in.opens = a.in.closes = a.in.reads = a.in.failures = 0;
        entropy::use(&a.in);
        try {
            a.value = a.what->call();
            a.threw = false;
        } catch (const std::exception& e) {
            alloc::exempt ex;
            a.threw = true;
            a.error = e.what();
        }
        entropy::use(nullptr);
        alloc::exempt ex;
        if (!quiet) {
            event("t%d %s %s[%Lg, %Lg] stream %llu quality %d -> %s %.21Lg after %d readings", a.thread, a.what->type, a.what->whole ? "whole " : "", a.what->lo, a.what->hi,
                  static_cast<unsigned long long>(a.in.stream), a.in.q, a.threw ? "exception" : "value", a.threw ? 0.0L : a.value, static_cast<int>(a.in.reads));
        }
    }
    void judge(const attempt& a) {
        if (a.in.failures) {
            SIM_CHECK(a.threw, "made-up", "the entropy source failed, yet %s gave %.21Lg", a.what->type, a.value);
            SIM_CHECK(a.in.opens == a.in.closes, "device-leak", "a failed call opened the entropy source %d times and closed it %d times",
                      static_cast<int>(a.in.opens), static_cast<int>(a.in.closes));
            return;
        }
        SIM_CHECK(!a.threw, "raised", "%s in [%Lg, %Lg] raised %s", a.what->type, a.what->lo, a.what->hi, a.error.c_str());
        SIM_CHECK(a.value >= a.what->lo && a.value <= a.what->hi, "range", "%s gave %.21Lg, not in [%.21Lg, %.21Lg]", a.what->type, a.value, a.what->lo, a.what->hi);
        SIM_CHECK(!a.what->integral || a.value == std::floor(a.value), "range", "%s gave %.21Lg", a.what->type, a.value);
    }

    // Numbers from good entropy are spread evenly over the range
    void judge_spread(const request& r, std::vector<real_t>& v) {
        const auto n = static_cast<double>(v.size());
        std::sort(v.begin(), v.end());
        const real_t width = r.hi - r.lo;
        if (r.integral && width < 40) {
            const double p = 1.0 / static_cast<double>(width + 1);
            for (real_t x = r.lo; x <= r.hi; x += 1) {
                const auto c = static_cast<double>(std::upper_bound(v.begin(), v.end(), x) - std::lower_bound(v.begin(), v.end(), x));
                SIM_CHECK(std::fabs(c - n * p) <= 8 * std::sqrt(n * p * (1 - p)) + 1, "spread", "%.0f of %.0f numbers of %s in [%Lg, %Lg] are %Lg, not about %.1f", c, n, r.type, r.lo, r.hi, x, n * p);
            }
            return;
        }
        if (r.integral ? width < 1000 : !(width > 0 && std::nextafter(static_cast<float>(r.lo), INFINITY) - r.lo < width / 1000)) {
            return;
        }
        for (int k = 1; k < 8; ++k) {
            const double p = k / 8.0;
            const auto c   = static_cast<double>(std::upper_bound(v.begin(), v.end(), r.lo + width * static_cast<real_t>(p)) - v.begin());
            SIM_CHECK(std::fabs(c - n * p) <= 8 * std::sqrt(n * p * (1 - p)) + n / 500 + 1, "spread", "%.0f of %.0f numbers of %s in [%Lg, %Lg] are in the first %d eighths", c, n, r.type, r.lo, r.hi, k);
        }
    }
} // namespace

void prop_run() {
    sim::clock_.active  = true;
    sim::clock_.wall_ns = 1500000000000000000ll + range(-1000000, 1000000) * 1000003;
    sim::clock_.step_ns = draw(3) ? 0 : 1 + static_cast<std::int64_t>(draw(2000000000));
    std::vector<request> requests;
    for (std::size_t i = 0, n = 1 + draw(4); i < n; ++i) {
        requests.push_back(any());
    }
    const auto threads = 1 + draw(4);
    const auto faults  = draw(3) == 1 ? 200u : 0u;
    std::uint64_t stream = draw(1u << 30);
    std::vector<std::vector<attempt>> plan(threads);
    for (std::size_t t = 0; t < threads; ++t) {
        while (more(6) && plan[t].size() < 16) {
            span s;
            attempt a;
            a.thread    = static_cast<int>(t);
            a.what      = &requests[draw(requests.size())];
            a.in.stream = draw(6) == 1 ? stream : ++stream; // sometimes the same readings twice
            a.in.q      = draw(6) == 1 ? static_cast<entropy::quality>(draw(4)) : entropy::good;
            if (chance(faults)) {
                (coin() ? a.in.fail_open : a.in.fail_read) = 0;
            }
            plan[t].push_back(a);
        }
    }
    event("%d threads", static_cast<int>(threads));
    std::vector<std::function<void()>> bodies;
    for (auto& p : plan) {
        bodies.push_back([&p] {
            for (auto& a : p) {
                perform(a, false);
            }
        });
    }
    const bool oom = draw(5) == 1;
    if (oom) {
        alloc::arm(draw(8), 1 + draw(3));
    }
    sched::run(bodies, {400, 10});
    const bool hit = oom && alloc::disarm();
    if (hit) {
        count("fault.alloc-fail");
    }
    alloc::exempt ex;
    if (sched::switches()) {
        nontrivial();
    }
    SIM_CHECK(entropy::open_devices() <= static_cast<long>(threads) + 1, "device-leak", "%ld entropy sources are open", entropy::open_devices());
    // the same readings again, alone, at another time and in another order
    sim::clock_.wall_ns += 1 + static_cast<std::int64_t>(draw(1ull << 40));
    std::map<std::pair<const request*, std::uint64_t>, real_t> known;
    std::vector<attempt*> all;
    for (auto& p : plan) {
        for (auto& a : p) {
            if (hit && a.threw && a.error.find("alloc") != std::string::npos) {
                continue;
            }
            judge(a);
            all.push_back(&a);
        }
    }
    std::reverse(all.begin(), all.end());
    for (auto* a : all) {
        attempt twin = *a;
        perform(twin, true);
        judge(twin);
        SIM_CHECK(twin.threw == a->threw && (twin.threw || twin.value == a->value), "history", "%s in [%Lg, %Lg] gave %.21Lg, with the same entropy later %.21Lg", a->what->type,
                  a->what->lo, a->what->hi, a->value, twin.value);
        cover(mix(mix(a->what->integral, a->what->whole), mix(a->in.q, a->threw)));
    }
    if (draw(3) == 1) {
        const auto& r = requests[draw(requests.size())];
        std::vector<real_t> v;
        attempt a;
        a.what = &r;
        for (int i = 0, n = 200 + static_cast<int>(draw(1500)); i < n; ++i) {
            a.in.stream = ++stream;
            perform(a, true);
            judge(a);
            v.push_back(a.value);
        }
        SIM_CHECK(entropy::open_devices() <= static_cast<long>(threads) + 1, "device-leak", "%ld entropy sources are open", entropy::open_devices());
        event("spread of %d numbers of %s in [%Lg, %Lg]", static_cast<int>(v.size()), r.type, r.lo, r.hi);
        judge_spread(r, v);
        count("probe.spread");
    }
}
