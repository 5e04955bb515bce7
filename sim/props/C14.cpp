// C14: moving filters compute the statistic of the last N samples, after any history.
#include "../core/alloc.hpp"
#include "../core/quiet.hpp"
#include "../core/sim.hpp"
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
#include <algorithm>
#include <cmath>
#include <deque>
#include <limits>
#include <memory>
#include <sstream>
const char* const prop_id = "C14";
using namespace sim;

namespace {
    using ld    = long double;
    bool faults = false;

    // What the filter must know: the last N samples, and how much rounding it may have gathered.
    template <typename T>
    struct model {
        std::size_t n{1};
        std::deque<T> window;
        ld largest{0};
        std::uint64_t received{0};
        void fresh(std::size_t size) {
            n = size;
            window.assign(n, T());
            largest  = 0;
            received = 0;
        }
        void push(T v) {
            window.pop_front();
            window.push_back(v);
            largest = std::max(largest, std::fabs(static_cast<ld>(v)));
            ++received;
        }
        ld steps() const { return 8 + 4 * static_cast<ld>(received + n); }
    };
    struct average {
        static constexpr const char* name = "average";
        template <typename T> using filter = edsp::filter::moving_average<T>;
        template <typename T> static void check(const char* who, const model<T>& m, T got) {
            ld s = 0;
            for (auto v : m.window) s += v;
            s /= static_cast<ld>(m.n);
            const ld tol = m.steps() * std::numeric_limits<T>::epsilon() * m.largest;
            SIM_CHECK(std::fabs(got - s) <= tol, "wrong-average", "%s: %.9g after %llu samples, the mean of the last %zu is %.9Lg (allowed %.3Lg)",
                      who, static_cast<double>(got), static_cast<unsigned long long>(m.received), m.n, s, tol);
        }
    };
    struct rms {
        static constexpr const char* name = "rms";
        template <typename T> using filter = edsp::filter::moving_rms<T>;
        template <typename T> static void check(const char* who, const model<T>& m, T got) {
            ld s = 0;
            for (auto v : m.window) s += static_cast<ld>(v) * v;
            s /= static_cast<ld>(m.n);
            const ld tol = m.steps() * std::numeric_limits<T>::epsilon() * m.largest * m.largest;
            SIM_CHECK(got >= 0 && std::fabs(static_cast<ld>(got) * got - s) <= tol, "wrong-rms", "%s: %.9g after %llu samples, the mean square of the last %zu is %.9Lg (allowed %.3Lg)",
                      who, static_cast<double>(got), static_cast<unsigned long long>(m.received), m.n, s, tol);
        }
    };
    struct median {
        static constexpr const char* name = "median";
        template <typename T> using filter = edsp::filter::moving_median<T>;
        template <typename T> static void check(const char* who, const model<T>& m, T got) {
            std::vector<T> w(m.window.begin(), m.window.end());
            std::sort(w.begin(), w.end());
            const ld lo = w[(m.n - 1) / 2], hi = w[m.n / 2], mid = (lo + hi) / 2;
            const ld tol = 2 * std::numeric_limits<T>::epsilon() * std::max(std::fabs(lo), std::fabs(hi));
            SIM_CHECK(std::fabs(got - mid) <= tol, "wrong-median", "%s: %.9g after %llu samples, the median of the last %zu is %.9Lg",
                      who, static_cast<double>(got), static_cast<unsigned long long>(m.received), m.n, mid);
        }
    };

    struct base {
        std::string name;
        virtual ~base() = default;
        virtual void op(std::vector<std::unique_ptr<base>>& all, int& next) = 0;
    };

    // A stream of samples of a drawn character
    template <typename T>
    struct signal {
        unsigned shape{0};
        std::uint64_t t{0};
        double gain{1};
        T next() {
            ++t;
            switch (shape) {
                case 0: return static_cast<T>(gain * static_cast<double>(range(-8, 8)));
                case 1: return static_cast<T>(gain * std::sin(0.37 * static_cast<double>(t)));
                case 2: return static_cast<T>(t % 13 == 1 ? gain * 1000 : 0);        // impulses in silence
                case 3: return static_cast<T>(gain * (t % 2 ? 1 : -1) * static_cast<double>(t % 9));
                case 4: return static_cast<T>(gain * (draw(2) ? 1e6 : 1e-6) * static_cast<double>(range(-3, 3)));
                default: return static_cast<T>(gain * static_cast<double>(t));        // a ramp: every sample differs
            }
        }
    };

    template <typename T, typename Kind>
    struct unit : base {
        using F = typename Kind::template filter<T>;
        std::unique_ptr<F> f;
        model<T> m;
        signal<T> in;
        static constexpr bool slow = Kind::name[0] == 'm'; // the median sorts its window for every sample
        static std::size_t size() {
            if (chance(20)) return large_size(slow ? 2100 : 67000);
            return 1 + size_near(chance(100) ? 700 : 24, {0, 1, 2, 3, 7, 15});
        }
        explicit unit(int id) {
            name         = std::string(Kind::name) + (sizeof(T) == 4 ? "<float>" : "<double>") + std::to_string(id);
            const auto n = size();
            f.reset(new F(n));
            m.fresh(n);
            new_signal();
            event("%s created with %zu samples", name.c_str(), n);
            attributes();
        }
        unit(const unit& o, int id, bool move) : m(o.m), in(o.in) {
            name = std::string(Kind::name) + (sizeof(T) == 4 ? "<float>" : "<double>") + std::to_string(id);
            f.reset(move ? new F(std::move(*o.f)) : new F(*o.f));
            event("%s %s from %s", name.c_str(), move ? "moved" : "copied", o.name.c_str());
            attributes();
        }
        void new_signal() {
            in.shape = static_cast<unsigned>(draw(6));
            in.gain  = coin() ? 1.0 : real(0.001, 3.0);
        }
        void attributes() { SIM_CHECK(f->size() == m.n, "size", "%s: size() is %zu, it was given %zu", name.c_str(), f->size(), m.n); }

        // Long streams through long windows are judged at both ends and at points between.
        bool due(std::size_t i, std::size_t of) const {
            const auto every = m.n * of / 1000000;
            return every == 0 || i < 3 || of - i < 4 || i % (every + 1) == 0 || i % 4096 < 2;
        }
        // an implementation may look at the whole window for every sample
        std::size_t bearable() const { return 2 + (slow ? 700000 : 1400000) / m.n; }
        void tick(bool judged) {
            const T v = in.next();
            bool thrown = false;
            T got{};
            if (faults && chance(40)) alloc::arm(draw(3));
            try {
                got = (*f)(v);
            } catch (const std::bad_alloc&) { thrown = true; }
            if (alloc::disarm()) count("fault.alloc-in-tick");
            if (thrown) { // the sample may or may not have entered the window: start over
                f->reset();
                m.fresh(m.n);
                event("%s tick failed, reset", name.c_str());
                return;
            }
            m.push(v);
            if (judged) Kind::check(name.c_str(), m, got);
        }
        void judge(const std::vector<T>& x, const std::vector<T>& y) {
            for (std::size_t i = 0; i < x.size(); ++i) {
                m.push(x[i]);
                if (due(i, x.size())) Kind::check(name.c_str(), m, y[i]);
            }
            add_sim_time_ns(static_cast<double>(x.size()) * 1e9 / 48000);
        }
        void block() {
            const auto shape = in.shape;
            auto n = size_near(2 * m.n + 20, {0, 1, m.n - 1, m.n, m.n + 1});
            if (chance(20)) n = large_size(67000);
            n = std::min(n, bearable());
            if (n > 700 && (shape == 0 || shape == 4)) in.shape = 3;
            std::vector<T> x(n);
            for (auto& v : x) v = in.next();
            in.shape = shape;
            std::vector<T> y(n + 2, T(-777));
            const auto how = draw(5);
            event("%s block of %zu samples, way %llu", name.c_str(), n, static_cast<unsigned long long>(how));
            switch (how) {
                case 0: f->filter(x.begin(), x.end(), y.begin() + 1); break;
                case 1: { // in place
                    std::copy(x.begin(), x.end(), y.begin() + 1);
                    f->filter(y.data() + 1, y.data() + 1 + n, y.data() + 1);
                    break;
                }
                case 2: { // from one deque to another
                    const std::deque<T> l(x.begin(), x.end());
                    std::deque<T> d(n);
                    f->filter(l.cbegin(), l.cend(), d.begin());
                    std::copy(d.begin(), d.end(), y.begin() + 1);
                    break;
                }
                case 3: { // written backwards
                    std::deque<T> g(n);
                    f->filter(x.data(), x.data() + n, g.rbegin());
                    std::reverse(g.begin(), g.end());
                    std::copy(g.begin(), g.end(), y.begin() + 1);
                    break;
                }
                case 4: { // the last sample first, written backwards
                    std::vector<T> r(x.rbegin(), x.rend());
                    f->filter(r.rbegin(), r.rend(), y.begin() + 1);
                    break;
                }
            }
            SIM_CHECK(y.front() == T(-777) && y.back() == T(-777), "bounds", "%s wrote outside the output range", name.c_str());
            y.erase(y.begin());
            y.pop_back();
            judge(x, y);
        }
        void resize() {
            auto n = draw(4) ? size() : m.n;
            if (chance(30)) n = 0;
            bool thrown = false, refused = false;
            if (faults && coin()) alloc::arm(draw(3));
            try {
                f->resize(n);
            } catch (const std::bad_alloc&) {
                thrown = true;
            } catch (const std::invalid_argument&) { refused = true; }
            const bool hit = alloc::disarm() != 0;
            if (hit) count("fault.alloc-in-resize");
            event("%s resize %zu -> %zu%s", name.c_str(), m.n, n, thrown ? " failed" : refused ? " refused" : "");
            if (n == 0) {
                SIM_CHECK(thrown || refused, "zero-window", "%s: a window of no samples was accepted", name.c_str());
            } else {
                SIM_CHECK(!refused, "refused", "%s: a window of %zu samples was refused", name.c_str(), n);
                SIM_CHECK(!thrown || hit, "spurious-failure", "%s: resize failed without reason", name.c_str());
            }
            if (!thrown && !refused) m.fresh(n); // a failed resize leaves the filter as it was
            attributes();
        }
        void op(std::vector<std::unique_ptr<base>>& all, int& next) override {
            cover(mix(hash_bytes(Kind::name, 3), mix(sizeof(T), mix(m.n < 8 ? m.n : 8, mix(m.received < m.n, m.received % m.n < 4 ? m.received % m.n : 4)))));
            switch (draw(12)) {
                case 0: case 1: case 2: block(); break;
                case 3: case 4: case 5:
                {
                    const auto k = std::min(bearable(), 1 + size_near(std::min<std::size_t>(2 * m.n + 4, 1500), {m.n - 1, m.n, m.n + 1}));
                    for (std::size_t i = 0; i < k; ++i) tick(due(i, k));
                }
                    event("%s ticks, %llu received", name.c_str(), static_cast<unsigned long long>(m.received));
                    break;
                case 6: case 7:
                    f->reset();
                    m.fresh(m.n);
                    event("%s reset", name.c_str());
                    attributes();
                    break;
                case 8: resize(); break;
                case 9:
                    if (all.size() < 6) all.push_back(std::unique_ptr<base>(new unit(*this, next++, false)));
                    break;
                case 10: { // taken over, or assigned from another filter of the same kind
                    unit* other = nullptr;
                    for (auto& o : all) {
                        auto* u = dynamic_cast<unit*>(o.get());
                        if (u && u != this) other = u;
                    }
                    if (other) {
                        event("%s assigned from %s", name.c_str(), other->name.c_str());
                        *f = *other->f;
                        m  = other->m;
                        attributes();
                    } else {
                        std::unique_ptr<F> g(new F(std::move(*f)));
                        f = std::move(g);
                        event("%s moved", name.c_str());
                        attributes();
                    }
                    break;
                }
                case 11: new_signal(); break;
            }
        }
    };
    std::unique_ptr<base> create(int id) {
        switch (draw(6)) {
            case 0: return std::unique_ptr<base>(new unit<double, average>(id));
            case 1: return std::unique_ptr<base>(new unit<double, rms>(id));
            case 2: return std::unique_ptr<base>(new unit<double, median>(id));
            case 3: return std::unique_ptr<base>(new unit<float, average>(id));
            case 4: return std::unique_ptr<base>(new unit<float, rms>(id));
            default: return std::unique_ptr<base>(new unit<float, median>(id));
        }
    }
} // namespace

void prop_run() {
    silence_cout();
    faults = coin();
    std::vector<std::unique_ptr<base>> all;
    int next = 0;
    all.reserve(8);
    while (more(30)) {
        span s;
        const auto what = draw(16);
        if (all.empty() || (what == 0 && all.size() < 5)) {
            all.push_back(create(next++));
        } else if (what == 1 && all.size() > 1) {
            const auto i = draw(all.size());
            event("%s destroyed", all[i]->name.c_str());
            all.erase(all.begin() + static_cast<long>(i));
        } else {
            all[draw(all.size())]->op(all, next);
        }
    }
    nontrivial();
}
