#include <deque>
// C17: envelopes follow their stages, stay bounded and always come to rest.
#include "../core/quiet.hpp"
#include "../core/sim.hpp"
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
const char* const prop_id = "C17";
using namespace sim;

namespace {
    using ld = long double;
    struct base {
        std::string name;
        virtual ~base() = default;
        virtual void op(std::vector<std::unique_ptr<base>>& all, int& next) = 0;
        virtual void finish() = 0; // no more events: the envelope must come to rest
    };
    using objects = std::vector<std::unique_ptr<base>>;
    std::size_t block_size() { return draw(150) == 1 ? large_size(17000) : 1 + size_near(120, {0, 1, 2}); }

    template <typename T, typename F>
    std::vector<T> feed(const std::string& name, F& f, const std::vector<T>& x) {
        const auto n = x.size();
        std::vector<T> y(n + 2, T(-777));
        const auto how = draw(4);
        event("%s %zu samples, way %llu", name.c_str(), n, static_cast<unsigned long long>(how));
        switch (how) {
            case 0: for (std::size_t i = 0; i < n; ++i) y[i + 1] = f(x[i]); break;
            case 1: f.apply(x.begin(), x.end(), y.begin() + 1); break;
            case 2:
                std::copy(x.begin(), x.end(), y.begin() + 1);
                f.apply(y.data() + 1, y.data() + 1 + n, y.data() + 1);
                break;
            case 3: {
                const std::deque<T> l(x.begin(), x.end());
                std::deque<T> g(n);
                f.apply(l.cbegin(), l.cend(), g.rbegin());
                std::reverse(g.begin(), g.end());
                std::copy(g.begin(), g.end(), y.begin() + 1);
                break;
            }
        }
        SIM_CHECK(y.front() == T(-777) && y.back() == T(-777), "bounds", "%s wrote outside the output range", name.c_str());
        y.erase(y.begin());
        y.pop_back();
        add_sim_time_ns(static_cast<double>(n) * 1e9 / 44100);
        return y;
    }

    // ---- ADSR ------------------------------------------------------------------------------------------
    enum stage { idle, attack, decay, sustain, release };
    const char* const stage_names[] = {"idle", "attack", "decay", "sustain", "release"};
    template <typename T>
    struct adsr_model { // the envelope as documented, one step per sample
        stage s{idle};
        T rate{44100}, target{0}, level{0}, up{static_cast<T>(0.001)}, down{static_cast<T>(0.001)}, out{static_cast<T>(0.001)}, hold{static_cast<T>(0.5)}, out_time{-1};
        T highest{1}; // largest level any stage was ever asked to reach
        std::uint64_t steps{0};
        void key_on() {
            if (target <= 0) target = 1;
            s = attack;
            aim(target);
        }
        void key_off() {
            target = 0;
            s      = release;
            if (out_time > 0) out = level / (out_time * rate);
        }
        void aim(T v) { highest = std::max(highest, v); }
        T step() {
            ++steps;
            switch (s) {
                case attack:
                    level += up;
                    if (level >= target) level = target, target = hold, s = decay;
                    break;
                case decay:
                    if (level > hold) {
                        level -= down;
                        if (level <= hold) level = hold, s = sustain;
                    } else {
                        level += down;
                        if (level >= hold) level = hold, s = sustain;
                    }
                    break;
                case release:
                    level -= out;
                    if (level <= 0) level = 0, s = idle;
                    break;
                default: break;
            }
            return level;
        }
    };
    template <typename T>
    struct adsr_unit : base {
        using env = edsp::envelope::adsr<T>;
        env e;
        adsr_model<T> m;
        static double d(T v) { return static_cast<double>(v); }
        explicit adsr_unit(int id) {
            label(id);
            event("%s created", name.c_str());
            accessors();
        }
        adsr_unit(int id, const adsr_unit& o) : e(o.e), m(o.m) {
            label(id);
            event("%s copied from %s", name.c_str(), o.name.c_str());
            accessors();
        }
        void label(int id) { name = std::string("adsr") + (sizeof(T) == 4 ? "<float>" : "<double>") + std::to_string(id); }
        static bool near(T a, ld b) { return std::fabs(a - b) <= 16 * static_cast<ld>(std::numeric_limits<T>::epsilon()) * std::fabs(b) + 1e-30L; }
        void accessors() {
            SIM_CHECK(near(e.sample_rate(), m.rate), "accessor", "%s: sample_rate() is %g, expected %g", name.c_str(), d(e.sample_rate()), d(m.rate));
            SIM_CHECK(near(e.attack_rate(), m.up), "accessor", "%s: attack_rate() is %g, expected %g", name.c_str(), d(e.attack_rate()), d(m.up));
            SIM_CHECK(near(e.decay_rate(), m.down), "accessor", "%s: decay_rate() is %g, expected %g", name.c_str(), d(e.decay_rate()), d(m.down));
            SIM_CHECK(near(e.release_rate(), m.out), "accessor", "%s: release_rate() is %g, expected %g", name.c_str(), d(e.release_rate()), d(m.out));
            SIM_CHECK(near(e.sustain_level(), m.hold), "accessor", "%s: sustain_level() is %g, expected %g", name.c_str(), d(e.sustain_level()), d(m.hold));
            SIM_CHECK(near(e.attack_target(), m.target), "accessor", "%s: attack_target() is %g, expected %g", name.c_str(), d(e.attack_target()), d(m.target));
            if (m.out_time > 0) SIM_CHECK(near(e.release_time(), m.out_time), "accessor", "%s: release_time() is %g, expected %g", name.c_str(), d(e.release_time()), d(m.out_time));
            if (m.up > 0) SIM_CHECK(near(e.attack_time(), 1 / (static_cast<ld>(m.up) * m.rate)), "accessor", "%s: attack_time() is %g", name.c_str(), d(e.attack_time()));
        }
        void judge(const T* y, const T* x, std::size_t n) {
            for (std::size_t i = 0; i < n; ++i) {
                const auto was = m.s;
                const T before = m.level;
                const T want   = m.step();
                const ld eps   = std::numeric_limits<T>::epsilon();
                const ld tol   = 4 * eps * std::fabs(static_cast<ld>(want) * x[i]) + static_cast<ld>(std::numeric_limits<T>::min());
                SIM_CHECK(std::fabs(y[i] - static_cast<ld>(want) * x[i]) <= tol, "level", "%s: %.9g times an input of %g in stage %s, the level goes from %.9g to %.9g",
                          name.c_str(), d(y[i]), d(x[i]), stage_names[was], d(before), d(want));
                SIM_CHECK(x[i] != 1 || (y[i] >= 0 && y[i] <= m.highest), "bounds", "%s: level %g, the targets so far allow 0 to %g", name.c_str(), d(y[i]), d(m.highest));
            }
        }
        void run(std::size_t n) {
            std::vector<T> x(n, T(1));
            if (n > 130) { // a long block, whatever it holds
                for (std::size_t i = 0; i < n; ++i) x[i] = static_cast<T>(i % 3 == 0 ? 1 : i % 3 == 1 ? -0.75 : 0.5);
                count("probe.long-block");
            } else if (draw(3) == 1) {
                for (std::size_t i = 0; i < n; ++i) x[i] = static_cast<T>(0.25 * static_cast<double>(range(-6, 6)));
            }
            const auto y = feed(name, e, x);
            judge(y.data(), x.data(), n);
            accessors();
        }
        static T draw_rate() {
            switch (draw(5)) {
                case 0: return static_cast<T>(0.001);
                case 1: return static_cast<T>(real(0.001, 0.2));
                case 2: return static_cast<T>(0.125);
                case 3: return static_cast<T>(real(0.2, 3));
                default: return draw(4) ? static_cast<T>(1) : static_cast<T>(0);
            }
        }
        static T draw_level() {
            static const double l[] = {0.5, 1, 0, 0.25, 0.9, 1.5, 2};
            return static_cast<T>(coin() ? l[draw(7)] : real(0, 1.5));
        }
        static T draw_time() { return static_cast<T>(draw(3) ? real(0.0001, 0.01) : 0.001); }
        void control() {
            T v{};
            switch (draw(9)) {
                case 0: v = draw_rate(); e.set_attack_rate(v); m.up = v; event("%s attack rate %g", name.c_str(), d(v)); break;
                case 1: v = draw_rate(); e.set_decay_rate(v); m.down = v; event("%s decay rate %g", name.c_str(), d(v)); break;
                case 2: v = draw_rate(); e.set_release_rate(v); m.out = v, m.out_time = -1; event("%s release rate %g", name.c_str(), d(v)); break;
                case 3: v = draw_level(); e.set_sustain_level(v); m.hold = v; m.aim(v); event("%s sustain level %g", name.c_str(), d(v)); break;
                case 4: v = draw_level(); e.set_attack_target(v); m.target = std::max(v, static_cast<T>(0.000000001)); m.aim(v); event("%s attack target %g", name.c_str(), d(v)); break;
                case 5: v = draw_time(); e.set_attack_time(v); m.up = e.attack_rate(); event("%s attack time %g", name.c_str(), d(v)); SIM_CHECK(near(m.up, 1 / (static_cast<ld>(v) * m.rate)), "accessor", "%s: attack_rate() is %g for %g s at %g", name.c_str(), d(m.up), d(v), d(m.rate)); break;
                case 6:
                    if (m.hold < 1) {
                        v = draw_time();
                        e.set_decay_time(v);
                        m.down = e.decay_rate();
                        event("%s decay time %g", name.c_str(), d(v));
                        const ld gap = 1 - static_cast<ld>(m.hold);
                        SIM_CHECK(std::fabs(m.down * (static_cast<ld>(v) * m.rate) - gap) <= 16 * static_cast<ld>(std::numeric_limits<T>::epsilon()), "accessor", "%s: decay_rate() is %g for %g s at %g", name.c_str(), d(m.down), d(v), d(m.rate));
                    }
                    break;
                case 7: v = draw_time(); e.set_release_time(v); m.out = e.release_rate(), m.out_time = v; event("%s release time %g", name.c_str(), d(v)); SIM_CHECK(near(m.out, static_cast<ld>(m.hold) / (static_cast<ld>(v) * m.rate)), "accessor", "%s: release_rate() is %g for %g s at %g", name.c_str(), d(m.out), d(v), d(m.rate)); break;
                case 8: {
                    static const double rates[] = {44100, 48000, 8000, 96000};
                    v = static_cast<T>(rates[draw(4)]);
                    e.set_sample_rate(v);
                    const ld f = static_cast<ld>(m.rate) / v;
                    // the durations in seconds stay what they were
                    SIM_CHECK(near(e.attack_rate(), m.up * f) && near(e.decay_rate(), m.down * f) && near(e.release_rate(), m.out * f), "accessor", "%s: rates %g %g %g after changing the sample rate from %g to %g", name.c_str(), d(e.attack_rate()), d(e.decay_rate()), d(e.release_rate()), d(m.rate), d(v));
                    m.rate = v, m.up = e.attack_rate(), m.down = e.decay_rate(), m.out = e.release_rate();
                    event("%s sample rate %g", name.c_str(), d(v));
                    break;
                }
            }
            accessors();
        }
        void key_off() {
            e.key_off();
            m.key_off();
            if (m.out_time > 0) {
                SIM_CHECK(near(e.release_rate(), static_cast<ld>(m.level) / (static_cast<ld>(m.out_time) * m.rate)), "accessor", "%s: release_rate() is %g after key off at level %g with %g s", name.c_str(), d(e.release_rate()), d(m.level), d(m.out_time));
                m.out = e.release_rate();
            }
            event("%s key off at %g", name.c_str(), d(m.level));
        }
        void op(objects& all, int& next) override {
            cover(mix(1, mix(sizeof(T), mix(m.s, mix(m.level > m.hold, mix(m.level == 0, m.out_time > 0))))));
            switch (draw(14)) {
                case 0: case 1: case 2: case 3: case 4: run(block_size()); break;
                case 5: case 6:
                    e.key_on();
                    m.key_on();
                    event("%s key on in stage %s at %g", name.c_str(), stage_names[m.s], d(m.level));
                    break;
                case 7: case 8: key_off(); break;
                case 9: case 10: control(); break;
                case 11: {
                    const T v = draw_level();
                    e.set_target(v);
                    m.target = std::max(v, static_cast<T>(0.000000001));
                    m.hold   = m.target;
                    m.aim(m.target);
                    if (m.level < m.target) m.s = attack;
                    else if (m.level > m.target) m.s = decay;
                    event("%s target %g", name.c_str(), d(v));
                    break;
                }
                case 12:
                    if (all.size() < 6) all.push_back(std::unique_ptr<base>(new adsr_unit(next++, *this)));
                    break;
                case 13:
                    for (auto& b : all) {
                        auto* u = dynamic_cast<adsr_unit*>(b.get());
                        if (u && u != this) {
                            e = u->e;
                            m = u->m;
                            event("%s assigned from %s", name.c_str(), u->name.c_str());
                            break;
                        }
                    }
                    break;
            }
            accessors();
        }
        // the number of samples a ramp needs, with room for one rounding per sample
        static ld ramp(ld distance, ld rate) { return std::ceil(distance / rate * (1 + 1e-3L)) + 2; }
        static bool moves(T rate, ld level) { return rate > 16 * std::numeric_limits<T>::epsilon() * std::max<ld>(1, level) * 1000; }
        void finish() override {
            // liveness, judged on the outputs alone
            const ld top = std::max({m.highest, m.level, T(1)});
            if (draw(2) && moves(m.up, top) && moves(m.down, top) && ramp(3 * top, std::min(m.up, m.down)) < 6000) { // a note must reach its sustain level
                e.key_on();
                const T hold = m.hold;
                m.key_on();
                const auto n = static_cast<std::size_t>(ramp(top, m.up) + ramp(top, m.down));
                T y = 0;
                for (std::size_t i = 0; i < n; ++i) y = e(1);
                event("%s must hold after %zu samples", name.c_str(), n);
                SIM_CHECK(y == hold, "rest", "%s: level %.9g, %zu samples after key on it should hold %.9g", name.c_str(), d(y), n, d(hold));
                for (std::size_t i = 0; i < 8; ++i) SIM_CHECK(e(1) == hold, "rest", "%s: does not hold its sustain level", name.c_str());
                m.level = hold, m.s = sustain;
                count("held");
            }
            key_off();
            ld n = 0;
            if (m.out_time > 0) n = ramp(static_cast<ld>(m.out_time) * m.rate, 1);
            else if (moves(m.out, m.level)) n = ramp(m.level, m.out);
            else return;
            if (n > 6000) return;
            T y = 0;
            for (std::size_t i = 0; i < static_cast<std::size_t>(n); ++i) y = e(1);
            event("%s must rest after %g samples", name.c_str(), static_cast<double>(n));
            for (std::size_t i = 0; i < 8; ++i) {
                SIM_CHECK(y == 0, "rest", "%s: level %.9g, %.0Lf samples after key off it should rest at zero", name.c_str(), d(y), n);
                y = e(1);
            }
            count("rested");
        }
    };

    // ---- attack-release follower ---------------------------------------------------------------------------
    template <typename T>
    struct ar_unit : base {
        using env = edsp::envelope::ar<T>;
        env e;
        T rate, at, rt;
        bool rectify;
        T last{0}, lo{0}, hi{0}; // since the last reset
        std::uint64_t n{0};
        static double d(T v) { return static_cast<double>(v); }
        static T draw_time() {
            static const double t[] = {10, 1, 0.5, 100, 1500, 0, 0.02, 5000};
            return static_cast<T>(coin() ? t[draw(8)] : real(0.01, 50));
        }
        static T draw_rate() {
            static const double r[] = {44100, 8000, 48000, 1000, 96000};
            return static_cast<T>(r[draw(5)]);
        }
        ar_unit(int id, T r, T a, T b, bool rect) : e(r, a, b, rect), rate(r), at(a), rt(b), rectify(rect) {
            label(id);
            event("%s created: rate %g attack %g release %g rectify %d", name.c_str(), d(r), d(a), d(b), rect);
            accessors();
        }
        ar_unit(int id, const ar_unit& o) : e(o.e), rate(o.rate), at(o.at), rt(o.rt), rectify(o.rectify), last(o.last), lo(o.lo), hi(o.hi), n(o.n) {
            label(id);
            event("%s copied from %s", name.c_str(), o.name.c_str());
            accessors();
        }
        void label(int id) { name = std::string("ar") + (sizeof(T) == 4 ? "<float>" : "<double>") + std::to_string(id); }
        void accessors() {
            SIM_CHECK(e.sample_rate() == rate && e.attack_time() == at && e.release_time() == rt && e.rectification() == rectify, "accessor", "%s: rate %g attack %g release %g rectify %d, expected %g %g %g %d", name.c_str(), d(e.sample_rate()),
                      d(e.attack_time()), d(e.release_time()), e.rectification(), d(rate), d(at), d(rt), rectify);
        }
        void fresh() { last = lo = hi = 0, n = 0; }
        void judge(T x, T y) {
            ++n;
            const ld eps = std::numeric_limits<T>::epsilon(), tiny = std::numeric_limits<T>::min();
            const T in   = rectify ? std::fabs(x) : x;
            const T time = last < in ? at : rt;
            const ld g   = time > 0 ? std::exp(-1000 / (static_cast<ld>(time) * rate)) : 0;
            const ld want = g * last + (1 - g) * in;
            const ld tol  = 8 * eps * (std::fabs(static_cast<ld>(in)) + std::fabs(static_cast<ld>(last))) + 4 * tiny;
            SIM_CHECK(std::fabs(y - want) <= tol, "follow", "%s: sample %llu is %.9g; from %.9g towards %.9g with %g ms at %g Hz it should be %.9Lg", name.c_str(), static_cast<unsigned long long>(n), d(y), d(last), d(in), d(time), d(rate), want);
            lo = std::min(lo, in), hi = std::max(hi, in);
            const ld slack = 8 * eps * std::max(std::fabs(static_cast<ld>(lo)), std::fabs(static_cast<ld>(hi))) + tiny;
            SIM_CHECK(y >= lo - slack && y <= hi + slack, "overshoot", "%s: %.9g left the range of its input, %.9g to %.9g", name.c_str(), d(y), d(lo), d(hi));
            last = y;
        }
        void run() {
            const auto k = block_size();
            std::vector<T> x(k);
            const auto shape = k > 130 ? 1 + draw(3) : draw(5);
            if (k > 130) count("probe.long-block");
            for (std::size_t i = 0; i < k; ++i) {
                switch (shape) {
                    case 0: x[i] = static_cast<T>(0.25 * static_cast<double>(range(-8, 8))); break;
                    case 1: x[i] = 0; break;
                    case 2: x[i] = static_cast<T>(std::sin(0.3 * static_cast<double>(n + i))); break;
                    case 3: x[i] = i % 17 == 3 ? 1000 : 0; break;
                    case 4: x[i] = std::numeric_limits<T>::min() * static_cast<T>(range(-3, 3)); break;
                }
            }
            const auto y = feed(name, e, x);
            for (std::size_t i = 0; i < k; ++i) judge(x[i], y[i]);
        }
        void op(objects& all, int& next) override {
            cover(mix(2, mix(sizeof(T), mix(at > 0, mix(rt > 0, mix(rectify, mix(n < 3 ? n : 3, last < 0)))))));
            switch (draw(12)) {
                case 0: case 1: case 2: case 3: case 4: run(); break;
                case 5: e.reset(); fresh(); event("%s reset", name.c_str()); break;
                case 6: at = draw_time(); e.set_attack_time(at); fresh(); event("%s attack time %g", name.c_str(), d(at)); break;
                case 7: rt = draw_time(); e.set_release_time(rt); fresh(); event("%s release time %g", name.c_str(), d(rt)); break;
                case 8: rate = draw_rate(); e.set_sample_rate(rate); fresh(); event("%s sample rate %g", name.c_str(), d(rate)); break;
                case 9: rectify = !rectify; e.set_rectification(rectify); event("%s rectify %d", name.c_str(), rectify); break;
                case 10:
                    if (all.size() < 6) all.push_back(std::unique_ptr<base>(new ar_unit(next++, *this)));
                    break;
                case 11:
                    for (auto& b : all) {
                        auto* u = dynamic_cast<ar_unit*>(b.get());
                        if (u && u != this) {
                            const auto keep = name;
                            *this           = *u;
                            name            = keep;
                            event("%s assigned from %s", name.c_str(), u->name.c_str());
                            break;
                        }
                    }
                    break;
            }
            accessors();
        }
        void finish() override { // silence: the follower falls to zero within the time its release implies
            const ld g = rt > 0 ? std::exp(-1000 / (static_cast<ld>(rt) * rate)) : 0;
            if (g > 0.999L) return;
            const ld g2 = at > 0 ? std::exp(-1000 / (static_cast<ld>(at) * rate)) : 0; // a negative level rises
            if (g2 > 0.999L) return;
            const ld worst = std::max(g, g2);
            const auto k   = worst > 0 ? static_cast<std::size_t>(std::log(1e-6L) / std::log(worst)) + 4 : 2;
            const ld was   = std::fabs(static_cast<ld>(last));
            T y            = last;
            for (std::size_t i = 0; i < k; ++i) y = e(0);
            event("%s must rest after %zu samples", name.c_str(), k);
            SIM_CHECK(std::fabs(static_cast<ld>(y)) <= was * 1e-5L + std::numeric_limits<T>::min(), "rest", "%s: still at %.9g after %zu samples of silence from %.9Lg", name.c_str(), d(y), k, was);
            count("rested");
        }
    };
    template <typename T>
    std::unique_ptr<base> create(int id) {
        if (coin()) return std::unique_ptr<base>(new adsr_unit<T>(id));
        const T r = ar_unit<T>::draw_rate(), a = ar_unit<T>::draw_time(), b = ar_unit<T>::draw_time();
        return std::unique_ptr<base>(new ar_unit<T>(id, r, a, b, coin()));
    }
} // namespace

void prop_run() {
    silence_cout();
    objects all;
    int next = 0;
    all.reserve(8);
    while (more(50)) {
        span s;
        const auto what = draw(16);
        if (all.empty() || (what == 0 && all.size() < 5)) {
            all.push_back(coin() ? create<double>(next++) : create<float>(next++));
        } else if (what == 1 && all.size() > 1) {
            const auto i = draw(all.size());
            event("%s destroyed", all[i]->name.c_str());
            all.erase(all.begin() + static_cast<long>(i));
        } else {
            all[draw(all.size())]->op(all, next);
        }
    }
    event("no more events");
    for (auto& b : all) b->finish();
    nontrivial();
}
