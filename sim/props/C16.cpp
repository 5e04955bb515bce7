// C16: oscillators follow their waveform through any sequence of control events.
#include "../core/quiet.hpp"
#include "../core/sim.hpp"
#include <edsp/oscillator.hpp>
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
const char* const prop_id = "C16";
using namespace sim;
namespace eo = edsp::oscillators;

namespace {
    using ld    = long double;
    const ld TAU = 6.28318530717958647692528676655900577L;

    struct base {
        std::string name;
        virtual ~base() = default;
        virtual void op(std::vector<std::unique_ptr<base>>& all, int& next) = 0;
    };
    using objects = std::vector<std::unique_ptr<base>>;

    // The controls in force, as the user set them.
    template <typename T>
    struct controls {
        T amplitude, rate, frequency, phase, shape; // shape: duty or width
    };
    template <typename T>
    T draw_frequency() {
        switch (draw(4)) {
            case 0: return 1;
            case 1: return static_cast<T>(range(1, 400));
            case 2: return static_cast<T>(real(0.01, 22050));
            default: return static_cast<T>(0.125 * static_cast<double>(range(1, 64)));
        }
    }
    template <typename T>
    T draw_rate() {
        static const double rates[] = {44100, 8000, 48000, 1, 100, 64, 11025, 96000};
        return static_cast<T>(rates[draw(8)]);
    }
    template <typename T>
    T draw_amplitude() {
        switch (draw(4)) {
            case 0: return 1;
            case 1: return static_cast<T>(0.5 * static_cast<double>(range(-6, 6)));
            case 2: return 0;
            default: return static_cast<T>(real(0.001, 100));
        }
    }
    template <typename T>
    T draw_share() {
        static const double s[] = {0.5, 0, 1, 0.25, 0.3, 0.75, 0.9, 0.01};
        return static_cast<T>(draw(3) ? s[draw(8)] : real(0, 1));
    }

    // Waveforms over one period, u in [0, 1)
    ld square(ld u, ld duty) { return u < duty ? 1 : -1; }
    ld sawtooth(ld u, ld width) {
        if (width > 0 && u < width) return 2 * u / width - 1;
        return 1 - 2 * (u - width) / (1 - width);
    }
    ld wrap(ld x) {
        x -= std::floor(x);
        return x < 1 ? x : 0;
    }
    // Is `got` the waveform somewhere within `err` periods of `x`, up to a relative error of the value?
    // `slope`: how much the waveform changes per period where it is continuous.
    template <typename W>
    bool near(ld got, ld x, ld err, ld slope, ld eps, W wave) {
        for (const ld at : {x, x - err, x + err}) {
            if (std::fabs(got - wave(wrap(at))) <= slope * err + eps) return true;
        }
        return false;
    }

    template <typename T>
    struct sine {
        using osc = eo::sin_oscillator<T>;
        static constexpr const char* name = "sinusoidal";
        static osc make(const controls<T>& c) { return coin() ? osc(c.amplitude, c.rate, c.frequency, c.phase) : eo::make_oscillator<T, eo::OscillatorType::Sinusoidal>(c.amplitude, c.rate, c.frequency, c.phase); }
        static bool right(ld got, ld x, ld err, const controls<T>& c, ld eps) {
            const ld arg = TAU * x + c.phase;
            return std::fabs(got - std::sin(arg)) <= TAU * err + eps * (4 + std::fabs(c.phase));
        }
        static constexpr bool has_phase = true, has_shape = false;
        static void set_shape(osc&, T) {}
        static T shape(const osc&) { return 0; }
    };
    template <typename T>
    struct squ {
        using osc = eo::square_oscillator<T>;
        static constexpr const char* name = "square";
        static osc make(const controls<T>& c) { return coin() ? osc(c.amplitude, c.rate, c.frequency, c.shape) : eo::make_oscillator<T, eo::OscillatorType::Square>(c.amplitude, c.rate, c.frequency, c.shape); }
        static bool right(ld got, ld x, ld err, const controls<T>& c, ld eps) {
            err += eps;
            const ld shorter = std::min<ld>(c.shape > 0 ? c.shape : 1, c.shape < 1 ? 1 - c.shape : 1);
            if (err > shorter / 4) return got == 1 || got == -1; // shorter than the time resolves
            return near(got, x, err, 0, eps, [&](ld u) { return square(u, c.shape); });
        }
        static constexpr bool has_phase = false, has_shape = true;
        static void set_shape(osc& o, T v) { o.set_duty(v); }
        static T shape(const osc& o) { return o.duty(); }
    };
    template <typename T>
    bool saw_right(ld got, ld x, ld err, ld width, ld eps) {
        // the steep flank of a sawtooth of extreme width is nearly a jump
        const ld w = std::min(width > 0 ? width : 1, width < 1 ? 1 - width : 1);
        err += eps;
        if (err > w / 16) return std::fabs(got) <= 1 + 8 * eps; // the flank is narrower than the time resolves
        return near(got, x, err, 2 / w, 8 * eps / w, [&](ld u) { return sawtooth(u, width); });
    }
    template <typename T>
    struct saw {
        using osc = eo::sawtooth_oscillator<T>;
        static constexpr const char* name = "sawtooth";
        static osc make(const controls<T>& c) { return coin() ? osc(c.amplitude, c.rate, c.frequency, c.shape) : eo::make_oscillator<T, eo::OscillatorType::Sawtooth>(c.amplitude, c.rate, c.frequency, c.shape); }
        static bool right(ld got, ld x, ld err, const controls<T>& c, ld eps) { return saw_right<T>(got, x, err, c.shape, eps); }
        static constexpr bool has_phase = false, has_shape = true;
        static void set_shape(osc& o, T v) { o.set_width(v); }
        static T shape(const osc& o) { return o.width(); }
    };
    template <typename T>
    struct tri {
        using osc = eo::triangular_oscillator<T>;
        static constexpr const char* name = "triangular";
        static osc make(const controls<T>& c) { return coin() ? osc(c.amplitude, c.rate, c.frequency) : eo::make_oscillator<T, eo::OscillatorType::Triangular>(c.amplitude, c.rate, c.frequency); }
        static bool right(ld got, ld x, ld err, const controls<T>&, ld eps) { return saw_right<T>(got, x, err, 0.5L, eps); }
        static constexpr bool has_phase = false, has_shape = false;
        static void set_shape(osc&, T) {}
        static T shape(const osc& o) { return 0; }
    };

    template <typename T, template <typename> class Kind>
    struct unit : base {
        using K = Kind<T>;
        typename K::osc o;
        controls<T> c;
        T time{0};
        static controls<T> draw_controls() {
            controls<T> c{draw_amplitude<T>(), draw_rate<T>(), draw_frequency<T>(), 0, 0};
            if (K::has_phase) c.phase = static_cast<T>(draw(2) ? real(-7, 7) : 0);
            if (K::has_shape) c.shape = draw_share<T>();
            return c;
        }
        unit(int id, const controls<T>& cc) : o(K::make(cc)), c(cc) {
            label(id);
            event("%s created: amplitude %g rate %g frequency %g phase %g shape %g", name.c_str(), d(c.amplitude), d(c.rate), d(c.frequency), d(c.phase), d(c.shape));
            accessors();
        }
        unit(int id, const unit& u) : o(u.o), c(u.c), time(u.time) {
            label(id);
            event("%s copied from %s", name.c_str(), u.name.c_str());
            accessors();
        }
        static double d(T v) { return static_cast<double>(v); }
        void label(int id) { name = std::string(K::name) + (sizeof(T) == 4 ? "<float>" : "<double>") + std::to_string(id); }
        void accessors() {
            SIM_CHECK(o.amplitude() == c.amplitude, "accessor", "%s: amplitude() is %g, set to %g", name.c_str(), d(o.amplitude()), d(c.amplitude));
            SIM_CHECK(o.sample_rate() == c.rate, "accessor", "%s: sample_rate() is %g, set to %g", name.c_str(), d(o.sample_rate()), d(c.rate));
            SIM_CHECK(o.frequency() == c.frequency, "accessor", "%s: frequency() is %g, set to %g", name.c_str(), d(o.frequency()), d(c.frequency));
            SIM_CHECK(o.timestamp() == time, "timestamp", "%s: timestamp() is %.17g, expected %.17g", name.c_str(), d(o.timestamp()), d(time));
            const ld period = 1 / static_cast<ld>(c.rate);
            SIM_CHECK(std::fabs(o.sampling_period() - period) <= 2 * period * std::numeric_limits<T>::epsilon(), "accessor", "%s: sampling_period() is %g at a rate of %g", name.c_str(), d(o.sampling_period()), d(c.rate));
            if (K::has_phase) SIM_CHECK(o.phase() == c.phase, "accessor", "%s: phase() is %g, set to %g", name.c_str(), d(o.phase()), d(c.phase));
            if (K::has_shape) SIM_CHECK(K::shape(o) == c.shape, "accessor", "%s: duty or width is %g, set to %g", name.c_str(), d(K::shape(o)), d(c.shape));
        }
        void judge(T got) { // one sample at `time`
            const ld eps = std::numeric_limits<T>::epsilon();
            const ld x   = static_cast<ld>(c.frequency) * time;
            const ld err = 8 * eps * std::fabs(x);
            if (c.amplitude == 0) {
                SIM_CHECK(got == 0, "waveform", "%s: %g at amplitude zero", name.c_str(), d(got));
            } else {
                const ld unit_value = static_cast<ld>(got) / c.amplitude;
                SIM_CHECK(K::right(unit_value, x, err, c, 4 * eps), "waveform", "%s: %.9Lg times the amplitude at %.17g s, %.9Lg periods (frequency %g, phase %g, shape %g)",
                          name.c_str(), unit_value, d(time), x, d(c.frequency), d(c.phase), d(c.shape));
            }
            // the time moves on by one sampling period
            const ld step = 1 / static_cast<ld>(c.rate);
            const ld next = static_cast<ld>(time) + step;
            const T t     = o.timestamp();
            (void)t;
            expected_time = next;
            tolerance     = 2 * eps * (std::fabs(static_cast<ld>(time)) + step);
        }
        ld expected_time{0}, tolerance{0};
        void samples(std::size_t n) {
            const bool block = coin();
            event("%s %zu samples%s from %.9g s", name.c_str(), n, block ? " at once" : "", d(time));
            if (block) {
                const T start = time;
                std::vector<T> y(n + 2, T(-777));
                std::generate(y.begin() + 1, y.end() - 1, std::ref(o));
                SIM_CHECK(y.front() == T(-777) && y.back() == T(-777), "bounds", "%s wrote outside", name.c_str());
                // the instants in between are those a twin goes through
                typename K::osc twin = K::make(c);
                twin.set_timestamp(start);
                for (std::size_t i = 0; i < n; ++i) {
                    time = twin.timestamp();
                    judge(y[i + 1]);
                    twin();
                    check_step(twin.timestamp());
                }
                time = twin.timestamp();
                SIM_CHECK(o.timestamp() == time, "timestamp", "%s: timestamp() is %.17g after %zu samples, a twin's %.17g", name.c_str(), d(o.timestamp()), n, d(time));
            } else {
                for (std::size_t i = 0; i < n; ++i) {
                    const T y = o();
                    judge(y);
                    check_step(o.timestamp());
                    time = o.timestamp();
                }
            }
            add_sim_time_ns(static_cast<double>(n) * 1e9 / static_cast<double>(c.rate));
        }
        void check_step(T t) {
            SIM_CHECK(std::fabs(t - expected_time) <= tolerance, "timestamp", "%s: the time went from %.17g to %.17g at a rate of %g", name.c_str(), d(time), d(t), d(c.rate));
        }
        void op(objects& all, int& next) override {
            cover(mix(hash_bytes(K::name, 3), mix(sizeof(T), mix(time < 0, mix(c.shape == 0, mix(c.shape == 1, c.frequency * 2 > c.rate))))));
            switch (draw(14)) {
                case 0: case 1: case 2: case 3: case 4: samples(1 + size_near(60, {0, 1, 2})); break;
                case 5:
                    c.frequency = draw_frequency<T>();
                    o.set_frequency(c.frequency);
                    event("%s frequency %g", name.c_str(), d(c.frequency));
                    break;
                case 6:
                    c.amplitude = draw_amplitude<T>();
                    o.set_amplitude(c.amplitude);
                    event("%s amplitude %g", name.c_str(), d(c.amplitude));
                    break;
                case 7:
                    if (K::has_phase) {
                        c.phase = static_cast<T>(real(-7, 7));
                        o.set_phase(c.phase);
                        event("%s phase %g", name.c_str(), d(c.phase));
                    } else if (K::has_shape) {
                        c.shape = draw_share<T>();
                        K::set_shape(o, c.shape);
                        event("%s duty or width %g", name.c_str(), d(c.shape));
                    }
                    break;
                case 8:
                    c.rate = draw_rate<T>();
                    o.set_sample_rate(c.rate);
                    event("%s sample rate %g", name.c_str(), d(c.rate));
                    break;
                case 9:
                    switch (draw(6)) {
                        case 5: time = static_cast<T>(real(1000, coin() ? 1e5 : 1e7)); break;
                        case 0: time = 0; break;
                        case 1: time = static_cast<T>(real(0, 1)); break;
                        case 2: time = static_cast<T>(real(0, 1000)); break;
                        case 3: time = static_cast<T>(-real(0, 3)); break;
                        case 4: time = static_cast<T>(0.25 * static_cast<double>(range(-8, 8))) / c.frequency; break;
                    }
                    o.set_timestamp(time);
                    event("%s timestamp %.9g", name.c_str(), d(time));
                    break;
                case 10:
                    o.reset();
                    time = 0;
                    event("%s reset", name.c_str());
                    break;
                case 11:
                    if (all.size() < 6) all.push_back(std::unique_ptr<base>(new unit(next++, *this)));
                    break;
                case 12:
                    for (auto& b : all) {
                        auto* u = dynamic_cast<unit*>(b.get());
                        if (u && u != this) {
                            o    = u->o;
                            c    = u->c;
                            time = u->time;
                            event("%s assigned from %s", name.c_str(), u->name.c_str());
                            break;
                        }
                    }
                    break;
                case 13: { // several controls at one instant
                    const auto n = draw_controls();
                    c.amplitude = n.amplitude, c.frequency = n.frequency, c.rate = n.rate;
                    if (coin()) {
                        o.set_sample_rate(c.rate), o.set_frequency(c.frequency), o.set_amplitude(c.amplitude);
                    } else {
                        o.set_amplitude(c.amplitude), o.set_frequency(c.frequency), o.set_sample_rate(c.rate);
                    }
                    event("%s amplitude %g, frequency %g, rate %g", name.c_str(), d(c.amplitude), d(c.frequency), d(c.rate));
                    break;
                }
            }
            accessors();
        }
    };
    template <typename T>
    std::unique_ptr<base> create(int id) {
        switch (draw(4)) {
            case 0: return std::unique_ptr<base>(new unit<T, sine>(id, unit<T, sine>::draw_controls()));
            case 1: return std::unique_ptr<base>(new unit<T, squ>(id, unit<T, squ>::draw_controls()));
            case 2: return std::unique_ptr<base>(new unit<T, saw>(id, unit<T, saw>::draw_controls()));
            default: return std::unique_ptr<base>(new unit<T, tri>(id, unit<T, tri>::draw_controls()));
        }
    }
} // namespace

void prop_run() {
    silence_cout();
    objects all;
    int next = 0;
    all.reserve(8);
    while (more(40)) {
        span s;
        const auto what = draw(16);
        if (all.empty() || (what == 0 && all.size() < 5)) {
            all.push_back(coin() ? create<double>(next++) : create<float>(next++));
        } else if (what == 1 && all.size() > 1) {
            const auto i = draw(all.size());
            event("%s destroyed", all[i]->name.c_str());
            all.erase(all.begin() + static_cast<long>(i));
        } else {
            all[draw(all.size())]->op(all, next);
        }
    }
    nontrivial();
}
