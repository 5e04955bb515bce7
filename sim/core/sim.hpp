// Deterministic simulation core: one integer (seed) or one tape decides every choice of a run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace sim {
    // ---- choices -------------------------------------------------------------------------
    // Tape 0: workload and faults. Tape 1: schedule. In a search run values come from a PRNG
    // seeded with the run seed; in a replay they come from the recorded tape and are 0 past its
    // end. 0 is always the simplest choice: no fault, no preemption, stop, smallest size.
    std::uint64_t draw(std::uint64_t n);       // [0,n), tape 0
    std::uint64_t draw_sched(std::uint64_t n); // [0,n), tape 1
    bool chance(unsigned permille);            // tape 0; 0 means "no"
    inline bool coin() { return draw(2) != 0; }
    inline std::int64_t range(std::int64_t lo, std::int64_t hi) {
        return lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(hi - lo + 1)));
    }
    // true until the stream of operations ends; mean number of operations is about `mean`
    bool more(unsigned mean);
    // A size with a bias to small values and to the given boundary values
    std::size_t size_near(std::size_t max, std::initializer_list<std::size_t> interesting = {});
    // A size just past a power of two, at most `max`: what overflows a fixed table or a narrow counter
    std::size_t large_size(std::size_t max);
    double real(double lo, double hi);
    template <typename T>
    const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

    // Marks the part of tape 0 one operation drew; the minimiser deletes whole spans.
    struct span {
        span();
        ~span();
        span(const span&) = delete;
        int index;
    };

    // ---- log, statistics, verdict ---------------------------------------------------------
    void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    bool verbose();
    [[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    void count(const char* name, std::uint64_t by = 1); // faults and probes actually reached
    void cover(std::uint64_t h);                        // abstract state reached (counted distinct)
    void nontrivial();                                  // this run met a fault/interleaving/control event
    std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull);
    std::uint64_t mix(std::uint64_t a, std::uint64_t b);
    const char* tier();

    // ---- simulated time -------------------------------------------------------------------
    std::int64_t now_ns();
    void advance_ns(std::int64_t ns);
    void add_sim_time_ns(double ns); // stream time covered (samples/rate), evidence only
    struct clock_model {
        bool active{false};
        std::int64_t wall_ns{0}; // value the next CLOCK_REALTIME reading returns
        std::int64_t step_ns{0}; // advance per reading
        std::uint64_t reads{0};
    };
    extern clock_model clock_;

    // ---- run entry, provided by each property ----------------------------------------------
    extern int g_argc;
    extern const char* g_variant; // "faults", "clean"... chosen by the run seed
} // namespace sim

extern const char* const prop_id;
void prop_run();
extern "C" __attribute__((weak)) void sim_prop_setup(); // once per process, before any run is forked

#define SIM_CHECK(cond, cls, ...)                                                                                      \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            sim::violation(cls, __VA_ARGS__);                                                                          \
        }                                                                                                              \
    } while (0)
