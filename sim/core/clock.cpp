#include "real.hpp"
#include "sim.hpp"
#include <sys/time.h>
#include <time.h>
// Seam: wall clock. Only CLOCK_REALTIME readings are simulated; the runner uses the raw system call.
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    SIM_REAL(clock_gettime);
    if (sim::clock_.active && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC)) {
        const auto ns = sim::clock_.wall_ns;
        sim::clock_.wall_ns += sim::clock_.step_ns;
        ++sim::clock_.reads;
        t->tv_sec  = ns / 1000000000;
        t->tv_nsec = ns % 1000000000;
        if (t->tv_nsec < 0) {
            t->tv_nsec += 1000000000;
            --t->tv_sec;
        }
        return 0;
    }
    return real(c, t);
}
int gettimeofday(struct timeval* tv, void* tz) noexcept {
    SIM_REAL(gettimeofday);
    if (sim::clock_.active) {
        timespec t{};
        clock_gettime(CLOCK_REALTIME, &t);
        tv->tv_sec  = t.tv_sec;
        tv->tv_usec = t.tv_nsec / 1000;
        return 0;
    }
    return real(tv, tz);
}
time_t time(time_t* p) noexcept {
    timespec t{};
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) {
        *p = t.tv_sec;
    }
    return t.tv_sec;
}
}
