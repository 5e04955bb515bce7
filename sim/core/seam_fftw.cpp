#include "handles.hpp"
#include "real.hpp"
#include "sim.hpp"
#include <fftw3.h>
using namespace sim;
#define FAIL() \
    if (handles::fail_acquire(handles::plan)) return nullptr
#define GOT(p) (handles::on_acquire(handles::plan, p), p)
#define USE(f) handles::on_use(handles::plan, f)
#define PLANNER(X, P, name, params, args)                   \
    X##plan X##name params {                                \
        SIM_REAL(X##name);                                  \
        FAIL();                                             \
        handles::planner_guard g(P, #X #name);              \
        auto p = real args;                                 \
        return GOT(p);                                      \
    }
#define EXEC(X, name, params, args)        \
    void X##name params {                  \
        SIM_REAL(X##name);                 \
        USE(p);                            \
        real args;                         \
    }
#define ALL(X, P, R, C)                                                                                                \
    PLANNER(X, P, plan_dft_1d, (int n, C* i, C* o, int s, unsigned f), (n, i, o, s, f))                                 \
    PLANNER(X, P, plan_dft_r2c_1d, (int n, R* i, C* o, unsigned f), (n, i, o, f))                                       \
    PLANNER(X, P, plan_dft_c2r_1d, (int n, C* i, R* o, unsigned f), (n, i, o, f))                                       \
    PLANNER(X, P, plan_r2r_1d, (int n, R* i, R* o, fftw_r2r_kind k, unsigned f), (n, i, o, k, f))                       \
    PLANNER(X, P, plan_dft, (int r, const int* n, C* i, C* o, int s, unsigned f), (r, n, i, o, s, f))                   \
    PLANNER(X, P, plan_dft_r2c, (int r, const int* n, R* i, C* o, unsigned f), (r, n, i, o, f))                         \
    PLANNER(X, P, plan_dft_c2r, (int r, const int* n, C* i, R* o, unsigned f), (r, n, i, o, f))                         \
    PLANNER(X, P, plan_r2r, (int r, const int* n, R* i, R* o, const fftw_r2r_kind* k, unsigned f), (r, n, i, o, k, f))  \
    PLANNER(X, P, plan_many_dft,                                                                                       \
            (int r, const int* n, int h, C* i, const int* ie, int is, int id, C* o, const int* oe, int os, int od,     \
             int s, unsigned f),                                                                                       \
            (r, n, h, i, ie, is, id, o, oe, os, od, s, f))                                                             \
    PLANNER(X, P, plan_many_dft_r2c,                                                                                   \
            (int r, const int* n, int h, R* i, const int* ie, int is, int id, C* o, const int* oe, int os, int od,     \
             unsigned f),                                                                                              \
            (r, n, h, i, ie, is, id, o, oe, os, od, f))                                                                \
    PLANNER(X, P, plan_many_dft_c2r,                                                                                   \
            (int r, const int* n, int h, C* i, const int* ie, int is, int id, R* o, const int* oe, int os, int od,     \
             unsigned f),                                                                                              \
            (r, n, h, i, ie, is, id, o, oe, os, od, f))                                                                \
    PLANNER(X, P, plan_many_r2r,                                                                                       \
            (int r, const int* n, int h, R* i, const int* ie, int is, int id, R* o, const int* oe, int os, int od,     \
             const fftw_r2r_kind* k, unsigned f),                                                                      \
            (r, n, h, i, ie, is, id, o, oe, os, od, k, f))                                                             \
    void X##destroy_plan(X##plan p) {                                                                                  \
        SIM_REAL(X##destroy_plan);                                                                                     \
        handles::on_release(handles::plan, p);                                                                         \
        handles::planner_guard g(P, #X "destroy_plan");                                                                \
        real(p);                                                                                                       \
    }                                                                                                                  \
    void X##cleanup(void) {                                                                                            \
        SIM_REAL(X##cleanup);                                                                                          \
        handles::planner_guard g(P, #X "cleanup");                                                                     \
        if (handles::live(handles::plan)) {                                                                            \
            violation("cleanup-with-live-plans", "planner state dropped while plans are live");                        \
        }                                                                                                              \
        real();                                                                                                        \
    }                                                                                                                  \
    void X##make_planner_thread_safe(void) { handles::planner_made_thread_safe[P] = true; }                            \
    EXEC(X, execute, (const X##plan p), (p))                                                                           \
    EXEC(X, execute_dft, (const X##plan p, C* i, C* o), (p, i, o))                                                     \
    EXEC(X, execute_dft_r2c, (const X##plan p, R* i, C* o), (p, i, o))                                                 \
    EXEC(X, execute_dft_c2r, (const X##plan p, C* i, R* o), (p, i, o))                                                 \
    EXEC(X, execute_r2r, (const X##plan p, R* i, R* o), (p, i, o))
extern "C" {
ALL(fftw_, 0, double, fftw_complex)
ALL(fftwf_, 1, float, fftwf_complex)
}
