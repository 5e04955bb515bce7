#include "handles.hpp"
#include "real.hpp"
#include "sim.hpp"
#include <samplerate.h>
using namespace sim;
#define USE(f) sim::handles::on_use(sim::handles::converter, f)
extern "C" {
SRC_STATE* src_new(int type, int channels, int* error) {
    SIM_REAL(src_new);
    if (handles::fail_acquire(handles::converter)) {
        if (error) {
            *error = 1; // SRC_ERR_MALLOC_FAILED
        }
        return nullptr;
    }
    auto* p = real(type, channels, error);
    handles::on_acquire(handles::converter, p);
    return p;
}
SRC_STATE* src_clone(SRC_STATE* o, int* error) {
    SIM_REAL(src_clone);
    USE(o);
    auto* p = real(o, error);
    handles::on_acquire(handles::converter, p);
    return p;
}
SRC_STATE* src_delete(SRC_STATE* s) {
    SIM_REAL(src_delete);
    handles::on_release(handles::converter, s);
    return real(s);
}
int src_process(SRC_STATE* s, SRC_DATA* d) {
    SIM_REAL(src_process);
    USE(s);
    if (s && chance(handles::process_fail_permille)) {
        count("fault.src_process-fail");
        nontrivial();
        event("  fault src_process");
        if (handles::process_failures_hook) {
            handles::process_failures_hook();
        }
        return 16; // SRC_ERR_DATA_OVERLAP
    }
    return real(s, d);
}
int src_reset(SRC_STATE* s) {
    SIM_REAL(src_reset);
    USE(s);
    return real(s);
}
int src_set_ratio(SRC_STATE* s, double r) {
    SIM_REAL(src_set_ratio);
    USE(s);
    return real(s, r);
}
}
