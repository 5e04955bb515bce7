#include "handles.hpp"
#include "real.hpp"
#include "sim.hpp"
#include <sndfile.h>
using namespace sim;
using sim::handles::sndfile;
#define USE(f) sim::handles::on_use(sim::handles::sndfile, f)
extern "C" {
SNDFILE* sf_open(const char* path, int mode, SF_INFO* info) {
    SIM_REAL(sf_open);
    if (handles::fail_acquire(handles::sndfile)) {
        return nullptr;
    }
    auto* p = real(path, mode, info);
    handles::on_acquire(handles::sndfile, p);
    return p;
}
SNDFILE* sf_open_fd(int fd, int mode, SF_INFO* info, int close_desc) {
    SIM_REAL(sf_open_fd);
    if (handles::fail_acquire(handles::sndfile)) {
        return nullptr;
    }
    auto* p = real(fd, mode, info, close_desc);
    handles::on_acquire(handles::sndfile, p);
    return p;
}
SNDFILE* sf_open_virtual(SF_VIRTUAL_IO* io, int mode, SF_INFO* info, void* user) {
    SIM_REAL(sf_open_virtual);
    if (handles::fail_acquire(handles::sndfile)) {
        return nullptr;
    }
    auto* p = real(io, mode, info, user);
    handles::on_acquire(handles::sndfile, p);
    return p;
}
int sf_close(SNDFILE* f) {
    SIM_REAL(sf_close);
    handles::on_release(handles::sndfile, f);
    const int r = real(f);
    if (chance(handles::close_error_permille)) {
        count("fault.sf_close-error");
        nontrivial();
        return SF_ERR_SYSTEM;
    }
    return r;
}
sf_count_t sf_seek(SNDFILE* f, sf_count_t n, int w) {
    SIM_REAL(sf_seek);
    USE(f);
    return real(f, n, w);
}
void sf_write_sync(SNDFILE* f) {
    SIM_REAL(sf_write_sync);
    USE(f);
    real(f);
}
int sf_command(SNDFILE* f, int c, void* d, int n) {
    SIM_REAL(sf_command);
    USE(f);
    return real(f, c, d, n);
}
int sf_error(SNDFILE* f) {
    SIM_REAL(sf_error);
    USE(f);
    return real(f);
}
const char* sf_strerror(SNDFILE* f) {
    SIM_REAL(sf_strerror);
    USE(f);
    return real(f);
}
#define RW(T)                                                         \
    sf_count_t sf_read_##T(SNDFILE* f, T* p, sf_count_t n) {          \
        SIM_REAL(sf_read_##T);                                        \
        USE(f);                                                       \
        return real(f, p, n);                                         \
    }                                                                 \
    sf_count_t sf_readf_##T(SNDFILE* f, T* p, sf_count_t n) {         \
        SIM_REAL(sf_readf_##T);                                       \
        USE(f);                                                       \
        return real(f, p, n);                                         \
    }                                                                 \
    sf_count_t sf_write_##T(SNDFILE* f, const T* p, sf_count_t n) {   \
        SIM_REAL(sf_write_##T);                                       \
        USE(f);                                                       \
        return real(f, p, n);                                         \
    }                                                                 \
    sf_count_t sf_writef_##T(SNDFILE* f, const T* p, sf_count_t n) {  \
        SIM_REAL(sf_writef_##T);                                      \
        USE(f);                                                       \
        return real(f, p, n);                                         \
    }
RW(short)
RW(int)
RW(float)
RW(double)
sf_count_t sf_read_raw(SNDFILE* f, void* p, sf_count_t n) {
    SIM_REAL(sf_read_raw);
    USE(f);
    return real(f, p, n);
}
sf_count_t sf_write_raw(SNDFILE* f, const void* p, sf_count_t n) {
    SIM_REAL(sf_write_raw);
    USE(f);
    return real(f, p, n);
}
}
