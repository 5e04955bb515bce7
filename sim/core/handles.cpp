#include "handles.hpp"
#include "alloc.hpp"
#include "sim.hpp"
#include <dlfcn.h>
#include <map>
#include <set>

namespace sim { namespace handles {
    std::int64_t fail_nth[kinds]  = {-1, -1, -1};
    std::uint64_t attempts[kinds] = {0, 0, 0};
    unsigned fail_permille[kinds] = {0, 0, 0};
    unsigned process_fail_permille = 0;
    void (*process_failures_hook)() = nullptr;
    unsigned close_error_permille  = 0;
    bool planner_made_thread_safe[2] = {false, false};
    void (*planner_yield)()          = nullptr;
    namespace {
        std::set<const void*> live_[kinds], dead_[kinds];
        std::uint64_t acq[kinds], rel[kinds], fld[kinds];
        const char* const names[kinds] = {"audio file", "converter", "FFT plan"};
        int inside[2]                  = {0, 0};
    } // namespace
    std::uint64_t live(kind k) { return live_[k].size(); }
    std::uint64_t acquired(kind k) { return acq[k]; }
    std::uint64_t released(kind k) { return rel[k]; }
    std::uint64_t failed(kind k) { return fld[k]; }
    void on_acquire(kind k, const void* p) {
        if (!p) {
            return;
        }
        alloc::exempt e;
        live_[k].insert(p);
        dead_[k].erase(p);
        ++acq[k];
    }
    void on_release(kind k, const void* p) {
        if (!p) {
            return;
        }
        alloc::exempt e;
        if (!live_[k].erase(p)) {
            violation("double-release", "%s handle released that is not live (released %llu of %llu acquired)", names[k],
                      static_cast<unsigned long long>(rel[k]), static_cast<unsigned long long>(acq[k]));
        }
        dead_[k].insert(p);
        ++rel[k];
    }
    void on_use(kind k, const void* p) {
        if (p && !live_[k].count(p)) {
            violation("use-after-release", "%s handle used that is not live", names[k]);
        }
    }
    bool fail_acquire(kind k) {
        ++attempts[k];
        const bool chosen = fail_nth[k] == 0;
        if (fail_nth[k] >= 0) {
            --fail_nth[k];
        }
        if (chosen || chance(fail_permille[k])) {
            ++fld[k];
            static const char* const n[kinds] = {"fault.sf_open-fail", "fault.src_new-fail", "fault.plan-fail"};
            count(n[k]);
            nontrivial();
            event("  %s", n[k]);
            return true;
        }
        return false;
    }
    planner_guard::planner_guard(int precision, const char* what) : p(precision) {
        if (inside[p] && !planner_made_thread_safe[p]) {
            violation("planner-overlap", "%s entered while another thread is inside the FFT planner", what);
        }
        ++inside[p];
        if (planner_yield) {
            planner_yield();
        }
    }
    planner_guard::~planner_guard() { --inside[p]; }
}} // namespace sim::handles
