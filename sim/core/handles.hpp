// Seam: acquire/release boundary of the libraries underneath. Real code runs behind it; the
// simulator counts handles, rejects use of released ones and may make an acquisition fail.
#pragma once
#include <cstdint>
namespace sim { namespace handles {
    enum kind { sndfile, converter, plan, kinds };
    extern std::int64_t fail_nth[kinds];     // >= 0: that many acquisitions succeed, the next one fails
    extern std::uint64_t attempts[kinds];    // acquisitions asked for
    extern unsigned fail_permille[kinds];    // acquisitions that fail
    extern void (*process_failures_hook)(); // called when a src_process failure is injected
    extern unsigned process_fail_permille;   // src_process calls that report an error
    extern unsigned close_error_permille;    // sf_close reports an error (the file is closed all the same)
    std::uint64_t live(kind k);
    std::uint64_t acquired(kind k);
    std::uint64_t released(kind k);
    std::uint64_t failed(kind k);
    void on_acquire(kind k, const void* p);
    void on_release(kind k, const void* p); // violation if not live
    void on_use(kind k, const void* p);     // violation if not live
    bool fail_acquire(kind k);
    // FFT planner occupancy (C01): violation if two threads are inside at once
    struct planner_guard {
        planner_guard(int precision, const char* what);
        ~planner_guard();
        int p;
    };
    extern bool planner_made_thread_safe[2];
    extern void (*planner_yield)(); // lets the schedule switch threads inside the planner
}} // namespace sim::handles
