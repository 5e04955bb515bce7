// Seam: threads. Real threads, of which exactly one runs at a time; the simulator decides which,
// at every lock operation, at every instrumented memory access and at every explicit yield.
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace sim { namespace sched {
    struct config {
        unsigned preempt_permille{300}; // at a decision: does the thread run a bounded slice?
        unsigned slice_log2_max{12};    // slices of up to 2^k instrumented accesses
        unsigned static_log2_max{7};    // and of up to 2^k accesses to static storage
    };
    // Runs all bodies to completion under the scheduler. Violation "deadlock" if none can run.
    void run(const std::vector<std::function<void()>>& bodies, const config& c);
    bool active();           // called from a simulated thread?
    int self();              // index of the simulated thread, -1 outside
    void yield(const char* why); // an explicit switch opportunity
    std::uint64_t switches();
    std::uint64_t seq();     // global event sequence number
    std::uint64_t next_seq();
    struct no_preempt {      // the simulator's own bookkeeping is atomic
        no_preempt();
        ~no_preempt();
        no_preempt(const no_preempt&) = delete;
    };
}} // namespace sim::sched
