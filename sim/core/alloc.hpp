// Seam: operator new/delete. Decides which allocation fails and counts what is live.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim { namespace alloc {
    struct counters {
        std::int64_t live;       // blocks
        std::int64_t live_bytes; // bytes
        std::uint64_t total;     // allocations so far
    };
    counters now();
    // The (k+1)-th allocation from now on throws bad_alloc, and the `burst`-1 after it.
    void arm(std::uint64_t k, std::uint64_t burst = 1);
    // returns number of failures delivered since arm()
    std::uint64_t disarm();
    bool armed();
    std::uint64_t seen(); // allocations seen since arm()
    struct exempt { // allocations of the simulator itself never fail and are not counted
        exempt();
        ~exempt();
        exempt(const exempt&) = delete;
    };
}} // namespace sim::alloc
