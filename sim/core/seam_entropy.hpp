// Seam: the system's entropy source, as std::random_device reaches it.
#pragma once
#include <cstdint>
namespace sim { namespace entropy {
    // What the calling thread's readings return from now on: word j of a stream is a function of the stream and j alone.
    enum quality { good, zeros, ones, alternating };
    struct reading {
        std::uint64_t stream{0};
        quality q{good};
        long fail_open{-1}, fail_read{-1}; // the opening or reading, counted from 0, from which on every one fails
        // what happened
        std::uint64_t opens{0}, closes{0}, reads{0}, failures{0};
    };
    void use(reading* r); // nullptr: readings are an error of the harness
    long open_devices();
}} // namespace sim::entropy
