// The library logs to std::cout; keep that out of the check's output and of the real world.
#pragma once
#include <iostream>
#include <streambuf>
namespace sim {
    struct null_buf : std::streambuf {
        int overflow(int c) override { return c == EOF ? 0 : c; }
        std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
    };
    inline void silence_cout() {
        static null_buf nb;
        std::cout.rdbuf(&nb);
    }
} // namespace sim
