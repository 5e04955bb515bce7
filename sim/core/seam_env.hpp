// Seam: the process environment as threads of the simulation see it.
#pragma once
#include <cstddef>
#include <map>
#include <string>
namespace sim { namespace env {
    void reset();
    bool has(const std::string& name);
    std::string value(const std::string& name);
    std::size_t size();
    void put(const std::string& name, const std::string& value); // behind the library's back
    extern thread_local bool fail_next_set; // setenv/unsetenv/putenv of this thread fails with ENOMEM
    extern thread_local unsigned calls;     // environment calls made by this thread
    extern bool on;
}} // namespace sim::env
