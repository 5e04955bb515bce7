#pragma once
#include <dlfcn.h>
#include <cstdlib>
namespace sim {
    template <typename F>
    inline F* real_symbol(F*& cache, const char* name) {
        if (!cache) {
            cache = reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
            if (!cache) {
                std::abort();
            }
        }
        return cache;
    }
} // namespace sim
#define SIM_REAL(name) \
    static decltype(::name)* cache_##name = nullptr; \
    auto* const real = sim::real_symbol(cache_##name, #name)
