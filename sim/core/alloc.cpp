#include "alloc.hpp"
#include "sim.hpp"
#include <cstdlib>
#include <malloc.h>
#include <functional>
#include <new>
#include <unordered_set>

namespace sim { namespace alloc {
    namespace {
        counters C{};
        bool on               = false;
        std::uint64_t at      = 0;
        std::uint64_t burst_n = 1;
        std::uint64_t n_seen = 0, n_failed = 0;
        thread_local int exempt_depth = 0;
        // The simulator's own blocks
        template <typename T>
        struct plain {
            using value_type = T;
            plain() = default;
            template <typename U>
            plain(const plain<U>&) {}
            T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
            void deallocate(T* p, std::size_t) { std::free(p); }
            bool operator==(const plain&) const { return true; }
            bool operator!=(const plain&) const { return false; }
        };
        std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, plain<void*>>& own() {
            alignas(16) static char place[sizeof(std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, plain<void*>>)];
            static auto* s = new (place) std::unordered_set<void*, std::hash<void*>, std::equal_to<void*>, plain<void*>>;
            return *s;
        }

        void* get(std::size_t n, std::size_t align, bool nothrow) {
            const bool counted = exempt_depth == 0;
            if (counted && on) {
                const auto i = n_seen++;
                if (i >= at && i < at + burst_n) {
                    ++n_failed;
                    if (nothrow) {
                        return nullptr;
                    }
                    throw std::bad_alloc();
                }
            }
            void* p;
            if (align <= 16) {
                p = std::malloc(n ? n : 1);
            } else {
                p = nullptr;
                if (posix_memalign(&p, align, n ? n : 1) != 0) {
                    p = nullptr;
                }
            }
            if (!p) {
                if (nothrow) {
                    return nullptr;
                }
                throw std::bad_alloc();
            }
            if (!counted) {
                own().insert(p);
                return p;
            }
            ++C.total;
            ++C.live;
            C.live_bytes += static_cast<std::int64_t>(malloc_usable_size(p));
            return p;
        }
        void put(void* p) {
            if (!p) {
                return;
            }
            if (own().erase(p)) {
                std::free(p);
                return;
            }
            --C.live;
            C.live_bytes -= static_cast<std::int64_t>(malloc_usable_size(p));
            std::free(p);
        }
    } // namespace
    counters now() { return C; }
    void arm(std::uint64_t k, std::uint64_t burst) {
        on       = true;
        at       = k;
        burst_n  = burst;
        n_seen   = 0;
        n_failed = 0;
    }
    std::uint64_t disarm() {
        on = false;
        return n_failed;
    }
    bool armed() { return on; }
    std::uint64_t seen() { return n_seen; }
    exempt::exempt() { ++exempt_depth; }
    exempt::~exempt() { --exempt_depth; }
}} // namespace sim::alloc

void* operator new(std::size_t n) { return sim::alloc::get(n, 16, false); }
void* operator new[](std::size_t n) { return sim::alloc::get(n, 16, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::alloc::get(n, 16, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::alloc::get(n, 16, true); }
void* operator new(std::size_t n, std::align_val_t a) { return sim::alloc::get(n, static_cast<std::size_t>(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::alloc::get(n, static_cast<std::size_t>(a), false); }
void operator delete(void* p) noexcept { sim::alloc::put(p); }
void operator delete[](void* p) noexcept { sim::alloc::put(p); }
void operator delete(void* p, std::size_t) noexcept { sim::alloc::put(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::alloc::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::alloc::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::alloc::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::alloc::put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::alloc::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::alloc::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::alloc::put(p); }
