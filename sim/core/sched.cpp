#include "sched.hpp"
#include "alloc.hpp"
#include "real.hpp"
#include "sim.hpp"
#include <atomic>
#include <cerrno>
#include <cstring>
#include <ctime>
#include <exception>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" char __data_start, _end; // the program's static storage

namespace sim { namespace sched {
    namespace {
        enum state { runnable, blocked, finished };
        struct task {
            std::atomic<int> go{0};
            state st{runnable};
            const void* waits_for{nullptr};
            const std::function<void()>* body{nullptr};
            pthread_t th{};
        };
        std::vector<task*> tasks;
        config cfg;
        int current = -1;
        std::uint64_t n_switches = 0, n_seq = 0;
        std::uint64_t budget = 0; // accesses until the next decision; 0 = run on
        bool bounded         = false;
        std::uint64_t idle   = 0; // instrumented steps since the last decision
        constexpr std::uint64_t spin_limit = 2000000; // a thread that runs on for longer may be waiting for another one
        std::uint64_t static_budget = 1; // accesses to static storage until the next decision
        std::atomic<int> all_done{0};

        thread_local int tl_self = -1;
        thread_local int tl_quiet = 0;

        void futex_wait(std::atomic<int>& a) {
            while (a.load(std::memory_order_acquire) == 0) {
                syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
            }
            a.store(0, std::memory_order_release);
        }
        void futex_wake(std::atomic<int>& a) {
            a.store(1, std::memory_order_release);
            syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
        }
        void new_slice() {
            idle    = 0;
            bounded = draw_sched(1000) >= 1000 - cfg.preempt_permille;
            if (bounded) {
                const auto k = draw_sched(cfg.slice_log2_max + 1);
                budget       = 1 + draw_sched(1ull << k);
            }
        }
        // Picks the next thread. Alternative 0 is "go on with the current one" when it can run.
        int choose(bool may_stay) {
            int cand[64];
            int n = 0;
            if (may_stay && tasks[static_cast<std::size_t>(current)]->st == runnable) {
                cand[n++] = current;
            }
            const auto from = static_cast<std::size_t>(current + 1); // round robin order after the current one
            for (std::size_t k = 0; k < tasks.size(); ++k) {
                const auto i = (from + k) % tasks.size();
                if (tasks[i]->st == runnable && !(may_stay && static_cast<int>(i) == current)) {
                    cand[n++] = static_cast<int>(i);
                }
            }
            if (n == 0) {
                return -1;
            }
            return cand[draw_sched(static_cast<std::uint64_t>(n))];
        }
        void hand_over(int next, bool wait) {
            const int me = current;
            current      = next;
            new_slice();
            if (next == me) {
                return;
            }
            ++n_switches;
            count("sched.switches");
            nontrivial();
            futex_wake(tasks[static_cast<std::size_t>(next)]->go);
            if (wait) {
                futex_wait(tasks[static_cast<std::size_t>(me)]->go);
            }
        }
        void* entry(void* arg) {
            const auto me = static_cast<int>(reinterpret_cast<std::intptr_t>(arg));
            auto* t       = tasks[static_cast<std::size_t>(me)];
            futex_wait(t->go);
            tl_self  = me;
            tl_quiet = 0;
            try {
                (*t->body)();
            } catch (const std::exception& e) {
                violation("uncaught-exception", "thread %d ended with an exception: %s", me, e.what());
            }
            tl_quiet = 1;
            tl_self  = -1;
            t->st    = finished;
            const int next = choose(false);
            if (next < 0) {
                for (auto* x : tasks) {
                    if (x->st != finished) {
                        violation("deadlock", "no thread can run: thread %d finished and the rest are blocked", me);
                    }
                }
                all_done.store(1);
                syscall(SYS_futex, reinterpret_cast<int*>(&all_done), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
            } else {
                current = next;
                new_slice();
                ++n_switches;
                futex_wake(tasks[static_cast<std::size_t>(next)]->go);
            }
            return nullptr;
        }
    } // namespace

    no_preempt::no_preempt() { ++tl_quiet; }
    no_preempt::~no_preempt() { --tl_quiet; }
    bool active() { return tl_self >= 0; }
    int self() { return tl_self; }
    std::uint64_t switches() { return n_switches; }
    std::uint64_t seq() { return n_seq; }
    std::uint64_t next_seq() { return ++n_seq; }

    void yield(const char*) {
        if (tl_self < 0 || tl_quiet) {
            return;
        }
        no_preempt np;
        hand_over(choose(true), true);
    }
    // Called at every instrumented access.
    inline void access_point() {
        if (tl_self < 0 || tl_quiet) {
            return;
        }
        if (bounded && --budget == 0) {
            no_preempt np;
            hand_over(choose(true), true);
        } else if (++idle == spin_limit) {
            idle = 0;
            no_preempt np;
            const int next = choose(false);
            if (next >= 0 && next != current) {
                count("sched.spin-relief");
                hand_over(next, true);
            }
        }
    }
    // Called at every instrumented load and store. What threads of distinct objects share is static storage; the
    // moments around its accesses are few and decide, so they get decisions of their own.
    inline void access_point(const void* p) {
        if (tl_self >= 0 && !tl_quiet && p >= &__data_start && p < &_end && --static_budget == 0) {
            no_preempt np;
            static_budget = 1 + draw_sched(1ull << draw_sched(cfg.static_log2_max + 1));
            count("sched.static-access");
            hand_over(choose(true), true);
            return;
        }
        access_point();
    }
    // The calling thread cannot go on until `what` is released.
    void block_on(const void* what) {
        no_preempt np;
        auto* t      = tasks[static_cast<std::size_t>(tl_self)];
        t->st        = blocked;
        t->waits_for = what;
        count("sched.blocked");
        const int next = choose(false);
        if (next < 0) {
            violation("deadlock", "thread %d waits for a lock and no other thread can run", tl_self);
        }
        hand_over(next, true);
    }
    void wake_all(const void* what) {
        for (auto* t : tasks) {
            if (t->st == blocked && t->waits_for == what) {
                t->st        = runnable;
                t->waits_for = nullptr;
            }
        }
    }

    void run(const std::vector<std::function<void()>>& bodies, const config& c) {
        alloc::exempt e;
        cfg = c;
        static_budget = 1 + draw_sched(1ull << draw_sched(cfg.static_log2_max + 1));
        all_done.store(0);
        tasks.clear();
        for (const auto& b : bodies) {
            auto* t = new task;
            t->body = &b;
            tasks.push_back(t);
        }
        current = -1;
        for (std::size_t i = 0; i < tasks.size(); ++i) {
            if (pthread_create(&tasks[i]->th, nullptr, entry, reinterpret_cast<void*>(i)) != 0) {
                harness_error("pthread_create failed");
            }
        }
        if (tasks.empty()) {
            return;
        }
        current = choose(false);
        new_slice();
        futex_wake(tasks[static_cast<std::size_t>(current)]->go);
        while (all_done.load() == 0) {
            syscall(SYS_futex, reinterpret_cast<int*>(&all_done), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        }
        for (auto* t : tasks) {
            pthread_join(t->th, nullptr);
            delete t;
        }
        tasks.clear();
        current = -1;
    }

    // ---- locks ---------------------------------------------------------------------------
    namespace {
        struct lock_state {
            int owner{-1};
            int depth{0};
            int readers{0};
        };
        std::map<const void*, lock_state>& locks() {
            static auto* m = new std::map<const void*, lock_state>;
            return *m;
        }
        template <typename M>
        bool is_recursive(M*) {
            return false;
        }
        bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
    } // namespace
    int lock_excl(const void* m, bool recursive, bool try_only) {
        yield("lock");
        no_preempt np;
        alloc::exempt e;
        for (;;) {
            auto& l = locks()[m];
            if (l.owner < 0 && l.readers == 0) {
                l.owner = tl_self;
                l.depth = 1;
                count("sched.lock");
                return 0;
            }
            if (l.owner == tl_self && recursive) {
                ++l.depth;
                return 0;
            }
            if (try_only) {
                return EBUSY;
            }
            if (l.owner == tl_self) {
                violation("deadlock", "thread %d locks a mutex it already holds", tl_self);
            }
            block_on(m);
        }
    }
    int lock_shared(const void* m, bool try_only) {
        yield("rdlock");
        no_preempt np;
        alloc::exempt e;
        for (;;) {
            auto& l = locks()[m];
            if (l.owner < 0) {
                ++l.readers;
                return 0;
            }
            if (try_only) {
                return EBUSY;
            }
            block_on(m);
        }
    }
    int unlock(const void* m) {
        {
            no_preempt np;
            alloc::exempt e;
            auto it = locks().find(m);
            if (it == locks().end()) {
                return EPERM;
            }
            auto& l = it->second;
            if (l.owner == tl_self) {
                if (--l.depth == 0) {
                    l.owner = -1;
                    locks().erase(it);
                    wake_all(m);
                }
            } else if (l.readers > 0) {
                if (--l.readers == 0) {
                    locks().erase(it);
                    wake_all(m);
                }
            }
        }
        yield("unlock");
        return 0;
    }
    // condition variables: a waiter blocks on the cond address; signal wakes all (spurious wakeups are legal)
    int cond_wait(const void* c, pthread_mutex_t* m) {
        {
            no_preempt np;
            alloc::exempt e;
            auto it = locks().find(m);
            if (it != locks().end()) {
                locks().erase(it);
                wake_all(m);
            }
        }
        block_on(c);
        return lock_excl(m, false, false);
    }
}} // namespace sim::sched

using namespace sim;

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    SIM_REAL(pthread_mutex_lock);
    return sched::active() ? sched::lock_excl(m, sched::is_recursive(m), false) : real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    SIM_REAL(pthread_mutex_trylock);
    return sched::active() ? sched::lock_excl(m, sched::is_recursive(m), true) : real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    SIM_REAL(pthread_mutex_unlock);
    return sched::active() ? sched::unlock(m) : real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    SIM_REAL(pthread_rwlock_wrlock);
    return sched::active() ? sched::lock_excl(m, false, false) : real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    SIM_REAL(pthread_rwlock_rdlock);
    return sched::active() ? sched::lock_shared(m, false) : real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    SIM_REAL(pthread_rwlock_unlock);
    return sched::active() ? sched::unlock(m) : real(m);
}
int pthread_spin_lock(pthread_spinlock_t* m) noexcept {
    SIM_REAL(pthread_spin_lock);
    return sched::active() ? sched::lock_excl(const_cast<const int*>(m), false, false) : real(m);
}
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept {
    SIM_REAL(pthread_spin_unlock);
    return sched::active() ? sched::unlock(const_cast<const int*>(m)) : real(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    SIM_REAL(pthread_cond_wait);
    return sched::active() ? sched::cond_wait(c, m) : real(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    SIM_REAL(pthread_cond_signal);
    if (!sched::active()) {
        return real(c);
    }
    sched::wake_all(c);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    SIM_REAL(pthread_cond_broadcast);
    if (!sched::active()) {
        return real(c);
    }
    sched::wake_all(c);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    SIM_REAL(pthread_once);
    if (!sched::active()) {
        return real(o, f);
    }
    // 0 = not begun, 1 = running (ours), 2 = done, in glibc's own encoding of "done"
    sched::yield("once");
    while (*o == 1) {
        sched::block_on(const_cast<const int*>(o));
    }
    if (*o == 2) {
        return 0;
    }
    *o = 1;
    try {
        f();
    } catch (...) {
        *o = 0;
        sched::wake_all(const_cast<const int*>(o));
        throw;
    }
    *o = 2;
    sched::wake_all(const_cast<const int*>(o));
    return 0;
}
int sched_yield(void) noexcept {
    SIM_REAL(sched_yield);
    if (sched::active()) {
        sched::yield("sched_yield");
        return 0;
    }
    return real();
}
int nanosleep(const struct timespec* t, struct timespec* r) {
    SIM_REAL(nanosleep);
    if (sched::active()) {
        advance_ns(t->tv_sec * 1000000000ll + t->tv_nsec);
        sched::yield("nanosleep");
        return 0;
    }
    return real(t, r);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* r) {
    SIM_REAL(clock_nanosleep);
    if (sched::active()) {
        sched::yield("clock_nanosleep");
        return 0;
    }
    return real(c, flags, t, r);
}
// function-local statics: another thread may be parked inside the initialiser
int __cxa_guard_acquire(std::uint64_t* g) {
    auto* b = reinterpret_cast<unsigned char*>(g);
    if (b[0]) {
        return 0;
    }
    if (sched::active()) {
        sched::yield("guard");
        while (!b[0] && b[1]) {
            sched::block_on(g);
        }
        if (b[0]) {
            return 0;
        }
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(std::uint64_t* g) {
    auto* b = reinterpret_cast<unsigned char*>(g);
    b[0]    = 1;
    b[1]    = 0;
    if (sched::active()) {
        sched::wake_all(g);
        sched::yield("guard-release");
    }
}
void __cxa_guard_abort(std::uint64_t* g) {
    reinterpret_cast<unsigned char*>(g)[1] = 0;
    if (sched::active()) {
        sched::wake_all(g);
    }
}

// clang -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores
void __sanitizer_cov_trace_pc_guard_init(std::uint32_t*, std::uint32_t*) {}
void __sanitizer_cov_trace_pc_guard(std::uint32_t*) { sim::sched::access_point(); }
#define ACC(n)                                                                          \
    void __sanitizer_cov_load##n(void* p) { sim::sched::access_point(p); }              \
    void __sanitizer_cov_store##n(void* p) { sim::sched::access_point(p); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
}
