// C02: a failed allocation is reported, leaks nothing and corrupts nothing.
// Programs of the catalogue run on up to three simulated threads that switch between library calls, so that
// many objects are alive when the drawn allocation, plan, converter or file handle of some of them fails.
#include "catalog.hpp"
#include "../core/quiet.hpp"
#include "../core/sched.hpp"
#include "../core/seam_env.hpp"
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
const char* const prop_id = "C02";
using namespace sim;

namespace {
    struct program {
        std::size_t op{0};
        std::uint64_t seed{0}, id{0};
        std::int64_t fail_alloc{-1}, fail_handle{-1};
        int fail_kind{-1};
        std::uint64_t burst{1};
        bool go_on{false};
    };
    // What one execution of it showed
    struct outcome {
        std::uint64_t digest, calls, allocs, handles[handles::kinds], delivered;
        bool threw;
    };
    struct report {
        outcome of[64];
        std::int64_t live[2]; // blocks alive after the first and after the second time
    };
    sched::no_preempt* held = nullptr;
    void around(bool begins) { // the simulated threads take turns between library calls only
        if (begins) {
            sched::yield("call");
            alloc::exempt e;
            held = new sched::no_preempt;
        } else {
            alloc::exempt e;
            delete held;
            held = nullptr;
        }
    }
    std::string name(const program& p) {
        return std::string(catalog::all()[p.op].name) + "(" + std::to_string(p.seed) + ")";
    }
    outcome execute(const program& p, bool failing) {
        catalog::ctx c(p.seed, p.id);
        c.counting = true;
        c.around   = around;
        if (failing) {
            c.fail_alloc  = p.fail_alloc;
            c.burst       = p.burst;
            c.fail_kind   = p.fail_kind;
            c.fail_handle = p.fail_handle;
            c.go_on       = p.go_on;
        }
        try {
            catalog::all()[p.op].run(c);
        } catch (const std::bad_alloc&) {
            c.put("exception");
            if (!c.delivered) violation("spurious-failure", "%s throws bad_alloc with no failure injected", name(p).c_str());
        } catch (const std::exception&) {
            c.put("exception");
        }
        outcome o{c.h, c.calls, c.allocs, {}, c.delivered, c.threw};
        for (int k = 0; k < handles::kinds; ++k) o.handles[k] = c.handles[k];
        return o;
    }
    using plan_type = std::vector<std::vector<program>>;
    // All programs, one after the other
    void serial(const plan_type& plan, outcome* to) {
        for (const auto& t : plan)
            for (const auto& p : t) {
                const auto o = execute(p, false);
                if (to) *to++ = o;
            }
    }
    void check_handles(const char* when) {
        for (int k = 0; k < handles::kinds; ++k) {
            SIM_CHECK(handles::live(static_cast<handles::kind>(k)) == 0, "leaked-handle", "%llu handles of kind %d live %s",
                      static_cast<unsigned long long>(handles::live(static_cast<handles::kind>(k))), k, when);
        }
    }
    // What the programs do when nothing fails, in a process of its own
    report* reference(const plan_type& plan) {
        auto* r = static_cast<report*>(mmap(nullptr, sizeof(report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (r == MAP_FAILED) harness_error("mmap");
        const auto pid = fork();
        if (pid < 0) harness_error("fork");
        if (pid == 0) {
            const auto before = alloc::now().live;
            serial(plan, r->of);
            r->live[0] = alloc::now().live - before;
            serial(plan, nullptr);
            r->live[1] = alloc::now().live - before;
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) != pid) {
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { // let it happen here, where it is reported
            for (const auto& t : plan)
                for (const auto& p : t) {
                    event("serial %s", name(p).c_str());
                    execute(p, false);
                }
            violation("serial-failure", "these calls failed in a process of their own without any fault");
        }
        return r;
    }
} // namespace

void prop_run() {
    silence_cout();
    env::reset();
    disk::reset();
    disk::log_ops  = false;
    clock_.active  = true;
    clock_.wall_ns = 1700000000123456789ll;
    const auto& ops = catalog::all();
    // ---- the programs
    const auto threads = 1 + draw(3);
    plan_type plan(threads);
    std::uint64_t id = 0;
    const bool themed = draw(3) == 1; // one operation with different data
    const auto any    = [&ops] {
        const auto i = draw(ops.size());
        return ops[i].flags & catalog::foreign ? 0 : i;
    };
    const auto theme  = any();
    for (auto& t : plan) {
        bool again;
        do {
            span s;
            program p;
            p.op   = themed ? theme : any();
            p.seed = draw(4096);
            p.id   = ++id;
            t.push_back(p);
            again = more(6) && t.size() < 20;
        } while (again);
    }
    const auto* ref = reference(plan);
    SIM_CHECK(ref->live[0] >= ref->live[1], "leak", "%lld blocks are never released although nothing failed",
              static_cast<long long>(ref->live[1] - ref->live[0]));
    std::size_t i = 0;
    for (auto& t : plan)
        for (auto& p : t) {
            const auto& o = ref->of[i++];
            event("%s: %llu calls, %llu allocations, %llu plans, %016llx", name(p).c_str(), static_cast<unsigned long long>(o.calls),
                  static_cast<unsigned long long>(o.allocs), static_cast<unsigned long long>(o.handles[handles::plan]), static_cast<unsigned long long>(o.digest));
        }
    const bool warm = draw(3) != 2;
    std::vector<std::function<void()>> bodies(threads, [] {});
    sched::run(bodies, {700, 6}); // the simulator's own first uses
    i = 0;
    for (std::size_t t = 0; t < threads; ++t) {
        const auto first = i;
        i += plan[t].size();
        bodies[t] = [&, t, first] {
            for (std::size_t k = 0; k < plan[t].size(); ++k) {
                const auto& p = plan[t][k];
                const auto o  = execute(p, true);
                alloc::exempt ex;
                const auto& want = ref->of[first + k];
                if (p.fail_alloc >= 0 || p.fail_handle >= 0) {
                    event("t%d %s: %llu failures%s, %016llx", static_cast<int>(t), name(p).c_str(), static_cast<unsigned long long>(o.delivered), o.threw ? " reported" : "",
                          static_cast<unsigned long long>(o.digest));
                }
                if (o.delivered) {
                    nontrivial();
                    if (p.fail_kind < 0) count("fault.bad_alloc", o.delivered);
                    count(o.threw ? "reported" : "absorbed");
                    cover(mix(p.op, mix(static_cast<std::uint64_t>(p.fail_kind + 1), std::min<std::uint64_t>(12, static_cast<std::uint64_t>(p.fail_alloc + p.fail_handle + 1)))));
                    // an encoder or decoder whose file cannot be opened says so in its result
                    const bool by_result = p.fail_kind == handles::sndfile || p.fail_kind == handles::converter;
                    SIM_CHECK(o.threw || by_result || o.digest == want.digest, "unreported", "%s: a failure in it was not reported and its result is wrong", name(p).c_str());
                } else {
                    SIM_CHECK(!o.threw && o.digest == want.digest, "disturbed", "%s gives another result beside failing calls", name(p).c_str());
                }
            }
        };
    }
    const auto balance = [&](std::int64_t at) {
        const auto now = alloc::now().live - at;
        SIM_CHECK(now <= ref->live[1], "leak", "%lld blocks leaked by failing calls", static_cast<long long>(now - ref->live[1]));
        check_handles("after the failures");
    };
    const auto start = alloc::now().live; // with the closures
    if (warm) serial(plan, nullptr);      // otherwise the failures meet first uses
    bool again;
    do {
        span s;
        // ---- what fails in which program
        const auto rate = 1 + draw(4);
        for (auto& t : plan)
            for (auto& p : t) {
                const auto& o = ref->of[p.id - 1];
                p.fail_kind = -1;
                p.fail_alloc = p.fail_handle = -1;
                if (draw(rate + 1) == 0) continue;
                std::vector<int> kinds;
                if (o.allocs) kinds.push_back(-1);
                for (int k = 0; k < handles::kinds; ++k) {
                    if (o.handles[k]) kinds.push_back(k);
                }
                if (kinds.empty()) continue;
                p.fail_kind = pick(kinds);
                p.go_on     = draw(3) == 2;
                if (p.fail_kind < 0) {
                    p.fail_alloc = static_cast<std::int64_t>(draw(o.allocs + 1)); // one more than usual: after an earlier failure
                    p.burst      = draw(6) == 5 ? 2 + draw(20) : 1;
                } else {
                    p.fail_handle = static_cast<std::int64_t>(draw(o.handles[p.fail_kind]));
                }
            }
        event("round");
        sched::run(bodies, {700, 6});
        if (warm) balance(start);
        again = more(6);
    } while (again);
    // ---- everything again, on fresh objects
    for (const auto& t : plan)
        for (const auto& p : t) {
            const auto o = execute(p, false);
            SIM_CHECK(o.digest == ref->of[p.id - 1].digest && !o.threw, "not-recovered", "%s gives another result after failures", name(p).c_str());
        }
    balance(start);
}
