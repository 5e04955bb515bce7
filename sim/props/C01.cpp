// C01: concurrent use of distinct objects and buffers gives the serial results.
// Every thread runs programs of the catalogue on data of its own. The same programs are run one after the
// other in a fresh process before, and in the opposite order afterwards; the results of all must agree.
#include "catalog.hpp"
#include "../core/quiet.hpp"
#include "../core/sched.hpp"
#include "../core/seam_env.hpp"
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
const char* const prop_id = "C01";
using namespace sim;

namespace {
    struct program {
        std::size_t op{0};
        std::uint64_t seed{0}, id{0};
        int thread{0};
        std::uint64_t fresh{0}; // result in the serial order
        std::uint64_t result{0};
    };
    std::uint64_t execute(const program& p) {
        catalog::ctx c(p.seed, p.id);
        try {
            catalog::all()[p.op].run(c);
        } catch (const std::exception&) {
            c.put("exception");
        }
        return c.h;
    }
    std::vector<program*> order(std::vector<std::vector<program>>& plan, bool backwards) {
        std::vector<program*> o;
        for (auto& t : plan)
            for (auto& p : t) o.push_back(&p);
        if (backwards) std::reverse(o.begin(), o.end());
        return o;
    }
    // The results of a serial execution in a process that called nothing of the library before.
    void serial(std::vector<std::vector<program>>& plan) {
        const auto o = order(plan, false);
        auto* shared = static_cast<std::uint64_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (shared == MAP_FAILED) harness_error("mmap");
        const auto pid = fork();
        if (pid < 0) harness_error("fork");
        if (pid == 0) {
            for (std::size_t i = 0; i < o.size(); ++i) shared[i] = execute(*o[i]);
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) != pid) {
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { // let it happen here, where it is reported
            for (auto* p : o) {
                event("serial %s(%llu)", catalog::all()[p->op].name, static_cast<unsigned long long>(p->seed));
                execute(*p);
            }
            violation("serial-failure", "the serial execution of these calls failed in a process of its own");
        }
        for (std::size_t i = 0; i < o.size(); ++i) o[i]->fresh = shared[i];
    }
    // The same calls in the opposite order, in this process
    void backwards(std::vector<std::vector<program>>& plan) {
        for (auto* p : order(plan, true)) {
            const auto r = execute(*p);
            event("backwards %s(%llu) gives %016llx", catalog::all()[p->op].name, static_cast<unsigned long long>(p->seed), static_cast<unsigned long long>(r));
            SIM_CHECK(r == p->fresh, "history", "%s(%llu) gives another result after other calls", catalog::all()[p->op].name, static_cast<unsigned long long>(p->seed));
        }
    }
    std::vector<program*> in_progress;
    void yield_in_planner() { sched::yield("planner"); }
    void yield_in_disk() { sched::yield("disk"); }
} // namespace

void prop_run() {
    silence_cout();
    env::reset();
    disk::reset();
    disk::log_ops   = false;
    clock_.active   = true;
    clock_.wall_ns  = 1700000000123456789ll;
    const auto& ops = catalog::all();
    // few kinds of calls per run, so that the same functions meet with different data
    std::vector<std::size_t> menu;
    const auto theme = draw(5);
    static const unsigned sizes[] = {1, 2, 3, 4, 1, 1};
    for (auto k = sizes[draw(6)]; k; --k) {
        std::size_t i;
        do {
            i = draw(ops.size());
        } while (theme == 1 && !(ops[i].flags & (catalog::planner | catalog::shared)));
        menu.push_back(i);
    }
    const auto threads = 2 + draw(3);
    std::vector<std::vector<program>> plan(threads);
    std::uint64_t id = 0;
    std::vector<program> drawn;
    for (std::size_t t = 0; t < threads; ++t) {
        do {
            span s;
            program p;
            p.op     = menu[draw(menu.size())];
            p.seed   = draw(catalog::ctx::seeds);
            if (const auto k = draw(3)) { // the same call as another one, or the same but for one choice
                std::vector<std::uint64_t> alike;
                for (const auto& q : drawn)
                    if (q.op == p.op) alike.push_back(q.seed % catalog::ctx::seeds);
                if (!alike.empty()) {
                    p.seed = alike[draw(alike.size())];
                    if (k == 2) p.seed += catalog::ctx::seeds * (1 + draw(draw(2) ? 48 : 12));
                }
            }
            drawn.push_back(p);
            p.id     = ++id;
            p.thread = static_cast<int>(t);
            plan[t].push_back(p);
        } while (more(3) && plan[t].size() < 6);
    }
    serial(plan);
    for (auto* p : order(plan, false)) {
        event("t%d: %s(%llu) gives %016llx", p->thread, ops[p->op].name, static_cast<unsigned long long>(p->seed), static_cast<unsigned long long>(p->fresh));
    }
    if (draw(4) == 1) backwards(plan); // concurrency in a process that has called the library before
    handles::planner_yield = yield_in_planner;
    disk::on_op            = yield_in_disk;
    std::vector<std::function<void()>> bodies;
    for (auto& t : plan) {
        bodies.push_back([&t] {
            for (auto& p : t) {
                {
                    sched::no_preempt np;
                    alloc::exempt ex;
                    event("t%d begins %s(%llu)", p.thread, catalog::all()[p.op].name, static_cast<unsigned long long>(p.seed));
                    for (auto* q : in_progress) cover(mix(std::min(q->op, p.op), std::max(q->op, p.op)));
                    in_progress.push_back(&p);
                }
                p.result = execute(p);
                sched::no_preempt np;
                alloc::exempt ex;
                in_progress.erase(std::find(in_progress.begin(), in_progress.end(), &p));
                event("t%d has %016llx after %llu switches", p.thread, static_cast<unsigned long long>(p.result), static_cast<unsigned long long>(sched::switches()));
                SIM_CHECK(p.result == p.fresh, "interference", "thread %d: %s(%llu) gives another result than alone", p.thread, catalog::all()[p.op].name,
                          static_cast<unsigned long long>(p.seed));
            }
        });
    }
    static const unsigned slices[] = {6, 9, 12, 15};
    for (auto rounds = 1 + draw(6); rounds; --rounds) {
        event("round");
        sched::run(bodies, {700, draw(12) == 1 ? 3 : slices[draw(4)]});
    }
    backwards(plan);
}
