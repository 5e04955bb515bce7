// C10: environment access is linearizable, exact in lengths, and reports absence and errors.
#include "../core/alloc.hpp"
#include "../core/sched.hpp"
#include "../core/seam_env.hpp"
#include "../core/sim.hpp"
#include "../core/quiet.hpp"
#include <algorithm>
#include <memory>
#include <optional>
#include <edsp/core/logger.hpp>
#include <edsp/core/system.hpp>
#include <set>
extern "C" {
#include <cedsp/core.h>
}
const char* const prop_id = "C10";
using namespace sim;

namespace {
    using err = edsp::system_env::error;
    enum kind { get, set, exists };
    struct operation {
        kind k{get};
        bool c_api{false}, overwrite{true}, fail{false};
        std::size_t name{0};
        std::string value;
        std::size_t pad_front{0}, pad_back{0};
        unsigned alloc_fail{0};
        // results
        std::uint64_t inv{0}, res{0};
        int code{0};          // error code, 0 = fine
        bool found{false};
        bool threw{false};
        std::string got;
        const char* at{nullptr};
        std::size_t len{0};
        int thread{0};
    };
    std::vector<std::string> names;

    // A piece of a larger text: what surrounds it must not be looked at
    struct piece {
        std::string all;
        edsp::string_view v;
        piece(const std::string& s, std::size_t front, std::size_t back) {
            all = std::string(front, 'X') + s + std::string(back, 'Y');
            v   = edsp::string_view(all.data() + front, s.size());
        }
    };

    void perform(operation& o) {
        // the texts themselves are the client's, their allocation never fails
        std::optional<alloc::exempt> ex;
        ex.emplace();
        const std::string& n = names[o.name];
        piece name(n, o.pad_front, o.pad_back), value(o.value, o.pad_back, o.pad_front);
        const std::string cname = n, cvalue = o.value;
        sched::yield("before");
        {
            sched::no_preempt np;
            o.inv = sched::next_seq();
        }
        env::fail_next_set = o.fail;
        ex.reset();
        try {
            switch (o.k) {
                case get:
                    if (o.c_api) {
                        int e        = 12345;
                        const char* r = get_environment(cname.c_str(), o.overwrite ? &e : nullptr);
                        o.code       = o.overwrite ? e : (r ? 0 : static_cast<int>(n.empty() ? err::empty : err::not_found));
                        o.found      = r != nullptr;
                        o.at         = r;
                        o.len        = r ? std::strlen(r) : 0;
                    } else {
                        const auto r = edsp::system_env::get_env(name.v);
                        o.found      = static_cast<bool>(r);
                        o.code       = r ? 0 : static_cast<int>(r.error());
                        o.at         = r ? r.value().data() : nullptr;
                        o.len        = r ? r.value().size() : 0;
                    }
                    break;
                case set:
                    o.code = o.c_api ? set_environment(cname.c_str(), cvalue.c_str())
                                     : static_cast<int>(o.overwrite ? (o.pad_front & 1 ? edsp::system_env::set_env(name.v, value.v)
                                                                                     : edsp::system_env::set_env(name.v, value.v, true))
                                                                    : edsp::system_env::set_env(name.v, value.v, false));
                    break;
                case exists:
                    if (o.c_api) {
                        const int r = exist_environment(cname.c_str());
                        o.found     = r != 0;
                    } else {
                        o.found = edsp::system_env::exist(name.v);
                    }
                    break;
            }
        } catch (const std::bad_alloc&) {
            o.threw = true;
        }
        alloc::exempt e2;
        {
            sched::no_preempt np;
            o.res = sched::next_seq();
            if (o.at) {
                o.got.assign(o.at, o.len);
            }
        }
        env::fail_next_set = false;
        static const char* const kn[] = {"get", "set", "exists"};
        event("t%d %s%s(%s%s%s%s) -> code %d%s%s%s", o.thread, o.c_api ? "C " : "", kn[o.k], n.c_str(), o.k == set ? ", '" : "", o.value.c_str(),
              o.k == set ? (o.overwrite || o.c_api ? "'" : "', keep") : "", o.code, o.found ? " found " : "", o.got.c_str(), o.threw ? " threw" : "");
    }

    struct state {
        bool set{false};
        std::string v;
        bool operator<(const state& o) const { return set != o.set ? set < o.set : v < o.v; }
    };
    // Does o's outcome fit the sequential specification in state s? Updates s.
    bool fits(const operation& o, state& s, bool oom) {
        if (o.threw) {
            return o.k == exists && oom; // reported as an exception, no effect
        }
        if (oom && o.k == get && o.c_api && !o.overwrite && !o.found) {
            return true; // no place given for the error code
        }
        if (oom && o.k != exists && o.code == static_cast<int>(err::no_memory)) {
            return !o.found;
        }
        const bool is_set = s.set;
        switch (o.k) {
            case get: return is_set ? (o.found && o.code == 0 && o.got == s.v) : (!o.found && o.code == static_cast<int>(err::not_found));
            case exists: return o.found == is_set;
            case set:
                if (o.fail || names[o.name].find('=') != std::string::npos) {
                    return o.code != 0; // the system call failed: an error, and nothing changed
                }
                if (o.code != 0) {
                    return false;
                }
                if (!is_set || o.overwrite || o.c_api) {
                    s.set = true;
                    s.v   = o.value;
                }
                return true;
        }
        return false;
    }
    struct linearizer {
        std::vector<const operation*> ops;
        std::set<std::pair<std::uint64_t, state>> seen;
        bool oom;
        state last;
        bool search(std::uint64_t done, const state& s) {
            if (done == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1)) {
                return !final_known || (s.set == final_.set && s.v == final_.v);
            }
            if (!seen.insert({done, s}).second) {
                return false;
            }
            std::uint64_t first_res = ~0ull;
            for (std::size_t i = 0; i < ops.size(); ++i) {
                if (!(done >> i & 1)) {
                    first_res = std::min(first_res, ops[i]->res);
                }
            }
            for (std::size_t i = 0; i < ops.size(); ++i) {
                if (done >> i & 1 || ops[i]->inv > first_res) {
                    continue;
                }
                state t = s;
                if (fits(*ops[i], t, oom) && search(done | 1ull << i, t)) {
                    return true;
                }
            }
            return false;
        }
        bool final_known{false};
        state final_;
    };
} // namespace

void prop_run() {
    silence_cout();
    env::reset();
    static const char* const pool[] = {"A", "AB", "EDSP_A_LONGER_VARIABLE_NAME", "B", "PATH", "a", "EDSP_A_LONGER_VARIABLE_NAME_2", "", "BAD=NAME"};
    for (std::size_t i = 0, n = 1 + draw(3); i < n; ++i) {
        std::string nm = pool[draw(9)];
        if (chance(40)) { // longer than any fixed buffer; two of them differ at the end only
            nm = std::string(large_size(5000), 'N');
            if (coin() && std::find(names.begin(), names.end(), nm + "_2") == names.end()) names.push_back(nm + "_2");
        }
        if (std::find(names.begin(), names.end(), nm) == names.end()) {
            names.push_back(nm);
        }
    }
    const bool oom      = draw(4) == 1;
    const auto threads  = 1 + draw(4);
    const auto fail_set = coin() ? 150u : 0u;
    std::map<std::string, state> initial;
    for (auto& n : names) {
        if (!n.empty() && n.find('=') == std::string::npos && coin()) {
            const std::string v = coin() ? "" : "initial of " + n;
            env::put(n, v);
            initial[n] = {true, v};
            event("initially %s='%s'", n.c_str(), v.c_str());
        }
    }
    event("%d threads, names %zu, oom %d", static_cast<int>(threads), names.size(), oom);
    std::vector<std::vector<operation>> plan(threads);
    int serial = 0;
    for (std::size_t t = 0; t < threads; ++t) {
        while (more(6) && plan[t].size() < 12) {
            span s;
            operation o;
            o.thread    = static_cast<int>(t);
            o.k         = static_cast<kind>(draw(3));
            o.name      = draw(names.size());
            o.c_api     = coin();
            o.overwrite = draw(3) != 1;
            o.pad_front = draw(3);
            o.pad_back  = draw(20);
            o.fail      = o.k == set && chance(fail_set);
            if (o.k == set && !chance(150)) { // else the empty value
                o.value = "v" + std::to_string(serial++) + std::string(draw(2) ? draw(40) : 0, 'z');
                if (chance(20)) o.value += std::string(large_size(80000), 'y') + "end";
            }
            plan[t].push_back(o);
        }
    }
    std::vector<std::function<void()>> bodies;
    for (std::size_t t = 0; t < threads; ++t) {
        bodies.push_back([&plan, t] {
            for (auto& o : plan[t]) {
                perform(o);
            }
        });
    }
    if (oom) {
        alloc::arm(draw(12), 1 + draw(4));
    }
    sched::run(bodies, {400, 10});
    if (oom && alloc::disarm()) {
        count("fault.alloc-fail");
    }
    alloc::exempt ex;
    std::size_t expected_size = 0;
    for (std::size_t n = 0; n < names.size(); ++n) {
        linearizer l;
        l.oom         = oom;
        l.final_known = true;
        l.final_      = {env::has(names[n]), env::value(names[n])};
        expected_size += l.final_.set;
        for (auto& th : plan) {
            for (auto& o : th) {
                if (o.name != n) {
                    continue;
                }
                // absence of a name is told from an empty name, whatever the schedule
                if (names[n].empty()) {
                    const bool nomem = oom && o.code == static_cast<int>(err::no_memory);
                    SIM_CHECK(!o.found, "empty-name", "the empty name was found");
                    SIM_CHECK(o.threw || o.k == exists || nomem || o.code == static_cast<int>(err::empty), "empty-name", "the empty name gives code %d", o.code);
                    continue;
                }
                l.ops.push_back(&o);
                if (o.at) { // the value stays what it was while later calls run
                    SIM_CHECK(std::string(o.at, o.len) == o.got, "value-changed", "a value returned earlier reads '%s' now, '%s' then",
                              std::string(o.at, o.len).c_str(), o.got.c_str());
                }
            }
        }
        SIM_CHECK(!names[n].empty() || !l.final_.set, "empty-name", "a variable without name exists");
        if (!names[n].empty() && names[n].find('=') == std::string::npos && !l.search(0, initial[names[n]])) {
            violation("not-linearizable", "no order of the %zu operations on '%s' explains their results and the final state (%s '%s')", l.ops.size(),
                      names[n].c_str(), l.final_.set ? "set to" : "not set", l.final_.v.c_str());
        }
        if (names[n].find('=') != std::string::npos) {
            for (auto* o : l.ops) {
                state s;
                SIM_CHECK(fits(*o, s, oom), "bad-name", "operation on a name with '=' gives code %d", o->code);
            }
        }
        cover(mix(l.ops.size(), mix(threads, l.final_.set)));
    }
    SIM_CHECK(env::size() == expected_size, "other-names", "%zu variables exist, %zu of the names used do", env::size(), expected_size);
}
