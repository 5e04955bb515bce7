#include "seam_env.hpp"
#include "alloc.hpp"
#include "real.hpp"
#include "sched.hpp"
#include "sim.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <unistd.h>

namespace sim { namespace env {
    thread_local bool fail_next_set = false;
    thread_local unsigned calls     = 0;
    bool on                         = false;
    namespace {
        // Values live for ever, as glibc's do, so that what an earlier getenv returned stays readable.
        std::map<std::string, const char*>& table() {
            static auto* t = new std::map<std::string, const char*>;
            return *t;
        }
        int readers = 0, writers = 0;
        struct inside {
            bool w;
            inside(bool writer, const char* what) : w(writer) {
                if (writers || (w && readers)) {
                    violation("environment-race", "%s runs while another thread is inside %s", what, writers ? "a modification" : "getenv");
                }
                ++(w ? writers : readers);
                sched::yield(what);
            }
            ~inside() { --(w ? writers : readers); }
        };
        const char* keep(const char* v) {
            auto* p = static_cast<char*>(std::malloc(std::strlen(v) + 1));
            std::strcpy(p, v);
            return p;
        }
    } // namespace
    void reset() {
        alloc::exempt e;
        table().clear();
        on = true;
    }
    bool has(const std::string& n) { return table().count(n) != 0; }
    std::string value(const std::string& n) {
        auto it = table().find(n);
        return it == table().end() ? std::string() : it->second;
    }
    std::size_t size() { return table().size(); }
    void put(const std::string& n, const std::string& v) {
        alloc::exempt e;
        table()[n] = keep(v.c_str());
    }
    char* do_get(const char* name) {
        alloc::exempt e;
        ++calls;
        inside i(false, "getenv");
        auto it = table().find(name);
        return it == table().end() ? nullptr : const_cast<char*>(it->second);
    }
    int do_set(const char* name, const char* v, int overwrite) {
        alloc::exempt e;
        ++calls;
        if (!name || !*name || std::strchr(name, '=')) {
            errno = EINVAL;
            return -1;
        }
        inside i(true, "setenv");
        if (fail_next_set) {
            fail_next_set = false;
            count("fault.setenv-fail");
            errno = ENOMEM;
            return -1;
        }
        auto it = table().find(name);
        if (it == table().end()) {
            // the table is grown in two steps: the entry appears, then its value
            auto r = table().emplace(name, "");
            sched::yield("setenv");
            r.first->second = keep(v);
        } else if (overwrite) {
            it->second = keep(v);
        }
        return 0;
    }
    int do_unset(const char* name) {
        alloc::exempt e;
        ++calls;
        if (!name || !*name || std::strchr(name, '=')) {
            errno = EINVAL;
            return -1;
        }
        inside i(true, "unsetenv");
        table().erase(name);
        return 0;
    }
}} // namespace sim::env

using namespace sim;
extern char** environ;
extern "C" {
char* getenv(const char* name) noexcept {
    if (env::on && name) {
        return env::do_get(name);
    }
    const auto n = std::strlen(name);
    for (char** e = environ; e && *e; ++e) {
        if (std::strncmp(*e, name, n) == 0 && (*e)[n] == '=') {
            return *e + n + 1;
        }
    }
    return nullptr;
}
char* secure_getenv(const char* name) noexcept { return getenv(name); }
int setenv(const char* name, const char* v, int overwrite) noexcept {
    if (env::on) {
        return env::do_set(name, v, overwrite);
    }
    SIM_REAL(setenv);
    return real(name, v, overwrite);
}
int unsetenv(const char* name) noexcept {
    if (env::on) {
        return env::do_unset(name);
    }
    SIM_REAL(unsetenv);
    return real(name);
}
int putenv(char* s) noexcept {
    const char* eq = std::strchr(s, '=');
    if (!env::on) {
        SIM_REAL(putenv);
        return real(s);
    }
    if (!eq) {
        return env::do_unset(s);
    }
    return env::do_set(std::string(s, static_cast<std::size_t>(eq - s)).c_str(), eq + 1, 1);
}
}
