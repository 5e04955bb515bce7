#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" int __asan_report_present() __attribute__((weak));

namespace sim {
    namespace {
        constexpr std::size_t MAX_TAPE  = 1u << 19;
        constexpr std::size_t MAX_SPANS = 1u << 16;
        constexpr std::size_t MAX_LOG   = 4u << 20;
        constexpr std::size_t MAX_STATS = 512;
        constexpr std::size_t COVER_BITS = 1u << 24;

        struct tape_t {
            std::uint32_t n;
            std::uint32_t v[MAX_TAPE];
        };
        struct span_t {
            std::uint32_t begin, end, depth;
        };
        struct stat_t {
            char name[56];
            std::uint64_t value;
        };
        struct shared {
            // input of the run
            int replay;
            int verbose;
            std::uint64_t seed;
            tape_t in[2];
            // output of the run
            tape_t out[2];
            std::uint32_t nspans;
            span_t spans[MAX_SPANS];
            std::uint64_t hash;
            std::uint64_t events;
            std::uint32_t nontrivial;
            double sim_ns;
            char cls[128];
            char msg[4096];
            std::uint32_t log_n;
            char log[MAX_LOG];
            // accumulated over runs
            std::uint32_t nstats;
            stat_t stats[MAX_STATS];
            std::uint64_t cover_n;
            unsigned char cover[COVER_BITS / 8];
        };
        shared* S = nullptr;
        std::uint64_t rng_state[2];
        std::uint32_t span_depth = 0;
        std::int64_t g_now       = 0;
        const char* g_tier       = "quick";

        std::uint64_t splitmix(std::uint64_t& s) {
            std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z               = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }

        std::uint64_t draw_tape(int t, std::uint64_t n) {
            if (n <= 1) {
                return 0;
            }
            std::uint32_t v;
            if (S->replay) {
                const auto i = S->out[t].n;
                v            = i < S->in[t].n ? S->in[t].v[i] : 0;
                v            = static_cast<std::uint32_t>(v % n);
            } else {
                v = static_cast<std::uint32_t>(splitmix(rng_state[t]) % n);
            }
            if (S->out[t].n >= MAX_TAPE) {
                harness_error("tape %d overflow", t);
            }
            S->out[t].v[S->out[t].n++] = v;
            return v;
        }
    } // namespace

    int g_argc            = 0;
    const char* g_variant = "";
    clock_model clock_;

    std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h) {
        const auto* b = static_cast<const unsigned char*>(p);
        for (std::size_t i = 0; i < n; ++i) {
            h = (h ^ b[i]) * 1099511628211ull;
        }
        return h;
    }
    std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
        a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2);
        return a * 0xD6E8FEB86659FD93ull;
    }
    std::uint64_t draw(std::uint64_t n) { return draw_tape(0, n); }
    std::uint64_t draw_sched(std::uint64_t n) { return draw_tape(1, n); }
    bool chance(unsigned permille) {
        return permille == 0 ? false : draw_tape(0, 1000) >= 1000 - permille;
    }
    bool more(unsigned mean) { return draw_tape(0, mean + 1) != 0; }
    std::size_t size_near(std::size_t max, std::initializer_list<std::size_t> interesting) {
        switch (draw(4)) {
            case 0: return draw(std::min<std::size_t>(max, 4) + 1);
            case 1: return draw(std::min<std::size_t>(max, 40) + 1);
            case 2:
                if (interesting.size() != 0) {
                    const auto base  = *(interesting.begin() + draw(interesting.size()));
                    const auto delta = static_cast<std::int64_t>(draw(5)) - 2;
                    const auto r     = static_cast<std::int64_t>(base) + delta;
                    return static_cast<std::size_t>(std::clamp<std::int64_t>(r, 0, static_cast<std::int64_t>(max)));
                }
                [[fallthrough]];
            default: return draw(max + 1);
        }
    }
    std::size_t large_size(std::size_t max) {
        static const std::size_t steps[] = {130, 260, 520, 1030, 2050, 4100, 8200, 16400, 32800, 65600};
        std::size_t n = 1;
        while (n < 10 && steps[n] + 70 <= max) ++n;
        return std::min(max, steps[draw(n)] + draw(70));
    }
    double real(double lo, double hi) { return lo + (hi - lo) * (static_cast<double>(draw(100001)) / 100000.0); }

    span::span() {
        index = -1;
        if (S->nspans < MAX_SPANS) {
            index           = static_cast<int>(S->nspans++);
            S->spans[index] = {S->out[0].n, S->out[0].n, span_depth};
        }
        ++span_depth;
    }
    span::~span() {
        --span_depth;
        if (index >= 0) {
            S->spans[index].end = S->out[0].n;
        }
    }

    bool verbose() { return S->verbose != 0; }
    const char* tier() { return g_tier; }

    void event(const char* fmt, ...) {
        char buf[1024];
        va_list ap;
        va_start(ap, fmt);
        int n = std::vsnprintf(buf, sizeof buf - 1, fmt, ap);
        va_end(ap);
        if (n < 0) {
            return;
        }
        if (n > static_cast<int>(sizeof buf) - 2) {
            n = sizeof buf - 2;
        }
        buf[n++] = '\n';
        S->hash  = hash_bytes(buf, static_cast<std::size_t>(n), S->hash);
        ++S->events;
        if (S->log_n + static_cast<std::uint32_t>(n) < MAX_LOG) {
            std::memcpy(S->log + S->log_n, buf, static_cast<std::size_t>(n));
            S->log_n += static_cast<std::uint32_t>(n);
        }
    }

    static void set_verdict(const char* cls, const char* msg) {
        if (S->cls[0] == 0) {
            std::snprintf(S->cls, sizeof S->cls, "%s", cls);
            std::snprintf(S->msg, sizeof S->msg, "%s", msg);
        }
    }
    void violation(const char* cls, const char* fmt, ...) {
        char buf[4000];
        va_list ap;
        va_start(ap, fmt);
        std::vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        event("VIOLATION %s: %s", cls, buf);
        set_verdict(cls, buf);
        _exit(42);
    }
    void harness_error(const char* fmt, ...) {
        char buf[4000];
        va_list ap;
        va_start(ap, fmt);
        std::vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        set_verdict("harness-error", buf);
        _exit(44);
    }
    static stat_t* find_stat(const char* name) {
        for (std::uint32_t i = 0; i < S->nstats; ++i) {
            if (std::strncmp(S->stats[i].name, name, sizeof S->stats[i].name - 1) == 0) {
                return &S->stats[i];
            }
        }
        if (S->nstats >= MAX_STATS) {
            return nullptr;
        }
        auto* s = &S->stats[S->nstats++];
        std::snprintf(s->name, sizeof s->name, "%s", name);
        s->value = 0;
        return s;
    }
    void count(const char* name, std::uint64_t by) {
        if (auto* s = find_stat(name)) {
            s->value += by;
        }
    }
    void cover(std::uint64_t h) {
        h ^= h >> 29;
        h *= 0xBF58476D1CE4E5B9ull;
        h ^= h >> 32;
        const auto bit = h % COVER_BITS;
        auto& b        = S->cover[bit / 8];
        const auto m   = static_cast<unsigned char>(1u << (bit % 8));
        if (!(b & m)) {
            b |= m;
            ++S->cover_n;
        }
    }
    void nontrivial() { S->nontrivial = 1; }
    std::int64_t now_ns() { return g_now; }
    void advance_ns(std::int64_t ns) {
        g_now += ns;
        S->sim_ns += static_cast<double>(ns);
    }
    void add_sim_time_ns(double ns) { S->sim_ns += ns; }

    // ---- runner --------------------------------------------------------------------------
    namespace {
        enum outcome { ok, bad, broken };
        int stderr_fd = -1;

        void reset_output() {
            S->out[0].n = S->out[1].n = 0;
            S->nspans                 = 0;
            S->hash                   = 1469598103934665603ull;
            S->events                 = 0;
            S->nontrivial             = 0;
            S->cls[0] = S->msg[0] = 0;
            S->log_n              = 0;
        }

        void on_terminate() {
            const char* what = "no active exception";
            std::string keep;
            if (auto e = std::current_exception()) {
                try {
                    std::rethrow_exception(e);
                } catch (const std::exception& x) {
                    keep = x.what();
                    what = keep.c_str();
                } catch (...) {
                    what = "unknown exception";
                }
            }
            set_verdict("terminate", what);
            _exit(42);
        }

        unsigned hang_seconds = 20;

        // Runs the property once in a forked child: every run starts from the same process image.
        outcome run_once() {
            reset_output();
            if (stderr_fd >= 0) {
                if (ftruncate(stderr_fd, 0) != 0) { /* best effort */
                }
                lseek(stderr_fd, 0, SEEK_SET);
            }
            const auto pid = fork();
            if (pid < 0) {
                std::perror("fork");
                std::exit(3);
            }
            if (pid == 0) {
                if (stderr_fd >= 0) {
                    dup2(stderr_fd, 2);
                }
                rlimit rl{hang_seconds, hang_seconds + 2};
                setrlimit(RLIMIT_CPU, &rl);
                rlimit core{0, 0};
                setrlimit(RLIMIT_CORE, &core);
                alarm(hang_seconds * 6); // a wait the simulator does not own is cut off
                std::uint64_t s = S->seed;
                rng_state[0]    = splitmix(s);
                rng_state[1]    = splitmix(s);
                span_depth      = 0;
                g_now           = 0;
                std::set_terminate(on_terminate);
                prop_run();
                _exit(0);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) != pid) {
            }
            if (WIFEXITED(st)) {
                switch (WEXITSTATUS(st)) {
                    case 0: return ok;
                    case 42: return bad;
                    case 43:
                        if (S->cls[0] == 0) {
                            set_verdict("asan", "AddressSanitizer report");
                        }
                        return bad;
                    case 44: return broken;
                    default: {
                        char m[64];
                        std::snprintf(m, sizeof m, "the code under test called exit(%d)", WEXITSTATUS(st));
                        set_verdict("exit", m);
                        return bad;
                    }
                }
            }
            const int sig = WTERMSIG(st);
            char cls[64], m[64];
            if (sig == SIGXCPU || sig == SIGKILL || sig == SIGALRM) {
                set_verdict("hang", "run made no progress within its time limit");
            } else {
                std::snprintf(cls, sizeof cls, "signal-%d", sig);
                std::snprintf(m, sizeof m, "killed by signal %d (%s)", sig, strsignal(sig));
                set_verdict(cls, m);
            }
            return bad;
        }

        std::string json_escape(const char* s, std::size_t n) {
            std::string o;
            for (std::size_t i = 0; i < n; ++i) {
                const auto c = static_cast<unsigned char>(s[i]);
                if (c == '"' || c == '\\') {
                    o += '\\';
                    o += static_cast<char>(c);
                } else if (c < 0x20 || c > 0x7e) {
                    char b[8];
                    std::snprintf(b, sizeof b, "\\u%04x", c);
                    o += b;
                } else {
                    o += static_cast<char>(c);
                }
            }
            return o;
        }
        std::string json_escape(const char* s) { return json_escape(s, std::strlen(s)); }

        using tapes = std::vector<std::uint32_t>[2];

        void load(const tapes& t) {
            S->replay = 1;
            for (int k = 0; k < 2; ++k) {
                S->in[k].n = static_cast<std::uint32_t>(t[k].size());
                std::copy(t[k].begin(), t[k].end(), S->in[k].v);
            }
        }
        void save(tapes& t) {
            for (int k = 0; k < 2; ++k) {
                t[k].assign(S->out[k].v, S->out[k].v + S->out[k].n);
            }
        }

        double wall() {
            timespec ts{};
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
            return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
        }

        // Greedy minimisation: delete spans, delete/zero blocks, lower values; the class is kept.
        struct minimiser {
            tapes best;
            std::string cls;
            double deadline;
            unsigned attempts{0};

            bool attempt(const tapes& t) {
                if (wall() > deadline) {
                    return false;
                }
                ++attempts;
                load(t);
                if (run_once() != bad || cls != S->cls) {
                    return false;
                }
                // accept what was really consumed, if it is not larger
                std::size_t n0 = S->out[0].n, n1 = S->out[1].n;
                tapes c;
                save(c);
                // trailing zeros carry no information
                for (auto& k : c) {
                    while (!k.empty() && k.back() == 0) {
                        k.pop_back();
                    }
                }
                (void) n0;
                (void) n1;
                if (better(c)) {
                    best[0] = c[0];
                    best[1] = c[1];
                    return true;
                }
                return false;
            }
            static std::uint64_t weight(const std::vector<std::uint32_t>& v) {
                std::uint64_t w = 0;
                for (auto x : v) {
                    w += x;
                }
                return w;
            }
            bool better(const tapes& c) const {
                const auto a = c[0].size() + c[1].size(), b = best[0].size() + best[1].size();
                if (a != b) {
                    return a < b;
                }
                return weight(c[0]) + weight(c[1]) < weight(best[0]) + weight(best[1]);
            }
            void run() {
                bool progress = true;
                while (progress && wall() < deadline) {
                    progress = false;
                    // 1. whole operations, last first
                    load(best);
                    run_once();
                    std::vector<span_t> sp(S->spans, S->spans + S->nspans);
                    std::sort(sp.begin(), sp.end(), [](const span_t& a, const span_t& b) {
                        return a.depth != b.depth ? a.depth < b.depth : a.begin > b.begin;
                    });
                    for (const auto& s : sp) {
                        if (s.end > best[0].size() || s.begin >= s.end) {
                            continue;
                        }
                        tapes c;
                        c[0] = best[0];
                        c[1] = best[1];
                        c[0].erase(c[0].begin() + s.begin, c[0].begin() + s.end);
                        progress |= attempt(c);
                    }
                    // 2. blocks of both tapes: delete, then zero
                    for (int k = 1; k >= 0; --k) {
                        for (std::size_t len = std::max<std::size_t>(1, best[k].size() / 2); len >= 1; len /= 2) {
                            for (std::size_t at = best[k].size(); at > 0 && wall() < deadline;) {
                                at = at > len ? at - len : 0;
                                if (at + len > best[k].size()) {
                                    continue;
                                }
                                tapes c;
                                c[0] = best[0];
                                c[1] = best[1];
                                c[k].erase(c[k].begin() + static_cast<long>(at),
                                           c[k].begin() + static_cast<long>(at + len));
                                if (attempt(c)) {
                                    progress = true;
                                    continue;
                                }
                                if (at + len > best[k].size()) {
                                    continue;
                                }
                                c[0] = best[0];
                                c[1] = best[1];
                                bool any = false;
                                for (std::size_t i = at; i < at + len; ++i) {
                                    any |= c[k][i] != 0;
                                    c[k][i] = 0;
                                }
                                if (any) {
                                    progress |= attempt(c);
                                }
                            }
                            if (len == 1) {
                                break;
                            }
                        }
                    }
                    // 3. single values
                    for (int k = 0; k < 2; ++k) {
                        for (std::size_t i = 0; i < best[k].size() && wall() < deadline; ++i) {
                            std::uint32_t lo = 0;
                            while (i < best[k].size() && lo < best[k][i]) {
                                tapes c;
                                c[0]           = best[0];
                                c[1]           = best[1];
                                const auto mid = lo + (best[k][i] - lo) / 2;
                                c[k][i]        = mid;
                                if (attempt(c)) {
                                    progress = true;
                                } else {
                                    lo = mid + 1;
                                }
                            }
                        }
                    }
                }
            }
        };

        void print_tapes(FILE* f, const tapes& t) {
            std::fprintf(f, "\"tapes\": [");
            for (int k = 0; k < 2; ++k) {
                std::fprintf(f, "%s[", k ? ", " : "");
                for (std::size_t i = 0; i < t[k].size(); ++i) {
                    std::fprintf(f, "%s%u", i ? "," : "", t[k][i]);
                }
                std::fprintf(f, "]");
            }
            std::fprintf(f, "]");
        }

        std::string read_stderr() {
            std::string out;
            if (stderr_fd >= 0) {
                char buf[4096];
                off_t at = 0;
                ssize_t n;
                while (out.size() < 6000 && (n = pread(stderr_fd, buf, sizeof buf, at)) > 0) {
                    out.append(buf, static_cast<std::size_t>(n));
                    at += n;
                }
            }
            return out;
        }

        void print_stats(FILE* f) {
            std::fprintf(f, "\"stats\": {");
            for (std::uint32_t i = 0; i < S->nstats; ++i) {
                std::fprintf(f, "%s\"%s\": %llu", i ? ", " : "", json_escape(S->stats[i].name).c_str(),
                             static_cast<unsigned long long>(S->stats[i].value));
            }
            std::fprintf(f, "}");
        }

        int usage() {
            std::fprintf(stderr, "usage: --batch FIRST COUNT SECONDS OUT [--hashes FILE] | --replay TAPEFILE OUT | "
                                 "--minimise SEED SECONDS OUT\n");
            return 2;
        }
    } // namespace

    int runner_main(int argc, char** argv) {
        if (argc < 2) {
            return usage();
        }
        // Same address space layout in every process: addresses must not decide anything.
        const int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !std::getenv("SIM_REEXEC")) {
            if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1) {
                setenv("SIM_REEXEC", "1", 1);
                execv("/proc/self/exe", argv);
            }
        }
        if (const char* t = std::getenv("VERIF_TIER")) {
            g_tier = std::strcmp(t, "thorough") == 0 ? "thorough" : "quick";
        }
        if (const char* h = std::getenv("SIM_HANG_SECONDS")) {
            hang_seconds = static_cast<unsigned>(std::atoi(h));
        }
        void* p = mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            std::perror("mmap");
            return 3;
        }
        S         = static_cast<shared*>(p);
        stderr_fd = std::getenv("SIM_STDERR") ? -1 : static_cast<int>(syscall(SYS_memfd_create, "simerr", 0));
        const std::string mode = argv[1];
        if (sim_prop_setup) {
            sim_prop_setup();
        }

        if (mode == "--batch") {
            if (argc < 6) {
                return usage();
            }
            const auto first   = std::strtoull(argv[2], nullptr, 10);
            const auto nruns   = std::strtoull(argv[3], nullptr, 10);
            const auto seconds = std::atof(argv[4]);
            const char* out    = argv[5];
            FILE* hashes       = nullptr;
            if (argc >= 8 && std::string(argv[6]) == "--hashes") {
                hashes = std::fopen(argv[7], "w");
            }
            const double t0 = wall();
            std::uint64_t done = 0, events = 0, nontriv = 0;
            std::unordered_set<std::uint64_t> distinct;
            std::vector<std::string> samples;
            std::string found;
            for (std::uint64_t i = 0; i < nruns && wall() - t0 < seconds; ++i) {
                S->replay  = 0;
                S->verbose = 0;
                S->seed    = first + i;
                const auto r = run_once();
                ++done;
                events += S->events;
                if (S->nontrivial) {
                    ++nontriv;
                    distinct.insert(S->hash);
                }
                if (hashes) {
                    std::fprintf(hashes, "%llu %016llx %s\n", static_cast<unsigned long long>(S->seed),
                                 static_cast<unsigned long long>(S->hash), S->cls);
                }
                if (r == ok && S->nontrivial && samples.size() < 2 && i >= 3) {
                    const auto n = std::min<std::size_t>(S->log_n, 900);
                    samples.push_back("seed " + std::to_string(S->seed) + ":\n" + std::string(S->log, n));
                }
                if (r != ok) {
                    char b[64];
                    std::snprintf(b, sizeof b, "%llu", static_cast<unsigned long long>(S->seed));
                    found = "{\"seed\": " + std::string(b) + ", \"class\": \"" + json_escape(S->cls) + "\", \"msg\": \"" +
                            json_escape(S->msg) + "\", \"broken\": " + (r == broken ? "true" : "false") + "}";
                    break;
                }
            }
            if (hashes) {
                std::fclose(hashes);
            }
            FILE* f = std::fopen(out, "w");
            if (!f) {
                std::perror(out);
                return 3;
            }
            std::fprintf(f,
                         "{\"first\": %llu, \"runs\": %llu, \"events\": %llu, \"nontrivial\": %llu, \"distinct\": "
                         "%zu, \"cover\": %llu, \"sim_s\": %.6f, \"wall_s\": %.3f, ",
                         static_cast<unsigned long long>(first), static_cast<unsigned long long>(done),
                         static_cast<unsigned long long>(events), static_cast<unsigned long long>(nontriv),
                         distinct.size(), static_cast<unsigned long long>(S->cover_n), S->sim_ns * 1e-9, wall() - t0);
            print_stats(f);
            std::fprintf(f, ", \"hashes\": [");
            bool firsth = true;
            for (auto h : distinct) {
                std::fprintf(f, "%s%llu", firsth ? "" : ",", static_cast<unsigned long long>(h));
                firsth = false;
            }
            std::fprintf(f, "], \"samples\": [");
            for (std::size_t i = 0; i < samples.size(); ++i) {
                std::fprintf(f, "%s\"%s\"", i ? ", " : "", json_escape(samples[i].c_str()).c_str());
            }
            std::fprintf(f, "], \"found\": %s}\n", found.empty() ? "null" : found.c_str());
            std::fclose(f);
            return 0;
        }
        if (mode == "--minimise") {
            if (argc < 5) {
                return usage();
            }
            const auto seed = std::strtoull(argv[2], nullptr, 10);
            S->replay       = 0;
            S->seed         = seed;
            auto r          = run_once();
            if (r == ok) {
                std::printf("seed %llu does not fail\n", static_cast<unsigned long long>(seed));
                return 4;
            }
            minimiser m;
            save(m.best);
            m.cls                   = S->cls;
            const auto hash0        = S->hash;
            const std::size_t len0a = m.best[0].size(), len0b = m.best[1].size();
            // same seed again: must be the same execution
            S->replay = 0;
            S->seed   = seed;
            r         = run_once();
            const bool same = r != ok && hash0 == S->hash && m.cls == S->cls;
            m.deadline      = wall() + std::atof(argv[3]);
            m.run();
            load(m.best);
            r = run_once();
            FILE* f = std::fopen(argv[4], "w");
            if (!f) {
                return 3;
            }
            std::fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"class\": \"%s\", \"msg\": \"%s\", ", prop_id,
                         static_cast<unsigned long long>(seed), json_escape(S->cls).c_str(),
                         json_escape(S->msg).c_str());
            std::fprintf(f, "\"deterministic\": %s, \"hash\": \"%016llx\", \"attempts\": %u, \"original_draws\": [%zu, %zu], ",
                         same ? "true" : "false", static_cast<unsigned long long>(S->hash), m.attempts, len0a, len0b);
            print_tapes(f, m.best);
            std::fprintf(f, ", \"trace\": \"%s\"", json_escape(S->log, std::min<std::size_t>(S->log_n, 60000)).c_str());
            std::fprintf(f, ", \"stderr\": \"%s\"}\n", json_escape(read_stderr().c_str()).c_str());
            std::fclose(f);
            return 0;
        }
        if (mode == "--replay") {
            // TAPEFILE: two lines of integers (tape 0, tape 1) or "seed N"
            if (argc < 4) {
                return usage();
            }
            FILE* in = std::fopen(argv[2], "r");
            if (!in) {
                std::perror(argv[2]);
                return 3;
            }
            tapes t;
            std::string line;
            int k = 0, c;
            bool seeded = false;
            while ((c = std::fgetc(in)) != EOF && k < 2) {
                if (c != '\n') {
                    line += static_cast<char>(c);
                    continue;
                }
                if (line.rfind("seed ", 0) == 0) {
                    S->seed = std::strtoull(line.c_str() + 5, nullptr, 10);
                    seeded  = true;
                    break;
                }
                const char* s = line.c_str();
                char* e       = nullptr;
                for (;;) {
                    const auto v = std::strtoul(s, &e, 10);
                    if (e == s) {
                        break;
                    }
                    t[k].push_back(static_cast<std::uint32_t>(v));
                    s = e;
                }
                line.clear();
                ++k;
            }
            std::fclose(in);
            if (seeded) {
                S->replay = 0;
            } else {
                load(t);
            }
            S->verbose   = 1;
            const auto r = run_once();
            FILE* f      = std::fopen(argv[3], "w");
            if (!f) {
                return 3;
            }
            std::fprintf(f, "{\"outcome\": \"%s\", \"class\": \"%s\", \"msg\": \"%s\", \"hash\": \"%016llx\", ",
                         r == ok ? "ok" : r == bad ? "violation" : "broken", json_escape(S->cls).c_str(),
                         json_escape(S->msg).c_str(), static_cast<unsigned long long>(S->hash));
            print_stats(f);
            std::fprintf(f, ", \"trace\": \"%s\"", json_escape(S->log, std::min<std::size_t>(S->log_n, 400000)).c_str());
            std::fprintf(f, ", \"stderr\": \"%s\"}\n", json_escape(read_stderr().c_str()).c_str());
            std::fclose(f);
            return r == ok ? 0 : r == bad ? 1 : 2;
        }
        return usage();
    }

    void asan_error() {
        std::string cls = "asan";
        if (__asan_get_report_description && __asan_report_present && __asan_report_present()) {
            cls += "-";
            cls += __asan_get_report_description();
        }
        set_verdict(cls.c_str(), "AddressSanitizer report (see stderr)");
    }
} // namespace sim

extern "C" void __asan_on_error() { sim::asan_error(); }
extern "C" const char* __asan_default_options() {
    return "exitcode=43:detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:max_malloc_fill_size="
           "1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:quarantine_size_mb=16:"
           "print_summary=1:symbolize=0:detect_odr_violation=0:handle_segv=1:fast_unwind_on_malloc=1:malloc_context_size=8";
}
int main(int argc, char** argv) { return sim::runner_main(argc, argv); }
