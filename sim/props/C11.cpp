// C11: each log message reaches the stream once, whole and in order.
#include "../core/alloc.hpp"
#include "../core/sched.hpp"
#include "../core/sim.hpp"
#include <edsp/core/logger.hpp>
#include <edsp/core/system.hpp>
#include <edsp/meta/ensure.hpp>
#include <edsp/meta/expects.hpp>
#include <memory>
#include <optional>
#include <sstream>
const char* const prop_id = "C11";
using namespace sim;

namespace {
    // ---- the standard output of the simulation ----------------------------------------------
    std::uint64_t stream_faults = 0;
    unsigned fail_permille = 0, throw_permille = 0, torn_permille = 0, sync_fail_permille = 0;
    struct device : std::streambuf {
        std::string bytes;
        void put(const char* s, std::size_t n) {
            alloc::exempt e;
            bytes.append(s, n);
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override {
            sched::yield("stream write");
            sched::no_preempt np;
            alloc::exempt e;
            if (chance(fail_permille)) {
                ++stream_faults;
                count("fault.stream-fail");
                event("  the stream refuses %ld bytes", static_cast<long>(n));
                return 0;
            }
            if (chance(throw_permille)) {
                ++stream_faults;
                count("fault.stream-throw");
                event("  the stream throws");
                throw std::runtime_error("device");
            }
            if (n > 1 && chance(torn_permille)) {
                ++stream_faults;
                count("fault.stream-torn");
                const auto m = 1 + draw(static_cast<std::uint64_t>(n - 1));
                event("  the stream takes %d of %ld bytes", static_cast<int>(m), static_cast<long>(n));
                put(s, m);
                tears.push_back(bytes.size());
                return static_cast<std::streamsize>(m);
            }
            put(s, static_cast<std::size_t>(n));
            event("  %ld bytes written", static_cast<long>(n));
            return n;
        }
        int overflow(int c) override {
            sched::yield("stream write");
            sched::no_preempt np;
            if (c != EOF) {
                const char ch = static_cast<char>(c);
                put(&ch, 1);
            }
            return 0;
        }
        int sync() override {
            if (chance(sync_fail_permille)) {
                ++stream_faults;
                count("fault.flush-fail");
                return -1;
            }
            return 0;
        }
        std::vector<std::size_t> tears;
    };
    device* out = nullptr;

    // ---- messages ----------------------------------------------------------------------------
    enum item_kind { view, cstring, string, i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, chr, man_tab, man_endl, man_colour, man_endc, sys, item_kinds };
    struct item {
        item_kind k{view};
        std::string text;
        std::int64_t i{0};
        double d{0};
        std::size_t front{0}, back{0};
    };
    struct message {
        int id{0}, thread{0};
        std::vector<item> items;
        unsigned ctor{0};      // how the logger is made
        bool unwinding{false}; // destroyed while an exception passes
        bool expects{false};   // through meta::expects / meta::ensure
        // outcome
        std::string expected;
        bool must{false}, made{false};
        std::uint64_t begin{0}, end{0};
    };
    std::uint64_t alloc_faults_seen() { return alloc::armed() ? alloc::seen() : 0; }

    edsp::logger& (*const colours[])(edsp::logger&) = {edsp::red, edsp::green, edsp::blue, edsp::bold, edsp::cyan, edsp::magenta, edsp::yellow, edsp::white, edsp::grey, edsp::reset};

    void expect(std::string& s, const item& it) {
        std::ostringstream o;
        switch (it.k) {
            case view:
            case cstring:
            case string: o << it.text << ' '; break;
            case i8: o << static_cast<std::int8_t>(it.i) << ' '; break;
            case u8: o << static_cast<std::uint8_t>(it.i) << ' '; break;
            case i16: o << static_cast<std::int16_t>(it.i) << ' '; break;
            case u16: o << static_cast<std::uint16_t>(it.i) << ' '; break;
            case i32: o << static_cast<std::int32_t>(it.i) << ' '; break;
            case u32: o << static_cast<std::uint32_t>(it.i) << ' '; break;
            case i64: o << static_cast<std::int64_t>(it.i) << ' '; break;
            case u64: o << static_cast<std::uint64_t>(it.i) << ' '; break;
            case f32: o << static_cast<float>(it.d) << ' '; break;
            case f64: o << it.d << ' '; break;
            case chr: o << static_cast<char>(it.i) << ' '; break;
            case man_tab: o << '\t'; break;
            case man_endl: o << '\n'; break;
            case sys: o << "Linux distribution "; break;
            default: break;
        }
        s += o.str();
    }
    void feed(edsp::logger& l, const item& it) {
        std::optional<alloc::exempt> ex;
        ex.emplace();
        const std::string padded = std::string(it.front, '<') + it.text + std::string(it.back, '>');
        const edsp::string_view v(padded.data() + it.front, it.text.size());
        const std::string text = it.text;
        ex.reset();
        switch (it.k) {
            case view: l << v; break;
            case cstring: l << text.c_str(); break;
            case string: l << text; break;
            case i8: l << static_cast<std::int8_t>(it.i); break;
            case u8: l << static_cast<std::uint8_t>(it.i); break;
            case i16: l << static_cast<std::int16_t>(it.i); break;
            case u16: l << static_cast<std::uint16_t>(it.i); break;
            case i32: l << static_cast<std::int32_t>(it.i); break;
            case u32: l << static_cast<std::uint32_t>(it.i); break;
            case i64: l << static_cast<std::int64_t>(it.i); break;
            case u64: l << static_cast<std::uint64_t>(it.i); break;
            case f32: l << static_cast<float>(it.d); break;
            case f64: l << it.d; break;
            case chr: l << static_cast<char>(it.i); break;
            case man_tab: l << edsp::tab; break;
            case man_endl: l << edsp::endl; break;
            case man_colour: l << colours[static_cast<std::size_t>(it.i) % 10]; break;
            case man_endc: l << edsp::endc; break;
            case sys: l << edsp::systems::linux; break;
            default: break;
        }
        ex.emplace(); // releasing the texts is ours too
    }
    item any_item() {
        static const char* const texts[] = {"", "a", "hello world", "two\nlines", "\ttabbed", "a text that does not fit into a small string buffer at all",
                                            "100%s%d%n", "caf\xC3\xA9", " ", "x y z"};
        item it;
        it.k     = static_cast<item_kind>(draw(item_kinds));
        it.text  = texts[draw(10)];
        if (chance(40)) { // longer than any buffer on the way
            static const std::size_t lengths[] = {255, 256, 257, 511, 512, 513, 600, 1023, 1024, 1025, 4095, 4096, 4097, 9000, 33000, 66000, 80000};
            const auto n = lengths[draw(17)];
            it.text.clear();
            for (std::size_t i = 0; i < n; ++i) it.text += static_cast<char>(i % 61 == 60 ? '\n' : 'a' + (i * 7 + i / 26) % 26);
        }
        it.front = draw(3);
        it.back  = draw(12);
        static const std::int64_t ints[] = {0, 1, -1, 65, 127, -128, 255, 32767, -32768, 65535, 2147483647, -2147483648ll, 4294967295ll, INT64_MAX, INT64_MIN};
        it.i = ints[draw(15)];
        if (it.k == i8 || it.k == u8 || it.k == chr) {
            it.i = '0' + static_cast<std::int64_t>(draw(70)); // written as characters
        }
        static const double reals[] = {0, 1, -1.5, 3.14159265358979, 1e300, -1e-300, 1.0 / 3, 123456789.0, 1e38};
        it.d = reals[draw(9)];
        if (it.k == view && chance(150)) {
            it.text = std::string("nul\0inside", 10);
            it.k    = draw(2) ? view : string;
        }
        return it;
    }
    struct unwind {};

    std::optional<edsp::logger> make(const message&) = delete;
    struct live_logger { // a logger object made in one of the ways the interface offers
        alignas(edsp::logger) unsigned char mem[sizeof(edsp::logger)];
        edsp::logger* l{nullptr};
        void construct(unsigned how) {
            switch (how) {
                case 0: l = new (mem) edsp::logger(); break;
                case 1: l = new (mem) edsp::logger(edsp::logger::levels::error); break;
                case 2: l = new (mem) edsp::logger("a name", edsp::logger::levels::debug); break;
                case 3: l = new (mem) edsp::logger("a rather long name for a logger object", "file", edsp::logger::levels::info); break;
            }
        }
        ~live_logger() {
            if (l) {
                l->~logger();
            }
        }
    };

    void finish(message& m, bool certain0, std::uint64_t f0) {
        // every condition for the message to arrive held from its creation to its end
        m.must = m.made && certain0 && std::cout.good() && stream_faults == f0;
    }

    void log_one(message& m, bool oom) {
        bool good0 = false;
        std::uint64_t f0;
        {
            sched::no_preempt np;
            good0 = std::cout.good() && !oom;
            f0    = stream_faults;
            m.begin = sched::next_seq();
        }
        try {
            if (m.expects) {
                std::optional<alloc::exempt> ex;
                ex.emplace();
                const std::string padded = m.items[0].text + std::string(m.items[0].back, '>');
                const edsp::string_view v(padded.data(), m.items[0].text.size());
                ex.reset();
                m.made = true;
                if (m.ctor & 1) {
                    edsp::meta::expects(false, v);
                } else {
                    edsp::meta::ensure(false, v);
                }
                edsp::meta::expects(true, v);
                edsp::meta::ensure(true, v);
                ex.emplace();
            } else if (m.ctor >= 4) { // the macros
                m.made = true;
                switch (m.ctor) {
                    case 4: {
                        auto&& l = eInfo();
                        for (auto& it : m.items) feed(l, it);
                        break;
                    }
                    case 5: {
                        auto&& l = eCritical();
                        for (auto& it : m.items) feed(l, it);
                        break;
                    }
                    default: {
                        auto&& l = eTrace();
                        for (auto& it : m.items) feed(l, it);
                        break;
                    }
                }
            } else {
                live_logger l;
                l.construct(m.ctor);
                m.made = true;
                std::size_t k = 0;
                for (auto& it : m.items) {
                    if (m.unwinding && ++k == m.items.size()) {
                        feed(*l.l, it);
                        throw unwind();
                    }
                    feed(*l.l, it);
                    sched::yield("between items");
                }
            }
        } catch (const unwind&) {
        } catch (const std::bad_alloc&) {
            m.made = m.made && !oom;
        }
        sched::no_preempt np;
        finish(m, good0, f0);
        m.end = sched::next_seq();
        event("t%d message %d done%s", m.thread, m.id, m.must ? "" : ", may be lost");
    }
    // Two loggers alive at once, fed alternately, destroyed in either order
    void log_two(message& a, message& b, bool oom) {
        bool good0;
        std::uint64_t f0;
        {
            sched::no_preempt np;
            good0 = std::cout.good() && !oom;
            f0    = stream_faults;
        }
        try {
            live_logger la, lb;
            la.construct(a.ctor & 3);
            a.made = true;
            lb.construct(b.ctor & 3);
            b.made = true;
            for (std::size_t i = 0; i < std::max(a.items.size(), b.items.size()); ++i) {
                if (i < a.items.size()) feed(*la.l, a.items[i]);
                if (i < b.items.size()) feed(*lb.l, b.items[i]);
                sched::yield("between items");
            }
            if (a.ctor & 1) {
                a.begin = sched::next_seq();
                la.l->~logger();
                la.l  = nullptr;
                a.end = sched::next_seq();
            }
            b.begin = sched::next_seq();
            lb.l->~logger();
            lb.l  = nullptr;
            b.end = sched::next_seq();
            if (la.l) {
                a.begin = sched::next_seq();
                la.l->~logger();
                la.l  = nullptr;
                a.end = sched::next_seq();
            }
        } catch (const std::bad_alloc&) {
        }
        sched::no_preempt np;
        if (!a.end || !b.end) { // ended by an exception: their order is not known
            a.begin = b.begin = 0;
            a.end = b.end = ~0ull;
        }
        finish(a, good0, f0);
        finish(b, good0, f0);
        event("t%d messages %d and %d done", a.thread, a.id, b.id);
    }
    std::string strip(const std::string& s) { // without colours
        std::string r;
        for (std::size_t i = 0; i < s.size();) {
            if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
                std::size_t j = i + 2;
                while (j < s.size() && (std::isdigit(static_cast<unsigned char>(s[j])) || s[j] == ';')) ++j;
                if (j < s.size() && s[j] == 'm') {
                    i = j + 1;
                    continue;
                }
            }
            r += s[i++];
        }
        return r;
    }
    std::string printable(const std::string& s) {
        std::string r;
        for (char c : s.substr(0, 60)) r += (c >= 32 && c < 127) ? c : '.';
        return r;
    }
} // namespace

void prop_run() {
    out = new device;
    std::cout.rdbuf(out);
    std::cout.clear();
    const auto mode   = draw(4); // 0 healthy, 1 stream faults, 2 out of memory, 3 both
    const bool sfault = mode & 1, oom = (mode & 2) != 0;
    bool throwing = false, torn = false;
    if (sfault) {
        switch (draw(4)) {
            case 0: fail_permille = 250; break;
            case 1: throw_permille = 250; break;
            case 2: torn_permille = 250; torn = true; break;
            case 3: sync_fail_permille = 250; break;
        }
        // (std::ostream itself ends the process when a flush fails in a throwing stream with unitbuf)
        if (coin() && !sync_fail_permille) {
            std::cout.exceptions(std::ios::badbit | std::ios::failbit);
            throwing = true;
        }
    }
    if (coin()) {
        std::cout << std::unitbuf;
    }
    const auto threads = 1 + draw(4);
    event("mode %d, %d threads%s", static_cast<int>(mode), static_cast<int>(threads), throwing ? ", throwing stream" : "");
    if (coin()) {
        edsp::logger::set_default_name(coin() ? "sim" : "a default name longer than a small string");
    }
    std::vector<std::vector<message>> plan(threads);
    std::vector<message*> all;
    int id = 0;
    for (std::size_t t = 0; t < threads; ++t) {
        while (more(6) && plan[t].size() < 12) {
            span s;
            message m;
            m.id        = id++;
            m.thread    = static_cast<int>(t);
            m.ctor      = static_cast<unsigned>(draw(7));
            m.unwinding = chance(100);
            m.expects   = chance(100);
            item head;
            head.text = "#" + std::to_string(m.id) + ":";
            if (m.expects) {
                head.text += any_item().text.c_str();
            }
            head.back = draw(20);
            m.items.push_back(head);
            while (!m.expects && more(5)) {
                m.items.push_back(any_item());
            }
            for (auto& it : m.items) {
                expect(m.expected, it);
            }
            plan[t].push_back(m);
        }
    }
    std::vector<std::function<void()>> bodies;
    for (auto& p : plan) {
        for (auto& m : p) {
            all.push_back(&m);
        }
        bodies.push_back([&p, oom] {
            for (std::size_t i = 0; i < p.size(); ++i) {
                if (p[i].ctor == 2 && i + 1 < p.size() && !p[i].expects && !p[i + 1].expects) {
                    log_two(p[i], p[i + 1], oom);
                    ++i;
                } else {
                    log_one(p[i], oom);
                }
                if (!std::cout.good() && draw(2) == 0) {
                    sched::no_preempt np;
                    std::cout.clear(); // the application repairs the stream
                    ++stream_faults;   // (an earlier fault may only have shown in between)
                    event("stream repaired");
                    count("probe.stream-repaired");
                }
            }
        });
    }
    if (oom) {
        alloc::arm(draw(30), 1 + draw(3));
    }
    sched::run(bodies, {400, 10});
    if (oom && alloc::disarm()) {
        count("fault.alloc-fail");
    }
    alloc::exempt ex;
    // after all faults: one more message, which must arrive
    {
        std::cout.clear();
        fail_permille = throw_permille = torn_permille = sync_fail_permille = 0;
        eInfo() << "#last:";
    }
    nontrivial();
    // ---- the bytes that arrived are whole messages ------------------------------------------
    std::vector<std::size_t> at(all.size(), std::string::npos);
    std::string raw = out->bytes;
    // a device that took only a part of a message tore it: that part may be any prefix of a message
    std::size_t pos = 0, part = 0;
    std::vector<std::string> segments;
    for (auto t : out->tears) {
        segments.push_back(raw.substr(pos, t - pos));
        pos = t;
    }
    segments.push_back(raw.substr(pos));
    std::size_t order = 0;
    bool last_seen    = false;
    for (; part < segments.size(); ++part) {
        const bool may_end_torn = part + 1 < segments.size();
        std::string s           = strip(segments[part]);
        std::size_t i           = 0;
        while (i < s.size()) {
            if (s.compare(i, 7, "#last: ") == 0) {
                last_seen = true;
                i += 7;
                continue;
            }
            message* found = nullptr;
            if (s[i] == '#') {
                const auto n = std::strtol(s.c_str() + i + 1, nullptr, 10);
                if (n >= 0 && n < static_cast<long>(all.size()) && s.compare(i, all[static_cast<std::size_t>(n)]->expected.size(), all[static_cast<std::size_t>(n)]->expected) == 0) {
                    found = all[static_cast<std::size_t>(n)];
                }
            }
            if (!found && may_end_torn) { // the last one of this segment may be cut, even inside a colour
                bool prefix = false;
                for (auto* m : all) {
                    for (std::size_t cut = 0; cut <= 6 && !prefix; ++cut) {
                        const auto len = s.size() - i;
                        prefix         = len >= cut && m->expected.compare(0, len - cut, s, i, len - cut) == 0 && (cut == 0 || s[i + len - cut] == '\033');
                    }
                }
                if (prefix) {
                    i = s.size();
                    continue;
                }
            }
            if (!found) {
                const message* near = nullptr;
                if (s[i] == '#') {
                    const auto n = std::strtol(s.c_str() + i + 1, nullptr, 10);
                    if (n >= 0 && n < static_cast<long>(all.size())) near = all[static_cast<std::size_t>(n)];
                }
                violation("not-whole", "the stream holds '%s' where a whole message should be%s%s", printable(s.substr(i)).c_str(),
                          near ? ", expected " : "", near ? printable(near->expected).c_str() : "");
            }
            const auto n = static_cast<std::size_t>(found->id);
            SIM_CHECK(at[n] == std::string::npos, "twice", "message %zu was written twice", n);
            at[n] = order++;
            i += found->expected.size();
        }
    }
    SIM_CHECK(last_seen, "lost-after-recovery", "a message logged after the stream recovered is missing");
    std::size_t lost = 0;
    for (auto* m : all) {
        const auto n = static_cast<std::size_t>(m->id);
        if (at[n] == std::string::npos) {
            SIM_CHECK(!m->must, "lost", "message %zu is missing from a healthy stream", n);
            ++lost;
            count("probe.lost-whole");
        }
    }
    for (auto* a : all) {
        for (auto* b : all) {
            const auto x = at[static_cast<std::size_t>(a->id)], y = at[static_cast<std::size_t>(b->id)];
            if (x != std::string::npos && y != std::string::npos && a->end < b->begin && a->end) {
                SIM_CHECK(x < y, "order", "message %d was finished before message %d began but follows it", a->id, b->id);
            }
        }
    }
    (void) torn;
    cover(mix(mix(threads, all.size()), mix(lost, mode)));
    out->bytes.clear();
}
