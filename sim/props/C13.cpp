// C13: ring buffers are bounded double-ended queues whose oldest element gives way.
#include "../core/alloc.hpp"
#include "../core/quiet.hpp"
#include "../core/sim.hpp"
#include <edsp/types/fixed_ring_buffer.hpp>
#include <edsp/types/ring_buffer.hpp>
#include <edsp/types/ring_span.hpp>
#include <algorithm>
#include <deque>
#include <memory>
#include <numeric>
#include <string>
#include <type_traits>
const char* const prop_id = "C13";
using namespace sim;

namespace {
    bool faults = false;
    std::uint64_t serial = 0; // every element pushed is unlike every other
    template <typename T>
    T fresh() { return static_cast<T>(++serial); }
    template <>
    std::string fresh<std::string>() { return "element " + std::string(draw(3) * 20, '.') + std::to_string(++serial); }
    std::string show(const std::string& s) { return s; }
    template <typename T>
    std::string show(const T& v) { return std::to_string(v); }
    template <typename C>
    std::string list(const C& c) {
        std::string s;
        for (const auto& v : c) s += (s.empty() ? "" : ",") + show(v);
        return "[" + s + "]";
    }

    // Runs one call with, sometimes, an allocation failing inside it. True if it completed.
    template <typename F>
    bool guarded(F&& f, const char* what) {
        bool threw = false;
        if (faults && chance(250)) alloc::arm(draw(3), 1 + draw(2));
        try {
            f();
        } catch (const std::bad_alloc&) {
            threw = true;
        }
        const auto hit = alloc::armed() ? alloc::disarm() : 0;
        if (hit) count("fault.alloc-fail");
        SIM_CHECK(!threw || hit, "threw", "%s threw bad_alloc though no allocation failed", what);
        if (threw) count("probe.failed-operation");
        return !threw;
    }

    template <typename T>
    struct base {
        int id{0};
        std::string name;
        std::deque<T> model;
        std::size_t cap{0};
        virtual ~base() = default;
        virtual void op(std::vector<std::unique_ptr<base>>& all, int& next) = 0;
        virtual void check(const char* after) const = 0;
        void push(const T& v) {
            if (cap == 0) return;
            if (model.size() == cap) model.pop_front();
            model.push_back(v);
        }
        void push_first(const T& v) {
            if (cap == 0) return;
            if (model.size() == cap) model.pop_back();
            model.push_front(v);
        }
    };

    // Everything that can be observed of a buffer equals the model
    template <typename T, typename R>
    void observe(const base<T>& b, const R& cr, const char* after) {
        alloc::exempt e;
        auto& r       = const_cast<R&>(cr);
        const auto& m = b.model;
        const auto n  = m.size();
#define WRONG(cls, what) violation(cls, "%s after %s: " what ", model %s", b.name.c_str(), after, list(m).c_str())
        if (cr.size() != n) violation("size", "%s after %s: size %zu, model %s", b.name.c_str(), after, static_cast<std::size_t>(cr.size()), list(m).c_str());
        if (cr.capacity() != b.cap) violation("capacity", "%s after %s: capacity %zu, expected %zu", b.name.c_str(), after, static_cast<std::size_t>(cr.capacity()), b.cap);
        if (cr.empty() != (n == 0)) WRONG("empty", "empty() is wrong");
        if (cr.full() != (n == b.cap)) WRONG("full", "full() is wrong");
        std::vector<T> got;
        for (auto it = r.begin(); it != r.end(); ++it) got.push_back(*it);
        if (!std::equal(got.begin(), got.end(), m.begin(), m.end())) violation("contents", "%s after %s: %s, model %s", b.name.c_str(), after, list(got).c_str(), list(m).c_str());
        if (!std::equal(cr.begin(), cr.end(), m.begin(), m.end())) WRONG("const-iteration", "const iteration differs");
        if (!std::equal(cr.cbegin(), cr.cend(), m.begin(), m.end())) WRONG("const-iteration", "constant iteration differs");
        if (!std::equal(r.rbegin(), r.rend(), m.rbegin(), m.rend())) WRONG("reverse", "reverse iteration differs");
        if (!std::equal(cr.rbegin(), cr.rend(), m.rbegin(), m.rend())) WRONG("reverse", "const reverse iteration differs");
        if (!std::equal(cr.crbegin(), cr.crend(), m.rbegin(), m.rend())) WRONG("reverse", "constant reverse iteration differs");
        if (n) {
            if (!(r.front() == m.front()) || !(cr.front() == m.front())) WRONG("front", "front() differs");
            if (!(r.back() == m.back()) || !(cr.back() == m.back())) WRONG("back", "back() differs");
            // positions reached by jumps
            for (int i = 0; i < 3; ++i) {
                const auto a = draw(n), c = draw(n);
                auto it      = r.begin() + static_cast<int>(a);
                if (!(*it == m[a])) WRONG("jump", "begin()+i differs");
                it += static_cast<int>(c) - static_cast<int>(a);
                if (!(*it == m[c])) WRONG("jump", "it += n differs");
                auto back = r.end() - static_cast<int>(n - a);
                if (!(*back == m[a])) WRONG("jump", "end()-i differs");
                back -= static_cast<int>(a) - static_cast<int>(c);
                if (!(back == it) || back != it || !(*back == m[c])) WRONG("jump", "it -= n differs");
                if ((back < r.begin() + static_cast<int>(a)) != (c < a)) WRONG("order", "iterator order differs");
                if ((back <= r.begin() + static_cast<int>(a)) != (c <= a) || (back > r.begin() + static_cast<int>(a)) != (c > a) ||
                    (back >= r.begin() + static_cast<int>(a)) != (c >= a)) {
                    WRONG("order", "iterator order differs");
                }
                if (back - r.begin() != static_cast<std::ptrdiff_t>(c) || r.end() - back != static_cast<std::ptrdiff_t>(n - c)) WRONG("distance", "iterator distance differs");
                auto post = it;
                if (!(*post++ == m[c]) || (post - it) != 1) WRONG("jump", "it++ differs");
                if (!(--post == it) || (post-- - it) != 0 || (it - post) != 1) WRONG("jump", "it-- differs");
                typename R::const_iterator conv = it;
                if (!(*conv == m[c])) WRONG("jump", "conversion to const_iterator differs");
            }
        }
        cover(mix(mix(n, b.cap), hash_bytes(b.name.data(), b.name.find('#'))));
    }

    // What ring_buffer and fixed_ring_buffer have beyond ring_span
    template <typename T, typename R>
    void observe_owner(const base<T>& b, const R& cr, const char* after) {
        alloc::exempt e;
        auto& r       = const_cast<R&>(cr);
        const auto& m = b.model;
        const auto n  = m.size();
        for (std::size_t i = 0; i < n; ++i) {
            if (!(r[i] == m[i]) || !(cr[i] == m[i])) WRONG("index", "operator[] differs");
            if (!(r.at(i) == m[i]) || !(cr.at(i) == m[i])) WRONG("index", "at() differs");
        }
        for (auto i : {n, n + 1, b.cap, b.cap + 7, static_cast<std::size_t>(-1)}) {
            if (i < n) continue;
            int caught = 0;
            try { r.at(i); } catch (const std::out_of_range&) { ++caught; }
            try { cr.at(i); } catch (const std::out_of_range&) { ++caught; }
            if (caught != 2) WRONG("at-range", "at() out of range did not throw out_of_range");
        }
        if (cr.buffer().size() < b.cap || cr.data() != cr.buffer().data()) WRONG("storage", "buffer() or data() differs");
        if (cr.max_size() < b.cap) WRONG("storage", "max_size() below the capacity");
        // every element lives in this object's own storage
        for (std::size_t i = 0; i < n; ++i) {
            const T* p = &cr[i];
            if (p < cr.data() || p >= cr.data() + b.cap) WRONG("aliasing", "an element lives outside this buffer's storage");
        }
    }
#undef WRONG

    // ---- ring_buffer and fixed_ring_buffer -----------------------------------------------------
    template <typename T, typename R>
    struct owner : base<T> {
        static constexpr bool dynamic = std::is_same<R, edsp::ring_buffer<T>>::value;
        R r;
        using base<T>::model;
        using base<T>::cap;
        owner() = default;
        template <typename... A>
        explicit owner(std::size_t c, A&&... a) : r(std::forward<A>(a)...) { cap = c; }
        void check(const char* after) const override {
            observe(*this, r, after);
            observe_owner(*this, r, after);
        }
        owner* peer(std::vector<std::unique_ptr<base<T>>>& all) {
            std::vector<owner*> v;
            for (auto& p : all) {
                if (auto* o = dynamic_cast<owner*>(p.get())) v.push_back(o);
            }
            return v[draw(v.size())];
        }
        void label(int i) {
            this->id   = i;
            this->name = (dynamic ? "ring_buffer(" : "fixed_ring_buffer(") + std::to_string(cap) + ")#" + std::to_string(i);
        }
        // The moved-from buffer may hold anything valid; it is given a defined state again here
        void recover() {
            r.clear();
            if constexpr (dynamic) {
                if (coin()) r.resize(cap);
                cap = r.capacity();
                label(this->id);
            }
            model.clear();
        }
        void op(std::vector<std::unique_ptr<base<T>>>& all, int& next) override {
            const auto k     = draw(20);
            const char* what = "";
            T v;
            {
                alloc::exempt e;
                v = fresh<T>();
            }
            bool ok = true;
            switch (k) {
                case 0: case 1: case 2: {
                    what           = "push_back";
                    const auto own = !model.empty() && draw(8) == 1 ? draw(model.size()) + 1 : 0;
                    if (own) { what = "push_back(own element)"; alloc::exempt e; v = model[own - 1]; }
                    ok = guarded([&] { if (own) r.push_back(r[own - 1]); else r.push_back(v); }, what);
                    if (ok) this->push(v);
                    break;
                }
                case 3:
                    what = "emplace_back";
                    ok   = guarded([&] { r.emplace_back(v); }, what);
                    if (ok) this->push(v);
                    break;
                case 4: case 5:
                    what = "emplace_front";
                    ok   = guarded([&] { r.emplace_front(v); }, what);
                    if (ok) this->push_first(v);
                    break;
                case 6: case 7: case 8:
                    if (model.empty()) return;
                    what = "pop_front";
                    r.pop_front();
                    model.pop_front();
                    break;
                case 9: case 10:
                    if (model.empty()) return;
                    what = "pop_back";
                    r.pop_back();
                    model.pop_back();
                    break;
                case 11:
                    if (draw(4)) return;
                    what = "clear";
                    r.clear();
                    model.clear();
                    break;
                case 12:
                    if constexpr (dynamic) {
                        const auto n = draw(12);
                        what         = "resize";
                        ok           = guarded([&] { r.resize(n); }, what);
                        if (ok) {
                            cap = n;
                            model.clear();
                            label(this->id);
                        }
                    }
                    break;
                case 13: case 14: { // copy or move into a new buffer
                    if (all.size() >= 6) return;
                    const bool move = k == 14 && coin();
                    what            = move ? "move construction" : "copy construction";
                    std::unique_ptr<owner> o;
                    { alloc::exempt e; all.reserve(all.size() + 1); }
                    ok = guarded([&] { if (move) o.reset(new owner(cap, std::move(r))); else o.reset(new owner(cap, static_cast<const R&>(r))); }, what);
                    if (ok) {
                        alloc::exempt e;
                        o->model = model;
                        o->label(next++);
                        if (move) recover();
                        o->check(what);
                        event("%s <- %s of %s", o->name.c_str(), what, this->name.c_str());
                        all.push_back(std::move(o));
                    }
                    break;
                }
                case 15: { // copy assignment
                    owner* o = peer(all);
                    what     = "copy assignment";
                    ok       = guarded([&] { o->r = static_cast<const R&>(r); }, what);
                    alloc::exempt e;
                    if (ok) {
                        if (o != this) {
                            o->model = model;
                            o->cap   = cap;
                            o->label(o->id);
                        }
                    } else if (!dynamic && o->r.empty()) {
                        o->model.clear(); // the basic guarantee: usable, possibly emptied
                    }
                    event("%s <- copy of %s%s", o->name.c_str(), this->name.c_str(), ok ? "" : " failed");
                    o->check(what);
                    break;
                }
                case 16: { // move assignment
                    owner* o = peer(all);
                    if (o == this) return;
                    what = "move assignment";
                    o->r = std::move(r);
                    alloc::exempt e;
                    o->model = model;
                    o->cap   = cap;
                    o->label(o->id);
                    recover();
                    event("%s <- moved %s", o->name.c_str(), this->name.c_str());
                    o->check(what);
                    break;
                }
                case 17: {
                    owner* o = peer(all);
                    if (o == this) return;
                    what = "swap";
                    using std::swap;
                    ok = guarded([&] { swap(r, o->r); }, what);
                    SIM_CHECK(ok || !dynamic, "threw", "swap of two ring buffers failed");
                    alloc::exempt e;
                    if (ok) {
                        std::swap(model, o->model);
                        std::swap(cap, o->cap);
                        label(this->id);
                        o->label(o->id);
                    } else {
                        recover();
                        o->recover();
                    }
                    event("%s <-> %s", o->name.c_str(), this->name.c_str());
                    o->check(what);
                    break;
                }
                case 18: { // writing through references
                    if (model.empty()) return;
                    const auto i = draw(model.size());
                    what         = "write through a reference";
                    alloc::exempt e;
                    switch (draw(6)) {
                        case 0: r[i] = v; model[i] = v; break;
                        case 1: r.at(i) = v; model[i] = v; break;
                        case 2: r.front() = v; model.front() = v; break;
                        case 3: r.back() = v; model.back() = v; break;
                        case 4: *(r.begin() + static_cast<int>(i)) = v; model[i] = v; break;
                        case 5: *(r.rbegin() + static_cast<int>(i)) = v; *(model.rbegin() + static_cast<int>(i)) = v; break;
                    }
                    break;
                }
                case 19: { // std algorithms
                    alloc::exempt e;
                    what = "algorithms";
                    switch (draw(3)) {
                        case 0: std::reverse(r.begin(), r.end()); std::reverse(model.begin(), model.end()); break;
                        case 1: std::fill(r.begin(), r.end(), v); std::fill(model.begin(), model.end(), v); break;
                        case 2: std::for_each(r.begin(), r.end(), [](T& x) { x = x + x; }); std::for_each(model.begin(), model.end(), [](T& x) { x = x + x; }); break;
                    }
                    break;
                }
            }
            event("%s: %s%s -> %s", this->name.c_str(), what, ok ? "" : " failed", list(model).c_str());
            check(what);
        }
    };

    // ---- ring_span over storage of the caller -------------------------------------------------
    template <typename T, typename Popper>
    struct viewer : base<T> {
        static constexpr std::size_t guard = 2;
        std::vector<T> mem;
        edsp::ring_span<T, Popper> r;
        std::unique_ptr<viewer> other; // the span this one is swapped or moved with
        using base<T>::model;
        using base<T>::cap;
        T left_behind{};
        static edsp::ring_span<T, Popper> make(std::vector<T>& m, std::size_t n, std::size_t first, std::size_t count, const Popper& p) {
            const auto b = m.begin() + static_cast<long>(guard);
            if (count == 0 && first == 0) return edsp::ring_span<T, Popper>(b, b + static_cast<long>(n), p);
            return edsp::ring_span<T, Popper>(b, b + static_cast<long>(n), b + static_cast<long>(first), count, p);
        }
        viewer(std::size_t n, std::size_t first, std::size_t count, const Popper& p, int i) : mem(n + 2 * guard), r(make(mem, n, first, count, p)) {
            cap        = n;
            this->id   = i;
            this->name = "ring_span(" + std::to_string(n) + ")#" + std::to_string(i);
            for (std::size_t j = 0; j < count; ++j) {
                T v = fresh<T>();
                mem[guard + (first + j) % n] = v;
                model.push_back(v);
            }
        }
        void check(const char* after) const override {
            observe(*this, r, after);
            for (std::size_t i = 0; i < guard; ++i) {
                SIM_CHECK(mem[i] == T() && mem[guard + cap + i] == T(), "outside", "%s after %s: wrote outside its storage", this->name.c_str(), after);
            }
        }
        template <typename F>
        void popped(F&& f, const T& want) {
            if constexpr (std::is_void<decltype(f())>::value) {
                f();
            } else {
                const T got = f();
                SIM_CHECK(got == want, "popped", "%s: pop returned %s, expected %s", this->name.c_str(), show(got).c_str(), show(want).c_str());
            }
        }
        void op(std::vector<std::unique_ptr<base<T>>>&, int&) override {
            const auto k     = draw(12);
            const char* what = "";
            T v;
            {
                alloc::exempt e;
                v = fresh<T>();
            }
            bool ok = true;
            switch (k) {
                case 0: case 1: what = "push_back"; if ((ok = guarded([&] { r.push_back(v); }, what))) this->push(v); break;
                case 2: what = "push_back(move)"; if ((ok = guarded([&] { T c(v); r.push_back(std::move(c)); }, what))) this->push(v); break;
                case 3: what = "emplace_back"; if ((ok = guarded([&] { r.emplace_back(v); }, what))) this->push(v); break;
                case 4: what = "push_front"; if ((ok = guarded([&] { r.push_front(v); }, what))) this->push_first(v); break;
                case 5: what = "push_front(move)"; if ((ok = guarded([&] { T c(v); r.push_front(std::move(c)); }, what))) this->push_first(v); break;
                case 6: what = "emplace_front"; if ((ok = guarded([&] { r.emplace_front(v); }, what))) this->push_first(v); break;
                case 7: case 8: {
                    if (model.empty()) return;
                    what = "pop_front";
                    alloc::exempt e;
                    popped([&] { return r.pop_front(); }, model.front());
                    model.pop_front();
                    break;
                }
                case 9: {
                    if (model.empty()) return;
                    what = "pop_back";
                    alloc::exempt e;
                    popped([&] { return r.pop_back(); }, model.back());
                    model.pop_back();
                    break;
                }
                case 10: { // the view moves, the storage stays
                    what = "move";
                    edsp::ring_span<T, Popper> t(std::move(r));
                    r = std::move(t);
                    break;
                }
                case 11: { // two views of the same storage, disjoint halves, swapped and back
                    what = "swap";
                    alloc::exempt e;
                    std::vector<T> m2(3);
                    edsp::ring_span<T, Popper> o(m2.begin(), m2.end(), r_popper());
                    o.push_back(v);
                    using nonstd::swap;
                    if (coin()) r.swap(o); else swap(r, o);
                    SIM_CHECK(r.size() == 1 && r.capacity() == 3 && r.front() == v, "swap", "%s: the swapped view is not the other one", this->name.c_str());
                    SIM_CHECK(o.size() == model.size() && o.capacity() == cap && std::equal(o.begin(), o.end(), model.begin(), model.end()), "swap", "%s: the view was lost in a swap", this->name.c_str());
                    swap(o, r);
                    break;
                }
            }
            event("%s: %s%s -> %s", this->name.c_str(), what, ok ? "" : " failed", list(model).c_str());
            check(what);
        }
        Popper r_popper();
    };
    template <typename T>
    struct def { using type = nonstd::default_popper<T>; };
    template <typename T, typename P>
    P viewer<T, P>::r_popper() {
        if constexpr (std::is_constructible<P>::value) return P();
        else return P(T());
    }

    template <typename T>
    std::unique_ptr<base<T>> create(int id) {
        const auto k = draw(12);
        const auto n = draw(9);
        auto dyn     = [&](auto* o) {
            o->label(id);
            return std::unique_ptr<base<T>>(o);
        };
        using D = owner<T, edsp::ring_buffer<T>>;
        switch (k) {
            case 0: case 1: case 2: {
                auto* o = new D(n, n);
                o->label(id);
                // filled or not, the constructor's elements are default ones
                for (const auto& v : static_cast<const edsp::ring_buffer<T>&>(o->r)) {
                    SIM_CHECK(v == T(), "construction", "ring_buffer(N) holds something else than default elements");
                    o->model.push_back(v);
                }
                return std::unique_ptr<base<T>>(o);
            }
            case 3: {
                const T v = fresh<T>();
                auto* o   = new D(n, n, v);
                o->model.assign(n, v);
                return dyn(o);
            }
            case 4: return dyn(new D());
            case 5: { auto* o = new owner<T, edsp::fixed_ring_buffer<T, 1>>(); o->cap = 1; return dyn(o); }
            case 6: { auto* o = new owner<T, edsp::fixed_ring_buffer<T, 3>>(); o->cap = 3; return dyn(o); }
            case 7: { auto* o = new owner<T, edsp::fixed_ring_buffer<T, 8>>(); o->cap = 8; return dyn(o); }
            case 8: return std::unique_ptr<base<T>>(new viewer<T, nonstd::default_popper<T>>(n, 0, 0, nonstd::default_popper<T>(), id));
            case 9: {
                const auto m = n + 1, c = draw(m + 1);
                return std::unique_ptr<base<T>>(new viewer<T, nonstd::default_popper<T>>(m, draw(m), c, nonstd::default_popper<T>(), id));
            }
            case 10: return std::unique_ptr<base<T>>(new viewer<T, nonstd::null_popper<T>>(n + 1, 0, 0, nonstd::null_popper<T>(), id));
            default: return std::unique_ptr<base<T>>(new viewer<T, nonstd::copy_popper<T>>(n + 1, 0, 0, nonstd::copy_popper<T>(T()), id));
        }
    }

    template <typename T>
    void session() {
        std::vector<std::unique_ptr<base<T>>> all;
        int next = 0;
        all.reserve(8);
        while (more(60)) {
            span s;
            const auto what = draw(20);
            if (all.empty() || (what == 0 && all.size() < 6)) {
                all.push_back(create<T>(next++));
                event("%s created %s", all.back()->name.c_str(), list(all.back()->model).c_str());
                all.back()->check("construction");
            } else if (what == 1 && all.size() > 1) {
                const auto i = draw(all.size());
                event("%s destroyed", all[i]->name.c_str());
                all.erase(all.begin() + static_cast<long>(i));
            } else { // one buffer is used for a while
                const auto i = draw(all.size());
                for (auto n = 1 + draw(4); n && i < all.size(); --n) all[i]->op(all, next);
            }
            for (auto& b : all) b->check("an operation on another buffer or itself");
        }
    }
    // ---- large buffers, filled and emptied by the bulk ------------------------------------------
    template <typename R>
    void large_check(const char* who, const char* after, const R& cr, const std::deque<int>& m, std::size_t cap) {
        auto& r      = const_cast<R&>(cr);
        const auto n = m.size();
        SIM_CHECK(cr.size() == n && cr.capacity() == cap && cr.empty() == (n == 0) && cr.full() == (n == cap), "size", "%s after %s: size %zu of %zu, expected %zu of %zu", who, after,
                  static_cast<std::size_t>(cr.size()), static_cast<std::size_t>(cr.capacity()), n, cap);
        SIM_CHECK(std::equal(cr.begin(), cr.end(), m.begin(), m.end()), "contents", "%s after %s: iteration over %zu elements differs from the model", who, after, n);
        SIM_CHECK(std::equal(r.rbegin(), r.rend(), m.rbegin(), m.rend()), "reverse", "%s after %s: reverse iteration over %zu elements differs from the model", who, after, n);
        SIM_CHECK(cr.end() - cr.begin() == static_cast<std::ptrdiff_t>(n), "distance", "%s after %s: %td elements between begin and end, expected %zu", who, after, cr.end() - cr.begin(), n);
        if (n == 0) return;
        SIM_CHECK(cr.front() == m.front() && cr.back() == m.back(), "front", "%s after %s: front() or back() differs", who, after);
        for (int k = 0; k < 14; ++k) {
            static const std::size_t edges[] = {0, 127, 128, 255, 256, 32767, 32768, 65535};
            const auto i = k < 8 ? std::min(edges[k], n - 1) : k == 8 ? n - 1 : draw(n);
            SIM_CHECK(*(r.begin() + static_cast<int>(i)) == m[i] && *(cr.end() - static_cast<int>(n - i)) == m[i], "jump", "%s after %s: element %zu of %zu by an iterator differs", who, after, i, n);
            if constexpr (!std::is_base_of<edsp::ring_span<int>, R>::value) {
                SIM_CHECK(r[i] == m[i] && cr[i] == m[i] && r.at(i) == m[i] && cr.at(i) == m[i], "index", "%s after %s: element %zu of %zu differs", who, after, i, n);
            }
        }
        cover(mix(77, mix(cap > 128, mix(cap > 32768, mix(cap > 65536, mix(n == cap, n > 32768))))));
    }
    template <typename R>
    void large_ops(const char* who, R& r, std::size_t cap) {
        std::deque<int> m;
        large_check(who, "construction", r, m, cap);
        while (more(7)) {
            span s;
            const char* what = "";
            const auto k     = draw(3) ? draw(cap + cap / 8 + 2) : size_near(cap, {cap, cap / 2});
            switch (draw(6)) {
                case 0: case 1:
                    what = "push_back";
                    for (std::size_t i = 0; i < k; ++i) {
                        const int v = fresh<int>();
                        r.push_back(v);
                        if (m.size() == cap) m.pop_front();
                        m.push_back(v);
                    }
                    break;
                case 2:
                    if constexpr (std::is_base_of<edsp::ring_span<int>, R>::value) {
                        what = "push_front";
                        for (std::size_t i = 0; i < k; ++i) {
                            const int v = fresh<int>();
                            r.push_front(v);
                            if (m.size() == cap) m.pop_back();
                            m.push_front(v);
                        }
                    }
                    break;
                case 3:
                    what = "pop_front";
                    for (std::size_t i = 0; i < k && !m.empty(); ++i) {
                        r.pop_front();
                        m.pop_front();
                    }
                    break;
                case 4:
                    what = "pop_back";
                    for (std::size_t i = 0; i < k && !m.empty(); ++i) {
                        r.pop_back();
                        m.pop_back();
                    }
                    break;
                case 5:
                    if constexpr (std::is_copy_constructible<R>::value && !std::is_base_of<edsp::ring_span<int>, R>::value) {
                        what = "copy";
                        std::unique_ptr<R> c(new R(r));
                        large_check(who, "being copied", *c, m, cap);
                        r.clear();
                        large_check(who, "clear", r, std::deque<int>(), cap);
                        if (coin()) r = *c;
                        else m.clear();
                    }
                    break;
            }
            event("%s: %s %zu -> %zu elements", who, what, k, m.size());
            large_check(who, what, r, m, cap);
        }
    }
    void large() {
        const auto cap = large_size(67000);
        switch (draw(4)) {
            case 0: case 1: {
                event("ring_buffer of %zu", cap);
                edsp::ring_buffer<int> r(cap);
                if (coin()) {
                    r = edsp::ring_buffer<int>(3);
                    r.resize(cap);
                }
                large_ops("large ring_buffer", r, cap);
                break;
            }
            case 2: {
                event("ring_span of %zu", cap);
                std::vector<int> mem(cap);
                edsp::ring_span<int> r(mem.begin(), mem.end());
                large_ops("large ring_span", r, cap);
                break;
            }
            case 3:
                switch (draw(3)) {
                    case 0: { auto r = std::make_unique<edsp::fixed_ring_buffer<int, 300>>(); large_ops("fixed_ring_buffer<300>", *r, 300); break; }
                    case 1: { auto r = std::make_unique<edsp::fixed_ring_buffer<int, 33000>>(); large_ops("fixed_ring_buffer<33000>", *r, 33000); break; }
                    case 2: { auto r = std::make_unique<edsp::fixed_ring_buffer<int, 66000>>(); large_ops("fixed_ring_buffer<66000>", *r, 66000); break; }
                }
                break;
        }
    }
} // namespace

void prop_run() {
    silence_cout();
    faults = coin();
    serial = 0;
    if (chance(60)) {
        large();
        nontrivial();
        return;
    }
    switch (draw(4)) {
        case 0: session<int>(); break;
        case 1: session<std::string>(); break;
        case 2: session<double>(); break;
        case 3: faults = true; session<std::string>(); break;
    }
    nontrivial();
}
