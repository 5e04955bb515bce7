// C06: every file, plan and converter handle is released exactly once.
#include "codec.hpp"
#include "../core/alloc.hpp"
#include <complex>
#include <edsp/io/metadata.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/fft_engine.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
const char* const prop_id = "C06";
using namespace sim;

namespace {
    struct held {
        std::int64_t n[4];
        static held now() {
            return {{static_cast<std::int64_t>(handles::live(handles::sndfile)), static_cast<std::int64_t>(handles::live(handles::converter)),
                     static_cast<std::int64_t>(handles::live(handles::plan)), static_cast<std::int64_t>(disk::open_fds())}};
        }
    };
    const char* const kind_name[4] = {"audio file handle", "converter", "FFT plan", "descriptor"};
    bool hard_seen = false;

    struct object {
        int id{0};
        std::int64_t owned[4] = {0, 0, 0, 0};
        virtual ~object() = default;
        virtual const char* name() const = 0;
        virtual void op() = 0;
        virtual void move() {}
        // how many handles of each kind may and must be held now
        virtual void limits(std::int64_t (&lo)[4], std::int64_t (&hi)[4]) const = 0;
        virtual void untouched() {} // another object was operated on
    };

    template <typename X>
    bool moved(std::unique_ptr<X>& p) {
        if constexpr (std::is_move_constructible<X>::value) {
            auto* to = new X(std::move(*p));
            p.reset(to);
            return true;
        }
        return false;
    }

    std::vector<std::string> paths;
    std::uint64_t counter = 0;
    std::uint64_t fails() { return disk::hits.hard() + handles::failed(handles::sndfile); }

    template <typename T>
    struct enc_obj : object {
        std::unique_ptr<edsp::io::encoder<T>> e{new edsp::io::encoder<T>(8000, 1 + draw(2))};
        bool open{false};
        const char* name() const override { return "encoder"; }
        void limits(std::int64_t (&lo)[4], std::int64_t (&hi)[4]) const override {
            lo[0] = hi[0] = open;
            lo[3] = hi[3] = open;
        }
        void untouched() override { SIM_CHECK(e->is_open() == open, "affected", "an encoder changed its state by itself"); }
        void op() override {
            switch (draw(4)) {
                case 0: {
                    const auto h0   = fails();
                    const auto path = chance(150) ? std::string("/sim/nodir/x") : "/sim/enc" + std::to_string(id) + std::to_string(draw(2)) + ".wav";
                    open            = false; // if open() throws
                    bool ok         = false;
                    try {
                        ok = e->open(path);
                    } catch (const std::bad_alloc&) {
                        open = e->is_open();
                        throw;
                    }
                    (void) h0;
                    event("  open %s -> %d", path.c_str(), ok);
                    SIM_CHECK(ok == e->is_open(), "is-open", "open returned %d, is_open() %d", ok, e->is_open());
                    open = ok;
                    break;
                }
                case 1:
                    e->close();
                    event("  close");
                    open = false;
                    SIM_CHECK(!e->is_open(), "is-open", "is_open() after close");
                    break;
                default: {
                    std::vector<T> b(2 * (1 + draw(50)));
                    const auto r = e->write(b.begin(), b.end());
                    event("  write -> %td", static_cast<std::ptrdiff_t>(r));
                    SIM_CHECK(open || r <= 0, "closed-ack", "a closed encoder acknowledged %td samples", static_cast<std::ptrdiff_t>(r));
                    break;
                }
            }
        }
        void move() override {
            using E = edsp::io::encoder<T>;
            if constexpr (std::is_move_constructible<E>::value) {
                event("  move");
                auto* to = new E(std::move(*e));
                e.reset(to);
                SIM_CHECK(e->is_open() == open, "moved", "is_open() changed by a move");
                count("probe.moved-encoder");
            }
        }
    };

    template <typename T>
    struct dec_obj : object {
        std::unique_ptr<edsp::io::decoder<T>> d{new edsp::io::decoder<T>()};
        bool open{false};
        std::int64_t pos{0};
        bool unsure{false};
        const char* name() const override { return "decoder"; }
        void limits(std::int64_t (&lo)[4], std::int64_t (&hi)[4]) const override {
            lo[0] = hi[0] = open;
            lo[3] = hi[3] = open;
        }
        void untouched() override {
            SIM_CHECK(d->is_open() == open, "affected", "a decoder changed its state by itself");
            if (open && !unsure) {
                const auto h0 = fails();
                const auto p  = d->current();
                if (fails() == h0) {
                    SIM_CHECK(p == pos, "affected", "the position of a decoder moved from %lld to %td by itself", static_cast<long long>(pos), p);
                } else {
                    unsure = true;
                }
            }
        }
        void op() override {
            switch (draw(5)) {
                case 0:
                case 1: {
                    const auto path = pick(paths);
                    bool ok         = false;
                    open            = false;
                    try {
                        ok = d->open(path);
                    } catch (const std::bad_alloc&) {
                        open   = d->is_open();
                        unsure = true;
                        throw;
                    }
                    event("  open %s -> %d", path.c_str(), ok);
                    SIM_CHECK(ok == d->is_open(), "is-open", "open returned %d, is_open() %d", ok, d->is_open());
                    open   = ok;
                    pos    = 0;
                    unsure = hard_seen;
                    break;
                }
                case 2:
                    d->close();
                    event("  close");
                    open = false;
                    SIM_CHECK(!d->is_open(), "is-open", "is_open() after close");
                    break;
                case 3: {
                    std::vector<T> b(1 + draw(400));
                    const auto h0 = fails();
                    const auto r  = d->read(b.begin(), b.end());
                    event("  read %zu -> %td", b.size(), r);
                    SIM_CHECK(open || r <= 0, "closed-read", "a closed decoder delivered %td samples", r);
                    unsure = unsure || fails() != h0;
                    if (open) {
                        pos = d->current();
                    }
                    break;
                }
                case 4: {
                    const auto r = d->seek(static_cast<std::ptrdiff_t>(draw(300)));
                    event("  seek -> %td", r);
                    if (open) {
                        pos = d->current();
                    }
                    break;
                }
            }
        }
        void move() override {
            using D = edsp::io::decoder<T>;
            if constexpr (std::is_move_constructible<D>::value) {
                event("  move");
                auto* to = new D(std::move(*d));
                d.reset(to);
                SIM_CHECK(d->is_open() == open, "moved", "is_open() changed by a move");
                count("probe.moved-decoder");
            }
        }
    };

    struct src_obj : object {
        std::unique_ptr<edsp::io::resampler<float>> r;
        bool failed{false};
        src_obj() {
            const auto f0 = handles::failed(handles::converter);
            const auto ch = static_cast<long>(1 + draw(3));
            r.reset(new edsp::io::resampler<float>(ch, static_cast<edsp::io::resample_quality>(draw(5)),
                                                   static_cast<float>(real(0.3, 3))));
            failed = handles::failed(handles::converter) != f0;
            SIM_CHECK(!failed || r->error() != 0, "no-error", "a resampler without a converter reports no error");
        }
        const char* name() const override { return "resampler"; }
        void limits(std::int64_t (&lo)[4], std::int64_t (&hi)[4]) const override { lo[1] = hi[1] = !failed; }
        void op() override {
            const auto how = draw(5);
            if (how == 4) { // the output runs into the input: the call is refused
                std::vector<float> io(3 * (4 + draw(60)) * 5);
                const auto n = io.size() / 5;
                const auto p = r->process(io.begin(), io.begin() + n, io.begin() + n / 2);
                event("  process %zu onto itself -> %ld %ld", n, p.first, p.second);
                count("probe.refused-process");
            } else if (how < 2) {
                std::vector<float> in(3 * (1 + draw(60))), out(in.size() * 4 + 8);
                const auto p = r->process(in.begin(), in.end(), out.begin());
                event("  process %zu -> %ld %ld", in.size(), p.first, p.second);
                SIM_CHECK(!failed || (p.first == 0 && p.second == 0), "counts", "a resampler without a converter consumed %ld and produced %ld",
                          p.first, p.second);
            } else {
                const auto e = r->reset();
                event("  reset -> %d", e);
            }
        }
        void move() override {
            if (moved(r)) {
                count("probe.moved-resampler");
            }
        }
    };

    template <typename T>
    struct fft_obj : object {
        std::size_t n{1 + draw(40)};
        std::unique_ptr<edsp::fft_engine<T>> e{new edsp::fft_engine<T>(n)};
        const char* name() const override { return "fft engine"; }
        void limits(std::int64_t (&lo)[4], std::int64_t (&hi)[4]) const override {
            lo[2] = 0;
            hi[2] = 1000; // how many plans an engine keeps is its own business
        }
        void op() override {
            std::vector<T> a(n + 4), b(n + 4);
            std::vector<std::complex<T>> c(n + 4), d(n + 4);
            const auto off = draw(2);
            switch (draw(7)) {
                case 0: e->dft(c.data(), d.data() + off); break;
                case 1: e->idft(c.data() + off, d.data()); break;
                case 2: e->dft(a.data() + off, d.data()); break;
                case 3: e->idft(c.data(), b.data() + off); break;
                case 4: e->dht(a.data(), b.data() + off); break;
                case 5: e->dct(a.data(), b.data()); break;
                case 6: e->idct(a.data(), b.data()); break;
            }
        }
        void move() override {
            using E = edsp::fft_engine<T>;
            if constexpr (std::is_move_constructible<E>::value) {
                event("  move");
                auto* to = new E(std::move(*e));
                e.reset(to);
                count("probe.moved-fft");
            }
        }
    };

    struct meta_obj : object {
        std::unique_ptr<edsp::io::metadata> m;
        meta_obj() { m.reset(new edsp::io::metadata(pick(paths))); }
        const char* name() const override { return "metadata reader"; }
        void limits(std::int64_t (&lo)[4], std::int64_t (&hi)[4]) const override {
            lo[3] = 0;
            hi[3] = 1;
        }
        void op() override {
            (void) m->title();
            (void) m->artist();
            (void) m->year();
        }
        void move() override { // copies share the file, which outlives the first of them
            const auto t = m->title();
            if (moved(m)) {
                SIM_CHECK(m->title() == t, "copied", "the copy of a reader reports another title");
            }
        }
    };

    template <typename T>
    void free_call() {
        const auto n = 1 + draw(30);
        std::vector<T> a(n, T(1)), b(n, T(0.5)), r(8 * n + 16);
        std::vector<std::complex<T>> c(n), d(4 * n + 8);
        switch (draw(11)) {
            case 0: edsp::cdft(c.begin(), c.end(), d.begin()); break;
            case 1: edsp::cidft(c.begin(), c.end(), d.begin()); break;
            case 2: edsp::dft(a.begin(), a.end(), d.begin()); break;
            case 3: if (n > 1) edsp::idft(c.begin(), c.end(), r.begin()); break;
            case 4: edsp::dct(a.begin(), a.end(), r.begin()); break;
            case 5: edsp::idct(a.begin(), a.end(), r.begin()); break;
            case 6: edsp::hartley(a.begin(), a.end(), r.begin()); break;
            case 7: edsp::conv(a.begin(), a.end(), b.begin(), r.begin()); break;
            case 8: edsp::xcorr(a.begin(), a.end(), r.begin()); break;
            case 9: edsp::cepstrum(a.begin(), a.end(), r.begin()); break;
            case 10: edsp::spectrum(a.begin(), a.end(), r.begin()); break;
        }
    }

    std::vector<std::unique_ptr<object>> objects;

    void check(object* o, const held& before, const char* what, bool must) {
        const auto after     = held::now();
        std::int64_t lo[4]   = {0, 0, 0, 0};
        std::int64_t hi[4]   = {0, 0, 0, 0};
        if (o) {
            o->limits(lo, hi);
        }
        for (int k = 0; k < 4; ++k) {
            const auto delta = after.n[k] - before.n[k];
            if (!o) {
                SIM_CHECK(delta == 0, "leak", "%s left %lld %s(s) behind", what, static_cast<long long>(delta), kind_name[k]);
                continue;
            }
            o->owned[k] += delta;
            SIM_CHECK(o->owned[k] >= 0, "foreign-release", "%s of one %s released a %s of another object", what, o->name(), kind_name[k]);
            if (must) {
                SIM_CHECK(o->owned[k] >= lo[k], "lost-handle", "%s: a %s holds %lld %s(s), expected %lld", what, o->name(),
                          static_cast<long long>(o->owned[k]), kind_name[k], static_cast<long long>(lo[k]));
                SIM_CHECK(o->owned[k] <= hi[k], "leak", "%s: a %s holds %lld %s(s), at most %lld expected", what, o->name(),
                          static_cast<long long>(o->owned[k]), kind_name[k], static_cast<long long>(hi[k]));
            }
        }
    }
    void destroy(std::size_t i) {
        auto before = held::now();
        std::int64_t owned[4];
        std::copy(objects[i]->owned, objects[i]->owned + 4, owned);
        const std::string name = objects[i]->name();
        event("%s%d destroy", name.c_str(), objects[i]->id);
        objects.erase(objects.begin() + static_cast<long>(i));
        const auto after = held::now();
        for (int k = 0; k < 4; ++k) {
            SIM_CHECK(before.n[k] - after.n[k] == owned[k], "not-released", "destroying a %s released %lld of its %lld %s(s)", name.c_str(),
                      static_cast<long long>(before.n[k] - after.n[k]), static_cast<long long>(owned[k]), kind_name[k]);
        }
    }
} // namespace

void prop_run() {
    codec::silence_cout();
    disk::reset();
    clock_.active  = true;
    clock_.wall_ns = 1500000000000000000ll;
    {
        std::vector<float> v(300);
        std::vector<std::int16_t> w(500);
        disk::put("/sim/a.wav", codec::make_file(v, 1, 8000));
        disk::put("/sim/b.wav", codec::make_file(w, 2, 44100));
        disk::put("/sim/c.aiff", codec::make_file(w, 1, 44100, SF_FORMAT_AIFF));
        disk::put("/sim/noise.wav", disk::bytes(100, 77));
        disk::put("/sim/empty.wav", {});
        auto cut = codec::make_file(v, 1, 8000);
        cut.resize(draw(cut.size()));
        disk::put("/sim/cut.wav", cut);
        paths = {"/sim/a.wav", "/sim/b.wav", "/sim/c.aiff", "/sim/noise.wav", "/sim/empty.wav", "/sim/cut.wav", "/sim/missing.wav"};
    }
    const auto fds0 = disk::open_fds();
    (void) fds0;
    const auto mode  = draw(3);
    unsigned oom     = 0;
    if (mode >= 1) {
        if (coin()) handles::fail_permille[handles::sndfile] = 200;
        if (coin()) handles::fail_permille[handles::converter] = 200;
        if (coin()) handles::fail_permille[handles::plan] = 200;
        if (coin()) disk::config.open_fail = 150;
        if (coin()) disk::config.close_fail = 150;
        if (coin()) disk::config.read_eio = 30;
        if (coin()) disk::config.write_eio = 30;
        if (coin()) disk::config.seek_fail = 30;
        if (coin()) oom = 150;
        hard_seen = true;
    }
    event("mode %d", static_cast<int>(mode));
    int next = 0;
    while (more(50)) {
        span s;
        advance_ns(1000000);
        const auto what = draw(10);
        const auto before = held::now();
        if (objects.empty() || (what == 0 && objects.size() < 8)) {
            std::unique_ptr<object> o;
            const auto k = draw(9);
            event("new %d", static_cast<int>(k));
            switch (k) {
                case 0: o.reset(new enc_obj<float>); break;
                case 1: o.reset(new enc_obj<std::int16_t>); break;
                case 2: o.reset(new dec_obj<float>); break;
                case 3: o.reset(new dec_obj<double>); break;
                case 4: o.reset(new dec_obj<std::int32_t>); break;
                case 5: o.reset(new src_obj); break;
                case 6: o.reset(new fft_obj<float>); break;
                case 7: o.reset(new fft_obj<double>); break;
                case 8: o.reset(new meta_obj); break;
            }
            o->id = next++;
            objects.push_back(std::move(o));
            check(objects.back().get(), before, "construction", true);
        } else if (what == 1) {
            destroy(draw(objects.size()));
        } else if (what == 2) {
            event("free call");
            try {
                if (coin()) {
                    free_call<float>();
                } else {
                    free_call<double>();
                }
            } catch (const std::exception& e) {
                event("  threw");
                SIM_CHECK(mode >= 1, "threw", "a spectral function threw without a fault: %s", e.what());
            }
            check(nullptr, before, "a spectral function", true);
        } else {
            auto& o = *objects[draw(objects.size())];
            if (what == 3) {
                event("%s%d move", o.name(), o.id);
                o.move();
                check(&o, before, "a move", true);
            } else {
                event("%s%d op", o.name(), o.id);
                const bool arm = std::string(o.name()) != "metadata reader" && chance(oom);
                if (arm) {
                    alloc::arm(draw(4));
                }
                try {
                    o.op();
                } catch (const std::exception& e) {
                    event("  threw");
                    SIM_CHECK(mode >= 1, "threw", "%s threw without a fault: %s", o.name(), e.what());
                    count("probe.op-threw");
                }
                if (arm && alloc::disarm()) {
                    count("fault.alloc-fail");
                }
                check(&o, before, "an operation", true);
            }
            for (auto& other : objects) {
                if (other.get() != &o) {
                    other->untouched();
                }
            }
        }
        std::uint64_t h = 0;
        for (auto& o : objects) {
            h += mix(hash_bytes(o->name(), std::strlen(o->name())), static_cast<std::uint64_t>(o->owned[0] + 2 * o->owned[1] + 4 * o->owned[2]));
        }
        cover(h);
    }
    while (!objects.empty()) {
        destroy(draw(objects.size()));
    }
    for (int k = 0; k < 4; ++k) {
        SIM_CHECK(held::now().n[k] == 0, "leak", "%lld %s(s) at the end", static_cast<long long>(held::now().n[k]), kind_name[k]);
    }
    SIM_CHECK(disk::bad_fd_closes() == 0, "double-close", "%llu descriptors closed twice", static_cast<unsigned long long>(disk::bad_fd_closes()));
    SIM_CHECK(disk::bad_fd_uses() == 0, "closed-descriptor-used", "%llu uses of closed descriptors", static_cast<unsigned long long>(disk::bad_fd_uses()));
    nontrivial();
}
