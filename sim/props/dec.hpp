// Decoder sessions against a model: the file's samples as the codec delivers them without faults.
#pragma once
#include "codec.hpp"
#include <deque>

namespace decmodel {
    using namespace sim;

    template <typename T>
    struct file_ref {
        std::string path;
        codec::decoded<T> content;
        bool openable{false};
        bool seekable{true};
        bool pcm{true};
        bool pipe{false};
    };

    inline std::uint64_t hard_now() {
        return disk::hits.hard_read() + disk::hits.close_fail + handles::failed(handles::sndfile);
    }

    struct mix {
        unsigned open, read, seek, close, destroy, query, truncate;
    };

    template <typename T>
    std::vector<file_ref<T>> make_files(unsigned n) {
        std::vector<file_ref<T>> out;
        std::uint64_t counter = draw(1000);
        for (unsigned i = 0; i < n; ++i) {
            file_ref<T> f;
            f.path              = "/sim/f" + std::to_string(i);
            const auto what     = draw(i == 0 ? 8 : 12);
            const int channels  = static_cast<int>(1 + draw(chance(80) ? 33 : 7));
            const auto frames   = chance(25) ? 32000 + draw(40000) : size_near(3000, {0, 1, 63, 64, 128, 1024, 1024 / static_cast<std::size_t>(channels), 2048, 2500});
            static const int rates[] = {44100, 8000, 48000, 22050, 96000, 1};
            const int rate      = rates[draw(6)];
            const auto samples  = frames * static_cast<std::size_t>(channels);
            const char* form    = "wav";
            auto fill = [&](auto tag) {
                std::vector<decltype(tag)> v(samples);
                for (auto& x : v) {
                    x = codec::sample<decltype(tag)>(counter++);
                }
                return v;
            };
            disk::bytes b;
            switch (what) {
                case 0: case 1: case 2: b = codec::make_file(fill(T{}), channels, rate); break;
                case 3: b = codec::make_file(fill(T{}), channels, rate, SF_FORMAT_AIFF); form = "aiff"; break;
                case 4: b = codec::make_file(fill(T{}), channels, rate, SF_FORMAT_AU); form = "au"; break;
                case 5: b = codec::make_file(fill(T{}), channels, rate, SF_FORMAT_W64); form = "w64"; break;
                case 6: b = codec::make_file(fill(std::int16_t{}), channels, rate); form = "wav16"; break;
                case 7: b = codec::make_file(fill(float{}), channels, rate); form = "wavf"; break;
                case 8: // truncated anywhere
                    b = codec::make_file(fill(T{}), channels, rate);
                    b.resize(draw(b.size() + 1));
                    form = "truncated";
                    break;
                case 9: // a flipped byte near the header
                    b = codec::make_file(fill(T{}), channels, rate);
                    if (!b.empty()) {
                        b[draw(std::min<std::size_t>(b.size(), 60))] ^= static_cast<std::uint8_t>(1 + draw(255));
                    }
                    form = "corrupt";
                    break;
                case 10: // not audio
                    b.resize(draw(300));
                    for (auto& x : b) {
                        x = static_cast<std::uint8_t>(draw(256));
                    }
                    form = "noise";
                    break;
                case 11: form = "missing"; break;
            }
            if (what != 11) {
                disk::put(f.path, b);
            }
            if (what < 8 && chance(120)) { // read through a pipe
                disk::make_pipe(f.path);
                f.pipe = true;
                count("probe.pipe");
            }
            f.content  = codec::decode<T>(f.path);
            f.openable = f.content.opened;
            f.seekable = f.content.seekable;
            if (f.openable && (f.content.channels < 1 || f.content.channels > 64 || f.content.rate < 1)) {
                // a corrupt header may claim anything; such a file says nothing about the decoder
                disk::put(f.path, {});
                f.content  = {};
                f.openable = false;
            }
            event("file %s %s channels=%d rate=%d frames=%lld bytes=%zu openable=%d samples=%zu", f.path.c_str(), form,
                  f.content.channels, f.content.rate, static_cast<long long>(f.content.frames), b.size(), f.openable,
                  f.content.samples.size());
            if (what == 8) { // the codec may deliver part of an incomplete last frame
                f.pcm = false;
            }
            if (f.openable &&
                f.content.samples.size() != static_cast<std::size_t>(f.content.frames * f.content.channels)) {
                // the header promises more than the file holds: only prefixes are comparable
                f.pcm = false;
            }
            out.push_back(std::move(f));
        }
        return out;
    }

    template <typename T, std::size_t N>
    struct driver {
        std::unique_ptr<edsp::io::decoder<T, N>> dec{new edsp::io::decoder<T, N>};
        const file_ref<T>* f{nullptr}; // open file
        std::int64_t pos{0};           // frames
        bool lost{false};              // a hard fault left the position unknown: seek first
        bool cut{false};               // the file shrank under the decoder
        int id{0};

        void check_closed() {
            SIM_CHECK(!dec->is_open(), "is-open", "a closed decoder reports an open file");
        }
        void check_attributes() {
            const auto& c = f->content;
            SIM_CHECK(dec->is_open(), "is-open", "is_open() is false for an open file");
            SIM_CHECK(dec->frames() == c.frames, "attr-frames", "frames() = %td, the file has %lld", dec->frames(),
                      static_cast<long long>(c.frames));
            SIM_CHECK(dec->channels() == c.channels, "attr-channels", "channels() = %td, the file has %d", dec->channels(),
                      c.channels);
            SIM_CHECK(dec->samples() == c.frames * c.channels, "attr-samples", "samples() = %td, the file has %lld",
                      dec->samples(), static_cast<long long>(c.frames * c.channels));
            SIM_CHECK(dec->sample_rate() == static_cast<double>(c.rate), "attr-rate", "sample_rate() = %g, the file has %d",
                      dec->sample_rate(), c.rate);
            SIM_CHECK(dec->seekable() == f->seekable, "attr-seekable", "seekable() = %d", dec->seekable());
        }
        void check_position(const char* when) {
            if (!f || lost) {
                return;
            }
            const auto h0 = hard_now();
            const auto p  = dec->current();
            if (hard_now() != h0) {
                return;
            }
            if (!f->seekable && p == -1) { // a pipe need not know
                return;
            }
            SIM_CHECK(p == pos, "position", "current() = %td after %s, expected %lld", p, when, static_cast<long long>(pos));
        }
        void open(const file_ref<T>& file) {
            const auto h0 = hard_now();
            const bool ok = dec->open(file.path);
            const bool hit = hard_now() != h0;
            event("dec%d open %s -> %d", id, file.path.c_str(), ok);
            f = nullptr;
            SIM_CHECK(ok == dec->is_open(), "is-open", "open returned %d, is_open() %d", ok, dec->is_open());
            SIM_CHECK(!ok || file.openable || hit, "opened-nothing", "opened a file that is no audio file");
            SIM_CHECK(ok || !file.openable || hit, "open-failed", "open failed without a fault");
            if (ok && hit) { // the codec may have parsed a damaged view of the header
                count("probe.open-despite-fault");
                dec->close();
                check_closed();
                return;
            }
            if (ok) {
                f    = &file;
                pos  = 0;
                lost = false;
                cut  = false;
                check_attributes();
                check_position("open");
            } else {
                count("probe.open-failed");
            }
        }
        void close() {
            event("dec%d close", id);
            dec->close();
            f = nullptr;
            check_closed();
            if (chance(150)) {
                dec->close();
                check_closed();
            }
        }
        void seek() {
            if (!f) {
                const auto to = static_cast<std::ptrdiff_t>(range(-2, 2000));
                const auto r  = dec->seek(to);
                event("dec%d seek %td (closed) -> %td", id, to, r);
                SIM_CHECK(r == -1, "closed-seek", "seek(%td) on a closed decoder returned %td", to, r);
                SIM_CHECK(dec->current() == -1, "closed-position", "current() on a closed decoder returned %td", dec->current());
                count("probe.seek-closed");
                return;
            }
            const auto frames = f->content.frames;
            std::int64_t to   = 0;
            switch (draw(8)) {
                case 7: { // far away
                    static const std::int64_t far[] = {1ll << 31, 1ll << 32, -(1ll << 31), -(1ll << 32), 1ll << 33, 1ll << 40, 1ll << 16};
                    to = far[draw(7)] + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(frames) + 2));
                    break;
                }
                case 0: to = 0; break;
                case 1: to = frames; break;
                case 2: to = frames + 1 + static_cast<std::int64_t>(draw(1000)); break;
                case 3: to = -1 - static_cast<std::int64_t>(draw(1000)); break;
                case 4: to = pos; break;
                default: to = static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(frames) + 1)); break;
            }
            const auto h0  = hard_now();
            const auto r   = dec->seek(to);
            const bool hit = hard_now() != h0;
            event("dec%d seek %lld -> %td", id, static_cast<long long>(to), r);
            if (hit) {
                SIM_CHECK(r == -1 || r == to, "seek", "seek(%lld) returned %td", static_cast<long long>(to), r);
                lost = true;
                count("probe.seek-fault");
                return;
            }
            if (!f->seekable) {
                SIM_CHECK(r == -1 || (r == to && to == pos), "seek-pipe", "seek(%lld) in a pipe returned %td", static_cast<long long>(to), r);
                count("probe.seek-pipe");
            } else if (to < 0 || to > frames) {
                SIM_CHECK(r == -1, "seek-outside", "seek(%lld) in a file of %lld frames returned %td", static_cast<long long>(to),
                          static_cast<long long>(frames), r);
                count("probe.seek-outside");
            } else {
                SIM_CHECK(r == to, "seek", "seek(%lld) in a file of %lld frames returned %td", static_cast<long long>(to),
                          static_cast<long long>(frames), r);
                pos  = to;
                lost = false;
            }
            check_position("seek");
        }
        template <typename C>
        std::ptrdiff_t read_into(std::size_t n, std::vector<T>& got, T guard) {
            C out(n + 16, guard);
            auto first   = out.begin();
            const auto r = dec->read(first + 8, first + 8 + static_cast<long>(n));
            for (int i = 0; i < 8; ++i) {
                SIM_CHECK(std::memcmp(&out[static_cast<std::size_t>(i)], &guard, sizeof(T)) == 0 &&
                              std::memcmp(&out[n + 8 + static_cast<std::size_t>(i)], &guard, sizeof(T)) == 0,
                          "wrote-outside", "read(%zu) wrote outside the requested range", n);
            }
            got.assign(first + 8, first + 8 + static_cast<long>(n));
            return r;
        }
        void read() {
            const std::size_t ch = f ? static_cast<std::size_t>(f->content.channels) : 1 + draw(3);
            std::size_t n        = 0;
            switch (draw(4)) {
                case 0: n = draw(20) * ch; break;
                case 1: n = size_near(6000, {N, 2 * N, N / 2, N + ch, 1024, 2048}) / ch * ch; break;
                case 2: // exactly the rest of the file, or around it
                    if (f) {
                        const auto rest = std::max<std::int64_t>(0, static_cast<std::int64_t>(f->content.samples.size() / ch) - pos) + range(-2, 2);
                        n               = static_cast<std::size_t>(std::max<std::int64_t>(0, rest)) * ch;
                    }
                    break;
                default: n = size_near(4000, {N, 2 * N}); break; // not necessarily whole frames
            }
            const T guard  = codec::sample<T>(0xabcdef);
            const auto h0  = hard_now();
            std::vector<T> out;
            const auto r   = chance(200) ? read_into<std::deque<T>>(n, out, guard) : read_into<std::vector<T>>(n, out, guard);
            const bool hit = hard_now() != h0;
            event("dec%d read %zu -> %td %016llx", id, n, r,
                  static_cast<unsigned long long>(r > 0 && static_cast<std::size_t>(r) <= n ? hash_bytes(out.data(), sizeof(T) * static_cast<std::size_t>(r)) : 0));
            if (!f) {
                SIM_CHECK(r <= 0, "closed-read", "a closed decoder delivered %td samples", r);
                count("probe.read-closed");
                return;
            }
            SIM_CHECK(r >= 0 && r <= static_cast<std::ptrdiff_t>(n), "count", "read(%zu) returned %td", n, r);
            if (lost) {
                return;
            }
            const auto& all  = f->content.samples;
            const auto at    = static_cast<std::size_t>(pos) * ch;
            const auto avail = all.size() > at ? all.size() - at : 0;
            const auto ur    = static_cast<std::size_t>(r);
            SIM_CHECK(ur <= avail + (f->pcm ? 0 : ch - 1), "forged", "read(%zu) at frame %lld returned %td of %zu samples left", n, static_cast<long long>(pos), r, avail);
            const auto cmp = std::min(ur, avail);
            const auto i   = codec::first_difference(out.data(), all.data() + at, cmp);
            SIM_CHECK(i == cmp, "wrong-samples", "read(%zu) at frame %lld: sample %zu of %zu differs", n,
                      static_cast<long long>(pos), i, ur);
            if (!hit && !cut && n % ch == 0 && f->pcm) {
                SIM_CHECK(ur == std::min(n, avail), "short-read", "read(%zu) at frame %lld returned %td, %zu samples are left", n,
                          static_cast<long long>(pos), r, avail);
            }
            if (hit) {
                lost = true;
                count("probe.read-fault");
                return;
            }
            if ((cut || !f->pcm) && ur % ch != 0) {
                lost = true;
                count("probe.partial-frame");
                return;
            }
            if (n % ch == 0) {
                if (cut && ur != n) {
                    lost = true;
                    count("probe.read-cut");
                    return;
                }
                pos += static_cast<std::int64_t>(ur / ch);
            } else {
                count("probe.read-misaligned");
                SIM_CHECK(ur % ch == 0, "partial-frame", "read(%zu) with %zu channels delivered %td samples: no whole frames", n, ch, r);
                if (cut && ur + ch <= n) {
                    lost = true;
                    return;
                }
                pos += static_cast<std::int64_t>(ur / ch);
            }
            if (ur >= avail) {
                count("probe.reached-end");
            }
            if (!f->pcm && ur >= avail) {
                lost = true;
                return;
            }
            add_sim_time_ns(1e9 * static_cast<double>(ur / ch) / f->content.rate);
            check_position("read");
            cover(sim::mix(sim::mix(ch, n > N ? 2 + n / N : n == N), sim::mix(N, ur == n)));
        }
        void op(const mix& m, const std::vector<file_ref<T>>& files) {
            unsigned total = m.open + m.read + m.seek + m.close + m.destroy + m.query + m.truncate;
            auto k         = static_cast<unsigned>(draw(total));
            auto is        = [&](unsigned w) {
                if (k < w) {
                    k = ~0u;
                    return true;
                }
                if (k != ~0u) {
                    k -= w;
                }
                return false;
            };
            if (!f && draw(4) != 0) {
                return open(files[draw(files.size())]);
            }
            if (is(m.read)) return read();
            if (is(m.open)) return open(files[draw(files.size())]);
            if (is(m.seek)) return seek();
            if (is(m.close)) return close();
            if (is(m.destroy)) {
                event("dec%d destroy", id);
                dec.reset();
                dec.reset(new edsp::io::decoder<T, N>);
                f = nullptr;
                check_closed();
                return;
            }
            if (is(m.query)) {
                if (f) {
                    check_attributes();
                    check_position("nothing");
                }
                else {
                    check_closed();
                }
                return;
            }
            if (f && !cut && !f->pipe) { // somebody truncates or removes the file while it is read
                if (coin()) {
                    event("dec%d file replaced while open", id);
                    const auto content = disk::get(f->path);
                    disk::remove(f->path); // the open descriptor keeps the old file
                    disk::put(f->path, content);
                    count("fault.file-removed");
                } else {
                    auto* b = disk::ref(f->path);
                    if (b && !b->empty() && users(f) == 1) {
                        b->resize(draw(b->size()));
                        event("dec%d file truncated to %zu while open", id, b->size());
                        cut = true;
                        // later opens see the shorter file
                        auto copy = std::make_shared<file_ref<T>>(*f);
                        keep.push_back(copy);
                        auto* orig    = const_cast<file_ref<T>*>(f);
                        orig->content = codec::decode<T>(orig->path);
                        orig->openable = orig->content.opened;
                        orig->pcm      = false;
                        f             = copy.get();
                        count("fault.file-truncated");
                    }
                }
            }
        }
        std::vector<std::shared_ptr<file_ref<T>>> keep;
        std::function<int(const file_ref<T>*)> users;
    };

    template <typename T, std::size_t N>
    void session(const mix& m) {
        auto files = make_files<T>(1 + static_cast<unsigned>(draw(3)));
        std::vector<driver<T, N>> ds(1 + draw(2));
        for (std::size_t i = 0; i < ds.size(); ++i) {
            ds[i].id    = static_cast<int>(i);
            ds[i].users = [&ds](const file_ref<T>* f) {
                int n = 0;
                for (auto& d : ds) {
                    n += d.f == f;
                }
                return n;
            };
            ds[i].check_closed();
        }
        const auto keep = disk::config;
        (void) keep;
        while (more(30)) {
            span s;
            ds[draw(ds.size())].op(m, files);
            advance_ns(1000000);
        }
        ds.clear();
        SIM_CHECK(disk::open_fds() == 0, "descriptor-leak", "%llu descriptors open at the end",
                  static_cast<unsigned long long>(disk::open_fds()));
        SIM_CHECK(handles::live(handles::sndfile) == 0, "handle-leak", "file handles open at the end");
    }

    // A recording of billions of frames: its beginning, its end, and silence in between.
    template <typename T>
    void huge_session() {
        count("probe.huge-file");
        const int channels = static_cast<int>(1 + draw(3));
        const auto ch      = static_cast<std::size_t>(channels);
        const std::size_t some = 200;
        std::vector<T> head(some * ch), tail(some * ch);
        std::uint64_t counter = draw(1000);
        for (auto& v : head) v = codec::sample<T>(counter++);
        for (auto& v : tail) v = codec::sample<T>(counter++);
        static const std::int64_t lengths[] = {1ll << 31, 1ll << 32, (1ll << 31) / channels, (1ll << 32) / channels, 1ll << 33};
        const auto frames = lengths[draw(5)] + static_cast<std::int64_t>(draw(3000)) + 500;
        auto b            = codec::make_file(head, channels, 48000, SF_FORMAT_W64);
        static const std::uint8_t data_id[] = {'d', 'a', 't', 'a', 0xf3, 0xac, 0xd3, 0x11};
        const auto at   = static_cast<std::size_t>(std::search(b.begin(), b.end(), data_id, data_id + 8) - b.begin());
        const auto body = frames * channels * static_cast<std::int64_t>(sizeof(T));
        const auto grow = body - static_cast<std::int64_t>(head.size() * sizeof(T));
        auto put64 = [&](std::size_t i, std::int64_t v) { for (int k = 0; k < 8; ++k) b[i + static_cast<std::size_t>(k)] = static_cast<std::uint8_t>(v >> (8 * k)); };
        put64(16, static_cast<std::int64_t>(b.size()) + grow);
        put64(at + 16, body + 24);
        b.resize(at + 24 + head.size() * sizeof(T));
        disk::bytes end(tail.size() * sizeof(T));
        std::memcpy(end.data(), tail.data(), end.size());
        const std::string path = "/sim/huge.w64";
        disk::put(path, b);
        disk::stretch(path, static_cast<std::int64_t>(at + 24) + body, end);
        edsp::io::decoder<T, 256> d;
        SIM_CHECK(d.open(path), "open-failed", "a recording of %lld frames cannot be opened", static_cast<long long>(frames));
        SIM_CHECK(d.frames() == frames && d.samples() == frames * channels && d.channels() == channels, "attr-frames",
                  "frames() = %td, samples() = %td, the file has %lld frames of %d", d.frames(), d.samples(),
                  static_cast<long long>(frames), channels);
        auto expected = [&](std::int64_t f, std::size_t c) {
            if (f < static_cast<std::int64_t>(some)) return head[static_cast<std::size_t>(f) * ch + c];
            const auto back = f - (frames - static_cast<std::int64_t>(some));
            return back >= 0 ? tail[static_cast<std::size_t>(back) * ch + c] : T();
        };
        std::int64_t pos = 0;
        for (int k = 0; k < 12; ++k) {
            static const std::int64_t marks[] = {0, 1ll << 31, 1ll << 32, 1ll << 30};
            std::int64_t to = 0;
            switch (draw(5)) {
                case 0: to = frames - static_cast<std::int64_t>(draw(some + 50)); break;
                case 1: to = static_cast<std::int64_t>(draw(some + 50)); break;
                case 2: to = frames + 1 + static_cast<std::int64_t>(draw(100)); break;
                case 3: to = marks[draw(4)] + range(-100, 300); break;
                default: to = pos; break;
            }
            const auto r  = d.seek(to);
            const bool in = to >= 0 && to <= frames;
            event("huge seek %lld of %lld -> %td", static_cast<long long>(to), static_cast<long long>(frames), r);
            SIM_CHECK(r == (in ? to : -1), in ? "seek" : "seek-outside", "seek(%lld) in a file of %lld frames returned %td",
                      static_cast<long long>(to), static_cast<long long>(frames), r);
            if (in) pos = to;
            SIM_CHECK(d.current() == pos, "position", "current() = %td after seek, expected %lld", d.current(), static_cast<long long>(pos));
            const std::size_t n = draw(400);
            std::vector<T> out(n * ch + 1);
            const auto got  = d.read(out.begin(), out.begin() + static_cast<long>(n * ch));
            const auto want = std::min<std::int64_t>(static_cast<std::int64_t>(n), frames - pos) * channels;
            event("huge read %zu -> %td", n * ch, got);
            SIM_CHECK(got == want, "short-read", "read(%zu) at frame %lld of %lld returned %td", n * ch, static_cast<long long>(pos),
                      static_cast<long long>(frames), got);
            for (std::int64_t i = 0; i < got; ++i) {
                const auto e = expected(pos + i / channels, static_cast<std::size_t>(i % channels));
                SIM_CHECK(std::memcmp(&e, &out[static_cast<std::size_t>(i)], sizeof e) == 0, "wrong-samples",
                          "sample %lld read at frame %lld of %lld differs", static_cast<long long>(i), static_cast<long long>(pos),
                          static_cast<long long>(frames));
            }
            pos += got / channels;
            SIM_CHECK(d.current() == pos, "position", "current() = %td after read, expected %lld", d.current(), static_cast<long long>(pos));
        }
        nontrivial();
    }

    inline void run(const mix& m) {
        codec::silence_cout();
        disk::reset();
        clock_.active   = true;
        clock_.wall_ns  = 1500000000000000000ll;
        const auto mode = draw(4);
        if (mode >= 1) {
            if (coin()) disk::config.read_short = 150;
            if (coin()) disk::config.read_eintr = 100;
        }
        if (mode >= 2) {
            switch (draw(5)) {
                case 0: disk::config.read_eio = 1 + static_cast<unsigned>(draw(80)); break;
                case 1: disk::config.open_fail = 200; break;
                case 2: disk::config.seek_fail = 1 + static_cast<unsigned>(draw(60)); break;
                case 3: disk::config.close_fail = 200; break;
                case 4: handles::fail_permille[handles::sndfile] = 200; break;
            }
        }
        event("mode %d", static_cast<int>(mode));
        if (mode < 2 && chance(40)) {
            switch (draw(4)) {
                case 0: return huge_session<float>();
                case 1: return huge_session<double>();
                case 2: return huge_session<std::int16_t>();
                default: return huge_session<std::int32_t>();
            }
        }
        switch (draw(8)) {
            case 0: session<float, 1024>(m); break;
            case 1: session<double, 1024>(m); break;
            case 2: session<std::int16_t, 1024>(m); break;
            case 3: session<std::int32_t, 1024>(m); break;
            case 4: session<float, 64>(m); break;
            case 5: session<double, 100>(m); break;
            case 6: session<std::int16_t, 37>(m); break;
            case 7: session<std::int32_t, 256>(m); break;
        }
        nontrivial();
    }
} // namespace decmodel
