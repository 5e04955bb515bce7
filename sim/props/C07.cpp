// C07: a crash while recording loses no acknowledged sample and forges none.
// Every instant between two system calls of the recording (and inside large writes, at page
// boundaries) is a crash point: the disk as the crash leaves it is kept with what had been
// acknowledged then, and afterwards each such disk is opened with the decoder.
#include "codec.hpp"
const char* const prop_id = "C07";
using namespace sim;

namespace {
    std::uint64_t counter = 0;

    template <typename T>
    struct recording {
        std::vector<T> offered; // acknowledged samples, then the block in flight
        std::size_t acked{0};
        bool finished{false};
        bool started{false}; // open() has returned
        std::size_t channels{0}, rate{0};
    };
    template <typename T>
    struct snapshot {
        std::map<std::string, disk::bytes> files;
        std::map<std::string, recording<T>> recs;
        std::string when;
    };
    template <typename T>
    struct world {
        std::map<std::string, recording<T>> recs;
        std::vector<snapshot<T>> snaps;
        void take(const std::string& when) {
            if (snaps.size() < 600) {
                snaps.push_back({disk::snapshot(), recs, when});
            }
        }
    };

    template <typename T>
    std::size_t check_file(const std::string& path, const recording<T>& r, const std::string& when) {
        codec::quiet_disk q;
        edsp::io::decoder<T> dec;
        const bool ok = dec.open(path);
        if (!ok) {
            SIM_CHECK(r.acked == 0, "acknowledged-lost", "crash %s: %s cannot be opened, %zu samples were acknowledged", when.c_str(),
                      path.c_str(), r.acked);
            count("probe.unopenable-before-first-ack");
            return 0;
        }
        SIM_CHECK(dec.channels() == static_cast<std::ptrdiff_t>(r.channels), "wrong-channels", "crash %s: %s has %td channels, not %zu",
                  when.c_str(), path.c_str(), dec.channels(), r.channels);
        SIM_CHECK(dec.sample_rate() == static_cast<double>(r.rate), "wrong-rate", "crash %s: %s has rate %g, not %zu",
                  when.c_str(), path.c_str(), dec.sample_rate(), r.rate);
        std::vector<T> got;
        std::vector<T> block(700 * r.channels);
        for (;;) {
            const auto n = dec.read(block.begin(), block.end());
            if (n <= 0) {
                break;
            }
            got.insert(got.end(), block.begin(), block.begin() + n);
            SIM_CHECK(got.size() <= r.offered.size(), "forged-samples", "crash %s: %s decodes to more than the %zu samples offered",
                      when.c_str(), path.c_str(), r.offered.size());
        }
        SIM_CHECK(got.size() >= r.acked, "acknowledged-lost", "crash %s: %s decodes to %zu samples, %zu were acknowledged", when.c_str(),
                  path.c_str(), got.size(), r.acked);
        const auto i = codec::first_difference(got.data(), r.offered.data(), got.size());
        SIM_CHECK(i == got.size(), "wrong-samples", "crash %s: sample %zu of %zu in %s differs", when.c_str(), i, got.size(), path.c_str());
        SIM_CHECK(!r.finished || got.size() == r.offered.size(), "finished-changed", "crash %s: finished %s has %zu samples, not %zu",
                  when.c_str(), path.c_str(), got.size(), r.offered.size());
        return got.size();
    }

    template <typename T>
    void record(world<T>& w, const std::string& prefix, unsigned sessions) {
        static const std::vector<std::size_t> rates{8000, 44100, 48000, 1, 96000, 11025};
        struct dev {
            std::unique_ptr<edsp::io::encoder<T>> enc;
            std::string path;
            std::size_t channels{0}, rate{0};
        };
        std::vector<dev> ds(1 + draw(2));
        unsigned n = 0;
        auto finish = [&](dev& d) {
            if (!d.path.empty()) {
                // from here on everything acknowledged must be in the file, and the recording is over
                w.recs[d.path].finished = true;
                d.path.clear();
            }
        };
        while (sessions && more(14)) {
            span s;
            auto& d = ds[draw(ds.size())];
            advance_ns(1000000);
            if (!d.enc) {
                d.channels = 1 + draw(5);
                d.rate     = pick(rates);
                d.enc.reset(new edsp::io::encoder<T>(d.rate, d.channels));
            }
            const auto what = draw(8);
            if (d.path.empty() || what == 6) {
                const auto old  = d.path;
                const auto path = "/sim/" + prefix + std::to_string(n++) + ".wav";
                w.recs[path]    = {};
                w.recs[path].channels = d.channels;
                w.recs[path].rate     = d.rate;
                event("open %s channels=%zu rate=%zu", path.c_str(), d.channels, d.rate);
                const bool ok = d.enc->open(path);
                SIM_CHECK(ok, "open-failed", "open failed on a healthy disk");
                finish(d);
                d.path = path;
                w.recs[path].started = true;
                w.take("after open of " + path);
            } else if (what == 7) {
                event("close %s", d.path.c_str());
                if (coin()) {
                    d.enc->close();
                } else {
                    d.enc.reset();
                }
                finish(d);
                w.take("after close");
            } else {
                auto& r           = w.recs[d.path];
                const auto frames = size_near(5000, {1, 64, 1024, 4096});
                const auto len    = frames * d.channels;
                if (len == 0) {
                    continue;
                }
                std::vector<T> block(len);
                for (auto& x : block) {
                    x = codec::sample<T>(counter++);
                }
                r.offered.insert(r.offered.end(), block.begin(), block.end());
                event("write %zu to %s", len, d.path.c_str());
                const auto got = d.enc->write(block.begin(), block.end());
                SIM_CHECK(got == static_cast<std::ptrdiff_t>(len), "lost-write", "write(%zu) returned %td on a healthy disk", len,
                          static_cast<std::ptrdiff_t>(got));
                r.acked += static_cast<std::size_t>(got);
                w.take("after write " + std::to_string(r.acked) + " of " + d.path);
                add_sim_time_ns(1e9 * static_cast<double>(frames) / static_cast<double>(d.rate));
            }
        }
        for (auto& d : ds) {
            d.enc.reset();
            finish(d);
            w.take("at the end");
        }
    }

    template <typename T>
    void session() {
        world<T> w;
        disk::before_write = [&w](const std::string& path, std::int64_t offset, const std::uint8_t* p, std::size_t n) {
            // a kill may land between two pages of a large write
            for (std::int64_t cut = (offset / 4096 + 1) * 4096; cut < offset + static_cast<std::int64_t>(n); cut += 4096) {
                snapshot<T> s{disk::snapshot(), w.recs, "inside a write to " + path};
                auto& b = s.files[path];
                if (b.size() < static_cast<std::size_t>(cut)) {
                    b.resize(static_cast<std::size_t>(cut));
                }
                std::memcpy(b.data() + offset, p, static_cast<std::size_t>(cut - offset));
                if (w.snaps.size() < 600) {
                    w.snaps.push_back(std::move(s));
                    count("fault.crash-inside-write");
                }
            }
        };
        disk::after_mutation = [&w](const char* op, const std::string& path) {
            w.take(std::string("after ") + op + " on " + path);
            count("fault.crash-between-calls");
        };
        record(w, "rec", 1);
        disk::before_write   = nullptr;
        disk::after_mutation = nullptr;
        const auto end       = disk::snapshot();
        nontrivial();
        const std::size_t chosen = w.snaps.empty() ? 0 : draw(w.snaps.size());
        const bool all           = w.snaps.size() <= 80;
        for (std::size_t i = 0; i < w.snaps.size(); ++i) {
            if (!all && i != chosen && i % (w.snaps.size() / 80 + 1) != 0) {
                continue;
            }
            const auto& s = w.snaps[i];
            disk::restore(s.files);
            std::uint64_t h = 0;
            for (const auto& r : s.recs) {
                if (r.second.started || s.files.count(r.first)) {
                    const auto n = check_file(r.first, r.second, s.when);
                    h            = mix(h, mix(n != r.second.acked, mix(r.second.finished, r.second.acked != 0)));
                }
            }
            cover(mix(h, s.recs.size()));
        }
        if (!w.snaps.empty()) { // restart on the crashed disk: new recordings leave the old ones alone
            auto& s = w.snaps[chosen];
            disk::restore(s.files);
            event("crash %s, restart", s.when.c_str());
            count("fault.crash-restart");
            world<T> w2;
            record(w2, "new", 1);
            for (const auto& f : s.files) {
                SIM_CHECK(disk::get(f.first) == f.second, "other-file-changed", "recording after a restart changed %s", f.first.c_str());
            }
            for (const auto& r : w2.recs) {
                check_file(r.first, r.second, "never (new recording)");
            }
        }
    }
} // namespace

void prop_run() {
    codec::silence_cout();
    disk::reset();
    disk::log_ops  = false;
    clock_.active  = true;
    clock_.wall_ns = 1500000000000000000ll;
    if (coin()) {
        disk::config.write_eintr = 100; // the codec retries these
    }
    switch (draw(4)) {
        case 0: session<float>(); break;
        case 1: session<double>(); break;
        case 2: session<std::int16_t>(); break;
        case 3: session<std::int32_t>(); break;
    }
}
