// C03: samples the encoder acknowledged are in the file after close.
#include "codec.hpp"
const char* const prop_id = "C03";
using namespace sim;

namespace {
    std::uint64_t counter = 0;

    template <typename T>
    struct recording {
        std::string path;
        std::vector<T> acked;    // acknowledged samples, in order
        std::vector<T> offered;  // acknowledged plus the rest of the last, partly acknowledged block
        std::size_t channels{0}, rate{0};
        bool broken{false};      // a write was not fully acknowledged
        bool open_fault{false};
        std::uint64_t hard0{0};
        bool hard{false};        // a hard fault hit the disk while this recording was open
    };

    std::uint64_t hard_now() { return disk::hits.hard_write() + handles::failed(handles::sndfile); }

    template <typename T>
    void verify(const recording<T>& r) {
        const auto b = disk::get(r.path);
        auto d       = codec::decode<T>(r.path);
        event("verify %s acked=%zu bytes=%zu opened=%d decoded=%zu hard=%d", r.path.c_str(), r.acked.size(), b.size(),
              d.opened, d.samples.size(), r.hard);
        if (!r.hard) {
            const auto w = codec::parse(b);
            SIM_CHECK(w.ok, "unreadable", "%s: %s after a recording on a healthy disk", r.path.c_str(), w.why.c_str());
            SIM_CHECK(w.format == codec::kind<T>::format && w.bits == codec::kind<T>::bits, "wrong-format",
                      "format %d/%d bits, expected %d/%d", w.format, w.bits, codec::kind<T>::format,
                      codec::kind<T>::bits);
            SIM_CHECK(w.channels == static_cast<int>(r.channels), "wrong-channels", "%d channels, expected %zu", w.channels,
                      r.channels);
            SIM_CHECK(w.rate == static_cast<long>(r.rate), "wrong-rate", "rate %ld, expected %zu", w.rate, r.rate);
            SIM_CHECK(w.data.size() == w.data_bytes, "truncated-data", "%zu of %llu data bytes", w.data.size(),
                      static_cast<unsigned long long>(w.data_bytes));
            const auto n = w.data.size() / sizeof(T);
            SIM_CHECK(w.data.size() == r.acked.size() * sizeof(T), "wrong-length",
                      "%zu samples in the file, %zu acknowledged", n, r.acked.size());
            const auto i = codec::first_difference(reinterpret_cast<const T*>(w.data.data()), r.acked.data(), n);
            SIM_CHECK(i == n, "wrong-samples", "sample %zu of %zu differs", i, n);
            SIM_CHECK(d.opened && d.samples.size() == n && d.channels == w.channels && d.rate == w.rate, "decode",
                      "the codec reads %zu samples of %zu", d.samples.size(), n);
        } else if (d.opened && !r.offered.empty()) {
            count("probe.faulted-file-decoded");
            SIM_CHECK(d.channels == static_cast<int>(r.channels), "wrong-channels", "%d channels", d.channels);
            SIM_CHECK(d.rate == static_cast<int>(r.rate), "wrong-rate", "rate %d", d.rate);
            SIM_CHECK(d.samples.size() <= r.offered.size(), "forged-samples", "%zu samples decoded, %zu offered",
                      d.samples.size(), r.offered.size());
            const auto i = codec::first_difference(d.samples.data(), r.offered.data(), d.samples.size());
            SIM_CHECK(i == d.samples.size(), "wrong-samples", "sample %zu of %zu differs after a fault", i,
                      d.samples.size());
        }
        if (r.hard) {
            // what was acknowledged must have reached the disk, whatever the header says
            if (!r.acked.empty()) {
                const auto* want = reinterpret_cast<const std::uint8_t*>(r.acked.data());
                const auto it    = std::search(b.begin(), b.end(), want, want + r.acked.size() * sizeof(T));
                SIM_CHECK(it != b.end(), "acknowledged-lost", "%zu acknowledged samples are not in the file", r.acked.size());
            }
        }
    }

    template <typename T>
    struct driver {
        using encoder = edsp::io::encoder<T>;
        std::unique_ptr<encoder> enc;
        std::size_t channels{1}, rate{8000};
        bool open{false};
        recording<T> rec;
        std::map<std::string, bool> finished;
        int id{0};

        void make() {
            static const std::vector<std::size_t> rates{8000, 44100, 48000, 1, 11025, 96000, 192000, 22051};
            channels = 1 + draw(chance(100) ? 33 : 6);
            rate     = pick(rates);
            enc      = std::make_unique<encoder>(rate, channels);
            open     = false;
            event("enc%d new %s rate=%zu channels=%zu", id, codec::kind<T>::name, rate, channels);
            SIM_CHECK(!enc->is_open(), "is-open", "a new encoder reports an open file");
            check_attr();
        }
        void check_attr() {
            SIM_CHECK(enc->channels() == static_cast<std::ptrdiff_t>(channels), "attr-channels", "channels() = %td, expected %zu",
                      enc->channels(), channels);
            SIM_CHECK(enc->sample_rate() == static_cast<double>(rate), "attr-rate", "sample_rate() = %g, expected %zu",
                      enc->sample_rate(), rate);
        }
        void finish() { // the recording is closed now
            if (!open) {
                return;
            }
            open     = false;
            rec.hard = hard_now() != rec.hard0;
            verify(rec);
            disk::remove(rec.path);
        }
        void op() {
            const auto what = draw(10);
            switch (!open && what && draw(4) ? 0 : what) {
                case 0: { // open
                    const std::string path = "/sim/rec" + std::to_string(id) + "_" + std::to_string(draw(3)) + ".wav";
                    const auto h0          = hard_now();
                    event("enc%d open %s", id, path.c_str());
                    // opening closes the previous recording first
                    auto prev           = rec;
                    const bool had_prev = open;
                    if (had_prev && prev.path == path) {
                        open = false; // its content is about to be replaced
                    }
                    const bool ok = enc->open(path);
                    if (had_prev && prev.path != path) {
                        prev.hard = hard_now() != prev.hard0;
                        verify(prev);
                        disk::remove(prev.path);
                    }
                    const bool fault = hard_now() != h0;
                    SIM_CHECK(ok || fault, "open-failed", "open failed without a fault");
                    SIM_CHECK(ok == enc->is_open(), "is-open", "open returned %d, is_open() %d", ok, enc->is_open());
                    open = ok;
                    if (had_prev) {
                        count("probe.reopen");
                    }
                    if (ok) {
                        rec          = {};
                        rec.path     = path;
                        rec.channels = channels;
                        rec.rate     = rate;
                        rec.hard0    = h0;
                        check_attr();
                    }
                    break;
                }
                default: { // write
                    if (rec.broken && open) {
                        return close(); // the application stops a recording that failed
                    }
                    const auto frames = size_near(chance(50) ? 9000 : 900, {0, 1, 64, 256, 512, 1024, 4096});
                    auto n            = frames * channels;
                    const bool ragged = channels > 1 && chance(60);
                    if (ragged) { // part of a frame: may be refused, what is acknowledged still counts
                        n += 1 + draw(channels - 1);
                        count("probe.partial-frame");
                    }
                    std::vector<T> block(n ? n : 1);
                    for (std::size_t i = 0; i < n; ++i) {
                        block[i] = codec::sample<T>(counter++);
                    }
                    if constexpr (std::is_floating_point<T>::value) {
                        // full-scale, over-scale and tiny values are samples too
                        if (n && chance(150)) {
                            static const T sp[] = {T(1), T(-1), T(1.5), T(-2.25), T(0), T(1e-30), T(-0.0), T(1e4), T(-3e5), T(32768), T(1e30), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::max()};
                            block[draw(n)]      = sp[draw(13)];
                        }
                    }
                    const auto before = block;
                    const auto h0     = hard_now();
                    const auto r      = static_cast<std::ptrdiff_t>(n ? enc->write(block.begin(), block.begin() + static_cast<long>(n))
                                                                      : enc->write(block.begin(), block.begin()));
                    event("enc%d write %zu -> %td", id, n, r);
                    SIM_CHECK(codec::same_bits(before.data(), block.data(), n), "input-modified", "write changed its input");
                    if (!open) {
                        count("probe.write-closed");
                        SIM_CHECK(r <= 0, "closed-ack", "a closed encoder acknowledged %td samples", r);
                        return;
                    }
                    SIM_CHECK(r >= 0 && r <= static_cast<std::ptrdiff_t>(n), "ack-range", "%td of %zu acknowledged", r, n);
                    SIM_CHECK(r == static_cast<std::ptrdiff_t>(n) || hard_now() != rec.hard0 || ragged, "lost-write",
                              "%td of %zu samples acknowledged on a healthy disk", r, n);
                    rec.acked.insert(rec.acked.end(), block.begin(), block.begin() + r);
                    rec.offered = rec.acked;
                    rec.offered.insert(rec.offered.end(), block.begin() + r, block.begin() + static_cast<long>(n));
                    SIM_CHECK(!ragged || r % static_cast<std::ptrdiff_t>(channels) == 0 || hard_now() != rec.hard0, "lost-write",
                              "%td samples acknowledged with %zu channels", r, channels);
                    if (r != static_cast<std::ptrdiff_t>(n) && !(ragged && hard_now() == rec.hard0)) {
                        rec.broken = true;
                        count("probe.partial-ack");
                    }
                    (void) h0;
                    add_sim_time_ns(1e9 * static_cast<double>(frames) / static_cast<double>(rate));
                    cover(mix(mix(channels, frames < 3 ? frames : 3 + frames / 128), mix(codec::kind<T>::bits, rec.broken)));
                    break;
                }
                case 8:
                    close();
                    break;
                case 9:
                    if (chance(400)) {
                        event("enc%d destroy", id);
                        const bool was = open;
                        enc.reset();
                        if (was) {
                            finish();
                        }
                        make();
                    }
                    break;
            }
        }
        void close() {
            event("enc%d close", id);
            enc->close();
            SIM_CHECK(!enc->is_open(), "is-open", "is_open() after close");
            finish();
            if (chance(200)) {
                enc->close();
                SIM_CHECK(!enc->is_open(), "is-open", "is_open() after a second close");
                count("probe.double-close");
            }
            check_attr();
        }
    };

    template <typename T>
    void session() {
        std::vector<driver<T>> ds(1 + draw(2));
        for (std::size_t i = 0; i < ds.size(); ++i) {
            ds[i].id = static_cast<int>(i);
            ds[i].make();
        }
        while (more(25)) {
            span s;
            auto& d = ds[draw(ds.size())];
            d.op();
            advance_ns(1000000);
        }
        for (auto& d : ds) {
            if (coin()) {
                d.close();
                d.enc.reset();
            } else {
                event("enc%d destroy at end", d.id);
                d.enc.reset();
                d.finish();
            }
        }
        SIM_CHECK(disk::open_fds() == 0, "descriptor-leak", "%llu descriptors open at the end",
                  static_cast<unsigned long long>(disk::open_fds()));
        SIM_CHECK(disk::bad_fd_closes() == 0, "double-close", "a descriptor was closed twice");
    }
} // namespace

void prop_run() {
    codec::silence_cout();
    disk::reset();
    clock_.active  = true;
    clock_.wall_ns = 1500000000000000000ll;
    // Swarm: which faults exist in this run, and how often. The first draw 0 = healthy disk.
    const auto mode = draw(4);
    if (mode >= 1) { // transient: the results must not change at all
        if (coin()) disk::config.write_short = 100;
        if (coin()) disk::config.write_eintr = 100;
        if (coin()) disk::config.read_short = 100;
    }
    if (mode >= 2) {
        switch (draw(6)) {
            case 0: disk::config.write_eio = 1 + static_cast<unsigned>(draw(60)); break;
            case 1: disk::config.write_enospc = 1 + static_cast<unsigned>(draw(60)); break;
            case 2: disk::config.capacity = static_cast<std::int64_t>(draw(40000)); break;
            case 3: disk::config.open_fail = 250; break;
            case 4: disk::config.close_fail = 250; break;
            case 5: handles::fail_permille[handles::sndfile] = 250; break;
        }
    }
    event("mode %d", static_cast<int>(mode));
    switch (draw(4)) {
        case 0: session<float>(); break;
        case 1: session<double>(); break;
        case 2: session<std::int16_t>(); break;
        case 3: session<std::int32_t>(); break;
    }
    nontrivial();
}
