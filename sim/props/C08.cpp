// C08: streaming resampling conserves samples and is independent of other streams.
// Every stream is mirrored by a bare converter of the underlying library that is fed the same blocks.
#include "codec.hpp"
#include <edsp/io/resampler.hpp>
#include <samplerate.h>
const char* const prop_id = "C08";
using namespace sim;

namespace {
    using T = float;
    struct quiet {
        unsigned p{handles::process_fail_permille}, c{handles::fail_permille[handles::converter]};
        quiet() { handles::process_fail_permille = handles::fail_permille[handles::converter] = 0; }
        ~quiet() {
            handles::process_fail_permille              = p;
            handles::fail_permille[handles::converter] = c;
        }
    };
    std::uint64_t injected = 0; // src_process failures so far, read back from the statistics seam

    struct stream {
        int id{0};
        std::unique_ptr<edsp::io::resampler<T>> r;
        SRC_STATE* mirror{nullptr};
        int quality{0};
        long channels{1};
        double ratio{1};
        bool dead{false}; // no converter could be created
        std::vector<T> pending;
        std::uint64_t fed{0}, consumed{0}, produced{0};

        stream(int i) : id(i) {
            static const double special[] = {1.0, 2.0, 0.5, 44100.0 / 48000.0, 48000.0 / 44100.0, 1.0 / 3.0, 10.0, 0.1, 1.0 / 256.0, 256.0};
            quality  = static_cast<int>(draw(5));
            channels = static_cast<long>(1 + draw(chance(100) ? 12 : 4));
            switch (draw(4)) {
                case 0: ratio = 1.0; break;
                case 1: ratio = special[draw(8)]; break;
                case 2: ratio = real(0.2, 5.0); break;
                case 3: ratio = chance(300) ? special[8 + draw(2)] : real(0.9, 1.1); break;
            }
            if (chance(40)) {
                static const double bad[] = {0.001, 300.0, 0.0, -1.0};
                ratio                     = bad[draw(4)];
            }
            ratio         = static_cast<T>(ratio);
            const auto f0 = handles::failed(handles::converter);
            r.reset(new edsp::io::resampler<T>(channels, static_cast<edsp::io::resample_quality>(quality), static_cast<T>(ratio)));
            dead = handles::failed(handles::converter) != f0;
            event("stream%d new quality=%d channels=%ld ratio=%.9g%s", id, quality, channels, ratio, dead ? " no converter" : "");
            SIM_CHECK(dead == (r->error() != 0), "error", "error() = %d after construction", r->error());
            make_mirror();
            check_attributes();
        }
        ~stream() {
            if (mirror) {
                src_delete(mirror);
            }
        }
        stream(const stream&) = delete;
        void make_mirror() {
            quiet q;
            if (mirror) {
                src_delete(mirror);
            }
            int e  = 0;
            mirror = dead ? nullptr : src_new(quality, static_cast<int>(channels), &e);
        }
        void check_attributes() {
            SIM_CHECK(r->ratio() == static_cast<T>(ratio), "attr-ratio", "ratio() = %g, expected %g", r->ratio(), ratio);
            SIM_CHECK(r->channels() == channels, "attr-channels", "channels() = %ld, expected %ld", r->channels(), channels);
            SIM_CHECK(static_cast<int>(r->quality()) == quality, "attr-quality", "quality() = %d, expected %d", static_cast<int>(r->quality()), quality);
            const auto s = r->error_string();
            const char* e = src_strerror(r->error());
            SIM_CHECK(e && std::string(s.data(), s.size()) == e, "error-string", "error_string() is not that of error %d", r->error());
        }
        T next() { return static_cast<T>(0.9 * std::sin(0.05 * static_cast<double>(fed * (1 + static_cast<unsigned>(id))) ) + 0.01 * static_cast<double>((fed * 31) % 17) * (fed++ % 3 ? 1 : -1)); }

        void process() {
            // a block: what the last call did not consume, then new samples
            auto frames = size_near(quality <= 1 ? 300 : 700, {0, 1, 2, 64, 256});
            if (chance(20)) { // a long block, as far as the converter is fast enough
                const auto most = static_cast<double>(quality >= 3 ? 400000 : 12000) / (static_cast<double>(channels) * std::max(1.0, ratio));
                frames          = large_size(static_cast<std::size_t>(std::clamp(most, 1.0, 67000.0)));
            }
            while (pending.size() < frames * static_cast<std::size_t>(channels)) {
                pending.push_back(next());
            }
            auto n = pending.size();
            if (chance(80) && n) {
                n -= draw(std::min<std::size_t>(n, static_cast<std::size_t>(channels))); // part of a frame
            }
            const long in_frames  = static_cast<long>(n) / channels;
            const long cap        = ratio > 0 && ratio < 257 ? static_cast<long>(ratio * static_cast<double>(in_frames)) : 0;
            const bool overlap    = chance(30) && n > 0;
            constexpr std::size_t pad = 16;
            std::vector<T> buf(pad + static_cast<std::size_t>(cap * channels) + pad + (overlap ? n + pad : 0), T(-77.25));
            // libsamplerate's linear converter reads the frame before a one-frame block: same padding on both sides
            std::vector<T> in(pad, T(11.5));
            in.insert(in.end(), pending.begin(), pending.begin() + static_cast<long>(n));
            in.insert(in.end(), pad, T(55.5));
            auto mbuf = buf, min = in;
            T *first = in.data() + pad, *out = buf.data() + pad, *mfirst = min.data() + pad, *mout = mbuf.data() + pad;
            if (overlap) { // the output range overlaps the input range
                std::copy(in.begin() + pad, in.begin() + pad + static_cast<long>(n), buf.begin() + pad);
                mbuf   = buf;
                first  = buf.data() + pad;
                mfirst = mbuf.data() + pad;
                count("fault.overlapping-buffers");
            }
            const auto before = in;
            const auto i0     = injected;
            handles::process_failures_hook = [](){ ++injected; };
            const auto got    = r->process(first, first + n, out);
            handles::process_failures_hook = nullptr;
            const bool hit    = injected != i0;
            event("stream%d process %zu samples (%ld frames) -> %ld consumed, %ld produced, error %d", id, n, in_frames, got.first, got.second, r->error());
            check_attributes();
            if (dead) {
                SIM_CHECK(got.first == 0 && got.second == 0, "dead-counts", "a stream without converter consumed %ld and produced %ld", got.first, got.second);
                SIM_CHECK(r->error() != 0, "dead-error", "a stream without converter reports no error");
                SIM_CHECK(codec::same_bits(buf.data(), mbuf.data(), buf.size()), "wrote", "a stream without converter wrote to the output");
                pending.clear();
                return;
            }
            if (hit) {
                SIM_CHECK(r->error() != 0, "no-error", "the converter failed, error() is 0");
                SIM_CHECK(got.first == 0 && got.second == 0, "error-counts", "a failed call reports %ld consumed and %ld produced", got.first, got.second);
                SIM_CHECK(codec::same_bits(buf.data(), mbuf.data(), buf.size()), "wrote", "a failed call wrote to the output");
                return; // the block stays pending
            }
            SRC_DATA d{};
            d.data_in       = mfirst;
            d.data_out      = mout;
            d.input_frames  = in_frames;
            d.output_frames = cap;
            d.src_ratio     = ratio;
            int e           = 0;
            {
                quiet q;
                e = src_process(mirror, &d);
            }
            SIM_CHECK(r->error() == e, "error", "error() = %d, the converter says %d", r->error(), e);
            if (e != 0) {
                count("probe.rejected");
                SIM_CHECK(got.first == 0 && got.second == 0, "error-counts", "a rejected call reports %ld consumed and %ld produced", got.first, got.second);
                SIM_CHECK(codec::same_bits(buf.data(), mbuf.data(), buf.size()), "wrote", "a rejected call wrote to the output");
                pending.clear();
                return;
            }
            SIM_CHECK(got.first >= 0 && got.first <= in_frames, "consumed", "%ld frames consumed of %ld given", got.first, in_frames);
            SIM_CHECK(got.second >= 0 && static_cast<double>(got.second) <= ratio * static_cast<double>(in_frames), "produced",
                      "%ld frames produced from %ld with ratio %g", got.second, in_frames, ratio);
            SIM_CHECK(got.first == d.input_frames_used, "consumed", "%ld frames consumed, the converter consumes %ld", got.first, d.input_frames_used);
            SIM_CHECK(got.second == d.output_frames_gen, "produced", "%ld frames produced, the converter produces %ld", got.second, d.output_frames_gen);
            if (!overlap) {
                SIM_CHECK(codec::same_bits(before.data(), in.data(), in.size()), "input-modified", "process changed its input");
            }
            const auto i = codec::first_difference(buf.data(), mbuf.data(), buf.size());
            SIM_CHECK(i == buf.size(), "samples", "output sample %lld of %ld differs from the converter's", static_cast<long long>(i) - static_cast<long long>(pad),
                      got.second * channels);
            consumed += static_cast<std::uint64_t>(got.first);
            produced += static_cast<std::uint64_t>(got.second);
            const auto used = static_cast<std::size_t>(got.first * channels);
            if (chance(100)) { // the application drops what was not consumed
                pending.clear();
                count("probe.dropped");
            } else {
                pending.erase(pending.begin(), pending.begin() + static_cast<long>(std::min(used, pending.size())));
                if (!pending.empty()) {
                    count("probe.partially-consumed");
                }
            }
            add_sim_time_ns(1e9 * static_cast<double>(got.first) / 48000.0);
            cover(mix(mix(static_cast<std::uint64_t>(quality), static_cast<std::uint64_t>(channels)),
                      mix(got.first == in_frames, mix(ratio > 1 ? 2 : ratio < 1, got.second == cap))));
        }
        void reset() {
            const auto e = r->reset();
            event("stream%d reset -> %d", id, e);
            SIM_CHECK(dead || e == 0, "reset", "reset() returned %d", e);
            SIM_CHECK(e == r->error(), "reset", "reset() returned %d, error() is %d", e, r->error());
            make_mirror(); // a reset stream behaves as a new one
            pending.clear();
        }
    };
} // namespace

void prop_run() {
    codec::silence_cout();
    const auto mode = draw(3);
    if (mode >= 1) {
        if (coin()) handles::process_fail_permille = 80;
        if (coin()) handles::fail_permille[handles::converter] = 150;
    }
    event("mode %d", static_cast<int>(mode));
    static const float ratios[] = {0.001f, 1.f / 256, 0.00390626f, 1.f, 256.f, 256.1f, 0.f, -1.f, 1e9f};
    for (float r : ratios) {
        SIM_CHECK(edsp::io::resampler<T>::valid_ratio(r) == (src_is_valid_ratio(r) != 0), "valid-ratio", "valid_ratio(%g)", r);
    }
    std::vector<std::unique_ptr<stream>> ss;
    int next = 0;
    while (more(40)) {
        span s;
        advance_ns(1000000);
        const auto what = draw(12);
        if (ss.empty() || (what == 0 && ss.size() < 4)) {
            ss.emplace_back(new stream(next++));
        } else if (what == 1) {
            const auto i = draw(ss.size());
            event("stream%d destroy", ss[i]->id);
            ss.erase(ss.begin() + static_cast<long>(i));
        } else if (what == 2) {
            ss[draw(ss.size())]->reset();
        } else {
            ss[draw(ss.size())]->process();
        }
        if (ss.size() > 1) {
            count("probe.interleaved-streams");
        }
    }
    ss.clear();
    SIM_CHECK(handles::live(handles::converter) == 0, "leak", "converters live at the end");
    nontrivial();
}
