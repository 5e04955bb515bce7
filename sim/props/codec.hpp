// Shared by the audio-file properties: a model of recordings and an independent WAV reader.
#pragma once
#include "../core/disk.hpp"
#include "../core/handles.hpp"
#include "../core/quiet.hpp"
#include "../core/sim.hpp"
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include <cmath>
#include <limits>
#include <sndfile.h>
#include <sstream>
#include <iostream>

namespace codec {
    template <typename T>
    struct kind;
    template <>
    struct kind<float> {
        static constexpr const char* name = "float";
        static constexpr int format = 3, bits = 32, sf = SF_FORMAT_FLOAT;
    };
    template <>
    struct kind<double> {
        static constexpr const char* name = "double";
        static constexpr int format = 3, bits = 64, sf = SF_FORMAT_DOUBLE;
    };
    template <>
    struct kind<std::int32_t> {
        static constexpr const char* name = "int32";
        static constexpr int format = 1, bits = 32, sf = SF_FORMAT_PCM_32;
    };
    template <>
    struct kind<std::int16_t> {
        static constexpr const char* name = "int16";
        static constexpr int format = 1, bits = 16, sf = SF_FORMAT_PCM_16;
    };

    // Every sample of a run is unique as far as the type allows, so each is attributable to one write.
    template <typename T>
    T sample(std::uint64_t counter) {
        const std::uint64_t h = (counter + 1) * 0x9E3779B97F4A7C15ull;
        if (std::is_floating_point<T>::value) {
            // distinct, exactly representable values in (-1, 1)
            return static_cast<T>((static_cast<double>((counter * 7919 + 13) % 16777213) - 8388606.0) / 8388608.0);
        }
        return static_cast<T>(static_cast<std::int64_t>(h >> 17));
    }

    struct wav {
        bool ok{false};
        int format{0}, channels{0}, bits{0};
        long rate{0};
        std::uint64_t data_bytes{0}; // as the header says
        sim::disk::bytes data;       // bytes present
        std::string why;
    };
    // A plain RIFF/WAVE reader that shares no code with the library or its codec.
    inline wav parse(const sim::disk::bytes& b) {
        wav w;
        auto u16 = [&](std::size_t i) { return static_cast<unsigned>(b[i] | b[i + 1] << 8); };
        auto u32 = [&](std::size_t i) { return static_cast<std::uint64_t>(u16(i)) | static_cast<std::uint64_t>(u16(i + 2)) << 16; };
        if (b.size() < 12 || std::memcmp(b.data(), "RIFF", 4) != 0 || std::memcmp(b.data() + 8, "WAVE", 4) != 0) {
            w.why = "no RIFF/WAVE header";
            return w;
        }
        bool fmt = false;
        for (std::size_t at = 12; at + 8 <= b.size();) {
            const auto len = u32(at + 4);
            if (std::memcmp(b.data() + at, "fmt ", 4) == 0 && at + 24 <= b.size()) {
                w.format   = static_cast<int>(u16(at + 8));
                w.channels = static_cast<int>(u16(at + 10));
                w.rate     = static_cast<long>(u32(at + 12));
                w.bits     = static_cast<int>(u16(at + 22));
                fmt        = true;
            } else if (std::memcmp(b.data() + at, "data", 4) == 0) {
                w.data_bytes = len;
                const auto n = std::min<std::uint64_t>(len, b.size() - at - 8);
                w.data.assign(b.begin() + static_cast<long>(at + 8), b.begin() + static_cast<long>(at + 8 + n));
                w.ok = fmt;
                return w;
            }
            at += 8 + len + (len & 1);
        }
        w.why = "no data chunk";
        return w;
    }

    // Decodes a file of the simulated disk directly with the codec library, without faults.
    template <typename T>
    struct decoded {
        bool opened{false};
        bool seekable{true};
        int channels{0};
        int rate{0};
        std::int64_t frames{0};
        std::vector<T> samples;
    };
    inline sf_count_t rd(SNDFILE* f, float* p, sf_count_t n) { return sf_read_float(f, p, n); }
    inline sf_count_t rd(SNDFILE* f, double* p, sf_count_t n) { return sf_read_double(f, p, n); }
    inline sf_count_t rd(SNDFILE* f, int* p, sf_count_t n) { return sf_read_int(f, p, n); }
    inline sf_count_t rd(SNDFILE* f, short* p, sf_count_t n) { return sf_read_short(f, p, n); }

    struct quiet_disk { // no faults while the oracle looks
        sim::disk::fault_config keep{sim::disk::config};
        bool log{sim::disk::log_ops};
        unsigned h0{sim::handles::fail_permille[0]}, c0{sim::handles::close_error_permille};
        quiet_disk() {
            sim::disk::config                = {};
            sim::disk::log_ops               = false;
            sim::handles::fail_permille[0]   = 0;
            sim::handles::close_error_permille = 0;
        }
        ~quiet_disk() {
            sim::disk::config                = keep;
            sim::disk::log_ops               = log;
            sim::handles::fail_permille[0]   = h0;
            sim::handles::close_error_permille = c0;
        }
    };
    template <typename T>
    decoded<T> decode(const std::string& path) {
        quiet_disk q;
        decoded<T> d;
        SF_INFO info{};
        SNDFILE* f = sf_open(path.c_str(), SFM_READ, &info);
        if (!f) {
            return d;
        }
        d.opened   = true;
        d.seekable = info.seekable != 0;
        d.channels = info.channels;
        d.rate     = info.samplerate;
        d.frames   = info.frames;
        std::vector<T> buf(static_cast<std::size_t>(info.channels) * 256);
        for (;;) {
            const auto n = rd(f, buf.data(), static_cast<sf_count_t>(buf.size()));
            if (n <= 0) {
                break;
            }
            d.samples.insert(d.samples.end(), buf.begin(), buf.begin() + n);
        }
        sf_close(f);
        return d;
    }
    template <typename T>
    sim::disk::bytes make_file(const std::vector<T>& samples, int channels, int rate, int major = SF_FORMAT_WAV) {
        quiet_disk q;
        SF_INFO info{};
        info.channels   = channels;
        info.samplerate = rate;
        info.format     = major | kind<T>::sf;
        SNDFILE* f      = sf_open("/sim/.make", SFM_WRITE, &info);
        if (!f) {
            sim::harness_error("cannot make a file: %s", sf_strerror(nullptr));
        }
        sf_count_t n = 0;
        const auto len = static_cast<sf_count_t>(samples.size());
        if (len) {
            if constexpr (std::is_same<T, float>::value) n = sf_write_float(f, samples.data(), len);
            if constexpr (std::is_same<T, double>::value) n = sf_write_double(f, samples.data(), len);
            if constexpr (std::is_same<T, std::int32_t>::value) n = sf_write_int(f, samples.data(), len);
            if constexpr (std::is_same<T, std::int16_t>::value) n = sf_write_short(f, samples.data(), len);
        }
        if (n != len) {
            sim::harness_error("short write while making a file");
        }
        sf_close(f);
        auto b = sim::disk::get("/sim/.make");
        sim::disk::remove("/sim/.make");
        return b;
    }
    template <typename T>
    bool same_bits(const T* a, const T* b, std::size_t n) {
        return n == 0 || std::memcmp(a, b, n * sizeof(T)) == 0;
    }
    template <typename T>
    std::size_t first_difference(const T* a, const T* b, std::size_t n) {
        for (std::size_t i = 0; i < n; ++i) {
            if (std::memcmp(a + i, b + i, sizeof(T)) != 0) {
                return i;
            }
        }
        return n;
    }

    using sim::silence_cout;
} // namespace codec
