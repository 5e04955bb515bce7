// C09: metadata readers report the stored tags or nothing, and survive every file.
// The tagged files are assembled byte by byte here; damaged files are compared with the tag library itself.
#include "codec.hpp"
#include <edsp/io/metadata.hpp>
#include <taglib/fileref.h>
#include <taglib/tag.h>
#include <taglib/tdebuglistener.h>
const char* const prop_id = "C09";
using namespace sim;
using disk::bytes;

namespace {
    struct fields {
        std::string title, artist, album, genre;
        std::size_t track{0}, year{0};
        bool operator==(const fields& o) const {
            return title == o.title && artist == o.artist && album == o.album && genre == o.genre && track == o.track && year == o.year;
        }
    };
    std::string hex(const std::string& s) {
        std::string r;
        char b[8];
        for (unsigned char c : s) {
            if (c >= 32 && c < 127) {
                r += static_cast<char>(c);
            } else {
                std::snprintf(b, sizeof b, "\\x%02x", c);
                r += b;
            }
        }
        return r.size() > 60 ? r.substr(0, 60) + "..." : r;
    }
    std::string show(const fields& f) {
        return "[" + hex(f.title) + "|" + hex(f.artist) + "|" + hex(f.album) + "|" + hex(f.genre) + "|" + std::to_string(f.track) + "|" + std::to_string(f.year) + "]";
    }

    // ---- text: code points, so that each container can encode them its own way --------------
    using text = std::vector<std::uint32_t>;
    std::string utf8(const text& t) {
        std::string s;
        for (auto c : t) {
            if (c < 0x80) {
                s += static_cast<char>(c);
            } else if (c < 0x800) {
                s += static_cast<char>(0xC0 | c >> 6);
                s += static_cast<char>(0x80 | (c & 63));
            } else {
                s += static_cast<char>(0xE0 | c >> 12);
                s += static_cast<char>(0x80 | (c >> 6 & 63));
                s += static_cast<char>(0x80 | (c & 63));
            }
        }
        return s;
    }
    text any_text(unsigned kind, std::size_t max) { // kind 0 ASCII, 1 Latin-1, 2 all of the BMP used, 3 and spaces at the ends
        text t;
        static const std::size_t longs[] = {61, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 600, 1023, 1024, 1025, 2000, 4096, 5000};
        const auto n = chance(120) ? 0 : max > 30 && chance(60) ? longs[draw(19)] : 1 + size_near(max - 1, {0, 1, 27, 29, 59});
        for (std::size_t i = 0; i < n; ++i) {
            std::uint32_t c = 'a' + static_cast<std::uint32_t>(draw(26));
            const auto k    = draw(8);
            if (k == 1) c = "'\"\\%$ .-_&;,<>()[]|#"[draw(20)];
            if (k == 2) c = 'A' + static_cast<std::uint32_t>(draw(26));
            if (k == 3 && kind >= 1) c = 0xC0 + static_cast<std::uint32_t>(draw(0x17));
            if (k >= 4 && k < 7 && kind >= 2) c = (draw(2) ? 0x3B1 : 0x4E00) + static_cast<std::uint32_t>(draw(24));
            if ((i == 0 || i + 1 == n) && c == ' ' && kind < 3) c = 'x'; // padding is not part of a tag
            if ((i == 0 || i + 1 == n) && kind == 3 && chance(60)) c = ' ';
            t.push_back(c);
        }
        return t;
    }

    void le32(bytes& b, std::uint32_t v) {
        for (int i = 0; i < 4; ++i) b.push_back(static_cast<std::uint8_t>(v >> 8 * i));
    }
    void be32(bytes& b, std::uint32_t v) {
        for (int i = 3; i >= 0; --i) b.push_back(static_cast<std::uint8_t>(v >> 8 * i));
    }
    void synchsafe(bytes& b, std::uint32_t v) {
        for (int i = 3; i >= 0; --i) b.push_back(static_cast<std::uint8_t>(v >> 7 * i & 127));
    }
    void str(bytes& b, const std::string& s) { b.insert(b.end(), s.begin(), s.end()); }
    void add(bytes& b, const bytes& o) { b.insert(b.end(), o.begin(), o.end()); }

    struct content {
        text title, artist, album, genre;
        unsigned track{0}, year{0};
        fields want() const {
            return {utf8(title), utf8(artist), utf8(album), utf8(genre), track, year};
        }
    };
    content any_content(unsigned kind, std::size_t max) {
        content c;
        c.title  = any_text(kind, max);
        c.artist = any_text(kind, max);
        c.album  = any_text(kind, max);
        c.genre  = any_text(std::min(kind, 2u), max);
        if (!c.genre.empty()) {
            c.genre[0] = 'G'; // numbers and references have a meaning of their own there
            for (auto& g : c.genre) {
                if ((g < 'A' && g != '(' && g != ')' && g != ' ') || g == '\\') g = 'g';
            }
            if (kind == 3 && c.genre.size() > 1 && chance(60)) c.genre.back() = ' ';
        }
        c.track = chance(200) ? 0 : 1 + static_cast<unsigned>(draw(max > 30 && chance(200) ? 70000 : 255));
        c.year  = chance(200) ? 0 : 1000 + static_cast<unsigned>(draw(9000));
        return c;
    }

    bytes id3v2(const content& c, int version, bool empty_tag = false) { // 3 or 4
        bytes frames;
        auto frame = [&](const char* id, const text& t, int enc) {
            if (t.empty()) {
                return;
            }
            bytes body;
            body.push_back(static_cast<std::uint8_t>(enc));
            if (enc == 0) {
                for (auto cp : t) body.push_back(static_cast<std::uint8_t>(cp));
            } else if (enc == 1) {
                body.push_back(0xFF);
                body.push_back(0xFE);
                for (auto cp : t) {
                    body.push_back(static_cast<std::uint8_t>(cp));
                    body.push_back(static_cast<std::uint8_t>(cp >> 8));
                }
            } else {
                str(body, utf8(t));
            }
            str(frames, id);
            if (version == 4) {
                synchsafe(frames, static_cast<std::uint32_t>(body.size()));
            } else {
                be32(frames, static_cast<std::uint32_t>(body.size()));
            }
            frames.push_back(0);
            frames.push_back(0);
            add(frames, body);
        };
        auto latin = [](const text& t) {
            for (auto cp : t) {
                if (cp > 255) return false;
            }
            return true;
        };
        auto enc = [&](const text& t) { return latin(t) && draw(2) ? 0 : version == 4 ? (draw(2) ? 3 : 1) : 1; };
        auto num = [](unsigned n) {
            text t;
            for (char ch : std::to_string(n)) t.push_back(static_cast<std::uint32_t>(ch));
            return t;
        };
        if (!empty_tag) {
            frame("TIT2", c.title, enc(c.title));
            frame("TPE1", c.artist, enc(c.artist));
            frame("TALB", c.album, enc(c.album));
            frame("TCON", c.genre, enc(c.genre));
            if (c.track) {
                auto t = num(c.track);
                if (chance(300)) { // "track/total"
                    t.push_back('/');
                    for (auto d : num(c.track + 3)) t.push_back(d);
                }
                frame("TRCK", t, 0);
            }
            if (c.year) frame(version == 4 ? "TDRC" : "TYER", num(c.year), 0);
        }
        for (std::size_t i = 0, pad = 16 + draw(64); i < pad; ++i) frames.push_back(0);
        bytes b;
        str(b, "ID3");
        b.push_back(static_cast<std::uint8_t>(version));
        b.push_back(0);
        b.push_back(0);
        synchsafe(b, static_cast<std::uint32_t>(frames.size()));
        add(b, frames);
        return b;
    }
    bytes id3v1(const content& c) {
        bytes b;
        auto put = [&](const text& t, std::size_t n) {
            for (std::size_t i = 0; i < n; ++i) b.push_back(i < t.size() ? static_cast<std::uint8_t>(t[i]) : 0);
        };
        str(b, "TAG");
        put(c.title, 30);
        put(c.artist, 30);
        put(c.album, 30);
        text y;
        if (c.year) {
            for (char ch : std::to_string(c.year)) y.push_back(static_cast<std::uint32_t>(ch));
        }
        put(y, 4);
        put({}, 28);
        b.push_back(0);
        b.push_back(static_cast<std::uint8_t>(c.track));
        b.push_back(c.genre.empty() ? 255 : 17);
        return b;
    }
    bytes mpeg_frames(int n) {
        bytes b;
        for (int i = 0; i < n; ++i) { // MPEG 1 layer III, 128 kbit/s, 44.1 kHz: 417 bytes
            const std::uint8_t h[4] = {0xFF, 0xFB, 0x90, 0x00};
            b.insert(b.end(), h, h + 4);
            b.insert(b.end(), 413, 0);
        }
        return b;
    }
    bytes vorbis_comment(const content& c) {
        bytes b;
        le32(b, 3);
        str(b, "sim");
        std::vector<std::string> e;
        if (!c.title.empty()) e.push_back("TITLE=" + utf8(c.title));
        if (!c.artist.empty()) e.push_back("ARTIST=" + utf8(c.artist));
        if (!c.album.empty()) e.push_back("ALBUM=" + utf8(c.album));
        if (!c.genre.empty()) e.push_back("GENRE=" + utf8(c.genre));
        if (c.track) e.push_back((draw(2) ? "TRACKNUMBER=" : "tracknumber=") + std::to_string(c.track));
        if (c.year) e.push_back("DATE=" + std::to_string(c.year));
        if (chance(300)) e.push_back("COMMENT=none");
        le32(b, static_cast<std::uint32_t>(e.size()));
        for (auto& s : e) {
            le32(b, static_cast<std::uint32_t>(s.size()));
            str(b, s);
        }
        return b;
    }
    bytes flac(const content& c, bool comment) {
        bytes b;
        str(b, "fLaC");
        b.push_back(0); // STREAMINFO
        const std::uint8_t l[3] = {0, 0, 34};
        b.insert(b.end(), l, l + 3);
        const std::uint8_t si[34] = {0x10, 0, 0x10, 0, 0, 0, 0, 0, 0, 0, 0x0A, 0xC4, 0x42, 0xF0};
        b.insert(b.end(), si, si + 34);
        if (comment) {
            const auto vc = vorbis_comment(c);
            b.push_back(4);
            b.push_back(static_cast<std::uint8_t>(vc.size() >> 16));
            b.push_back(static_cast<std::uint8_t>(vc.size() >> 8));
            b.push_back(static_cast<std::uint8_t>(vc.size()));
            add(b, vc);
        }
        b.push_back(0x81); // last block: padding
        b.push_back(0);
        b.push_back(0);
        b.push_back(32);
        b.insert(b.end(), 32, 0);
        b.push_back(0xFF);
        b.push_back(0xF8);
        b.insert(b.end(), 60, 0x11);
        return b;
    }
    bytes riff(const content& c, bool id3) {
        bytes body;
        str(body, "WAVEfmt ");
        le32(body, 16);
        const std::uint8_t f[16] = {1, 0, 1, 0, 0x44, 0xAC, 0, 0, 0x88, 0x58, 1, 0, 2, 0, 16, 0};
        body.insert(body.end(), f, f + 16);
        str(body, "data");
        le32(body, 64);
        body.insert(body.end(), 64, 7);
        auto chunk = [&](const char* id, const bytes& d) {
            str(body, id);
            le32(body, static_cast<std::uint32_t>(d.size()));
            add(body, d);
            if (d.size() & 1) body.push_back(0);
        };
        if (id3) {
            chunk("ID3 ", id3v2(c, draw(2) ? 4 : 3));
        } else {
            bytes info;
            str(info, "INFO");
            auto item = [&](const char* id, const std::string& s) {
                if (s.empty()) return;
                str(info, id);
                le32(info, static_cast<std::uint32_t>(s.size() + 1));
                str(info, s);
                info.push_back(0);
                if ((s.size() + 1) & 1) info.push_back(0);
            };
            item("INAM", utf8(c.title));
            item("IART", utf8(c.artist));
            item("IPRD", utf8(c.album));
            item("IGNR", utf8(c.genre));
            if (c.track) item("IPRT", std::to_string(c.track));
            if (c.year) item("ICRD", std::to_string(c.year));
            chunk("LIST", info);
        }
        bytes b;
        str(b, "RIFF");
        le32(b, static_cast<std::uint32_t>(body.size()));
        add(b, body);
        return b;
    }
    bytes aiff(const content& c) {
        bytes body;
        str(body, "AIFFCOMM");
        be32(body, 18);
        const std::uint8_t f[18] = {0, 1, 0, 0, 0, 32, 0, 16, 0x40, 0x0E, 0xAC, 0x44, 0, 0, 0, 0, 0, 0};
        body.insert(body.end(), f, f + 18);
        str(body, "SSND");
        be32(body, 72);
        body.insert(body.end(), 72, 0);
        const auto t = id3v2(c, draw(2) ? 4 : 3);
        str(body, "ID3 ");
        be32(body, static_cast<std::uint32_t>(t.size()));
        add(body, t);
        if (t.size() & 1) body.push_back(0);
        bytes b;
        str(b, "FORM");
        be32(b, static_cast<std::uint32_t>(body.size()));
        add(b, body);
        return b;
    }

    struct file {
        std::string path;
        bool known{false}; // the stored tags are known exactly
        fields want;
        bool exists{true};
    };

    const char* const damage_names[] = {"intact", "truncated", "bytes changed", "noise", "empty", "missing"};
    file make_file(int id) {
        static const char* const dirs[] = {"/sim/", "/sim/a b/", "/sim/\xC3\xA9t\xC3\xA9/"};
        file f;
        bytes b;
        content c;
        std::string ext;
        bool tagged     = true;
        const auto type = draw(9);
        switch (type) {
            case 0: c = any_content(3, 60); b = id3v2(c, 4); add(b, mpeg_frames(4)); ext = "mp3"; break;
            case 1: c = any_content(3, 60); b = id3v2(c, 3); add(b, mpeg_frames(4)); ext = draw(2) ? "mp3" : "MP3"; break;
            case 2:
                c = any_content(1, 28);
                b = mpeg_frames(6);
                add(b, id3v1(c));
                ext = "mp3";
                break;
            case 3: c = any_content(3, 60); b = flac(c, true); ext = "flac"; break;
            case 4: c = any_content(2, 60); b = riff(c, false); ext = "wav"; break;
            case 5: c = any_content(2, 60); b = riff(c, true); ext = "wav"; break;
            case 6: c = any_content(3, 60); b = aiff(c); ext = draw(2) ? "aiff" : "aif"; break;
            case 7: // no tag at all
                tagged = false;
                switch (draw(4)) {
                    case 0: b = mpeg_frames(4); ext = "mp3"; break;
                    case 1: b = flac(c, false); ext = "flac"; break;
                    case 2: b = id3v2(c, 4, true); add(b, mpeg_frames(3)); ext = "mp3"; break;
                    case 3: b = codec::make_file<std::int16_t>({1, 2, 3, 4}, 1, 8000); ext = "wav"; break;
                }
                break;
            case 8: // not an audio file
                tagged = false;
                str(b, "This is not an audio file.\n");
                ext = std::vector<std::string>{"txt", "mp3", "flac", "ogg", "m4a", "wma", "it", "mod", "opus", "ape", "mpc", "wv", "tta", "", "xm", "s3m", "spx"}[draw(17)];
                break;
        }
        f.want = c.want();
        if (type == 2 && !c.genre.empty()) {
            f.want.genre = "Rock";
        }
        if (!tagged) {
            f.want = {};
        }
        f.known           = type != 4 && (type != 8 || ext == "txt" || ext == "mp3"); // the tag library's common interface leaves INFO chunks out
        const auto damage = draw(4) ? 0 : 1 + draw(5);
        switch (damage) {
            case 0: break;
            case 1: b.resize(draw(b.size())); f.known = false; break;
            case 2:
                for (std::size_t i = 0, n = 1 + draw(12); i < n; ++i) {
                    b[draw(chance(600) ? std::min<std::size_t>(b.size(), 128) : b.size())] = static_cast<std::uint8_t>(draw(256));
                }
                f.known = false;
                break;
            case 3:
                for (auto& x : b) x = static_cast<std::uint8_t>(draw(256));
                f.known = false;
                break;
            case 4: b.clear(); f.known = true; f.want = {}; break;
            case 5: f.exists = false; f.known = true; f.want = {}; break;
        }
        f.path = std::string(dirs[draw(3)]) + "song" + std::to_string(id) + (ext.empty() ? "" : "." + ext);
        event("file %s type %d, %zu bytes, %s", f.path.c_str(), static_cast<int>(type), b.size(), damage_names[damage]);
        count(damage ? "probe.damaged-file" : "probe.intact-file");
        if (f.exists) {
            disk::put(f.path, b);
        }
        if (!f.known) { // what the tag library makes of these bytes
            f.want = {};
            codec::quiet_disk q;
            TagLib::FileRef ref(f.path.c_str());
            if (auto* t = ref.tag()) {
                f.want = {t->title().to8Bit(true), t->artist().to8Bit(true), t->album().to8Bit(true), t->genre().to8Bit(true), t->track(), t->year()};
            }
        }
        cover(mix(type, damage));
        return f;
    }

    fields ask(const edsp::io::metadata& m) {
        fields f;
        switch (draw(3)) { // the order of the questions does not matter
            case 0:
                f.title = m.title(); f.artist = m.artist(); f.album = m.album(); f.genre = m.genre(); f.track = m.track(); f.year = m.year();
                break;
            case 1:
                f.year = m.year(); f.track = m.track(); f.genre = m.genre(); f.album = m.album(); f.artist = m.artist(); f.title = m.title();
                break;
            case 2:
                f.genre = m.genre(); f.title = m.title(); f.year = m.year(); f.album = m.album(); f.artist = m.artist(); f.track = m.track();
                (void) m.title();
                break;
        }
        return f;
    }

    struct reader {
        std::unique_ptr<edsp::io::metadata> m;
        std::string path;
        fields want;
        int id;
    };
    struct quiet_listener : TagLib::DebugListener {
        void printMessage(const TagLib::String&) override {}
    };
} // namespace

void prop_run() {
    codec::silence_cout();
    static quiet_listener ql;
    TagLib::setDebugListener(&ql);
    disk::reset();
    const auto mode = draw(3);
    auto faults     = [&](bool on) {
        disk::config = {};
        if (on) {
            switch (draw(4)) {
                case 0: disk::config.read_eio = 150; break;
                case 1: disk::config.open_fail = 400; break;
                case 2: disk::config.seek_fail = 100; break;
                case 3: disk::config.read_eio = 20; disk::config.seek_fail = 10; break;
            }
        }
        if (mode >= 1) {
            disk::config.read_short = 100;
        }
    };
    event("mode %d", static_cast<int>(mode));
    std::vector<file> files;
    int serial = 0;
    for (std::size_t i = 0, n = 1 + draw(4); i < n; ++i) {
        files.push_back(make_file(serial++));
    }
    std::vector<reader> rs;
    int next = 0;
    while (more(25)) {
        span s;
        const auto what = draw(10);
        if (rs.empty() || what <= 2) {
            auto& f          = files[draw(files.size())];
            const bool fault = mode == 2 && coin();
            faults(fault);
            const auto h0 = disk::hits.hard_read();
            reader r;
            r.id   = next++;
            r.path = f.path;
            r.m.reset(new edsp::io::metadata(f.path));
            faults(false);
            const bool hit = disk::hits.hard_read() != h0;
            event("reader%d of %s%s", r.id, f.path.c_str(), hit ? ", faults met" : "");
            r.want = ask(*r.m);
            if (!hit) { // short reads are not faults: everything is still read
                SIM_CHECK(r.want == f.want, f.known ? "stored-tags" : "library-tags", "%s: reported %s, stored %s", f.path.c_str(), show(r.want).c_str(), show(f.want).c_str());
            } else {
                count("probe.read-with-faults");
            }
            rs.push_back(std::move(r));
            if (rs.size() > 6) {
                rs.erase(rs.begin());
            }
        } else if (what == 3) {
            const auto i = draw(rs.size());
            event("reader%d destroyed", rs[i].id);
            rs.erase(rs.begin() + static_cast<long>(i));
        } else if (what == 4) { // a copy outlives its origin
            auto& r = rs[draw(rs.size())];
            event("reader%d copied", r.id);
            std::unique_ptr<edsp::io::metadata> c(new edsp::io::metadata(*r.m));
            r.m = std::move(c);
            count("probe.copy");
        } else if (what == 5) { // the file changes under its readers
            auto& f = files[draw(files.size())];
            auto* b = disk::ref(f.path);
            if (b) {
                codec::quiet_disk q;
                switch (draw(3)) {
                    case 0: b->resize(b->size() / 2); break;
                    case 1:
                        for (auto& x : *b) x = static_cast<std::uint8_t>(x ^ 0x55);
                        break;
                    case 2: disk::remove(f.path); break;
                }
                event("%s changed", f.path.c_str());
                count("fault.file-changed-later");
                f = make_file(serial++); // another file for later readers
            }
        } else if (what == 6) { // another file replaces it under the same name
            auto& f = files[draw(files.size())];
            const auto path = f.path;
            auto g          = make_file(serial++);
            if (g.exists && g.known && path.substr(path.rfind('.') + 1) == g.path.substr(g.path.rfind('.') + 1)) {
                disk::put(path, disk::get(g.path));
                f      = g;
                f.path = path;
                event("%s replaced", path.c_str());
                count("fault.file-replaced-later");
            }
        } else {
            auto& r = rs[draw(rs.size())];
            faults(mode == 2);
            const auto now = ask(*r.m);
            faults(false);
            event("reader%d asked", r.id);
            SIM_CHECK(now == r.want, "changed", "reader%d of %s reports %s, before %s", r.id, r.path.c_str(), show(now).c_str(), show(r.want).c_str());
        }
    }
    rs.clear();
    nontrivial();
    SIM_CHECK(disk::open_fds() == 0, "descriptor-leak", "descriptors open at the end");
}
