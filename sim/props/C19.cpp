// C19: Python sessions keep the core guarantees and never corrupt the interpreter.
// The extension module and the interpreter run inside the simulator; the sessions are written in C19.py and reach
// the simulator (choices, disk, faults, verdicts) and bare C++ objects of the same kinds through the module below.
#include "codec.hpp"
#include "../core/alloc.hpp"
#include "../core/seam_env.hpp"
#include <boost/python.hpp>
#include <edsp/filter.hpp>
#include <edsp/io/metadata.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/oscillator.hpp>
#include <cstdlib>
#include <unistd.h>

const char* const prop_id = "C19";
namespace bp = boost::python;
using namespace sim;

extern "C" PyObject* PyInit_pedsp();
bp::object py_core(const std::string&, bp::object, bp::object, double, double, double); // C19_ref.cpp

namespace {
    bp::object as_bytes(const void* p, std::size_t n) {
        return bp::object(bp::handle<>(PyBytes_FromStringAndSize(static_cast<const char*>(p), static_cast<Py_ssize_t>(n))));
    }
    template <typename T>
    std::vector<T> from_bytes(const bp::object& o) {
        char* p      = nullptr;
        Py_ssize_t n = 0;
        if (PyBytes_AsStringAndSize(o.ptr(), &p, &n) != 0) {
            bp::throw_error_already_set();
        }
        std::vector<T> v(static_cast<std::size_t>(n) / sizeof(T));
        std::memcpy(v.data(), p, v.size() * sizeof(T));
        return v;
    }

    unsigned long py_draw(unsigned long n) { return draw(n); }
    long py_range(long lo, long hi) { return range(lo, hi); }
    bool py_chance(unsigned p) { return chance(p); }
    bool py_more(unsigned m) { return more(m); }
    double py_real(double lo, double hi) { return real(lo, hi); }
    unsigned long py_size_near(unsigned long max, bp::list l) {
        // the same bias as sim::size_near, with a list
        switch (draw(4)) {
            case 0: return draw(std::min<unsigned long>(max, 4) + 1);
            case 1: return draw(std::min<unsigned long>(max, 40) + 1);
            case 2: {
                const auto n = bp::len(l);
                if (n > 0) {
                    const long base = bp::extract<long>(l[draw(static_cast<unsigned long>(n))]);
                    return static_cast<unsigned long>(std::clamp<long>(base + static_cast<long>(draw(5)) - 2, 0, static_cast<long>(max)));
                }
            }
        }
        return draw(max + 1);
    }
    void py_event(const std::string& s) { event("%s", s.c_str()); }
    void py_violation(const std::string& c, const std::string& m) { violation(c.c_str(), "%s", m.c_str()); }
    void py_count(const std::string& s) { count(s.c_str()); }
    void py_cover(long h) { cover(mix(0x19, static_cast<std::uint64_t>(h))); }
    void py_time(double s) { add_sim_time_ns(1e9 * s); }
    std::vector<std::unique_ptr<span>> spans;
    void py_begin() { spans.push_back(std::make_unique<span>()); }
    void py_end() { spans.pop_back(); }

    void py_put(const std::string& p, bp::object b) { disk::put(p, from_bytes<std::uint8_t>(b)); }
    bp::object py_get(const std::string& p) {
        const auto b = disk::get(p);
        return as_bytes(b.data(), b.size());
    }
    void py_remove(const std::string& p) { disk::remove(p); }
    bp::object py_decode(const std::string& p) {
        const auto d = codec::decode<float>(p);
        return bp::make_tuple(d.opened, d.channels, d.rate, static_cast<long>(d.frames), as_bytes(d.samples.data(), d.samples.size() * sizeof(float)));
    }
    bp::object py_make_file(bp::object b, int channels, int rate, int kind) {
        const auto v = from_bytes<float>(b);
        disk::bytes r;
        static const int major[] = {SF_FORMAT_WAV, SF_FORMAT_AIFF, SF_FORMAT_AU, SF_FORMAT_W64};
        if (kind >= 4) { // 16-bit samples
            std::vector<std::int16_t> s;
            for (auto x : v) s.push_back(static_cast<std::int16_t>(x * 32767));
            r = codec::make_file(s, channels, rate);
        } else {
            r = codec::make_file(v, channels, rate, major[kind]);
        }
        return as_bytes(r.data(), r.size());
    }
    bp::object py_parse(const std::string& p) {
        const auto w = codec::parse(disk::get(p));
        return bp::make_tuple(w.ok, w.channels, w.rate, w.bits, as_bytes(w.data.data(), w.data.size()));
    }
    void py_fault(const std::string& name, unsigned permille) {
        auto& c = disk::config;
        if (name == "read_short") c.read_short = permille;
        else if (name == "read_eintr") c.read_eintr = permille;
        else if (name == "read_eio") c.read_eio = permille;
        else if (name == "open_fail") c.open_fail = permille;
        else if (name == "seek_fail") c.seek_fail = permille;
        else if (name == "close_fail") c.close_fail = permille;
        else if (name == "write_short") c.write_short = permille;
        else if (name == "write_eintr") c.write_eintr = permille;
        else if (name == "write_eio") c.write_eio = permille;
        else if (name == "write_enospc") c.write_enospc = permille;
        else if (name == "capacity") c.capacity = permille;
        else if (name == "sf_open") handles::fail_permille[handles::sndfile] = permille;
        else if (name == "src_new") handles::fail_permille[handles::converter] = permille;
        else if (name == "plan") handles::fail_permille[handles::plan] = permille;
        else if (name == "src_process") handles::process_fail_permille = permille;
        else harness_error("no fault %s", name.c_str());
    }
    std::uint64_t injected = 0;
    unsigned long py_hard() {
        const auto& h = disk::hits;
        return h.open_fail + h.read_eio + h.write_eio + h.write_enospc + h.seek_fail + h.stat_fail + h.close_fail +
               handles::failed(handles::sndfile) + handles::failed(handles::converter) + injected;
    }
    unsigned long py_plans_failed() { return handles::failed(handles::plan); }
    unsigned long py_open_fds() { return disk::open_fds(); }
    unsigned long py_live(int k) { return handles::live(static_cast<handles::kind>(k)); }
    void py_arm(unsigned long k) { alloc::arm(k); }
    unsigned long py_disarm() { return alloc::disarm(); }
    bp::object py_meta(const std::string& p) {
        codec::quiet_disk q;
        edsp::io::metadata m(p);
        return bp::make_tuple(m.title(), m.artist(), m.album(), m.genre(), static_cast<long>(m.track()), static_cast<long>(m.year()));
    }

    // Bare C++ objects of the kinds Python wraps.
    struct osc {
        int kind;
        std::unique_ptr<edsp::oscillators::sin_oscillator<double>> s;
        std::unique_ptr<edsp::oscillators::square_oscillator<double>> q;
        std::unique_ptr<edsp::oscillators::sawtooth_oscillator<double>> w;
        std::unique_ptr<edsp::oscillators::triangular_oscillator<double>> t;
        osc(int k, double a, double sr, double f, double x) : kind(k) {
            using namespace edsp::oscillators;
            if (k == 0) s = std::make_unique<sin_oscillator<double>>(a, sr, f, x);
            if (k == 1) q = std::make_unique<square_oscillator<double>>(a, sr, f, x);
            if (k == 2) w = std::make_unique<sawtooth_oscillator<double>>(a, sr, f, x);
            if (k == 3) t = std::make_unique<triangular_oscillator<double>>(a, sr, f);
        }
        template <typename F>
        auto with(F f) {
            if (kind == 0) return f(*s);
            if (kind == 1) return f(*q);
            if (kind == 2) return f(*w);
            return f(*t);
        }
        bp::object generate(unsigned long n) {
            std::vector<double> v(n);
            with([&](auto& o) { for (auto& x : v) x = o(); });
            return as_bytes(v.data(), n * sizeof(double));
        }
        void set(const std::string& what, double v) {
            with([&](auto& o) {
                if (what == "phase") o.set_phase(v);
                if (what == "amplitude") o.set_amplitude(v);
                if (what == "frequency") o.set_frequency(v);
                if (what == "timestamp") o.set_timestamp(v);
                if (what == "sample_rate") o.set_sample_rate(v);
                if (what == "reset") o.reset();
            });
            if (what == "duty") q->set_duty(v);
            if (what == "width") kind == 3 ? t->set_width(v) : w->set_width(v);
        }
        double get(const std::string& what) {
            if (what == "duty") return q->duty();
            if (what == "width") return kind == 3 ? t->width() : w->width();
            return with([&](auto& o) -> double {
                if (what == "phase") return o.phase();
                if (what == "amplitude") return o.amplitude();
                if (what == "frequency") return o.frequency();
                if (what == "timestamp") return o.timestamp();
                return o.sample_rate();
            });
        }
    };
    struct filt {
        int kind;
        std::unique_ptr<edsp::filter::moving_average<double>> a;
        std::unique_ptr<edsp::filter::moving_rms<double>> r;
        std::unique_ptr<edsp::filter::moving_median<double>> m;
        filt(int k, unsigned long n) : kind(k) {
            if (k == 0) a = std::make_unique<edsp::filter::moving_average<double>>(n);
            if (k == 1) r = std::make_unique<edsp::filter::moving_rms<double>>(n);
            if (k == 2) m = std::make_unique<edsp::filter::moving_median<double>>(n);
        }
        template <typename F>
        auto with(F f) {
            if (kind == 0) return f(*a);
            if (kind == 1) return f(*r);
            return f(*m);
        }
        bp::object filter(bp::object in) {
            auto v = from_bytes<double>(in);
            std::vector<double> out(v.size());
            with([&](auto& o) { o.filter(v.begin(), v.end(), out.begin()); });
            return as_bytes(out.data(), out.size() * sizeof(double));
        }
        double call(double x) {
            return with([&](auto& o) -> double { return o(x); });
        }
        void resize(unsigned long n) {
            with([&](auto& o) { o.resize(n); });
        }
        void reset() {
            with([&](auto& o) { o.reset(); });
        }
        unsigned long size() {
            return with([&](auto& o) -> unsigned long { return o.size(); });
        }
    };
    struct resam {
        std::unique_ptr<edsp::io::resampler<float>> r;
        long channels;
        resam(long ch, int q, double ratio) : channels(ch) {
            const auto k                            = handles::fail_permille[handles::converter];
            handles::fail_permille[handles::converter] = 0;
            r = std::make_unique<edsp::io::resampler<float>>(ch, static_cast<edsp::io::resample_quality>(q), static_cast<float>(ratio));
            handles::fail_permille[handles::converter] = k;
        }
        bp::object process(bp::object in) {
            const auto p                   = handles::process_fail_permille;
            handles::process_fail_permille = 0;
            // the frame before the block is read by one converter when the block has one frame
            auto v = from_bytes<float>(in);
            std::vector<float> pad(64);
            pad.insert(pad.end(), v.begin(), v.end());
            const auto frames = static_cast<double>(static_cast<long>(v.size()) / channels);
            std::vector<float> out(static_cast<std::size_t>(static_cast<double>(r->ratio()) * frames) * static_cast<std::size_t>(channels) + 8);
            const auto res                 = r->process(pad.data() + 64, pad.data() + pad.size(), out.data());
            handles::process_fail_permille = p;
            return bp::make_tuple(as_bytes(out.data(), static_cast<std::size_t>(res.second * channels) * sizeof(float)), res.first, res.second);
        }
        void reset() { r->reset(); }
    };
    BOOST_PYTHON_MODULE(simpy) {
        bp::def("draw", py_draw);
        bp::def("range", py_range);
        bp::def("chance", py_chance);
        bp::def("more", py_more);
        bp::def("real", py_real);
        bp::def("size_near", py_size_near);
        bp::def("event", py_event);
        bp::def("violation", py_violation);
        bp::def("count", py_count);
        bp::def("cover", py_cover);
        bp::def("time", py_time);
        bp::def("begin", py_begin);
        bp::def("end", py_end);
        bp::def("put", py_put);
        bp::def("get", py_get);
        bp::def("remove", py_remove);
        bp::def("exists", disk::exists);
        bp::def("decode", py_decode);
        bp::def("make_file", py_make_file);
        bp::def("parse", py_parse);
        bp::def("fault", py_fault);
        bp::def("hard", py_hard);
        bp::def("open_fds", py_open_fds);
        bp::def("live", py_live);
        bp::def("arm", py_arm);
        bp::def("disarm", py_disarm);
        bp::def("meta", py_meta);
        bp::def("core", py_core);
        bp::def("plans_failed", py_plans_failed);
        bp::class_<osc, boost::noncopyable>("Osc", bp::init<int, double, double, double, double>())
            .def("generate", &osc::generate).def("set", &osc::set).def("get", &osc::get);
        bp::class_<filt, boost::noncopyable>("Filt", bp::init<int, unsigned long>())
            .def("filter", &filt::filter).def("call", &filt::call).def("resize", &filt::resize).def("reset", &filt::reset).def("size", &filt::size);
        bp::class_<resam, boost::noncopyable>("Resam", bp::init<long, int, double>())
            .def("process", &resam::process).def("reset", &resam::reset);
    }

    PyObject* session = nullptr;

    std::string python_error() {
        PyObject *t = nullptr, *v = nullptr, *tb = nullptr;
        PyErr_Fetch(&t, &v, &tb);
        PyErr_NormalizeException(&t, &v, &tb);
        std::string out = "python error";
        try {
            bp::object mod(bp::handle<>(PyImport_ImportModule("traceback")));
            bp::object lines = mod.attr("format_exception")(bp::handle<>(bp::borrowed(t)), bp::handle<>(bp::borrowed(v)),
                                                            tb ? bp::object(bp::handle<>(bp::borrowed(tb))) : bp::object());
            out              = bp::extract<std::string>(bp::str("").join(lines));
        } catch (...) {
            PyErr_Clear();
        }
        return out;
    }
} // namespace

extern "C" void sim_prop_setup() {
    setenv("PYTHONMALLOC", "malloc", 1);
    setenv("PYTHONHASHSEED", "0", 1);
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    setenv("PYTHONNOUSERSITE", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    unsetenv("PYTHONPATH");
    PyImport_AppendInittab("pedsp", &PyInit_pedsp);
    PyImport_AppendInittab("simpy", &PyInit_simpy);
    PyConfig config;
    PyConfig_InitPythonConfig(&config);
    config.install_signal_handlers = 0;
    config.parse_argv              = 0;
    PyStatus st = PyConfig_SetBytesString(&config, &config.executable, VERIF_PYTHON);
    if (!PyStatus_Exception(st)) {
        st = Py_InitializeFromConfig(&config);
    }
    PyConfig_Clear(&config);
    if (PyStatus_Exception(st)) {
        std::fprintf(stderr, "cannot start Python: %s\n", st.err_msg ? st.err_msg : "?");
        std::_Exit(3);
    }
    std::string dir = __FILE__;
    dir             = dir.substr(0, dir.rfind('/'));
    const std::string code = "import sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, '" + dir +
                             "')\nimport traceback, linecache, gc\nimport numpy\nimport pedsp, simpy\nimport C19_session\ngc.disable()\ngc.collect()\ngc.freeze()\n";
    if (PyRun_SimpleString(code.c_str()) != 0) {
        std::_Exit(3);
    }
    PyObject* mod = PyImport_ImportModule("C19_session");
    session       = mod ? PyObject_GetAttrString(mod, "session") : nullptr;
    if (!session) {
        PyErr_Print();
        std::_Exit(3);
    }
}

void prop_run() {
    codec::silence_cout();
    disk::reset();
    clock_.active  = true;
    clock_.wall_ns = 1500000000000000000ll;
    env::reset();
    handles::process_failures_hook = []() { ++injected; };
    PyObject* r = PyObject_CallNoArgs(session);
    if (!r) {
        harness_error("%s", python_error().c_str());
    }
    Py_DECREF(r);
    PyGC_Collect();
    SIM_CHECK(disk::open_fds() == 0, "descriptor-leak", "%llu descriptors open after every object was collected",
              static_cast<unsigned long long>(disk::open_fds()));
    SIM_CHECK(handles::live(handles::sndfile) == 0, "handle-leak", "file handles open after every object was collected");
    SIM_CHECK(handles::live(handles::converter) == 0, "handle-leak", "converters live after every object was collected");
    SIM_CHECK(handles::live(handles::plan) == 0, "handle-leak", "plans live after every object was collected");
    nontrivial();
}
