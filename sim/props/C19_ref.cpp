// C19: what the core gives for the functions Python offers on arrays.
#include "../core/handles.hpp"
#include "../core/sim.hpp"
#include <boost/python.hpp>
#include <edsp/algorithm.hpp>
#include <edsp/auditory/audspace.hpp>
#include <edsp/converter.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
#include <edsp/feature/statistics/centroid.hpp>
#include <edsp/feature/statistics/crest.hpp>
#include <edsp/feature/statistics/decrease.hpp>
#include <edsp/feature/statistics/entropy.hpp>
#include <edsp/feature/statistics/flatness.hpp>
#include <edsp/feature/statistics/flux.hpp>
#include <edsp/feature/statistics/rolloff.hpp>
#include <edsp/feature/statistics/slope.hpp>
#include <edsp/feature/statistics/spread.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/statistics.hpp>
#include <edsp/windowing.hpp>
#include <functional>
#include <map>

namespace bp = boost::python;

namespace {
    using vec = std::vector<double>;
    using cpx = std::complex<double>;
    struct in { // up to two arrays (complex ones as pairs) and a few numbers
        vec a, b;
        double p[3];
        const double* first() const { return a.data(); }
        const double* last() const { return a.data() + a.size(); }
        double* f() const { return const_cast<double*>(a.data()); }
        double* l() const { return f() + a.size(); }
        double* g() const { return const_cast<double*>(b.data()); }
        const cpx* cfirst() const { return reinterpret_cast<const cpx*>(a.data()); }
        const cpx* clast() const { return cfirst() + a.size() / 2; }
        std::size_t n() const { return static_cast<std::size_t>(p[0]); }
    };
    using fn = std::function<vec(const in&)>;
    cpx* c(vec& v) { return reinterpret_cast<cpx*>(v.data()); }

    const std::map<std::string, fn>& table() {
        using namespace edsp;
        namespace st = edsp::statistics;
        namespace fs = edsp::feature::spectral;
        namespace ft = edsp::feature::statistics;
        namespace fe = edsp::feature::temporal;
        namespace wi = edsp::windowing;
        static const std::map<std::string, fn> t = {
#define EACH(name, expr) {name, [](const in& i) { vec o(i.a.size()); expr; return o; }}
#define ONE(name, expr) {name, [](const in& i) { return vec{static_cast<double>(expr)}; }}
#define MAKE(name, expr) {name, [](const in& i) { vec o(i.n()); expr; return o; }}
            EACH("algorithm.scale", amplifier(i.first(), i.last(), o.data(), i.p[0])),
            EACH("algorithm.scale_clip", amplifier(i.first(), i.last(), o.data(), i.p[0], i.p[1], i.p[2])),
            EACH("algorithm.clip", clipper(i.first(), i.last(), o.data(), i.p[0], i.p[1])),
            EACH("algorithm.ceil", edsp::ceil(i.first(), i.last(), o.data())),
            EACH("algorithm.floor", edsp::floor(i.first(), i.last(), o.data())),
            EACH("algorithm.round", edsp::round(i.first(), i.last(), o.data())),
            EACH("algorithm.trunc", edsp::fix(i.first(), i.last(), o.data())),
            EACH("algorithm.abs", edsp::rectify(i.first(), i.last(), o.data())),
            EACH("algorithm.normalize", edsp::normalize(i.first(), i.last(), o.data())),
            {"algorithm.concatenate", [](const in& i) { vec o(i.a); o.insert(o.end(), i.b.begin(), i.b.end()); return o; }},
            {"algorithm.pad", [](const in& i) { vec o(i.a); o.resize(i.n()); return o; }},
            {"algorithm.linear_search", [](const in& i) { const auto it = std::find(i.a.begin(), i.a.end(), i.p[0]); return vec{it == i.a.end() ? -1.0 : static_cast<double>(it - i.a.begin())}; }},
            ONE("algorithm.equal", i.a == i.b),
            MAKE("algorithm.linspace", edsp::linspace(o.data(), i.p[1], i.p[2], static_cast<int>(i.n()))),
            MAKE("algorithm.logspace", edsp::logspace(o.data(), i.p[1], i.p[2], static_cast<int>(i.n()))),
            ONE("statistics.kurtosis", st::kurtosis(i.first(), i.last())),
            ONE("statistics.skewness", st::skewness(i.first(), i.last())),
            ONE("statistics.moment", i.n() == 1 ? st::moment<1>(i.first(), i.last()) : i.n() == 2 ? st::moment<2>(i.first(), i.last()) : i.n() == 3 ? st::moment<3>(i.first(), i.last()) : st::moment<4>(i.first(), i.last())),
            ONE("statistics.geometric_mean", st::geometric_mean(i.first(), i.last())),
            ONE("statistics.generalized_mean", st::generalized_mean(i.first(), i.last(), static_cast<int>(i.n()))),
            ONE("statistics.harmonic_mean", st::harmonic_mean(i.first(), i.last())),
            ONE("statistics.max", st::max(i.first(), i.last())),
            ONE("statistics.min", st::min(i.first(), i.last())),
            ONE("statistics.max_abs", st::maxabs(i.first(), i.last())),
            ONE("statistics.min_abs", st::minabs(i.first(), i.last())),
            ONE("statistics.mean", st::mean(i.first(), i.last())),
            ONE("statistics.median", st::median(i.first(), i.last())),
            ONE("statistics.variance", st::variance(i.first(), i.last())),
            ONE("statistics.standard_deviation", st::standard_deviation(i.first(), i.last())),
            ONE("statistics.norm", st::norm(i.first(), i.last())),
            {"statistics.peak", [](const in& i) { const auto p = st::peak(i.first(), i.last()); return vec{static_cast<double>(p.first), p.second}; }},
            {"statistics.peak_abs", [](const in& i) { const auto p = st::peakabs(i.first(), i.last()); return vec{static_cast<double>(p.first), p.second}; }},
            EACH("spectral.conv", conv(i.first(), i.last(), static_cast<const double*>(i.b.data()), o.data())),
            EACH("spectral.xcorr", xcorr(i.first(), i.last(), static_cast<const double*>(i.b.data()), o.data())),
            EACH("spectral.cepstrum", cepstrum(i.first(), i.last(), o.data())),
            EACH("spectral.dct", dct(i.first(), i.last(), o.data())),
            EACH("spectral.idct", idct(i.first(), i.last(), o.data())),
            EACH("spectral.hartley", hartley(i.first(), i.last(), o.data())),
            {"spectral.spectrum", [](const in& i) { vec o(static_cast<std::size_t>(make_fft_size(i.a.size()))); spectrum(i.first(), i.last(), o.data()); return o; }},
            {"spectral.hilbert", [](const in& i) { vec o(2 * i.a.size()); hilbert(i.first(), i.last(), c(o)); return o; }},
            {"spectral.rfft", [](const in& i) { vec o(2 * static_cast<std::size_t>(make_fft_size(i.a.size()))); dft(i.first(), i.last(), c(o)); return o; }},
            {"spectral.irfft", [](const in& i) { vec o(static_cast<std::size_t>(make_ifft_size(i.a.size() / 2))); idft(i.cfirst(), i.clast(), o.data()); return o; }},
            {"spectral.fft", [](const in& i) { vec o(i.a.size()); cdft(i.cfirst(), i.clast(), c(o)); return o; }},
            {"spectral.ifft", [](const in& i) { vec o(i.a.size()); cidft(i.cfirst(), i.clast(), c(o)); return o; }},
            ONE("converter.peak2rms", peak2rms(i.first(), i.last())),
            ONE("converter.peak2peak", peak2peak(i.first(), i.last())),
            {"converter.real2complex", [](const in& i) { vec o(2 * i.a.size()); for (std::size_t k = 0; k < i.a.size(); ++k) o[2 * k] = i.a[k]; return o; }},
            {"converter.ri2complex", [](const in& i) { vec o(2 * i.a.size()); for (std::size_t k = 0; k < i.a.size(); ++k) { o[2 * k] = i.a[k]; o[2 * k + 1] = i.b[k]; } return o; }},
            {"converter.complex2real", [](const in& i) { vec o(i.a.size()); const auto h = i.a.size() / 2; for (std::size_t k = 0; k < h; ++k) { o[k] = i.a[2 * k]; o[h + k] = i.a[2 * k + 1]; } return o; }},
            ONE("spectral.spectral_crest", fs::spectral_crest(i.f(), i.l())),
            ONE("spectral.spectral_kurtosis", fs::spectral_kurtosis(i.f(), i.l())),
            ONE("spectral.spectral_skewness", fs::spectral_skewness(i.f(), i.l())),
            ONE("spectral.spectral_entropy", fs::spectral_entropy(i.f(), i.l())),
            ONE("spectral.spectral_rolloff", fs::spectral_rolloff(i.f(), i.l(), i.p[0])),
            ONE("spectral.spectral_flatness", fs::spectral_flatness(i.f(), i.l())),
            ONE("spectral.spectral_irregularity", fs::spectral_irregularity(i.f(), i.l())),
            ONE("spectral.spectral_decrease", fs::spectral_decrease(i.f(), i.l())),
            ONE("spectral.spectral_centroid", fs::spectral_centroid(i.f(), i.l(), i.g())),
            ONE("spectral.spectral_spread", fs::spectral_spread(i.f(), i.l(), i.g())),
            ONE("spectral.spectral_variation", fs::spectral_variation(i.f(), i.l(), i.g())),
            ONE("spectral.spectral_flux", fs::spectral_flux(i.f(), i.l(), i.g())),
            ONE("spectral.spectral_slope", fs::spectral_slope(i.f(), i.l(), i.g())),
            ONE("statistics.crest", ft::crest(i.f(), i.l())),
            ONE("statistics.entropy", ft::entropy(i.f(), i.l())),
            ONE("statistics.rolloff", ft::rolloff(i.f(), i.l(), i.p[0])),
            ONE("statistics.flatness", ft::flatness(i.f(), i.l())),
            ONE("statistics.decrease", ft::decrease(i.f(), i.l())),
            ONE("statistics.centroid", ft::centroid(i.f(), i.l())),
            ONE("statistics.spread", ft::spread(i.f(), i.l())),
            ONE("statistics.weighted_centroid", ft::weighted_centroid(i.f(), i.l(), i.g())),
            ONE("statistics.weighted_spread", ft::weighted_spread(i.f(), i.l(), i.g())),
            ONE("statistics.flux", ft::flux<edsp::distances::euclidean>(i.f(), i.l(), i.g())),
            ONE("statistics.slope", ft::slope(i.f(), i.l(), i.g())),
            ONE("temporal.rssq", edsp::feature::rssq(i.f(), i.l())),
            ONE("temporal.rms", fe::rms(i.f(), i.l())),
            ONE("temporal.power", fe::power(i.f(), i.l())),
            ONE("temporal.energy", fe::energy(i.f(), i.l())),
            ONE("temporal.duration", fe::duration(i.f(), i.l(), i.p[0])),
            ONE("temporal.effective_duration", fe::effective_duration(i.f(), i.l(), i.p[0], i.p[1])),
            ONE("temporal.leq", fe::leq(i.f(), i.l())),
            ONE("temporal.azcr", fe::azcr(i.f(), i.l())),
            EACH("temporal.amdf", fe::amdf(i.f(), i.l(), o.data())),
            EACH("temporal.asdf", fe::asdf(i.f(), i.l(), o.data())),
            MAKE("auditory.erbspace", edsp::auditory::erbspace(o.data(), o.data() + o.size(), i.p[1], i.p[2])),
            MAKE("auditory.barkspace", edsp::auditory::barkspace(o.data(), o.data() + o.size(), i.p[1], i.p[2])),
            MAKE("auditory.centspace", edsp::auditory::centspace(o.data(), o.data() + o.size(), i.p[1], i.p[2])),
            MAKE("auditory.melspace", edsp::auditory::melspace(o.data(), o.data() + o.size(), i.p[1], i.p[2])),
            MAKE("windowing.hamming", wi::hamming(o.data(), o.data() + o.size())),
            MAKE("windowing.hanning", wi::hanning(o.data(), o.data() + o.size())),
            MAKE("windowing.bartlett", wi::bartlett(o.data(), o.data() + o.size())),
            MAKE("windowing.blackman", wi::blackman(o.data(), o.data() + o.size())),
            MAKE("windowing.blackman_harris", wi::blackman_harris(o.data(), o.data() + o.size())),
            MAKE("windowing.blackman_nutall", wi::blackman_nutall(o.data(), o.data() + o.size())),
            MAKE("windowing.boxcar", wi::boxcar(o.data(), o.data() + o.size())),
            MAKE("windowing.flattop", wi::flattop(o.data(), o.data() + o.size())),
            MAKE("windowing.triangular", wi::triangular(o.data(), o.data() + o.size())),
            MAKE("windowing.welch", wi::welch(o.data(), o.data() + o.size())),
            MAKE("windowing.rectangular", wi::rectangular(o.data(), o.data() + o.size())),
        };
        return t;
    }
    vec of_bytes(const bp::object& o) {
        char* p      = nullptr;
        Py_ssize_t n = 0;
        if (PyBytes_AsStringAndSize(o.ptr(), &p, &n) != 0) bp::throw_error_already_set();
        vec v(static_cast<std::size_t>(n) / sizeof(double));
        if (!v.empty()) std::memcpy(v.data(), p, v.size() * sizeof(double));
        return v;
    }
} // namespace

bp::object py_core(const std::string& name, bp::object a, bp::object b, double p0, double p1, double p2) {
    in i;
    i.a    = of_bytes(a);
    i.b    = of_bytes(b);
    i.p[0] = p0;
    i.p[1] = p1;
    i.p[2] = p2;
    const auto it = table().find(name);
    if (it == table().end()) sim::harness_error("no function %s", name.c_str());
    const auto keep                            = sim::handles::fail_permille[sim::handles::plan];
    sim::handles::fail_permille[sim::handles::plan] = 0;
    const auto o                               = it->second(i);
    sim::handles::fail_permille[sim::handles::plan] = keep;
    return bp::object(bp::handle<>(PyBytes_FromStringAndSize(reinterpret_cast<const char*>(o.data()), static_cast<Py_ssize_t>(o.size() * sizeof(double)))));
}
