#include "seam_entropy.hpp"
#include "sched.hpp"
#include "sim.hpp"
#include <random>
#include <stdexcept>
namespace {
    thread_local sim::entropy::reading* current = nullptr;
    long devices                                = 0; // one thread runs at a time
    sim::entropy::reading& mine() {
        static sim::entropy::reading spare; // a device kept by somebody else
        return current ? *current : spare;
    }
} // namespace
namespace sim { namespace entropy {
    void use(reading* r) { current = r; }
    long open_devices() { return devices; }
}} // namespace sim::entropy

namespace std {
    void random_device::_M_init(const std::string&) {
        sim::sched::yield("entropy open");
        auto& r = mine();
        if (r.fail_open >= 0 && static_cast<long>(r.opens) >= r.fail_open) {
            ++r.failures;
            sim::count("fault.entropy-open-fail");
            throw std::runtime_error("random_device::random_device(const std::string&): device not available");
        }
        ++r.opens;
        ++devices;
    }
    void random_device::_M_fini() {
        ++mine().closes;
        --devices;
    }
    random_device::result_type random_device::_M_getval() {
        sim::sched::yield("entropy read");
        auto& r = mine();
        if (r.fail_read >= 0 && static_cast<long>(r.reads) >= r.fail_read) {
            ++r.failures;
            sim::count("fault.entropy-read-fail");
            throw std::runtime_error("random_device could not be read");
        }
        const auto j = r.reads++;
        switch (r.q) {
            case sim::entropy::zeros: return 0;
            case sim::entropy::ones: return ~0u;
            case sim::entropy::alternating: return j & 1 ? 0x55555555u : 0xaaaaaaaau;
            default: break;
        }
        return static_cast<result_type>(sim::mix(sim::mix(r.stream, 0x9e3779b97f4a7c15ull), j + 1) >> 16);
    }
} // namespace std
