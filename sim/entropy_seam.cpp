// boost::random_device is defined here in place of libboost_random, so that it is seeded and can fail.
#include "entropy_seam.hpp"
#include "runtime.hpp"
#include <boost/random/random_device.hpp>
namespace entropy {
    static thread_local sim::Rng stream(1);
    static thread_local uint64_t words = 0;
    uint64_t drawn() {
        return words;
    }
    void reseed(uint64_t seed) {
        stream = sim::Rng(seed);
    }
}    // namespace entropy
namespace boost {
    namespace random {
        random_device::random_device() : pimpl(nullptr) {
            sim::fault_point(sim::F_ENTROPY);
        }
        random_device::random_device(const std::string &) : pimpl(nullptr) {
            sim::fault_point(sim::F_ENTROPY);
        }
        random_device::~random_device() {
        }
        double random_device::entropy() const {
            return 32;
        }
        unsigned int random_device::operator()() {
            sim::fault_point(sim::F_ENTROPY);
            sim::yield_here();
            ++entropy::words;
            return unsigned(entropy::stream.next() >> 32);
        }
    }    // namespace random
}    // namespace boost
