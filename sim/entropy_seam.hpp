// The system's entropy source, as this simulation provides it: a stream per caller, which can fail.
#pragma once
#include <cstdint>
namespace entropy {
    void reseed(uint64_t seed);    // the calling task's stream
    uint64_t drawn();              // words it has given
}
