// Shared between runtime.cpp and main.cpp only.
#pragma once
#include "runtime.hpp"
#include <map>

namespace sim {
    constexpr uint32_t STEP_END = 0xffffffffu;      // decision taken when a task ends
    constexpr uint32_t TARGET_STALL = 0x80000000u;  // flag: the switching task is stalled
    struct Decision {
        uint32_t task, call, step, target;
    };
    constexpr uint32_t MAXDEC = 20000;

    struct Call {
        uint32_t id = 0;
        uint32_t bundle = 0;
        uint64_t reseed = 0;    // 0: keep operands
        uint32_t repeat = 1;
        int fault = F_NONE;
        uint32_t findex = 0;
    };
    struct BundleSpec {
        uint32_t id;
        std::string op;
        uint64_t seed;
    };
    struct Plan {
        std::string prop;
        uint64_t seed = 0;
        std::vector<BundleSpec> bundles;
        std::vector<std::vector<Call>> tasks;
        // schedule
        bool replay = false;
        std::vector<Decision> decisions;
        uint64_t sched_seed = 0;
        double p_global = 0, p_operand = 0, p_heap = 0, p_bound = 0;
        uint32_t edge_gap = 0;    // mean number of edges between random switches, 0 = none
        bool wild = false;
        double p_stall = 0;       // chance that a switch stalls the task it leaves
    };
    enum Status : int { S_RUNNING = 0, S_OK = 1, S_VIOLATION = 2, S_INTERNAL = 3 };
    struct Shared {
        int status;
        char cls[96];
        char msg[1536];
        uint64_t hash;
        uint64_t edges, mem_yields, switches, preemptions, stalls, calls, fault_free_calls, refused, retries,
            blocked;
        uint64_t inter_hash;
        uint64_t fired[F_KINDS];
        uint64_t configured[F_KINDS];
        uint32_t ndec;
        Decision dec[MAXDEC];
        struct {
            char name[48];
            uint64_t n;
        } probes[48];
        uint8_t cover[1 << 13];    // 64 Ki bits of hashed edges
        uint8_t opcover[1 << 11];  // 16 Ki op indices
    };
    extern Shared *shared;
    extern bool verbose;
    void run_plan(const Plan &p);    // in the forked child; ends with status set, returns normally if OK
}    // namespace sim
