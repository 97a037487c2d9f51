// Deterministic simulator runtime: one real thread runs at a time; every switch, stall and
// fault is decided by one PRNG (or by a replay file).  This header is included by the
// instrumented op translation units; runtime.cpp itself is never instrumented.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace sim {

    // ---------------------------------------------------------------- PRNG
    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed = 0) : s(seed) {
        }
        uint64_t next() {    // splitmix64
            uint64_t z = (s += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) {
            return n ? next() % n : 0;
        }
        int range(int lo, int hi) {    // inclusive
            return int(int64_t(lo) + int64_t(below(uint64_t(int64_t(hi) - int64_t(lo) + 1))));
        }
        bool chance(double p) {
            return double(next() >> 11) * (1.0 / 9007199254740992.0) < p;
        }
    };
    inline uint64_t mix(uint64_t a, uint64_t b) {
        Rng r(a ^ (b * 0xd6e8feb86659fd93ull));
        r.next();
        return r.next();
    }

    // ---------------------------------------------------------------- faults
    enum FaultKind : int {
        F_NONE = 0,
        F_ELEM = 1,     // an element operation (copy, construct, arithmetic) fails
        F_ALLOC = 2,    // an allocation made during the call fails
        F_CALLBACK = 3, // a user supplied callback fails
        F_ENTROPY = 4,  // a randomness source fails
        F_STREAM = 5,   // an output stream fails
        F_STALL = 6,    // the caller is descheduled until every other caller is done
        F_KINDS = 8
    };
    extern const char *const fault_names[F_KINDS];

    // An injected failure is thrown as one of several types, chosen by its serial number: real element
    // types and callbacks throw anything, and a call must pass all of it on.
    enum Caught { C_FAULT, C_ALLOC, C_OTHER };
    Caught classify();    // inside a handler: what is being handled
    extern bool wild_values;    // this plan uses infinities, NaN and extreme magnitudes; answers are not compared

    // Cooperative fault point.  Throws (or, for F_ALLOC, returns true) when the armed fault fires.
    bool fault_point(FaultKind k);
    // Arms one fault of the given kind for the calling task.
    void arm(FaultKind k, uint32_t index, uint64_t serial);
    void disarm();
    bool fault_fired();
    uint64_t fault_calls_after_fire(FaultKind k);    // fault points of this kind reached after firing

    // ---------------------------------------------------------------- per task accounting
    struct Account {
        int64_t live_cells = 0;     // Heap scalars alive that this task made
        int64_t live_allocs = 0;    // operator new balance inside calls
    };
    Account &account();
    void *cell_new(double v);
    void cell_free(void *p);
    double cell_get(const void *p);
    void cell_set(void *p, double v);

    // ---------------------------------------------------------------- in-call scope
    void op_enter();
    void op_leave();
    bool op_active();
    struct Quiet {    // harness code running inside a call (callbacks) switches instrumentation off
        bool was;
        Quiet();
        ~Quiet();
    };
    void note(const char *probe);            // "rare condition reached" counter
    void yield_here();                       // an explicit yield point (callbacks)
    void event(uint64_t v);                  // mixes into the event-log hash
    void trace(const std::string &line);     // only in --verbose replays; never draws from the PRNG

    // Records a violation and ends the run (never returns).
    [[noreturn]] void violation(const std::string &cls, const std::string &msg);

    // ---------------------------------------------------------------- ops
    struct Outcome {
        bool raised = false;      // refused the request (threw something of its own)
        bool faulted = false;     // the injected failure reached the caller
        std::string bits;         // exact bits of the result
    };
    // One concrete call: operands made from a seed, expected answer from the reference model.
    struct Bundle {
        virtual ~Bundle() {
        }
        // Runs the call once; reports a violation on a wrong answer or a damaged operand.
        virtual Outcome exec(bool fault_allowed) = 0;
        virtual bool intact(std::string &why) = 0;
        virtual bool expects_raise() const = 0;
        virtual void renew(uint64_t seed) = 0;    // new operand values in the same storage
        virtual std::string describe() const = 0;
    };
    enum OpTag : unsigned {
        T_PLAIN = 0,
        T_REJECT = 1,      // may have to refuse the request
        T_CALLBACK = 2,    // takes a user callback
        T_THROWING = 4,    // element type has fault points
        T_ALLOC = 8,       // allocates
        T_ITER = 16,       // iterates to convergence / elimination
        T_GROUP = 32,      // curve formulas
        T_FIELD = 64,      // part B: fields, curves, pairing
        T_RANDOM = 128,
        T_MARSHAL = 256,
        T_STREAM = 512,
        T_MULTIEXP = 1024,
        T_HISTORY = 2048,
        T_SLOW = 4096,
        T_POINT = 8192,    // groups over the library's own curves
        T_PAIRING = 16384
    };
    struct OpDef {
        std::string name;
        unsigned tags;
        std::function<std::unique_ptr<Bundle>(uint64_t seed)> make;
        int weight = 1;
    };
    std::vector<OpDef> &ops();
    struct RegisterOps {
        explicit RegisterOps(void (*fn)()) {
            fn();
        }
    };
    // Registers memory that a call must not write to while it runs.
    void protect(const void *p, std::size_t n);
    void unprotect(const void *p);

}    // namespace sim
