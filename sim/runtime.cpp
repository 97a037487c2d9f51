// The simulator core.  Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <stdexcept>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __data_start, _end;
extern "C" char __executable_start;

namespace sim {
    const char *const fault_names[F_KINDS] = {"none",    "element_operation_failure", "allocation_failure",
                                              "callback_failure", "entropy_failure", "stream_failure",
                                              "caller_stalled_mid_call", "reserved"};
    Shared *shared = nullptr;
    bool verbose = false;

    namespace {
        constexpr uint64_t EDGE_BUDGET = 30000000;    // instrumented edges one call may take
        constexpr uint64_t FAIR_GAP = 60000;          // edges after which another caller gets a turn
        constexpr uint64_t BLOCK_BUDGET = 4000;       // failed attempts to get past another caller

        struct Task {
            int id = 0;
            pthread_t th {};
            std::atomic<uint32_t> go {0};
            bool finished = false, stalled = false, blocked = false;
            char *lo = nullptr, *hi = nullptr;
            uint32_t call = 0, step = 0;
            uint64_t edges = 0;
            bool in_op = false;
            Account acc;
            // armed fault
            FaultKind fk = F_NONE;
            uint32_t findex = 0;
            uint64_t fserial = 0;
            bool fired = false;
            uint64_t after[F_KINDS] = {};
            uint64_t points[F_KINDS] = {};    // fault points passed
            uint64_t edge_countdown = 0;
            uint64_t since_switch = 0;
            uint64_t blocks = 0;
            std::vector<Decision> todo;    // replay decisions for this task, in order
            size_t todo_at = 0;
            const std::vector<Call> *calls = nullptr;
            Rng *unused = nullptr;
        };
        Task *tasks[16];
        int ntasks = 0;
        Task main_task;
        __thread Task *self = nullptr;
        bool active = false;    // scheduler on
        const Plan *plan = nullptr;
        Rng rng;
        uint64_t ev_hash = 0;
        std::atomic<uint32_t> main_go {0};
        std::vector<std::unique_ptr<Bundle>> bundle_objs;
        std::map<uint32_t, size_t> bundle_index;
        struct LastBits {
            bool have = false;
            uint64_t gen = 0;
            std::string bits;
            bool raised = false;
        };
        std::vector<LastBits> last_bits;
        std::vector<uint64_t> bundle_gen;

        struct Range {
            const char *p;
            size_t n;
        };
        Range ranges[256];
        int nranges = 0;

        void futex_wait(std::atomic<uint32_t> &w) {
            for (;;) {
                uint32_t v = w.load(std::memory_order_acquire);
                if (v) {
                    w.store(0, std::memory_order_relaxed);
                    return;
                }
                syscall(SYS_futex, &w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
            }
        }
        void futex_wake(std::atomic<uint32_t> &w) {
            w.store(1, std::memory_order_release);
            syscall(SYS_futex, &w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
        }

        void record(uint32_t task, uint32_t call, uint32_t step, uint32_t target) {
            if (shared->ndec < MAXDEC)
                shared->dec[shared->ndec++] = {task, call, step, target};
        }
        void mix_event(uint64_t v) {
            ev_hash = mix(ev_hash, v);
        }
        int runnable(int except, int *out, bool with_blocked) {
            int n = 0;
            for (int i = 0; i < ntasks; ++i)
                if (i != except && !tasks[i]->finished && !tasks[i]->stalled && (with_blocked || !tasks[i]->blocked))
                    out[n++] = i;
            return n;
        }
        // Hands the processor to task t; returns when this task is scheduled again.
        void switch_to(int t, uint32_t step) {
            Task *me = self;
            shared->switches++;
            uint64_t key = (uint64_t(me->id) << 56) ^ (uint64_t(me->call) << 40) ^ (uint64_t(step) << 8) ^ uint64_t(t);
            mix_event(key);
            shared->inter_hash = mix(shared->inter_hash, key);
            if (me->in_op && step != STEP_END)
                shared->preemptions++;
            if (verbose)
                fprintf(stderr, "  [switch] task %d (call %u, step %u) -> task %d%s\n", me->id, me->call, step, t,
                        me->stalled ? " [stalled]" : "");
            me->since_switch = 0;
            futex_wake(tasks[t]->go);
            if (step != STEP_END)
                futex_wait(me->go);
        }
        // The schedule decision taken at a yield point.
        void yield_at(double p) {
            Task *me = self;
            me->step++;
            uint32_t step = me->step;
            if (plan->replay) {
                while (me->todo_at < me->todo.size()) {
                    const Decision &d = me->todo[me->todo_at];
                    if (d.call != me->call) {
                        break;
                    }
                    if (d.step > step)
                        break;
                    me->todo_at++;
                    if (d.step == step) {
                        uint32_t tgt = d.target & ~TARGET_STALL;
                        int cand[16], n = runnable(me->id, cand, true);
                        bool ok = false;
                        for (int i = 0; i < n; ++i)
                            ok |= cand[i] == int(tgt);
                        if (!ok)
                            return;
                        record(me->id, me->call, step, d.target);
                        if (d.target & TARGET_STALL) {
                            me->stalled = true;
                            shared->stalls++;
                            shared->fired[F_STALL]++;
                        }
                        switch_to(int(tgt), step);
                        return;
                    }
                }
                return;
            }
            if (p <= 0 || shared->ndec >= MAXDEC - 64)
                return;
            if (!rng.chance(p))
                return;
            int cand[16], n = runnable(me->id, cand, true);
            if (!n)
                return;
            int t = cand[rng.below(uint64_t(n))];
            bool stall = plan->p_stall > 0 && me->in_op && rng.chance(plan->p_stall);
            record(me->id, me->call, step, uint32_t(t) | (stall ? TARGET_STALL : 0));
            if (stall) {
                me->stalled = true;
                shared->stalls++;
                shared->fired[F_STALL]++;
            }
            switch_to(t, step);
        }
        // Unrecorded, counter driven: keeps spinning callers from starving the others.
        void fair_turn() {
            Task *me = self;
            int cand[16], n = runnable(me->id, cand, true);
            if (!n)
                return;
            int t = cand[0];
            for (int i = 0; i < n; ++i)
                if (cand[i] > me->id) {
                    t = cand[i];
                    break;
                }
            me->step++;
            switch_to(t, me->step);
        }
        // A caller that spins, sleeps or yields: the next one runs.
        void spin_turn() {
            Task *me = self;
            if (++me->blocks > 20 * BLOCK_BUDGET)
                violation("no-progress", "the call keeps waiting for another caller");
            fair_turn();
        }
        uint64_t sim_clock_ns = 0;
        // The task cannot continue until another one does something.
        void blocked_turn(const char *what) {
            Task *me = self;
            shared->blocked++;
            if (++me->blocks > BLOCK_BUDGET) {
                bool st = false;
                for (int i = 0; i < ntasks; ++i)
                    st |= tasks[i]->stalled;
                violation("no-progress", std::string("the call waits forever for another caller (") + what + ")" +
                                             (st ? " that is stopped in the middle of its own call" : ""));
            }
            int cand[16];
            me->blocked = true;
            int n = runnable(me->id, cand, false);
            if (!n)
                n = runnable(me->id, cand, true);
            if (!n) {
                bool st = false;
                for (int i = 0; i < ntasks; ++i)
                    st |= tasks[i]->stalled;
                violation("no-progress", std::string("the call can never finish: it waits (") + what + ")" +
                                             (st ? " for a caller that is stopped in the middle of its own call"
                                                 : " and no other caller can run"));
            }
            int t = cand[0];
            for (int i = 0; i < n; ++i)
                if (cand[i] > me->id) {
                    t = cand[i];
                    break;
                }
            me->step++;
            switch_to(t, me->step);
            me->blocked = false;
        }
        // When a task ends: who runs next.
        void task_end() {
            Task *me = self;
            me->finished = true;
            int cand[16], n = runnable(me->id, cand, true);
            if (!n) {
                // only stalled callers are left: they are slow, not dead; let them go on
                for (int i = 0; i < ntasks; ++i)
                    if (!tasks[i]->finished && tasks[i]->stalled) {
                        tasks[i]->stalled = false;
                        cand[n++] = i;
                    }
            }
            if (!n) {
                futex_wake(main_go);
                return;
            }
            int t = cand[0];
            if (plan->replay) {
                for (const Decision &d : plan->decisions)
                    if (d.task == uint32_t(me->id) && d.step == STEP_END) {
                        for (int i = 0; i < n; ++i)
                            if (cand[i] == int(d.target))
                                t = cand[i];
                    }
            } else
                t = cand[rng.below(uint64_t(n))];
            record(me->id, me->call, STEP_END, uint32_t(t));
            switch_to(t, STEP_END);
        }

        inline bool live() {
            return active && self && self->in_op;
        }
        enum AddrClass { A_STACK, A_OPERAND, A_GLOBAL, A_HEAP };
        inline AddrClass classify(const char *p, bool write) {
            Task *me = self;
            if (p >= me->lo && p < me->hi)
                return A_STACK;
            for (int i = 0; i < nranges; ++i)
                if (p >= ranges[i].p && p < ranges[i].p + ranges[i].n) {
                    if (write)
                        violation("operand-written", "a call wrote to an operand it only received for reading");
                    return A_OPERAND;
                }
            if (p >= &__executable_start && p < &_end)
                return p >= &__data_start ? A_GLOBAL : A_STACK;    // constants need no yield
            return A_HEAP;
        }
        inline void mem(const void *addr, bool write) {
            if (!live())
                return;
            AddrClass c = classify(static_cast<const char *>(addr), write);
            if (c == A_STACK)
                return;
            shared->mem_yields++;
            if (c == A_GLOBAL && write)
                note("write_to_global_state");
            yield_at(c == A_GLOBAL ? plan->p_global : c == A_OPERAND ? plan->p_operand : plan->p_heap);
        }
        void edge(void *pc) {
            if (!self || !self->in_op)
                return;
            Task *me = self;
            shared->edges++;
            uint32_t h = uint32_t((uint64_t(static_cast<char *>(pc) - &__executable_start) * 0x9e3779b97f4a7c15ull) >> 48);
            shared->cover[h >> 3] |= uint8_t(1u << (h & 7));
            if (++me->edges > EDGE_BUDGET) {
                me->in_op = false;    // what follows may run instrumented code of its own
                bool st = false;
                for (int i = 0; i < ntasks; ++i)
                    st |= tasks[i]->stalled;
                violation("no-progress",
                          st ? "the call keeps running without finishing while another caller is stopped mid-call"
                             : "the call keeps running without finishing");
            }
            if (!active)
                return;
            if (plan->edge_gap) {
                if (plan->replay)
                    yield_at(0);
                else if (me->edge_countdown == 0) {
                    me->edge_countdown = 1 + rng.below(2 * plan->edge_gap);
                    yield_at(1.0);
                } else {
                    me->edge_countdown--;
                    me->step++;
                }
            }
            if (++me->since_switch > FAIR_GAP) {
                me->since_switch = 0;
                fair_turn();
            }
        }

        void run_call(const Call &c) {
            Task *me = self;
            size_t bi = bundle_index.at(c.bundle);
            Bundle &b = *bundle_objs[bi];
            me->call = c.id;
            me->step = 0;
            me->edges = 0;
            me->blocks = 0;
            if (plan->replay) {
                me->todo_at = 0;
                while (me->todo_at < me->todo.size() && me->todo[me->todo_at].call != c.id)
                    me->todo_at++;
            }
            if (c.reseed) {
                b.renew(c.reseed);
                bundle_gen[bi]++;
            }
            if (verbose)
                fprintf(stderr, "[task %d] call %u: %s\n", me->id, c.id, b.describe().c_str());
            if (active)
                yield_at(plan->p_bound);
            bool faulty = c.fault != F_NONE && c.fault != F_STALL;
            uint32_t at = c.findex;
            if (faulty && (at & 0x80000000u)) {
                // Place the fault inside the call: count the points a fault-free call passes.
                memset(me->points, 0, sizeof me->points);
                b.exec(false);
                uint64_t n = me->points[c.fault];
                at &= 0x7fffffffu;
                if (!n)
                    faulty = false;
                else if ((at & 3) == 0)
                    at = uint32_t((at >> 2) % (n < 4 ? n : 4));
                else
                    at = uint32_t((at >> 2) % n);
            }
            uint64_t spent = 0;    // very long repetitions of long calls end early
            for (uint32_t rep = 0; rep < c.repeat && (rep < 1200 || spent < 30000000); ++rep) {
                spent += me->edges;
                me->edges = 0;
                if (faulty) {
                    shared->configured[c.fault]++;
                    arm(FaultKind(c.fault), at, c.id * 1000003ull + rep);
                }
                shared->calls++;
                Outcome o = b.exec(faulty);
                bool fired = fault_fired();
                disarm();
                if (faulty && fired) {
                    shared->fired[c.fault]++;
                    if (verbose)
                        fprintf(stderr, "  [fault] %s fired, outcome %s\n", fault_names[c.fault],
                                o.faulted ? "failure reached the caller" : "absorbed");
                    me->edges = 0;
                    shared->retries++;
                    o = b.exec(false);
                } else
                    shared->fault_free_calls++;
                if (o.raised)
                    shared->refused++;
                uint64_t h = 1469598103934665603ull;
                for (char ch : o.bits)
                    h = (h ^ uint8_t(ch)) * 1099511628211ull;
                mix_event(h ^ (uint64_t(c.id) << 32) ^ (o.raised ? 1 : 0) ^ (fired ? 2 : 0));
                LastBits &lb = last_bits[bi];
                if (!lb.have || lb.gen != bundle_gen[bi]) {
                    lb = {true, bundle_gen[bi], o.bits, o.raised};
                } else if (lb.bits != o.bits || lb.raised != o.raised)
                    violation("not-repeatable", "two identical calls gave different answers: " + b.describe());
            }
            std::string why;
            if (!b.intact(why))
                violation("operand-changed", "an operand changed: " + why + " in " + b.describe());
        }

        void *task_main(void *arg) {
            Task *me = static_cast<Task *>(arg);
            self = me;
            pthread_attr_t at;
            pthread_getattr_np(pthread_self(), &at);
            void *base;
            size_t sz;
            pthread_attr_getstack(&at, &base, &sz);
            pthread_attr_destroy(&at);
            me->lo = static_cast<char *>(base);
            me->hi = me->lo + sz;
            futex_wait(me->go);
            for (const Call &c : *me->calls)
                run_call(c);
            task_end();
            return nullptr;
        }
    }    // namespace

    bool wild_values = false;
    namespace {
        struct FaultTag {
            uint64_t serial;
        };
        template<typename Base>
        struct FaultOf : Base, FaultTag {
            template<typename... A>
            explicit FaultOf(uint64_t s, A... a) : Base(a...), FaultTag {s} {
            }
        };
        struct FaultPlain : FaultTag {
            explicit FaultPlain(uint64_t s) : FaultTag {s} {
            }
        };
        const char fault_text[] = "injected failure";
        enum class FaultCode : int {};
        [[noreturn]] void throw_fault(uint64_t serial) {
            switch (mix(serial, 0x7e) % 7) {
                case 0:
                    throw FaultOf<std::runtime_error>(serial, "injected failure");
                case 1:
                    throw FaultOf<std::bad_alloc>(serial);
                case 2:
                    throw FaultOf<std::out_of_range>(serial, "injected failure");
                case 3:
                    throw static_cast<const char *>(fault_text);
                case 4:
                    throw FaultCode(int(serial));
                case 5:
                    throw FaultOf<std::exception>(serial);
                default:
                    throw FaultPlain(serial);
            }
        }
    }    // namespace
    Caught classify() {
        try {
            throw;
        } catch (const FaultTag &f) {
            return f.serial == self->fserial ? C_FAULT : C_OTHER;
        } catch (FaultCode c) {
            return int(c) == int(self->fserial) ? C_FAULT : C_OTHER;
        } catch (const char *p) {
            return p == fault_text ? C_FAULT : C_OTHER;
        } catch (const std::bad_alloc &) {
            return C_ALLOC;
        } catch (...) {
            return C_OTHER;
        }
    }
    bool fault_point(FaultKind k) {
        Task *t = self;
        if (!t || !t->in_op)
            return false;
        t->points[k]++;
        if (t->fired) {
            t->after[k]++;
            return false;
        }
        if (t->fk != k)
            return false;
        if (t->findex-- != 0)
            return false;
        t->fired = true;
        t->fk = F_NONE;
        mix_event(0xfa17 ^ (uint64_t(k) << 20));
        if (k != F_ALLOC && k != F_STALL)
            throw_fault(t->fserial);
        return true;
    }
    void arm(FaultKind k, uint32_t index, uint64_t serial) {
        Task *t = self;
        t->fk = k;
        t->findex = index;
        t->fserial = serial;
        t->fired = false;
        memset(t->after, 0, sizeof t->after);
    }
    void disarm() {
        self->fk = F_NONE;
        self->fired = false;
    }
    bool fault_fired() {
        return self->fired;
    }
    uint64_t fault_calls_after_fire(FaultKind k) {
        return self->after[k];
    }
    uint64_t armed_serial() {
        return self->fserial;
    }
    Account &account() {
        return self->acc;
    }
    void op_enter() {
        self->in_op = true;
    }
    void op_leave() {
        self->in_op = false;
    }
    bool op_active() {
        return self && self->in_op;
    }
    Quiet::Quiet() : was(self && self->in_op) {
        if (self)
            self->in_op = false;
    }
    Quiet::~Quiet() {
        if (self)
            self->in_op = was;
    }
    void note(const char *probe) {
        for (auto &p : shared->probes) {
            if (!p.name[0])
                strncpy(p.name, probe, sizeof p.name - 1);
            if (!strncmp(p.name, probe, sizeof p.name - 1)) {
                p.n++;
                return;
            }
        }
    }
    void yield_here() {
        if (active && self && !self->finished)
            yield_at(plan->p_heap > plan->p_operand ? plan->p_heap : plan->p_operand);
    }
    void event(uint64_t v) {
        mix_event(v);
    }
    void trace(const std::string &line) {
        if (verbose)
            fprintf(stderr, "  %s\n", line.c_str());
    }
    void violation(const std::string &cls, const std::string &msg) {
        shared->status = S_VIOLATION;
        strncpy(shared->cls, cls.c_str(), sizeof shared->cls - 1);
        strncpy(shared->msg, msg.c_str(), sizeof shared->msg - 1);
        mix_event(0xbad);
        shared->hash = ev_hash;
        _exit(70);
    }
    void protect(const void *p, std::size_t n) {
        if (nranges < 256)
            ranges[nranges++] = {static_cast<const char *>(p), n};
    }
    void unprotect(const void *p) {
        for (int i = 0; i < nranges; ++i)
            if (ranges[i].p == p) {
                ranges[i] = ranges[--nranges];
                return;
            }
    }
    std::vector<OpDef> &ops() {
        static std::vector<OpDef> v;
        return v;
    }

    // ------------------------------------------------ heap cells of the Heap scalar
    struct Cell {
        uint64_t magic;
        double v;
    };
    constexpr uint64_t MAGIC = 0x5ce11a11ce11ull;
    void *cell_new(double v) {
        Cell *c = static_cast<Cell *>(malloc(sizeof(Cell)));
        c->magic = MAGIC;
        c->v = v;
        if (self)
            self->acc.live_cells++;
        return c;
    }
    void cell_free(void *p) {
        if (!p)
            return;
        Cell *c = static_cast<Cell *>(p);
        if (c->magic != MAGIC)
            violation("element-lifetime", "an element was destroyed twice, or one that was never made was destroyed");
        c->magic = 0;
        if (self)
            self->acc.live_cells--;
        free(c);
    }
    double cell_get(const void *p) {
        if (!p)
            violation("element-lifetime", "an element was read after it had been moved from");
        const Cell *c = static_cast<const Cell *>(p);
        if (c->magic != MAGIC)
            violation("element-lifetime", "an element was read after it had been destroyed");
        return c->v;
    }
    void cell_set(void *p, double v) {
        Cell *c = static_cast<Cell *>(p);
        if (!p || c->magic != MAGIC)
            violation("element-lifetime", "an element was assigned after it had been destroyed");
        c->v = v;
    }

    void run_plan(const Plan &p) {
        plan = &p;
        wild_values = p.wild;
        self = &main_task;
        pthread_attr_t at;
        pthread_getattr_np(pthread_self(), &at);
        void *base;
        size_t sz;
        pthread_attr_getstack(&at, &base, &sz);
        pthread_attr_destroy(&at);
        main_task.lo = static_cast<char *>(base);
        main_task.hi = main_task.lo + sz;
        main_task.id = 15;
        rng = Rng(p.sched_seed);
        ev_hash = mix(p.seed, 0x5eed);
        static std::map<std::string, const OpDef *> by_name;
        if (by_name.empty())
            for (const OpDef &o : ops())
                by_name[o.name] = &o;
        for (const BundleSpec &b : p.bundles) {
            auto it = by_name.find(b.op);
            if (it == by_name.end()) {
                shared->status = S_INTERNAL;
                snprintf(shared->msg, sizeof shared->msg, "unknown op %s", b.op.c_str());
                _exit(72);
            }
            size_t idx = size_t(it->second - ops().data());
            shared->opcover[(idx >> 3) & 2047] |= uint8_t(1u << (idx & 7));
            bundle_index[b.id] = bundle_objs.size();
            bundle_objs.push_back(it->second->make(b.seed));
            bundle_gen.push_back(0);
            last_bits.emplace_back();
        }
        ntasks = int(p.tasks.size());
        for (int i = 0; i < ntasks; ++i) {
            tasks[i] = new Task;
            tasks[i]->id = i;
            tasks[i]->calls = &p.tasks[size_t(i)];
            if (p.edge_gap)
                tasks[i]->edge_countdown = 1 + rng.below(2 * p.edge_gap);
            if (p.replay)
                for (const Decision &d : p.decisions)
                    if (d.task == uint32_t(i) && d.step != STEP_END)
                        tasks[i]->todo.push_back(d);
            pthread_attr_t ta;
            pthread_attr_init(&ta);
            pthread_attr_setstacksize(&ta, 4 << 20);
            if (pthread_create(&tasks[i]->th, &ta, task_main, tasks[i])) {
                shared->status = S_INTERNAL;
                strcpy(shared->msg, "pthread_create failed");
                _exit(72);
            }
            pthread_attr_destroy(&ta);
        }
        if (ntasks) {
            active = ntasks > 1;
            int first = p.replay ? 0 : int(rng.below(uint64_t(ntasks)));
            if (p.replay)
                for (const Decision &d : p.decisions)
                    if (d.task == 14)
                        first = int(d.target) < ntasks ? int(d.target) : 0;
            record(14, 0, 0, uint32_t(first));
            futex_wake(tasks[first]->go);
            futex_wait(main_go);
            active = false;
            for (int i = 0; i < ntasks; ++i)
                pthread_join(tasks[i]->th, nullptr);
        }
        // Quiescent re-run: the answer given among other callers must be the answer given alone.
        for (size_t i = 0; i < bundle_objs.size(); ++i) {
            if (!last_bits[i].have)
                continue;
            Bundle &b = *bundle_objs[i];
            std::string why;
            if (!b.intact(why))
                violation("operand-changed", "an operand changed: " + why + " in " + b.describe());
            main_task.edges = 0;
            main_task.call = 0xfffe;
            Outcome o = b.exec(false);
            if (o.bits != last_bits[i].bits || o.raised != last_bits[i].raised)
                violation("history-dependent",
                          "the same call, repeated alone after the run, gives a different answer: " + b.describe());
        }
        shared->hash = ev_hash;
        shared->status = S_OK;
    }
}    // namespace sim

using namespace sim;

// ---------------------------------------------------------------- instrumentation callbacks
extern "C" {
void __sanitizer_cov_trace_pc() {
    sim::edge(__builtin_return_address(0));
}
#ifdef SIM_TSAN
void __tsan_init() {
}
void __tsan_func_entry(void *) {
}
void __tsan_func_exit() {
}
#define RW(n)                                 \
    void __tsan_read##n(void *p) {            \
        sim::mem(p, false);                   \
    }                                         \
    void __tsan_write##n(void *p) {           \
        sim::mem(p, true);                    \
    }                                         \
    void __tsan_unaligned_read##n(void *p) {  \
        sim::mem(p, false);                   \
    }                                         \
    void __tsan_unaligned_write##n(void *p) { \
        sim::mem(p, true);                    \
    }                                         \
    void __tsan_read_write##n(void *p) {      \
        sim::mem(p, true);                    \
    }                                         \
    void __tsan_unaligned_read_write##n(void *p) { \
        sim::mem(p, true);                    \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long) {
    sim::mem(p, false);
}
void __tsan_write_range(void *p, unsigned long) {
    sim::mem(p, true);
}
void __tsan_vptr_update(void **p, void *) {
    sim::mem(p, true);
}
void __tsan_vptr_read(void **p) {
    sim::mem(p, false);
}
// Bulk copies are split, so that another caller can run in the middle of one.
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
    sim::mem(s, false);
    if (n)
        sim::mem(d, true);
    if (sim::live() && n > 16) {
        unsigned long h = n / 2;
        memcpy(d, s, h);
        sim::mem(static_cast<const char *>(s) + h, false);
        sim::mem(static_cast<char *>(d) + h, true);
        memcpy(static_cast<char *>(d) + h, static_cast<const char *>(s) + h, n - h);
        return d;
    }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
    sim::mem(s, false);
    if (n)
        sim::mem(d, true);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n) {
    if (n)
        sim::mem(d, true);
    return memset(d, c, n);
}
#define ATOM(sz, T)                                                                                        \
    T __tsan_atomic##sz##_load(const volatile T *a, int) {                                                 \
        sim::mem(const_cast<const T *>(a), false);                                                         \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                      \
    void __tsan_atomic##sz##_store(volatile T *a, T v, int) {                                              \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                          \
    }                                                                                                      \
    T __tsan_atomic##sz##_exchange(volatile T *a, T v, int) {                                              \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                \
    }                                                                                                      \
    T __tsan_atomic##sz##_fetch_add(volatile T *a, T v, int) {                                             \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                                      \
    T __tsan_atomic##sz##_fetch_sub(volatile T *a, T v, int) {                                             \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                                      \
    T __tsan_atomic##sz##_fetch_and(volatile T *a, T v, int) {                                             \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                                      \
    T __tsan_atomic##sz##_fetch_or(volatile T *a, T v, int) {                                              \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                                      \
    T __tsan_atomic##sz##_fetch_xor(volatile T *a, T v, int) {                                             \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                                      \
    int __tsan_atomic##sz##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                  \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);            \
    }                                                                                                      \
    int __tsan_atomic##sz##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                    \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);            \
    }                                                                                                      \
    T __tsan_atomic##sz##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                        \
        sim::mem(const_cast<const T *>(a), true);                                                          \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
        return c;                                                                                          \
    }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned int)
ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {
}
void __tsan_atomic_signal_fence(int) {
}
#endif

// ---------------------------------------------------------------- locks and one-time initialisation
// Inside the simulator a caller that has to wait hands the processor on instead of blocking for real.
static int (*real_lock)(pthread_mutex_t *);
static int (*real_try)(pthread_mutex_t *);
__attribute__((constructor)) static void sim_resolve() {
    real_lock = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    real_try = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (!real_lock)
        sim_resolve();
    if (!sim::op_active())
        return real_lock(m);
    sim::yield_at(sim::plan->p_global);
    for (;;) {
        int r = real_try(m);
        if (r != EBUSY)
            return r;
        sim::blocked_turn("lock");
    }
}
#define SIM_REAL2(ret, name, args) static auto real2 = reinterpret_cast<ret(*) args>(dlsym(RTLD_NEXT, #name))
#define SIM_REAL(ret, name, args) static auto real = reinterpret_cast<ret(*) args>(dlsym(RTLD_NEXT, #name))
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept {
    SIM_REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *));
    SIM_REAL2(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t *));
    if (!sim::op_active())
        return real(l);
    sim::yield_at(sim::plan->p_global);
    for (;;) {
        int r = real2(l);
        if (r != EBUSY)
            return r;
        sim::blocked_turn("shared lock");
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept {
    SIM_REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *));
    SIM_REAL2(int, pthread_rwlock_trywrlock, (pthread_rwlock_t *));
    if (!sim::op_active())
        return real(l);
    sim::yield_at(sim::plan->p_global);
    for (;;) {
        int r = real2(l);
        if (r != EBUSY)
            return r;
        sim::blocked_turn("exclusive lock");
    }
}
// Waiting on a condition: the lock is given up, others run, and the waiter wakes up spuriously.
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    SIM_REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *));
    if (!sim::op_active())
        return real(c, m);
    pthread_mutex_unlock(m);
    sim::blocked_turn("condition");
    return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) {
    SIM_REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const timespec *));
    if (!sim::op_active())
        return real(c, m, t);
    pthread_mutex_unlock(m);
    sim::blocked_turn("condition");
    pthread_mutex_lock(m);
    return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *t) {
    return pthread_cond_timedwait(c, m, t);
}
int sched_yield() noexcept {
    if (sim::op_active())
        sim::spin_turn();
    return 0;
}
// Sleeping advances the simulated clock and lets the others run.
int nanosleep(const timespec *t, timespec *rem) {
    SIM_REAL(int, nanosleep, (const timespec *, timespec *));
    if (!sim::op_active())
        return real(t, rem);
    sim::sim_clock_ns += uint64_t(t->tv_sec) * 1000000000ull + uint64_t(t->tv_nsec);
    sim::spin_turn();
    return 0;
}
int clock_nanosleep(clockid_t, int, const timespec *t, timespec *rem) {
    return nanosleep(t, rem);
}
int usleep(useconds_t us) {
    timespec t {time_t(us / 1000000), long(us % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
// Clocks inside a call are simulated and jump, forwards and backwards.
static uint64_t sim_now() {
    sim::note("clock_read_inside_a_call");
    uint64_t h = sim::mix(sim::plan->seed, sim::shared->edges / 64);
    uint64_t t = 1700000000000000000ull + sim::sim_clock_ns + sim::shared->edges * 10;
    if (h % 5 == 0)
        t += (h >> 8) % 100000000000ull;
    else if (h % 5 == 1)
        t -= (h >> 8) % 100000000000ull;
    return t;
}
int clock_gettime(clockid_t id, timespec *t) noexcept {
    SIM_REAL(int, clock_gettime, (clockid_t, timespec *));
    if (!sim::op_active())
        return real(id, t);
    uint64_t n = sim_now();
    t->tv_sec = time_t(n / 1000000000ull);
    t->tv_nsec = long(n % 1000000000ull);
    return 0;
}
int gettimeofday(timeval *t, void *z) noexcept {
    SIM_REAL(int, gettimeofday, (timeval *, void *));
    if (!sim::op_active())
        return real(t, z);
    uint64_t n = sim_now();
    t->tv_sec = time_t(n / 1000000000ull);
    t->tv_usec = long(n % 1000000000ull / 1000);
    return 0;
}
time_t time(time_t *out) noexcept {
    SIM_REAL(time_t, time, (time_t *));
    if (!sim::op_active())
        return real(out);
    time_t v = time_t(sim_now() / 1000000000ull);
    if (out)
        *out = v;
    return v;
}
int pthread_once(pthread_once_t *once, void (*fn)(void)) {
    // states: 0 = fresh, 1 = running, 2 = done
    int *s = reinterpret_cast<int *>(once);
    for (;;) {
        if (sim::op_active())
            sim::yield_at(sim::plan->p_global);
        if (*s == 2)
            return 0;
        if (*s == 0) {
            *s = 1;
            try {
                fn();
            } catch (...) {
                *s = 0;
                throw;
            }
            *s = 2;
            return 0;
        }
        if (!sim::op_active())
            return 0;
        sim::blocked_turn("one-time initialisation");
    }
}
// Itanium ABI guards: byte 0 = initialised, byte 1 = in progress.
int __cxa_guard_acquire(uint64_t *g) {
    unsigned char *b = reinterpret_cast<unsigned char *>(g);
    for (;;) {
        if (sim::op_active())
            sim::yield_at(sim::plan->p_global);
        if (b[0])
            return 0;
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        if (!sim::op_active()) {
            fprintf(stderr, "recursive initialisation\n");
            abort();
        }
        sim::blocked_turn("static initialisation");
    }
}
void __cxa_guard_release(uint64_t *g) {
    unsigned char *b = reinterpret_cast<unsigned char *>(g);
    if (sim::op_active())
        sim::yield_at(sim::plan->p_global);
    b[0] = 1;
    b[1] = 0;
}
void __cxa_guard_abort(uint64_t *g) {
    reinterpret_cast<unsigned char *>(g)[1] = 0;
}
}

// ---------------------------------------------------------------- allocation seam
static void *sim_new(size_t n, bool nothrow) {
    Task *t = sim::self;
    if (t && t->in_op) {
        if (!nothrow && sim::fault_point(sim::F_ALLOC))
            throw std::bad_alloc();
        t->acc.live_allocs++;
    }
    void *p = malloc(n ? n + 16 : 17);
    if (!p)
        abort();
    *static_cast<uint64_t *>(p) = t && t->in_op ? 0xa110c001 : 0xa110c000;
    return static_cast<char *>(p) + 16;
}
static void sim_delete(void *p) {
    if (!p)
        return;
    char *b = static_cast<char *>(p) - 16;
    uint64_t tag = *reinterpret_cast<uint64_t *>(b);
    Task *t = sim::self;
    if (tag == 0xa110c001) {
        if (t)
            t->acc.live_allocs--;
    } else if (tag != 0xa110c000)
        sim::violation("memory", "memory released twice, or memory that was never allocated was released");
    *reinterpret_cast<uint64_t *>(b) = 0xdead;
    free(b);
}
void *operator new(size_t n) {
    return sim_new(n, false);
}
void *operator new[](size_t n) {
    return sim_new(n, false);
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
    return sim_new(n, true);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
    return sim_new(n, true);
}
void operator delete(void *p) noexcept {
    sim_delete(p);
}
void operator delete[](void *p) noexcept {
    sim_delete(p);
}
void operator delete(void *p, size_t) noexcept {
    sim_delete(p);
}
void operator delete[](void *p, size_t) noexcept {
    sim_delete(p);
}
void operator delete(void *p, const std::nothrow_t &) noexcept {
    sim_delete(p);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept {
    sim_delete(p);
}
