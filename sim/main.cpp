// Command line of the simulator binary.  Not instrumented.
//   sim list
//   sim explore PROP SEED FROM TO SECONDS OUTDIR TIER
//   sim replay PLANFILE [--verbose]
#include "internal.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

namespace {
    double now() {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
    }
    const OpDef &pick(Rng &r, const std::vector<const OpDef *> &pool) {
        uint64_t total = 0;
        for (auto *o : pool)
            total += uint64_t(o->weight);
        uint64_t k = r.below(total);
        for (auto *o : pool) {
            if (k < uint64_t(o->weight))
                return *o;
            k -= uint64_t(o->weight);
        }
        return *pool[0];
    }
    std::vector<const OpDef *> having(unsigned any, unsigned none = 0) {
        std::vector<const OpDef *> v;
        for (const OpDef &o : ops())
            if ((!any || (o.tags & any)) && !(o.tags & none))
                v.push_back(&o);
        return v;
    }
    // The swarm: every run draws its own mix of schedule, workload and fault settings.
    void schedule(Rng &r, Plan &p, bool stalls) {
        p.sched_seed = r.next();
        p.p_bound = r.below(2) ? 0.5 : 0.1;
        switch (r.below(6)) {
            case 0:
                p.p_global = 1.0;
                break;
            case 1:
                p.p_global = 0.3;
                p.p_operand = 0.01;
                break;
            case 2:
                p.p_global = 0.2;
                p.p_operand = r.below(2) ? 0.3 : 0.05;
                break;
            case 3:
                p.p_global = 0.2;
                p.p_heap = 0.2;
                p.p_operand = 0.02;
                break;
            case 4:
                p.p_global = 0.5;
                p.edge_gap = uint32_t(3 + r.below(30));
                break;
            default:
                p.p_global = 0.5;
                p.edge_gap = uint32_t(20 + r.below(3000));
                break;
        }
        if (stalls)
            p.p_stall = r.below(2) ? 0.2 : 0.7;
    }
    int fault_for(Rng &r, const OpDef &o) {
        int k[8], n = 0;
        if (o.tags & T_THROWING)
            k[n++] = F_ELEM;
        if (o.tags & T_CALLBACK)
            k[n++] = F_CALLBACK;
        if (o.tags & T_ALLOC)
            k[n++] = F_ALLOC;
        if (o.tags & T_RANDOM)
            k[n++] = F_ENTROPY;
        if (o.tags & T_STREAM)
            k[n++] = F_STREAM;
        if (!n)
            return F_ALLOC;    // a library call that starts to allocate must cope as well
        return k[r.below(uint64_t(n))];
    }
    Plan make_plan(const std::string &prop, uint64_t seed, bool deep) {
        Rng r(seed);
        Plan p;
        p.prop = prop;
        p.seed = seed;
        std::vector<const OpDef *> pool;
        int ntasks = 1, calls_lo = 1, calls_hi = 6;
        double p_fault = 0, p_reseed = 0, p_repeat = 0;
        uint32_t max_repeat = 1;
        bool stalls = false;
        const unsigned B = T_FIELD | T_POINT | T_PAIRING | T_RANDOM | T_MARSHAL | T_STREAM | T_MULTIEXP;
        int nops = r.below(2) ? 1 : r.range(1, 4);
        if (prop == "C01") {
            pool = having(0, B | T_HISTORY | T_GROUP);
            if (r.below(5) == 0)
                pool = having(T_HISTORY);
            ntasks = r.range(2, 4);
            p_reseed = r.below(3) ? 0 : 0.3;
        } else if (prop == "C02") {
            pool = having(T_THROWING | T_CALLBACK | T_ALLOC, B | T_GROUP);
            if (r.below(8) == 0)
                pool = having(0, B | T_GROUP);    // allocations the call should not need
            ntasks = r.below(2) ? 1 : r.range(2, 3);
            p_fault = r.below(4) ? 0.6 : 1.0;
            p_reseed = 0.2;
            calls_hi = 8;
        } else if (prop == "C03") {
            pool = having(T_CALLBACK, B);
            ntasks = r.below(2) ? 1 : r.range(2, 3);
            p_fault = r.below(2) ? 0 : 0.4;
            p_reseed = 0.3;
            calls_hi = 8;
        } else if (prop == "C04") {
            pool = having(0, B | T_GROUP);
            if (r.below(4) == 0)
                pool = having(T_HISTORY);
            ntasks = r.below(4) ? 1 : 2;
            calls_lo = 4;
            calls_hi = deep ? 60 : 30;
            p_fault = r.below(2) ? 0.15 : 0;
            p_reseed = 0.5;
            p_repeat = r.below(3) ? 0.1 : 0.5;
            max_repeat = r.below(6) ? 6 : r.below(2) ? 300 : 1200;
            nops = r.range(1, 6);
            if (r.below(50) == 0) {    // a very long one
                pool = having(0, B | T_GROUP | T_SLOW);
                ntasks = nops = 1;
                calls_lo = 2;
                calls_hi = 4;
                p_fault = 0;
                p_repeat = 0.8;
                max_repeat = 160000;
            }
        } else if (prop == "C05") {
            pool = having(0, B | T_GROUP);
            if (r.below(2))
                pool = having(T_ITER | T_SLOW, B | T_GROUP);
            ntasks = r.below(4) ? r.range(2, 4) : 1;
            stalls = true;
            p.wild = r.below(3) == 0;
            p_fault = r.below(4) ? 0 : 0.3;
            p_reseed = 0.3;
        } else if (prop == "C06") {
            pool = having(T_REJECT, B | T_GROUP);
            ntasks = r.below(2) ? 1 : r.range(2, 3);
            p_reseed = 0.6;
            calls_lo = 3;
            calls_hi = 14;
            nops = r.range(1, 4);
            p_fault = r.below(4) ? 0 : 0.15;
        } else if (prop == "C07") {
            pool = having(T_GROUP);
            ntasks = r.below(4) ? r.range(2, 4) : 1;
            p_fault = r.below(2) ? 0 : 0.3;
            p_reseed = 0.3;
            if (r.below(3) == 0) {    // a history
                ntasks = r.range(1, 2);
                calls_lo = 4;
                calls_hi = 24;
                p_reseed = 0.6;
                p_repeat = 0.3;
                max_repeat = r.below(6) ? 6 : 300;
            }
            stalls = r.below(4) == 0;
        } else {
            unsigned want = prop == "C08" ? T_RANDOM : prop == "C09" ? T_FIELD : prop == "C10" ? T_POINT :
                            prop == "C11" ? T_PAIRING : prop == "C12" ? T_MULTIEXP : prop == "C13" ? T_MARSHAL : T_STREAM;
            pool = having(want);
            ntasks = r.below(3) ? r.range(2, 4) : 1;
            p_fault = prop == "C09" || prop == "C10" || prop == "C13" ? 0 : prop == "C11" ? 0.15 : 0.5;
            p_reseed = 0.3;
            calls_hi = 8;
            if (r.below(3) == 0) {    // a history
                ntasks = r.range(1, 2);
                calls_lo = 4;
                calls_hi = 20;
                p_reseed = 0.6;
                p_repeat = 0.2;
                max_repeat = r.below(6) ? 6 : 100;
            }
            stalls = r.below(5) == 0;
        }
        if (pool.empty())
            return p;
        bool adjacent = r.below(3) == 0;    // ops registered next to each other share templates
        const OpDef *lead = nullptr;
        uint32_t nid = 0;
        std::vector<const OpDef *> of;
        for (int k = 0; k < nops; ++k) {
            const OpDef *o = &pick(r, pool);
            if (adjacent && lead) {
                size_t at = 0;
                while (at < pool.size() && pool[at] != lead)
                    ++at;
                at = (at + 1 + r.below(6)) % pool.size();
                o = pool[at];
            }
            lead = o;
            int nb = r.range(1, ntasks > 1 ? 3 : 2);
            for (int b = 0; b < nb; ++b) {
                p.bundles.push_back({nid++, o->name, r.next()});
                of.push_back(o);
            }
        }
        // A bundle that gets new operand values belongs to one task; the others are shared by all.
        std::vector<int> owner(p.bundles.size(), -1);
        for (size_t i = 0; i < owner.size(); ++i)
            if (r.chance(p_reseed))
                owner[i] = int(r.below(uint64_t(ntasks)));
        uint32_t cid = 1;
        p.tasks.resize(size_t(ntasks));
        for (int t = 0; t < ntasks; ++t) {
            int n = r.range(calls_lo, calls_hi);
            std::vector<uint32_t> mine;
            for (size_t i = 0; i < owner.size(); ++i)
                if (owner[i] < 0 || owner[i] == t)
                    mine.push_back(uint32_t(i));
            if (mine.empty())
                continue;
            for (int k = 0; k < n; ++k) {
                Call c;
                c.id = cid++;
                c.bundle = mine[r.below(mine.size())];
                const OpDef &o = *of[c.bundle];
                if (owner[c.bundle] == t && r.below(2))
                    c.reseed = r.next() | 1;
                if (r.chance(p_repeat) && !(o.tags & T_SLOW))
                    c.repeat = 1 + uint32_t(r.below(max_repeat));
                if (r.chance(p_fault)) {
                    c.fault = fault_for(r, o);
                    c.findex = 0x80000000u | uint32_t(r.next() & 0x7fffffff);
                }
                p.tasks[size_t(t)].push_back(c);
            }
        }
        schedule(r, p, stalls);
        return p;
    }

    void save_plan(FILE *f, const Plan &p, const Shared *s) {
        fprintf(f, "prop %s\nseed %llu\n", p.prop.c_str(), (unsigned long long)p.seed);
        fprintf(f, "tasks %zu\n", p.tasks.size());
        fprintf(f, "sched %llu %.17g %.17g %.17g %.17g %u %.17g\n", (unsigned long long)p.sched_seed, p.p_global,
                p.p_operand, p.p_heap, p.p_bound, p.edge_gap, p.p_stall);
        fprintf(f, "wild %d\n", int(p.wild));
        for (auto &b : p.bundles)
            fprintf(f, "bundle %u %llu %s\n", b.id, (unsigned long long)b.seed, b.op.c_str());
        for (size_t t = 0; t < p.tasks.size(); ++t)
            for (auto &c : p.tasks[t])
                fprintf(f, "call %zu %u %u %llu %u %d %u\n", t, c.id, c.bundle, (unsigned long long)c.reseed, c.repeat,
                        c.fault, c.findex);
        if (s)
            for (uint32_t i = 0; i < s->ndec; ++i)
                fprintf(f, "dec %u %u %u %u\n", s->dec[i].task, s->dec[i].call, s->dec[i].step, s->dec[i].target);
        fprintf(f, "end\n");
    }
    Plan load_plan(const char *path) {
        Plan p;
        p.replay = true;
        std::ifstream in(path);
        std::string line;
        bool end = false;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "prop")
                is >> p.prop;
            else if (k == "seed")
                is >> p.seed;
            else if (k == "tasks") {
                size_t n = 0;
                is >> n;
                p.tasks.resize(n);
            } else if (k == "sched")
                is >> p.sched_seed >> p.p_global >> p.p_operand >> p.p_heap >> p.p_bound >> p.edge_gap >> p.p_stall;
            else if (k == "wild")
                is >> p.wild;
            else if (k == "bundle") {
                BundleSpec b;
                is >> b.id >> b.seed;
                std::getline(is, b.op);
                while (!b.op.empty() && b.op[0] == ' ')
                    b.op.erase(0, 1);
                p.bundles.push_back(b);
            } else if (k == "call") {
                size_t t;
                Call c;
                is >> t >> c.id >> c.bundle >> c.reseed >> c.repeat >> c.fault >> c.findex;
                p.tasks.at(t).push_back(c);
            } else if (k == "dec") {
                Decision d;
                is >> d.task >> d.call >> d.step >> d.target;
                p.decisions.push_back(d);
            } else if (k == "end")
                end = true;
        }
        if (!end) {
            fprintf(stderr, "incomplete plan file %s\n", path);
            exit(3);
        }
        return p;
    }

    struct Result {
        int status = 0;    // 0 ok, 1 violation, 2 internal
        std::string cls, msg;
    };
    int errfd = -1;
    template<typename Fn>
    Result in_child(Fn body) {
        memset(shared, 0, offsetof(Shared, ndec) + sizeof shared->ndec);
        memset(shared->probes, 0, sizeof shared->probes);
        memset(shared->cover, 0, sizeof shared->cover);
        memset(shared->opcover, 0, sizeof shared->opcover);
        if (errfd >= 0 && !verbose) {
            if (ftruncate(errfd, 0)) {
            }
            lseek(errfd, 0, SEEK_SET);
        }
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            exit(3);
        }
        if (pid == 0) {
            if (errfd >= 0 && !verbose)
                dup2(errfd, 2);
            alarm(180);
            body();
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        Result res;
        if (shared->status == S_OK && WIFEXITED(st) && WEXITSTATUS(st) == 0)
            return res;
        if (shared->status == S_VIOLATION) {
            res.status = 1;
            res.cls = shared->cls;
            res.msg = shared->msg;
            return res;
        }
        if (shared->status == S_INTERNAL) {
            res.status = 2;
            res.cls = "internal";
            res.msg = shared->msg;
            return res;
        }
        res.status = 1;
        res.cls = "crash";
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
            res.cls = "hang";
        char buf[16384] = "";
        if (errfd >= 0 && !verbose) {
            ssize_t n = pread(errfd, buf, sizeof buf - 1, 0);
            buf[n > 0 ? n : 0] = 0;
        }
        std::string text(buf);
        std::string first;
        for (const char *key : {"ERROR: ", "runtime error: ", "terminate called", "assertion", "Assertion"}) {
            size_t at = text.find(key);
            if (at != std::string::npos) {
                first = text.substr(at, text.find('\n', at) - at);
                break;
            }
        }
        for (char &c : first)
            if (c == '\r')
                c = ' ';
        res.msg = (WIFSIGNALED(st) ? "the process was ended by signal " + std::to_string(WTERMSIG(st)) :
                                     "the process ended with status " + std::to_string(WEXITSTATUS(st))) +
                  (first.empty() ? "" : " - " + first);
        shared->hash = 0;
        return res;
    }
    void or_bits(std::vector<uint8_t> &a, const uint8_t *b) {
        for (size_t i = 0; i < a.size(); ++i)
            a[i] |= b[i];
    }
    size_t popcount(const std::vector<uint8_t> &a) {
        size_t n = 0;
        for (uint8_t x : a)
            n += size_t(__builtin_popcount(x));
        return n;
    }
    std::string esc(const std::string &s) {
        std::string o;
        for (char c : s)
            if (c == '"' || c == '\\') {
                o += '\\';
                o += c;
            } else if (uint8_t(c) < 32)
                o += ' ';
            else
                o += c;
        return o;
    }

    int explore(char **a) {
        std::string prop = a[0];
        uint64_t seed = strtoull(a[1], nullptr, 10);
        long from = atol(a[2]), to = atol(a[3]);
        double limit = atof(a[4]);
        std::string out = a[5];
        bool deep = !strcmp(a[6], "thorough");
        uint64_t ph = 0;
        for (char c : prop)
            ph = ph * 131 + uint64_t(uint8_t(c));
        double t0 = now();
        uint64_t runs = 0, nontrivial = 0, det = 0, detbad = 0, multi = 0;
        uint64_t edges = 0, mem_yields = 0, switches = 0, preempt = 0, stalls = 0, calls = 0, clean = 0, refused = 0,
                 retries = 0, blocked = 0, fired[F_KINDS] = {}, conf[F_KINDS] = {};
        std::map<std::string, uint64_t> probes;
        std::vector<uint8_t> cover(sizeof shared->cover), opc(sizeof shared->opcover);
        std::set<uint64_t> inter, hashes;
        int nviol = 0;
        std::string viols, sample;
        for (long i = from; i < to && now() - t0 < limit && nviol < 6; ++i) {
            uint64_t rs = mix(mix(seed, ph), uint64_t(i));
            auto body = [&] {
                Plan p = make_plan(prop, rs, deep);
                run_plan(p);
            };
            Result res = in_child(body);
            ++runs;
            if (res.status == 2) {
                fprintf(stderr, "internal: %s\n", res.msg.c_str());
                return 3;
            }
            edges += shared->edges;
            mem_yields += shared->mem_yields;
            switches += shared->switches;
            preempt += shared->preemptions;
            stalls += shared->stalls;
            calls += shared->calls;
            clean += shared->fault_free_calls;
            refused += shared->refused;
            retries += shared->retries;
            blocked += shared->blocked;
            uint64_t nf = 0;
            for (int k = 0; k < F_KINDS; ++k) {
                fired[k] += shared->fired[k];
                nf += shared->fired[k];
                conf[k] += shared->configured[k];
            }
            for (auto &pr : shared->probes)
                if (pr.name[0])
                    probes[pr.name] += pr.n;
            or_bits(cover, shared->cover);
            or_bits(opc, shared->opcover);
            if (shared->preemptions)
                multi++;
            if (shared->preemptions) 
                inter.insert(shared->inter_hash);
            if (shared->preemptions || nf || shared->refused || prop == "C04") {
                nontrivial++;
                hashes.insert(shared->hash);
            }
            if (res.status == 1) {
                Plan p = make_plan(prop, rs, deep);
                std::string path = out + "/viol_" + std::to_string(i) + ".plan";
                FILE *f = fopen(path.c_str(), "w");
                save_plan(f, p, shared);
                fclose(f);
                char h[32];
                snprintf(h, sizeof h, "%016llx", (unsigned long long)shared->hash);
                viols += (nviol ? "," : "") + std::string("{\"run\":") + std::to_string(i) + ",\"seed\":\"" +
                         std::to_string(rs) + "\",\"cls\":\"" + esc(res.cls) + "\",\"msg\":\"" + esc(res.msg) +
                         "\",\"hash\":\"" + h + "\",\"plan\":\"" + path + "\"}";
                nviol++;
                continue;
            }
            if (i % 64 == 5) {    // the same seed again must be the same execution
                uint64_t h = shared->hash, ih = shared->inter_hash;
                uint32_t nd = shared->ndec;
                if (sample.empty() && shared->preemptions) {
                    char *mem = nullptr;
                    size_t n = 0;
                    FILE *f = open_memstream(&mem, &n);
                    Plan p = make_plan(prop, rs, deep);
                    uint32_t keep = shared->ndec;
                    shared->ndec = keep > 6 ? 6 : keep;
                    save_plan(f, p, shared);
                    shared->ndec = keep;
                    fclose(f);
                    for (size_t q = 0; q < n; ++q)
                        if (mem[q] == '\n')
                            mem[q] = ';';
                    sample = mem ? mem : "";
                    free(mem);
                }
                Result r2 = in_child(body);
                det++;
                if (r2.status || shared->hash != h || shared->inter_hash != ih || shared->ndec != nd) {
                    detbad++;
                    fprintf(stderr, "run %ld is not repeatable: %llx %llx, status %d %s %s\n", i, (unsigned long long)h,
                            (unsigned long long)shared->hash, r2.status, r2.cls.c_str(), r2.msg.c_str());
                }
            }
        }
        FILE *f = fopen((out + "/stats.json").c_str(), "w");
        fprintf(f,
                "{\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"interleavings\":%zu,\"preempted_runs\":%llu,"
                "\"determinism_pairs\":%llu,\"determinism_mismatch\":%llu,\"steps\":%llu,\"memory_yield_points\":%llu,"
                "\"switches\":%llu,\"preemptions\":%llu,\"calls\":%llu,\"fault_free_calls\":%llu,\"refused\":%llu,"
                "\"retries\":%llu,\"blocked\":%llu,\"cover\":%zu,\"wall\":%.3f,\"fired\":{",
                (unsigned long long)runs, (unsigned long long)nontrivial, hashes.size(), inter.size(),
                (unsigned long long)multi, (unsigned long long)det, (unsigned long long)detbad,
                (unsigned long long)edges, (unsigned long long)mem_yields, (unsigned long long)switches,
                (unsigned long long)preempt, (unsigned long long)calls, (unsigned long long)clean,
                (unsigned long long)refused, (unsigned long long)retries, (unsigned long long)blocked, popcount(cover),
                now() - t0);
        for (int k = 1; k < 7; ++k)
            fprintf(f, "%s\"%s\":%llu", k > 1 ? "," : "", fault_names[k], (unsigned long long)fired[k]);
        fprintf(f, "},\"configured\":{");
        for (int k = 1; k < 7; ++k)
            fprintf(f, "%s\"%s\":%llu", k > 1 ? "," : "", fault_names[k], (unsigned long long)conf[k]);
        fprintf(f, "},\"probes\":{");
        bool firstp = true;
        for (auto &kv : probes) {
            fprintf(f, "%s\"%s\":%llu", firstp ? "" : ",", esc(kv.first).c_str(), (unsigned long long)kv.second);
            firstp = false;
        }
        fprintf(f, "},\"ops\":[");
        bool firsto = true;
        for (size_t i = 0; i < ops().size(); ++i)
            if (opc[(i >> 3) & 2047] >> (i & 7) & 1) {
                fprintf(f, "%s%zu", firsto ? "" : ",", i);
                firsto = false;
            }
        fprintf(f, "],\"optotal\":%zu,\"sample\":\"%s\",\"violations\":[%s]}\n", ops().size(), esc(sample).c_str(),
                viols.c_str());
        fclose(f);
        f = fopen((out + "/hashes.bin").c_str(), "wb");
        for (uint64_t h : hashes)
            fwrite(&h, 8, 1, f);
        fclose(f);
        f = fopen((out + "/inter.bin").c_str(), "wb");
        for (uint64_t h : inter)
            fwrite(&h, 8, 1, f);
        fclose(f);
        f = fopen((out + "/cover.bin").c_str(), "wb");
        fwrite(cover.data(), 1, cover.size(), f);
        fclose(f);
        return 0;
    }
}    // namespace

int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) {
        personality(ADDR_NO_RANDOMIZE);
        setenv("SIM_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    shared = static_cast<Shared *>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (argc < 2)
        return 3;
    std::string mode = argv[1];
    if (mode == "list") {
        for (auto &o : ops())
            printf("%u %s\n", o.tags, o.name.c_str());
        return 0;
    }
    errfd = memfd_create("stderr", 0);
    if (mode == "explore" && argc == 9)
        return explore(argv + 2);
    if (mode == "replay" && argc >= 3) {
        verbose = argc > 3;
        Result res = in_child([&] {
            Plan p = load_plan(argv[2]);
            run_plan(p);
        });
        printf("status %d\nclass %s\nhash %016llx\nmessage %s\n", res.status, res.cls.c_str(),
               (unsigned long long)shared->hash, res.msg.c_str());
        return 0;
    }
    return 3;
}
