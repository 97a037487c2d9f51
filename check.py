#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree, explores, gates, minimises and reports.

  check.py PROPERTY              run the check (VERIF_SEED, VERIF_TIER)
  check.py PROPERTY --replay F   replay one file, verbosely
  check.py --build-only          what setup_cmd does
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
NPROC = max(1, min(16, os.cpu_count() or 1))

INSTR = {
    # every access to memory other than the caller's own stack is a scheduling point
    "S": ["-fsanitize=thread", "-fsanitize-coverage=edge,trace-pc"],
    # scheduling at edges, callbacks and call boundaries; memory errors and undefined behaviour trapped
    "A": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fsanitize-coverage=edge,trace-pc"],
}
HARNESS = {"S": ["-DSIM_TSAN"], "A": []}
LINK = {"S": [], "A": ["-fsanitize=address,undefined"]}
ENV = {"S": {}, "A": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=71:abort_on_error=0:detect_stack_use_after_return=0",
                      "UBSAN_OPTIONS": "print_stacktrace=0"}}

from props import PROPS, SETS  # noqa: E402


class Trouble(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(flags, units):
    h = hashlib.sha256()
    h.update(repr((flags, units)).encode())
    roots = [os.path.join(REPO, "include"), SIM, os.path.join(HERE, "shim")]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


SKIPPED = []    # parts of the catalogue that the working tree does not compile


def build(setname, flavor):
    """Compiles one catalogue of operations in one flavour; returns the binary."""
    units = SETS[setname]
    out = os.path.join(BUILD, setname + flavor)
    exe = os.path.join(out, "sim")
    flags = [CXX, "-std=c++17"] + INSTR[flavor] + HARNESS[flavor]
    want = tree_hash([flags, LINK[flavor]], units)
    stamp = os.path.join(out, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe, 0.0
    t0 = time.time()
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    inc = ["-I" + os.path.join(HERE, "shim")] if units.get("shim") else []
    inc += ["-I" + os.path.join(REPO, "include"), "-I" + SIM, "-w"]
    if units.get("shim"):    # the stand-in for the number library is one step, not a place to switch
        skip = os.path.join(SIM, "ignore.txt")
        inc += ["-fconstexpr-steps=2147483647", "-fsanitize-coverage-ignorelist=" + skip, "-fsanitize-ignorelist=" + skip]
    jobs = []
    for u in units["tus"]:
        src, defs = u
        obj = os.path.join(out, "%s%s.o" % (src.replace(".cpp", ""), "_" + defs[0].split("=")[1] if defs else ""))
        jobs.append([CXX, "-std=c++17", units.get("opt", "-O0"), "-g0"] + INSTR[flavor] + units.get("defs", []) +
                    units.get("inc", []) + ["-D" + d for d in defs] + inc + ["-c", os.path.join(SIM, src), "-o", obj])
    plain = ["runtime.cpp", "main.cpp", "opkit.cpp"] + units.get("plain", [])
    for src in plain:
        jobs.append([CXX, "-std=c++17", "-O2", "-g0", "-fno-threadsafe-statics"] + HARNESS[flavor] + inc +
                    ["-c", os.path.join(SIM, src), "-o", os.path.join(out, src.replace(".cpp", ".o"))])
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(sh, jobs))
    good, failed = [], []
    for j, r in zip(jobs, res):
        if not r.returncode:
            good.append(j)
            continue
        errors = [l for l in r.stdout.splitlines() if "error:" in l][:3]
        failed.append("%s: %s" % (os.path.basename(j[-1]), " | ".join(errors) or r.stdout[-500:]))
    if failed and len(good) <= len(plain):
        raise Trouble("compiling failed:\n" + "\n".join(failed[:6]))
    jobs = good    # the parts of the catalogue that compile are still explored; see check()
    r = sh([CXX] + LINK[flavor] + [j[-1] for j in jobs] + ["-ldl", "-pthread", "-o", exe])
    if r.returncode:
        raise Trouble("linking failed:\n" + r.stdout[-3000:])
    for j in jobs:
        os.unlink(j[-1])
    SKIPPED[:] = failed
    if not failed:
        with open(stamp, "w") as f:
            f.write(want)
    return exe, time.time() - t0


class Runner:
    def __init__(self, exe, flavor, scratch):
        self.exe, self.flavor, self.scratch = exe, flavor, scratch
        self.env = dict(os.environ)
        self.env.pop("SIM_NOASLR", None)
        self.env.update(ENV[flavor])

    def explore(self, prop, seed, runs, limit, tier):
        n = NPROC
        share = (runs + n - 1) // n
        procs = []
        for w in range(n):
            d = os.path.join(self.scratch, "w%d" % w)
            os.makedirs(d, exist_ok=True)
            procs.append((d, subprocess.Popen(
                [self.exe, "explore", prop, str(seed), str(w * share), str(min(runs, (w + 1) * share)), str(limit), d,
                 tier], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
        stats = []
        for d, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise Trouble("explorer ended with %s: %s" % (p.returncode, out[-2000:]))
            s = json.load(open(os.path.join(d, "stats.json")))
            s["dir"], s["log"] = d, out
            stats.append(s)
        return stats

    def replay(self, path, verbose=False):
        args = [self.exe, "replay", path] + (["--verbose"] if verbose else [])
        if verbose:
            return subprocess.run(args, env=self.env).returncode
        r = subprocess.run(args, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace")
        if r.returncode:
            raise Trouble("replay ended with %d: %s" % (r.returncode, r.stderr[-1000:]))
        d = dict(re.findall(r"^(status|class|hash|message) ?(.*)$", r.stdout, re.M))
        return d


def read_plan(path):
    head, bundles, calls, decs = [], [], [], []
    for line in open(path):
        line = line.rstrip("\n")
        k = line.split(" ", 1)[0]
        if k == "bundle":
            bundles.append(line)
        elif k == "call":
            calls.append(line)
        elif k == "dec":
            decs.append(line)
        elif k != "end" and k and not k.startswith("#"):
            head.append(line)
    return head, bundles, calls, decs


def write_plan(path, plan, notes=()):
    head, bundles, calls, decs = plan
    used = {c.split()[3] for c in calls}
    with open(path, "w") as f:
        for n in notes:
            f.write("# %s\n" % n.replace("\n", " "))
        for line in head + [b for b in bundles if b.split()[1] in used] + calls + decs:
            f.write(line + "\n")
        f.write("end\n")


def minimise(run, plan, cls, scratch, budget):
    """Shrinks calls, faults, repetitions and schedule while the same class of violation persists."""
    t_end = time.time() + budget
    tmp = os.path.join(scratch, "min.plan")
    tried = [0]

    def fails(p):
        if time.time() > t_end:
            return False
        tried[0] += 1
        write_plan(tmp, p)
        r = run.replay(tmp)
        return r.get("status") == "1" and r.get("class") == cls

    head, bundles, calls, decs = plan

    def shrink(items, make):
        n = 2
        while len(items) >= 1 and time.time() < t_end:
            size = max(1, len(items) // n)
            i, removed = 0, False
            while i < len(items):
                cand = items[:i] + items[i + size:]
                if fails(make(cand)):
                    items, removed = cand, True
                else:
                    i += size
            if size == 1 and not removed:
                break
            if not removed:
                n = min(len(items), n * 2)
            elif size == 1 and removed:
                continue
            else:
                n = max(2, n - 1)
        return items

    starts = [d for d in decs if d.split()[1] == "14"]
    rest = [d for d in decs if d.split()[1] != "14"]
    if fails((head, bundles, calls, starts)):
        rest = []
    calls = shrink(calls, lambda c: (head, bundles, c, starts + rest))
    rest = shrink(rest, lambda d: (head, bundles, calls, starts + d))
    calls = shrink(calls, lambda c: (head, bundles, c, starts + rest))
    if starts and fails((head, bundles, calls, rest)):
        starts = []
    for i in range(len(calls)):
        f = calls[i].split()     # call task id bundle reseed repeat fault findex
        for k, v in ((6, "0"), (4, "0"), (5, "1")):
            if f[k] != v:
                g = list(f)
                g[k] = v
                c = calls[:i] + [" ".join(g)] + calls[i + 1:]
                if fails((head, bundles, c, starts + rest)):
                    calls, f = c, g
        while int(f[5]) > 1 and time.time() < t_end:
            g = list(f)
            g[5] = str(int(f[5]) // 2)
            c = calls[:i] + [" ".join(g)] + calls[i + 1:]
            if not fails((head, bundles, c, starts + rest)):
                break
            calls, f = c, g
    if os.path.exists(tmp):
        os.unlink(tmp)
    return (head, bundles, calls, starts + rest), tried[0]


def known_findings():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) op=/(.*?)/ (.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--build-only":
        done = set()
        for p in PROPS.values():
            k = (p["set"], p["flavor"])
            if k not in done:
                done.add(k)
                exe, t = build(*k)
                print("built %s%s in %.1fs" % (k[0], k[1], t))
        return 0
    prop = sys.argv[1]
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    try:
        exe, tb = build(cfg["set"], cfg["flavor"])
    except Trouble as e:
        print(e)
        print("check error: the simulator could not be built from %s" % REPO)
        return 2
    scratch = os.path.join(BUILD, "run_%s_%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    try:
        run = Runner(exe, cfg["flavor"], scratch)
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            print(json.dumps(run.replay(sys.argv[3])))
            return run.replay(sys.argv[3], verbose=True)
        return check(prop, cfg, seed, tier, run, scratch, t0, tb)
    except Trouble as e:
        print(e)
        print("check error")
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def merge(stats):
    tot, probes, ops, fired, conf = {}, {}, set(), {}, {}
    for s in stats:
        for k, v in s.items():
            if isinstance(v, (int, float)) and k not in ("optotal", "wall", "cover", "distinct", "interleavings"):
                tot[k] = tot.get(k, 0) + v
        for k, v in s["probes"].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in s["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in s["configured"].items():
            conf[k] = conf.get(k, 0) + v
        ops |= set(s["ops"])
    sets = {}
    for name in ("hashes", "inter"):
        u = set()
        for s in stats:
            b = open(os.path.join(s["dir"], name + ".bin"), "rb").read()
            u.update(b[i:i + 8] for i in range(0, len(b), 8))
        sets[name] = len(u)
    cover = bytearray(0)
    for s in stats:
        b = open(os.path.join(s["dir"], "cover.bin"), "rb").read()
        cover = bytearray(x | y for x, y in zip(cover, b)) if cover else bytearray(b)
    tot["distinct"], tot["interleavings"] = sets["hashes"], sets["inter"]
    tot["edges_reached"] = sum(bin(x).count("1") for x in cover)
    return tot, probes, ops, fired, conf


def check(prop, cfg, seed, tier, run, scratch, t0, tb):
    runs, limit = cfg["runs"][tier], cfg["limit"][tier]
    print("property=%s seed=%d tier=%s runs=%d build=%.1fs" % (prop, seed, tier, runs, tb), flush=True)
    te = time.time()
    stats = run.explore(prop, seed, runs, limit, tier)
    wall = time.time() - te
    tot, probes, ops, fired, conf = merge(stats)
    optotal = stats[0]["optotal"]
    viols = [v for s in stats for v in s["violations"]]
    bad, known, shaky = None, [], []
    viols.sort(key=lambda v: v["run"])
    kf = known_findings()
    seen_known = set()
    for v in viols:
        hit = next((k for k in kf if k[0] == prop and k[1] == v["cls"] and k[2].search(v["msg"])), None)
        if hit:
            if hit[3] not in seen_known:
                seen_known.add(hit[3])
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[3]))
            known.append(v)
            continue
        # gate: the same plan, replayed in fresh processes, must fail in the same way every time
        reps = [run.replay(v["plan"]) for _ in range(3)]
        ok = all(r.get("status") == "1" and r.get("class") == v["cls"] for r in reps)
        ok = ok and len({r.get("hash") for r in reps}) == 1
        if not ok:
            shaky.append((v, reps))
            continue
        bad = v
        break
    mism = tot["determinism_mismatch"]
    rc = 0
    if bad:
        plan = read_plan(bad["plan"])
        small, tried = minimise(run, plan, bad["cls"], scratch, 25 if tier == "quick" else 90)
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_seed%d_run%d.plan" % (prop, seed, bad["run"]))
        write_plan(path, small)
        first, second = run.replay(path), run.replay(path)
        if not (first == second and first.get("status") == "1" and first.get("class") == bad["cls"]):
            small = plan
            write_plan(path, small)
            first = run.replay(path)
        notes = ["property %s violated: %s" % (prop, first.get("class")), first.get("message", ""),
                 "VERIF_SEED %d, run %d, run seed %s, event-log hash %s" % (seed, bad["run"], bad["seed"],
                                                                           first.get("hash")),
                 "%d calls, %d scheduling decisions (from %d and %d; %d shrinking replays)" %
                 (len(small[2]), len(small[3]), len(plan[2]), len(plan[3]), tried),
                 "replay: python3 %s %s --replay %s" % (os.path.join(HERE, "check.py"), prop, path)]
        write_plan(path, small, notes)
        print("\n".join(notes[:2]))
        rc = 1
    elif SKIPPED:
        print("parts of the catalogue do not compile, and the rest gave no answer:\n" + "\n".join(SKIPPED))
        rc = 2
    elif shaky:
        v, reps = shaky[0]
        print("a reported violation did not replay: %s %s -> %s" % (v["cls"], v["msg"], reps))
        rc = 2
    elif mism:
        print("runs were not repeatable: %d of %d pairs differ" % (mism, tot["determinism_pairs"]))
        print("".join(s["log"] for s in stats)[-2000:])
        rc = 2
    names = None
    samples = [s["sample"] for s in stats if s["sample"]][:3]
    if not samples:
        samples = ["run %d of seed %d" % (0, seed)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(tot["runs"]),
            "distinct_nontrivial": int(tot["distinct"]),
            "rule": cfg["rule"],
            "samples": samples,
            "runs_per_hour": int(tot["runs"] / max(wall, 1e-3) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(wall, 1e-3) * 3600),
            "simulated_time_steps": int(tot["steps"]),
            "simulated_time_note": "the code has no clock; simulated time is counted in executed control-flow edges",
            "library_calls": int(tot["calls"]),
            "fault_free_calls": int(tot["fault_free_calls"]),
            "refused_requests": int(tot["refused"]),
            "fault_free_retries_after_a_fault": int(tot["retries"]),
            "faults_fired": fired,
            "faults_configured": conf,
            "distinct_interleavings": int(tot["interleavings"]),
            "interleaving_measure": "hash of the ordered list of (caller, call, step, next caller) of all switches of a run",
            "runs_preempted_inside_a_call": int(tot["preempted_runs"]),
            "preemptions_inside_calls": int(tot["preemptions"]),
            "memory_scheduling_points": int(tot["memory_yield_points"]),
            "waits_on_other_callers": int(tot["blocked"]),
            "control_flow_edges_reached": int(tot["edges_reached"]),
            "operations_exercised": len(ops),
            "operations_available": optotal,
            "rare_conditions": probes,
            "determinism": {"runs_executed_twice": int(tot["determinism_pairs"]), "mismatches": int(mism)},
            "real_components": cfg["real"],
            "stub_components": cfg["stub"],
            "known_findings_seen": len(known),
        },
        "assumptions": cfg["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("runs=%d distinct=%d interleavings=%d preemptions=%d faults=%s ops=%d/%d wall=%.1fs" %
          (tot["runs"], tot["distinct"], tot["interleavings"], tot["preemptions"],
           {k: v for k, v in fired.items() if v}, len(ops), optotal, time.time() - t0))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
