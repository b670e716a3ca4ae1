#!/usr/bin/env python3
"""Decide one property by seeded simulation of /repo's current working tree.

  check.py C07                  search (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py C07 --seconds 300    search for a given time
  check.py --replay FILE        replay a violation file against the current tree
  check.py --build              only build the simulator

Exit 0: the property held on every simulated run. Exit 1: VIOLATION line.
Exit 2: the machinery itself failed (e.g. the tree does not compile).
"""
import json, os, re, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as B  # noqa: E402

QUICK_S, THOROUGH_S = 50, 720
WORKERS = max(2, min(8, os.cpu_count() or 4))
# share of the workers that run the second build (64 KiB sinks, io_uring polling)
V1_SHARE = 3

REAL = ["all of /repo/src and /repo/include (logger, sinks, ring buffer, consumer, buffer, storage back-ends, command "
        "dispatcher, matchers, clocks, xtrctl), compiled from the working tree", "libfmt, libstdc++, inline liburing code"]
STUB = ["kernel: files, pipes, sockets, io_uring, mmap, poll (sim/vk.cpp)", "threads, mutexes, condition variables, "
        "futexes, C++ memory model (sim/rt.cpp)", "clocks, TSC, cpuid, sleeping", "disk: page cache and durable image",
        "malloc (deterministic allocator that detects leaks and bad frees)", "custom storage back-ends, clients and log "
        "statements of the generated workload"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def symbolise(exe, text):
    def one(m):
        try:
            r = subprocess.run(["addr2line", "-Cfpe", exe, m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=20).stdout.strip().splitlines()
            if r and not r[0].startswith("??"):
                return "<%s>" % re.sub(r" at .*/(?=[^/]*$)", " at ", r[0])
        except Exception:
            pass
        return m.group(0)
    return re.sub(r"<pc:([0-9a-f]+)>", one, text)


def load_findings():
    try:
        return json.load(open(os.path.join(HERE, "known-findings.json")))
    except FileNotFoundError:
        return {"known": [], "fixed": []}


class Worker:
    def __init__(self, exe, variant, prop, seed0, stride, secs, out, res, extra=()):
        self.exe, self.variant, self.res = exe, variant, res
        self.p = subprocess.Popen([exe, "search", "--prop", str(prop), "--seed0", str(seed0), "--stride", str(stride),
                                   "--time", str(secs), "--variant", variant, "--out", out, "--result", res, *extra],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)

    def result(self):
        try:
            return json.load(open(self.res))
        except (OSError, ValueError):
            return None

    def kill(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()


def replay(exe, path):
    """0 no violation, 1 same class and same execution, 3 something else"""
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    return r.returncode, r.stdout


def known_runs(exes, prop, seed, tmp):
    """known findings have a generator profile of their own, kept out of the property's search"""
    lines = []
    for k in load_findings()["known"]:
        if k["property"] != prop:
            continue
        res = os.path.join(tmp, "known.json")
        w = Worker(exes["v0"], "v0", k["profile"], seed, 1, 20, tmp, res, ["--count", "300", "--keep-going", "1"])
        w.p.wait()
        d = w.result()
        if d is None:
            continue
        hit = {c: n for c, n in d["classes"].items() if c in k["classes"]}
        other = {c: n for c, n in d["classes"].items() if c not in k["classes"]}
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
        lines.append({"finding": k["id"], "runs": d["runs"], "seen": hit, "other": other})
    return lines


def check(prop, secs, tier):
    t0 = time.time()
    n = int(prop[1:])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    log("check %s tier %s VERIF_SEED %d" % (prop, tier, seed))
    try:
        exes = B.build()
    except B.BuildError as e:
        log(str(e))
        log("the simulator could not be built from", B.REPO)
        return 2
    t_build = time.time() - t0
    outdir = os.path.join(HERE, "replays")
    os.makedirs(outdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="xsim-")
    base = (seed * 1000003 + n * 101) * 4096 + 1
    ws = []
    viol, errors = None, []
    try:
        for i in range(WORKERS):
            v = "v1" if i * V1_SHARE // WORKERS != (i + 1) * V1_SHARE // WORKERS else "v0"
            ws.append(Worker(exes[v], v, n, base + i, WORKERS, secs, outdir, os.path.join(tmp, "%d.json" % i)))
        end = time.time() + secs + 200
        while any(w.p.poll() is None for w in ws) and time.time() < end:
            time.sleep(0.1)
            for w in ws:
                if w.p.poll() == 1 and viol is None:
                    d = w.result()
                    if d and d["replay"]:
                        rc, text = replay(w.exe, d["replay"])
                        if rc == 1:
                            viol = (w, d)
                        else:
                            errors.append("replay of %s in a fresh process differs (%d)" % (d["replay"], rc))
                            d["replay"] = ""
            if viol:
                break
        if not viol:
            for w in ws:
                if w.p.poll() == 1:
                    d = w.result()
                    if d and d["replay"] and replay(w.exe, d["replay"])[0] == 1:
                        viol = (w, d)
                        break
        stopped = 0
        for w in ws:
            if w.p.poll() is None:
                stopped += 1
                w.kill()
        results = [r for r in (w.result() for w in ws) if r]
        for w in ws:
            d = w.result()
            if d and d["error"]:
                errors.append(d["error"])
            elif w.p.returncode not in (0, 1, -9):
                errors.append("worker ended with status %s" % w.p.returncode)
        known = known_runs(exes, prop, base, tmp) if not viol else []
        evidence(prop, tier, seed, results, viol, errors, known, exes, t0, t_build, stopped)
        if viol:
            w, d = viol
            d["message"] = symbolise(w.exe, d["message"])
            log("seed %d (%s): %s: %s" % (d["seed"], w.variant, d["class"], d["message"]))
            log("replay with: python3 %s --replay %s" % (os.path.join(HERE, "check.py"), d["replay"]))
            print("VIOLATION property=%s replay=%s" % (prop, d["replay"]), flush=True)
            return 1
        for e in errors:
            log("note:", e)
        if not results or sum(r["runs"] for r in results) == 0:
            log("no simulated run completed")
            return 2
        if any(r["unrepeatable"] for r in results):
            log("a violation was seen that could not be repeated")
            return 2
        log("%s held on %d simulated runs" % (prop, sum(r["runs"] for r in results)))
        return 0
    finally:
        for w in ws:
            w.kill()
        subprocess.run(["rm", "-rf", tmp])


def evidence(prop, tier, seed, results, viol, errors, known, exes, t0, t_build, stopped):
    tot = lambda k: sum(r[k] for r in results)
    runs, wall = tot("runs"), max([r["seconds"] for r in results] or [0.001])
    faults = {}
    for r in results:
        for k, (a, b) in r["faults"].items():
            x = faults.setdefault(k, {"injected": 0, "runs_with": 0})
            x["injected"] += a
            x["runs_with"] += b
    samples = []
    for r in results[:2] + results[-1:]:
        for s in r["samples"][:1]:
            s = dict(s, variant=r["variant"])
            path = os.path.join(tempfile.gettempdir(), "xsim-sample-%d" % os.getpid())
            try:
                subprocess.run([exes[r["variant"]], "one", "--prop", prop[1:], "--seed", str(s["seed"]), "--dump", path],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                ls = open(path).read().splitlines()
                os.unlink(path)
                s["configuration"] = [x[4:] for x in ls if x.startswith("cfg ")][:60]
                s["workload"] = [x[3:] for x in ls if x.startswith("op ")][:60]
                s["non_default_decisions"] = sum(x.startswith("dec ") for x in ls)
            except (OSError, subprocess.SubprocessError):
                pass
            samples.append(s)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(r["nontrivial"] for r in results),
            "rule": "one evaluation is one simulated execution generated from one seed (configuration, workload, schedule and faults); "
                    "it counts as distinct and non-trivial if the hash of its complete event trace is new within its worker, at least "
                    "one oracle was evaluated in it, and it had at least 3 thread switches or one injected fault",
            "samples": samples,
            "simulated_runs_per_hour": int(runs / wall * 3600) if runs else 0,
            "seeds_per_hour": int(runs / wall * 3600) if runs else 0,
            "scheduling_points": tot("steps"),
            "longest_run_points": max([r["max_steps"] for r in results] or [0]),
            "simulated_seconds": round(tot("sim_ns") / 1e9, 3),
            "thread_switches": tot("switches"),
            "stale_reads_of_atomics": tot("stale_reads"),
            "distinct_interleavings": {"count": tot("distinct"), "measure": "distinct hashes of the full event trace (thread, "
                                       "operation, address class and value at each scheduling point), summed over workers"},
            "faults": faults,
            "fault_kinds": len(faults),
            "oracle_evaluations": tot("checks"),
            "workload": {k: tot(k) for k in ("ops", "stmts", "lines", "dropped", "truncated", "commands", "syncs", "crashes", "reopens")},
            "determinism": {"executions_repeated_and_compared": 2 * tot("determinism_checks"), "differences": tot("determinism_failures")},
            "builds": {v: " ".join(B.VARIANTS[v]) for v in sorted({r["variant"] for r in results})},
            "components_real": REAL, "components_stub": STUB,
            "known_findings": known,
            "workers": len(results), "workers_stopped_early": stopped,
            "build_s": round(t_build, 1),
            "notes": errors[:10],
        },
        "assumptions": ["the simulated kernel and memory model represent the real ones (DESIGN.md lists the deviations)",
                        "sampling: a clean result is evidence over the runs counted here, not proof"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    if viol:
        ev["coverage"]["violation"] = {"seed": viol[1]["seed"], "class": viol[1]["class"], "message": viol[1]["message"],
                                       "replay": viol[1]["replay"]}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(os.path.join(d, prop + ".json.tmp"), os.path.join(d, prop + ".json"))


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        try:
            for v, p in B.build().items():
                print(v, p)
            return 0
        except B.BuildError as e:
            log(str(e))
            return 2
    if a[:1] == ["--replay"] and len(a) > 1:
        try:
            exes = B.build()
        except B.BuildError as e:
            log(str(e))
            return 2
        v = subprocess.run([exes["v0"], "variant", a[1]], stdout=subprocess.PIPE, text=True).stdout.split()[0]
        rc, text = replay(exes[v], a[1])
        print(symbolise(exes[v], text), end="")
        return rc
    if not a or not re.fullmatch(r"C(0[1-9]|1[0-9]|20)", a[0]):
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in a:
        tier = "thorough"
    secs = THOROUGH_S if tier == "thorough" else QUICK_S
    if "--seconds" in a:
        secs = float(a[a.index("--seconds") + 1])
    return check(a[0], secs, tier)


if __name__ == "__main__":
    sys.exit(main())
