#!/usr/bin/env python3
"""Deterministic simulation with fault injection for crypto-utils.

check.py ID                   decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)
check.py replay FILE          execute a replay file again, with its trace
check.py determinism [N]      execute N seeds of every scenario twice under different worker counts and compare event logs
"""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import build

HERE = os.path.dirname(os.path.abspath(__file__))
WORKERS = 8
# property -> (runs plain, runs under AddressSanitizer) per tier
RUNS = {
    "C01": {"quick": (1250, 0), "thorough": (30000, 3000)},
    "C02": {"quick": (1300, 0), "thorough": (28000, 2000)},
    "C03": {"quick": (1600, 0), "thorough": (35000, 2000)},
    "C04": {"quick": (850, 0), "thorough": (20000, 2000)},
    "C05": {"quick": (95, 0), "thorough": (2200, 200)},
    "C06": {"quick": (95, 0), "thorough": (2200, 200)},
    "C07": {"quick": (115, 0), "thorough": (2600, 300)},
    "C08": {"quick": (60000, 8000), "thorough": (1500000, 200000)},
    "C09": {"quick": (16000, 1000), "thorough": (400000, 40000)},
    "C10": {"quick": (40000, 1500), "thorough": (1000000, 100000)},
    "C11": {"quick": (110000, 6000), "thorough": (2000000, 200000)},
    "C12": {"quick": (80000, 0), "thorough": (2000000, 100000)},
    "C13": {"quick": (250, 0), "thorough": (7000, 500)},
    "C14": {"quick": (70, 0), "thorough": (2400, 0)},
    "C15": {"quick": (300, 0), "thorough": (28000, 2000)},
    "C16": {"quick": (620, 0), "thorough": (18000, 1500)},
    "C17": {"quick": (160, 0), "thorough": (5000, 1200)},
    "C18": {"quick": (60000, 3000), "thorough": (2000000, 150000)},
    "C19": {"quick": (115, 0), "thorough": (4200, 0)},
    "C22": {"quick": (60, 0), "thorough": (1600, 0)},
    "C23": {"quick": (460, 20), "thorough": (9000, 500)},
    "C24": {"quick": (240, 12), "thorough": (5000, 400)},
    "C25": {"quick": (470, 16), "thorough": (9000, 500)},
    "C26": {"quick": (260, 0), "thorough": (4000, 300)},
    "C27": {"quick": (800, 0), "thorough": (9000, 600)},
    "C29": {"quick": (260, 0), "thorough": (12000, 600)},
    "C28": {"quick": (620, 12), "thorough": (12000, 800)},
}
CAP = {"quick": (45, 15), "thorough": (520, 150)}          # wall-clock bound of each batch, seconds
SHRINK = {"quick": 25, "thorough": 90}
ASAN_BASE = 10000000                                        # run numbers under AddressSanitizer start here
RECHECK = {"quick": 10, "thorough": 48}                     # runs executed a second time, and the seconds in which to start them

REAL = ["fields", "ecc (secp256r1, BN254)", "dme/dmhe", "ot/dot", "opprf", "puda", "shamirss", "aes", "crc", "utilities"]
STUBS = ["threads: real ones, exactly one running at a time, switched by the simulator at every seam", "network and nodes (simulated)", "clock (simulated)", "entropy: random_device/getrandom/RAND_bytes (simulated)",
         "process number (simulated)", "processes: real ones, executed, forked and killed by the simulator, which relays every message", "GMP generators: real, seeded by the simulator", "EVP cipher calls: real libcrypto behind a failure-injecting seam",
         "operator new and the library's malloc/realloc/calloc: real behind a failure-injecting seam", "storage of records and shares (simulated)"]


def env():
    e = {"PATH": "/usr/bin:/bin", "LANG": "C", "MALLOC_PERTURB_": "165", "MALLOC_ARENA_MAX": "1",
         "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8"}
    e["VERIF_TIER"] = tier()
    return e


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known(prop):
    """listed findings of a property: class -> description"""
    out = {}
    with open(HERE + "/known_findings.txt") as f:
        for l in f:
            if l.startswith("finding: property=%s " % prop):
                w = l.split(None, 3)
                out[w[2].split("=", 1)[1]] = w[3].strip()
    return out


def fatal(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def batch(exe, prop, sd, base, count, cap, kn):
    """run `count` simulations on all cores; stops early at the first violation"""
    procs, res, bad = [], [], []
    t0 = time.time()

    def worker(w):
        cmd = [exe, "batch", prop, str(sd), str(base + w), str(WORKERS), str(base + count), str(cap)]
        if kn:
            cmd += ["--known", ",".join(kn)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env())
        procs.append(p)
        ended = False
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "end" in d:
                ended = True
                continue
            res.append(d)
            if d["verdict"] != "ok":
                bad.append(d)
                for q in procs:
                    q.terminate()
        p.wait()
        return ended

    with ThreadPoolExecutor(WORKERS) as ex:
        ended = list(ex.map(worker, range(WORKERS)))
    if not bad and not all(ended):
        fatal("a simulation worker of %s died" % prop)
    return res, bad, time.time() - t0


def execute(exe, prop, choices, kn, trace=None):
    path = "/tmp/sim-choices-%d-%x" % (os.getpid(), id(choices))
    with open(path, "w") as f:
        f.write(" ".join(map(str, choices)))
    cmd = [exe, "exec", prop, path]
    if kn:
        cmd += ["--known", ",".join(kn)]
    if trace:
        cmd += ["--trace", trace]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env())
        return json.loads(p.stdout.decode().strip().split("\n")[-1])
    finally:
        os.unlink(path)


def same(a, b):
    return a["verdict"] == b["verdict"] and a["cls"] == b["cls"]


def shrink(exe, prop, found, kn, budget):
    """minimise the list of choices while the same class of violation persists; 0 is always the simplest choice"""
    cur = list(found["choices"])
    end = time.time() + budget
    tries = 0

    def test_all(cands):
        nonlocal tries
        tries += len(cands)
        with ThreadPoolExecutor(WORKERS) as ex:
            for c, d in zip(cands, ex.map(lambda c: execute(exe, prop, c, kn), cands)):
                if same(d, found):
                    used = d["choices"]
                    while used and used[-1] == 0:
                        used.pop()
                    return used
        return None

    def better(a, b):
        return (len(a), sum(1 for x in a if x), sum(len(str(x)) for x in a)) < (len(b), sum(1 for x in b if x), sum(len(str(x)) for x in b))

    progress = True
    while progress and time.time() < end:
        progress = False
        n = len(cur)
        # shorter prefixes
        cands = [cur[:n * k // 9] for k in range(1, 9)] if n > 8 else [cur[:k] for k in range(n)]
        got = test_all([c for c in cands if len(c) < n]) if n else None
        if got is not None and better(got, cur):
            cur, progress = got, True
            continue
        size = max(1, len(cur) // 4)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(cur) and time.time() < end:
                cands = []
                for j in range(4):
                    a = i + j * size
                    if a >= len(cur):
                        break
                    cands.append(cur[:a] + cur[a + size:])
                    if any(cur[a:a + size]):
                        cands.append(cur[:a] + [0] * len(cur[a:a + size]) + cur[a + size:])
                got = test_all(cands)
                if got is not None and better(got, cur):
                    cur, progress = got, True
                else:
                    i += 4 * size
            size //= 2
        # smaller values
        i = 0
        while i < len(cur) and time.time() < end:
            cands = [cur[:j] + [v] + cur[j + 1:] for j in range(i, min(i + 4, len(cur))) if cur[j] > 1 for v in (1, cur[j] // 2)]
            got = test_all(cands) if cands else None
            if got is not None and better(got, cur):
                cur, progress = got, True
            else:
                i += 4
    return cur, tries


def report(prop, exe, variant, bad, kn):
    """gate, minimise and write the replay file; returns its path or None when nothing reproduces"""
    for found in sorted(bad, key=lambda d: d["n"])[:6]:
        if found["verdict"] == "error":
            continue
        a, b = execute(exe, prop, found["choices"], kn), execute(exe, prop, found["choices"], kn)
        if not (same(a, found) and same(b, found) and a["hash"] == b["hash"] == found["hash"]):
            print("not reproducible: run %d %s (%s %s)" % (found["run"], found["cls"], a["cls"], b["cls"]), file=sys.stderr)
            continue
        if found["cls"] == "hang":
            small, tries = found["choices"], 0
        else:
            small, tries = shrink(exe, prop, found, kn, SHRINK[tier()])
        os.makedirs(HERE + "/replays", exist_ok=True)
        tr = HERE + "/replays/%s-%s.trace" % (prop, found["hash"])
        d = execute(exe, prop, small, kn, tr)
        if not same(d, found):
            small = found["choices"]
            d = execute(exe, prop, small, kn, tr)
        with open(tr) as f:
            trace = f.read().split("\n")[:4000]
        os.unlink(tr)
        path = HERE + "/replays/%s-%s.json" % (prop, found["hash"])
        with open(path, "w") as f:
            json.dump({"property": prop, "variant": variant, "seed": seed(), "run": found["run"], "class": found["cls"], "message": d["msg"],
                       "choices_found": len(found["choices"]), "choices_minimised": len(small), "shrink_executions": tries,
                       "hash": d["hash"], "choices": small, "trace": trace}, f, indent=1)
        print("class: %s\n%s\nseed %d run %d, %d choices minimised to %d" % (found["cls"], d["msg"], seed(), found["run"], len(found["choices"]), len(small)))
        return path
    return None


def make(scen, variant):
    try:
        return build.build(scen, variant)
    except RuntimeError as e:
        fatal(str(e)[:3000])


def check(prop):
    t0 = time.time()
    tr, sd = tier(), seed()
    kn = known(prop)
    scen = build.SCEN[prop]
    nplain, nasan = RUNS[prop][tr]
    phases = [("plain", 0, nplain, CAP[tr][0])]
    if nasan:
        phases.append(("asan", ASAN_BASE, nasan, CAP[tr][1]))
    exes = {v: make(scen, v) for v, _, _, _ in phases}
    allres, sim_wall, rerun, diverged, path, nviol = [], 0.0, 0, 0, None, 0
    for variant, base, count, cap in phases:
        exe = exes[variant]
        res, bad, wall = batch(exe, prop, sd, base, count, cap, kn)
        allres += [(variant, d) for d in res]
        sim_wall += wall
        if os.environ.get("VERIF_VERBOSE"):
            print("%s %s: %d of %d runs in %.1f s" % (prop, variant, len(res), count, wall), file=sys.stderr)
        if bad:
            nviol += len(bad)
            path = report(prop, exe, variant, bad, kn)
            if path is None:
                errs = ["%s: %s" % (d["cls"], d["msg"][:200]) for d in bad]
                write(prop, allres, sim_wall, t0, rerun, diverged, nviol, kn)
                fatal("a failing run did not reproduce: " + "; ".join(errs[:3]))
            break
        # same seed twice: the event log must be identical
        sample = sorted(res, key=lambda d: d["run"])[::max(1, len(res) // RECHECK[tr])][:RECHECK[tr]]
        if variant == "asan" and tr == "quick":
            sample = sample[:2] if wall < 12 else []

        until = time.time() + RECHECK[tr]

        def again(d):
            if time.time() > until:
                return None
            cmd = [exe, "seedrun", prop, str(sd), str(d["run"])] + (["--known", ",".join(kn)] if kn else [])
            return json.loads(subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env()).stdout.decode().strip().split("\n")[-1])
        with ThreadPoolExecutor(WORKERS) as ex:
            for d, e in zip(sample, ex.map(again, sample)):
                if e is None:
                    continue
                rerun += 1
                if d["hash"] != e["hash"] or d["verdict"] != e["verdict"]:
                    diverged += 1
                    print("WARNING: run %d of %s is not repeatable" % (d["run"], prop), file=sys.stderr)
    cov = write(prop, allres, sim_wall, t0, rerun, diverged, nviol, kn)
    if path:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for cls, desc in sorted(kn.items()):
        if cov["counters"].get("known." + cls):
            print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    print("%s held on %d runs (%d distinct non-trivial) in %.0f s, %.0f simulated seconds" %
          (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, cov["simulated_seconds"]))
    build.prune()
    return 0


def write(prop, allres, sim_wall, t0, rerun, diverged, nviol, kn):
    ctr, sigs, trivial = {}, set(), 0
    for v, d in allres:
        for k, x in d["ctr"].items():
            ctr[k] = ctr.get(k, 0) + x
        if d["evals"] and d["n"] > 3:
            sigs.add(d["sig"])
        else:
            trivial += 1
    faults = {k[6:]: x for k, x in ctr.items() if k.startswith("fault.")}
    samples = []
    for v, d in sorted(allres, key=lambda x: x[1]["run"])[:400:80]:
        samples.append({"build": v, "run": d["run"], "choices": d["n"], "steps": d["steps"], "simulated_us": d["simtime"], "checks": d["evals"],
                        "schedule": d["sig"], "log": d["hash"], "events": d["ctr"]})
    cov = {
        "evaluations": len(allres),
        "distinct_nontrivial": len(sigs),
        "rule": "one evaluation is one simulated execution, a pure function of its recorded choices; non-trivial: it drew more than three choices and "
                "judged at least one oracle; distinct: by hash of its schedule (every delivery, operation, fault, crash and restart in order)",
        "samples": samples,
        "oracle_checks": sum(d["evals"] for _, d in allres),
        "scheduler_steps": sum(d["steps"] for _, d in allres),
        "simulated_seconds": round(sum(d["simtime"] for _, d in allres) / 1e6, 3),
        "runs_per_hour": int(len(allres) / max(sim_wall, 0.001) * 3600),
        "seeds_per_hour": int(len(allres) / max(sim_wall, 0.001) * 3600),
        "runs_by_build": {v: sum(1 for a, _ in allres if a == v) for v in ("plain", "asan")},
        "faults_injected": faults,
        "probes": {k[6:]: x for k, x in ctr.items() if k.startswith("probe.")},
        "counters": {k: x for k, x in ctr.items() if not k.startswith(("fault.", "probe."))},
        "runs_executed_twice": rerun,
        "runs_that_diverged": diverged,
        "components_real": REAL,
        "components_simulated": STUBS,
    }
    ev = {"property": prop, "tier": tier(), "seed": seed(), "level": "exploration", "coverage": cov,
          "assumptions": ["the reference group arithmetic (own affine addition over OpenSSL's scalar multiplication) is right",
                          "sampling, not enumeration: a clean batch is evidence, not proof",
                          "known findings excluded from the verdict: " + (", ".join(sorted(kn)) or "none")],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    return cov


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = d["property"]
    exe = make(build.SCEN[prop], d["variant"])
    tr = path + ".trace"
    out = execute(exe, prop, d["choices"], known(prop), tr)
    with open(tr) as f:
        print(f.read(), end="")
    os.unlink(tr)
    ok = out["verdict"] == "violation" and out["cls"] == d["class"]
    print("%s %s\n%s\nlog hash %s (%s the recorded one)" % (out["verdict"], out["cls"], out["msg"], out["hash"], "as" if out["hash"] == d["hash"] else "not"))
    if ok:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if ok else 0


def determinism(n):
    """every seed twice, in different processes and at different worker counts"""
    rc = 0
    for prop in sys.argv[3:] or sorted(build.SCEN):
        for variant in ("plain", "asan"):
            if variant == "asan" and not RUNS[prop]["thorough"][1]:
                continue
            exe = make(build.SCEN[prop], variant)
            kn = known(prop)
            m = n if variant == "plain" else max(4, n // 4)

            def part(w, step):
                cmd = [exe, "batch", prop, "777", str(w), str(step), str(m), "600"] + (["--known", ",".join(kn)] if kn else [])
                o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env()).stdout.decode()
                return [json.loads(l) for l in o.split("\n") if l.startswith("{\"run")]
            got = []
            for step in (8, 5):
                with ThreadPoolExecutor(step) as ex:
                    rs = [d for l in ex.map(lambda w: part(w, step), range(step)) for d in l]
                got.append({d["run"]: (d["verdict"], d["cls"], d["hash"], d["sig"], d["n"]) for d in rs})
            diff = [r for r in got[0] if got[0][r] != got[1].get(r)]
            print("%s %s: %d runs twice, %d differ" % (prop, variant, len(got[0]), len(diff)), flush=True)
            rc |= bool(diff) or len(got[0]) != len(got[1])
    return rc


if __name__ == "__main__":
    if len(sys.argv) < 2:
        fatal(__doc__)
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "determinism":
        sys.exit(determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 64))
    if sys.argv[1] not in build.SCEN:
        fatal("unknown property " + sys.argv[1])
    sys.exit(check(sys.argv[1]))
