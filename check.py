#!/usr/bin/env python3
"""Decides one property by deterministic simulation: builds the simulator from /repo's working tree,
explores seeded runs on all cores, gates and minimises a violation, writes the evidence file.

  check.py C01 [--thorough] run the check (VERIF_SEED from the environment)
  check.py --build          build every variant (setup)
  check.py --replay FILE    replay a violation file against the current tree
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CORES = 8
sys.path.insert(0, VERIF)
from checks_config import CHECKS, VARIANTS, COMPONENTS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


# ------------------------------------------------------------------------------------------ build
def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_digest(root, pattern):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if re.search(pattern, f):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def repo_sources(drawing):
    out = []
    for d, dirs, files in sorted(os.walk(os.path.join(REPO, "src", "pymatching"))):
        for f in sorted(files):
            if f.endswith(".cc") and not re.search(r"\.(test|perf|pybind)\.cc$", f):
                p = os.path.join(d, f)
                # Drawing is part of the builds of one world only.
                if ("/diagram/" in p and not drawing) or "/fill_match/" in p or f in ("main.cc",):
                    continue
                out.append(p)
    return out


def build(variant):
    v = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        headers = tree_digest(os.path.join(REPO, "src"), r"\.(h|hpp|inl)$")
        own = tree_digest(os.path.join(VERIF, "sim"), r"\.(h|cc)$") + tree_digest(os.path.join(VERIF, "stim_stub"), r"\.(h|cc)$")
        inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "stim_stub"), "-I" + os.path.join(VERIF, "sim")]
        jobs = []
        common = ["-std=c++20", "-g1", "-DPYMATCHING_SIM_HOOKS"] + v["flags"]
        for f in repo_sources("-DSIM_DRAW" in v["flags"]):
            jobs.append((f, common + v["sut_flags"]))
        for f in sorted(os.listdir(os.path.join(VERIF, "sim"))):
            if f.endswith(".cc"):
                jobs.append((os.path.join(VERIF, "sim", f), common + v["own_flags"]))
        jobs.append((os.path.join(VERIF, "stim_stub", "stim_stub.cc"), common + v["own_flags"]))
        objdir = os.path.join(BUILD, "obj-" + variant)
        os.makedirs(objdir, exist_ok=True)
        objs = []

        def one(job):
            src, flags = job
            key = digest(v["cxx"], " ".join(flags), src, open(src, "rb").read(), headers, own)
            o = os.path.join(objdir, os.path.basename(src)[:-3] + "-" + key + ".o")
            if not os.path.exists(o):
                r = sh([v["cxx"]] + flags + inc + ["-c", src, "-o", o + ".tmp"])
                if r.returncode != 0:
                    return o, f"compiling {src} failed:\n{r.stdout[-3000:]}"
                os.rename(o + ".tmp", o)
            else:
                os.utime(o)
            return o, None

        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(one, jobs))
        for o, err in res:
            if err:
                die(err)
            objs.append(o)
        exe = os.path.join(BUILD, f"sim-{variant}-{digest(*[os.path.basename(o) for o in objs], ' '.join(v['link']))}")
        if not os.path.exists(exe):
            r = sh([v["cxx"]] + v["flags"] + objs + v["link"] + ["-o", exe + ".tmp", "-lpthread"])
            if r.returncode != 0:
                die("linking failed:\n" + r.stdout[-3000:])
            os.rename(exe + ".tmp", exe)
        keep = set(objs)
        for f in os.listdir(objdir):
            p = os.path.join(objdir, f)
            if p not in keep and time.time() - os.path.getmtime(p) > 3600:
                os.remove(p)
        for f in os.listdir(BUILD):
            p = os.path.join(BUILD, f)
            if f.startswith(f"sim-{variant}-") and p != exe and time.time() - os.path.getmtime(p) > 3600:
                os.remove(p)
        return exe


# ---------------------------------------------------------------------------------------- explore
def explore(exe, world, seed, jobs, seconds, outdir, shrink):
    """jobs: list of worker indices."""
    ps = []
    for w in jobs:
        out = os.path.join(outdir, f"{world}.{w}")
        ps.append((out, subprocess.Popen(
            [exe, "explore", "--world", world, "--seed", str(seed), "--worker", str(w), "--workers", str(CORES),
             "--seconds", str(seconds), "--out", out, "--shrink", str(shrink)],
            stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))))
    return ps


def known_findings(prop):
    """Lines 'finding: property=<id> kind=<violation kind> match=<regex>  # what fails'."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?)\s+# (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def write_replay(prop, world, variant, j, tier, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{world}-{j['seed']}.replay")
    with open(path, "w") as f:
        f.write(json.dumps({
            "property": prop, "world": world, "variant": variant, "verif_seed": seed, "run_seed": j["seed"],
            "kind": j["kind"], "violation": j["final_msg"], "hash": j["final_hash"],
            "choices_before_minimising": j["original_len"], "minimisation_replays": j["tries"],
            "prelude": j["prelude"], "choices": j["choices"]}, indent=1))
    return path


def replay(path, quiet):
    r = json.load(open(path))
    exe = build(r["variant"])
    tmp = path + ".choices"
    with open(tmp, "w") as f:
        f.write(" ".join("p%d" % s for s in r["prelude"]) + " " + " ".join(map(str, r["choices"])) + "\n")
    p = sh([exe, "replay", "--world", r["world"], "--file", tmp, "--quiet", "1" if quiet else "0"])
    os.remove(tmp)
    m = re.search(r"^RESULT (\S+) hash=(\d+) kind=(\S*) msg=(.*)", p.stdout, re.M | re.S)
    return p.returncode, p.stdout, (m.group(3) if m else ""), (m.group(4).strip() if m else "")


def main():
    args = sys.argv[1:]
    if args[0] == "--build":
        for v in VARIANTS:
            print(v, build(v))
        return 0
    if args[0] == "--replay":
        rc, out, kind, msg = replay(args[1], False)
        print(out)
        return 1 if rc == 10 else 0
    prop = args[0]
    c = CHECKS[prop]
    tier = "thorough" if "--thorough" in args else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    seconds = c["thorough_s"] if tier == "thorough" else c["quick_s"]
    if os.environ.get("SIM_SECONDS"):
        seconds = float(os.environ["SIM_SECONDS"])
    plan = c["plan"]  # list of (world, variant, worker indices)
    exes = {v: build(v) for v in sorted({p[1] for p in plan})}
    t_build = time.time() - t0
    outdir = os.path.join(BUILD, f"out-{prop}-{os.getpid()}")
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    t1 = time.time()
    procs = []
    for world, variant, workers in plan:
        for out, p in explore(exes[variant], world, seed, workers, seconds, outdir, c.get("shrink_s", 40)):
            procs.append((world, variant, out, p))
    deadline = time.time() + seconds + 420
    for world, variant, out, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
    t_explore = time.time() - t1

    tot = Counter()
    counters = Counter()
    hashes = set()
    samples = []
    failures = []
    errors = []
    per_world = {}
    for world, variant, out, p in procs:
        try:
            j = json.load(open(out + ".json"))
        except Exception as e:
            errors.append(f"worker {out} gave no result (exit {p.returncode}): {e}")
            continue
        for k in ("runs", "nontrivial", "discarded", "rechecked", "nondeterministic"):
            tot[k] += j[k]
        counters.update(j["counters"])
        pw = per_world.setdefault(f"{world}/{variant}", Counter())
        pw["runs"] += j["runs"]
        try:
            data = open(out + ".hashes", "rb").read()
            for k in range(0, len(data) - 7, 8):
                hashes.add(data[k:k + 8])
        except OSError:
            pass
        samples += j["samples"][:1]
        if j["failed"]:
            if j.get("reproduced"):
                failures.append((world, variant, j))
            else:
                errors.append(f"{world}: run {j['seed']} failed ({j['kind']}: {j['msg'][:300]}) but did not reproduce")
    shutil.rmtree(outdir, ignore_errors=True)

    # A violation is reported only after its minimised replay file failed the same way in a fresh process.
    confirmed, known = [], []
    findings = known_findings(prop)
    failures.sort(key=lambda f: len(f[2]["choices"]))
    for world, variant, j in failures:
        path = write_replay(prop, world, variant, j, tier, seed)
        rc, out, kind, msg = replay(path, True)
        if rc == 10 and kind == j["kind"]:
            hit = [f for f in findings if f[0] == kind and re.search(f[1], msg)]
            if hit:
                known.append(hit[0])
                os.remove(path)
            else:
                confirmed.append((path, kind, msg))
                if len(confirmed) >= 3:
                    break
        else:
            errors.append(f"{path}: violation did not reproduce in a fresh process ({kind})")
    wall = time.time() - t0
    runs = tot["runs"]
    rule = " | ".join(f"{w}: " + sh([exes[v], "rule", "--world", w]).stdout.strip()
                      for w, v in sorted({(p[0], p[1]) for p in plan}))
    faults = {k[6:]: n for k, n in counters.items() if k.startswith("fault:")}
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": rule + " Distinct: by a hash over every choice taken (inputs, event order, thread switches, "
                           "faults) and every result observed.",
            "samples": [s[:1500] for s in samples[:3]],
            "runs_per_hour": int(runs / max(t_explore, 1e-9) * 3600),
            "seeds": f"{seed}*0x1000003 + k, k < {runs} interleaved over {CORES} workers",
            "simulated_time": {"flooding_time_units": counters.get("flood_time_units", 0),
                               "instrumented_steps": counters.get("steps", 0),
                               "simulated_clock_ns": counters.get("clock_ns", 0)},
            "faults_injected": faults,
            "schedule_decisions": {"ties_decided": counters.get("ties_decided", 0),
                                   "thread_switches": counters.get("thread_switches", 0)},
            "counters": {k: n for k, n in sorted(counters.items()) if not k.startswith("fault:")},
            "runs_by_world": {k: dict(v) for k, v in per_world.items()},
            "determinism": {"runs_rechecked_same_seed_and_replayed": tot["rechecked"], "differing": tot["nondeterministic"]},
            "discarded_runs": tot["discarded"],
            "real_components": c.get("real", COMPONENTS["real"]),
            "stub_components": c.get("stub", COMPONENTS["stub"]),
            "build_s": round(t_build, 2),
        },
        "assumptions": c["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{prop}: {runs} runs ({len(hashes)} distinct non-trivial), {counters.get('calls', 0)} calls, "
          f"{counters.get('ties_decided', 0)} ties decided, faults {faults or 'none'}, {wall:.1f} s")
    for k in {x[2] for x in known}:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if confirmed:
        for path, kind, msg in confirmed:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  [{kind}] {msg[:1500]}")
        return 1
    if errors:
        die("; ".join(errors[:5]))
    if runs == 0:
        die("no runs")
    return 0


if __name__ == "__main__":
    sys.exit(main())
