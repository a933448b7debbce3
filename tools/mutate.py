#!/usr/bin/env python3
"""Development aid, used by no check: mutates /repo's sources line by line, builds each mutant with the
simulator in a scratch directory and reports which worlds kill it.

  mutate.py OUT.jsonl [--files REGEX] [--sample N] [--seconds S] [--jobs J] [--seed K]
"""
import argparse, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SB = "src/pymatching/sparse_blossom"
WRAP = "-Wl,--wrap=malloc,--wrap=free,--wrap=pthread_mutex_lock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"
ap = argparse.ArgumentParser()
ap.add_argument("out")
ap.add_argument("--files", default=".")
ap.add_argument("--sample", type=int, default=10**9)
ap.add_argument("--seconds", type=float, default=4)
ap.add_argument("--jobs", type=int, default=8)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--scratch", default="/tmp/x/mutants")
ap.add_argument("--worlds", default="C04 C01 C03 C02 C05 C08 C09 C11 C06 C10 C13 C12 C17 C14 C15 C16")
ap.add_argument("--only", default="")
ap.add_argument("--repo", default="/repo")
ap.add_argument("--skip", default="", help="file of lines 'path:line' (from a coverage build) that no world executes")
a = ap.parse_args()
REPO = a.repo

SKIP = re.compile(r"(test|perf|pybind|fill_match|/main\.cc$)|sim_hooks\.h")


def sources():
    r = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src/pymatching"))):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if (f.endswith(".cc") or f.endswith(".h") or f.endswith(".inl")) and (not SKIP.search(p)):
                r.append(p)
    return r


OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \^= ", " |= "), (r" \+= ", " -= "),
    (r" \^ ", " | "), (r" << 1\b", ""), (r" >>= 1", " >>= 0"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"),
    (r"\bfalse\b", "true"), (r"std::min\(", "std::max("), (r"std::max\(", "std::min("), (r"\(!", "("), (r"\bcontinue;", ";"),
    (r"\bbreak;", ";"), (r" = 0;", " = 1;"), (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"loc_from\b", "loc_to"),
    (r"loc_to\b", "loc_from"), (r"node1\b", "node2"), (r"\+\+;", "+=2;"), (r" = 1;", " = 0;"), (r"\.reversed\(\)", ""),
    (r" & ", " | "), (r"neg_", "pos_"), (r"\bnullptr\b(?=;)", "nullptr + 0"),
]


NEVER = set(open(a.skip).read().split()) if a.skip else set()


def mutants():
    for f in sources():
        if not re.search(a.files, f):
            continue
        lines = open(os.path.join(REPO, f)).read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if f"{f}:{i + 1}" in NEVER:
                continue
            if not s or s.startswith(("//", "#", "*", "/*", "template", "using", "namespace")) or "throw" in s or '"' in s:
                continue
            for pat, rep in OPS:
                if pat.startswith("neg_") or "nullptr" in pat:
                    continue
                for m in re.finditer(pat, l):
                    yield f, i, l[:m.start()] + rep + l[m.end():], pat
                    if pat in (r" \+ ", r" - "):
                        break
            if s.endswith(";") and not re.match(r"(return|auto|const|size_t|int|bool|double|std::|struct|class|static|break|continue|case|default|typedef|inline|virtual|explicit|else|friend|template)\b", s) and ("=" in s or "(" in s) and f.endswith(".cc"):
                yield f, i, re.match(r"\s*", l).group(0) + ";", "delete"
            if f.endswith(".h") and s.endswith(";") and re.match(r"[a-z_.\[\]>-]+(\(.*\)| = .*| [+^|-]= .*);$", s) and l.startswith("        "):
                yield f, i, re.match(r"\s*", l).group(0) + ";", "delete"
            m = re.match(r"(\s*(?:\} else )?if \()(.*)(\)( \{)?)$", l)
            if m and "constexpr" not in l:
                yield f, i, m.group(1) + "false" + m.group(3), "if-false"
                yield f, i, m.group(1) + "true" + m.group(3), "if-true"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


FL = "-std=c++20 -O1 -w -DPYMATCHING_SIM_HOOKS -DSIM_DRAW"


def compile_cmd(src, out, root):
    cov = "" if src.startswith(V) else "-fsanitize-coverage=trace-pc"
    return f"g++ {FL} {cov} -I{root}/src -I{V}/stim_stub -I{V}/sim -c {src} -o {out}"


def objs():
    cc = [f for f in sources() if f.endswith(".cc")]
    own = [os.path.join(V, "sim", f) for f in sorted(os.listdir(V + "/sim")) if f.endswith(".cc")] + [V + "/stim_stub/stim_stub.cc"]
    return cc, own


def deps(obj):
    return open(obj[:-2] + ".d").read()


def base():
    b = a.scratch + "/base"
    os.makedirs(b, exist_ok=True)
    cc, own = objs()
    jobs = []
    for s in [os.path.join(REPO, c) for c in cc] + own:
        o = b + "/" + os.path.basename(s)[:-3] + ".o"
        jobs.append((compile_cmd(s, o, REPO) + " -MMD", s, o))
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: sh(j[0]), jobs):
            if r.returncode:
                sys.exit(r.stdout)
    return {s: o for _, s, o in jobs}


def one(job):
    k, (f, i, new, op) = job
    d = f"{a.scratch}/m{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rec = {"k": k, "file": f, "line": i + 1, "op": op, "new": new.strip()}
    try:
        lines = open(os.path.join(REPO, f)).read().split("\n")
        rec["old"] = lines[i].strip()
        lines[i] = new
        root = d + "/r"
        os.makedirs(root)
        shutil.copytree(REPO + "/src", root + "/src")
        open(root + "/" + f, "w").write("\n".join(lines))
        link = []
        for s, o in BASE.items():
            need = (s == os.path.join(REPO, f)) or (f.endswith((".h", ".inl")) and (REPO + "/" + f) in deps(o))
            if need:
                no = d + "/" + os.path.basename(o)
                src = s.replace(REPO + "/", root + "/", 1) if s.startswith(REPO) else s
                try:
                    r = sh(compile_cmd(src, no, root), timeout=200)
                except subprocess.TimeoutExpired:
                    rec["result"] = "compile-timeout"
                    return rec
                if r.returncode:
                    rec["result"] = "no-compile"
                    return rec
                link.append(no)
            else:
                link.append(o)
        exe = d + "/sim"
        r = sh(f"g++ {' '.join(link)} {WRAP} -o {exe} -lpthread")
        if r.returncode:
            rec["result"] = "no-link"
            return rec
        t0 = time.time()
        rec["result"] = "SURVIVED"
        worlds = a.worlds.split()
        if "namespaced_main" in f:
            worlds = ["C14", "C15"] + worlds
        if "/diagram/" in f:
            worlds = ["C20"]
        if "rand" in f:
            worlds = ["C16"] + worlds
        if "tracker" in f:
            worlds = ["C10"] + worlds
        for w, seconds in [(w, a.seconds / 6) for w in worlds] + [(w, a.seconds) for w in worlds]:
            try:
                subprocess.run([exe, "explore", "--world", w, "--seed", "3", "--seconds", str(seconds), "--out", d + "/o", "--shrink", "0"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=a.seconds + 150)
                j = json.load(open(d + "/o.json"))
            except Exception as e:
                rec["result"] = "stuck"
                rec["world"] = w
                break
            if j["failed"]:
                rec["result"] = "killed"
                rec["world"] = w
                rec["kind"] = j["kind"]
                rec["runs"] = j["runs"]
                rec["reproduced"] = j.get("reproduced")
                break
        rec["t"] = round(time.time() - t0, 1)
        return rec
    except Exception as e:
        rec["result"] = "error " + repr(e)
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


BASE = base()
ms = list(enumerate(mutants()))
random.Random(a.seed).shuffle(ms)
if a.only:
    want = {tuple(x.split(":", 2)[:3]) for x in a.only.split(",")}
ms = ms[:a.sample]
print(len(ms), "mutants")
from collections import Counter
c = Counter()
with open(a.out, "w") as out, ThreadPoolExecutor(a.jobs) as ex:
    for rec in ex.map(one, ms):
        c[rec["result"]] += 1
        out.write(json.dumps(rec) + "\n")
        out.flush()
        if rec["result"] in ("SURVIVED", "stuck") or rec["result"].startswith("error") or rec.get("reproduced") is False:
            print(json.dumps(rec), flush=True)
print(dict(c))
