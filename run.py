#!/usr/bin/env python3
"""Builds and runs one deterministic-simulation check.

  run.py C03                    search (VERIF_SEED, VERIF_TIER decide what is explored)
  run.py C03 --replay FILE      replay a violation file, or `--replay seed:N` one seed
  run.py C03 --determinism N    run N seeds twice, in different processes and worker counts
  run.py --setup                build everything once
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
SIM = os.path.join(HERE, "sim")
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, FAULTS  # noqa: E402

CXX = os.environ.get("VERIF_CXX", "clang++")
BASE = ["-std=c++17", "-include", "cstdint", "-O1", "-gline-tables-only", "-DNDEBUG", "-DUSE_LIBFFTW",
        "-DUSE_LIBSNDFILE", "-DUSE_LIBSAMPLERATE", "-DUSE_TAGLIB", "-fsanitize=address",
        "-fno-omit-frame-pointer", "-Wno-everything", "-pthread", "-fPIC"]
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]


class HarnessError(Exception):
    pass


def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash(roots):
    h = hashlib.sha256()
    files = []
    for r in roots:
        if os.path.isfile(r):
            files.append(r)
        for d, _, names in sorted(os.walk(r)):
            files += [os.path.join(d, n) for n in names]
    for f in sorted(files):
        h.update(f.encode())
        try:
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            pass
    return h.hexdigest()


def compile_one(job):
    src, flags, key = job
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = [CXX] + flags + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise HarnessError("compiling %s failed:\n%s" % (src, p.stdout[-6000:]))
    os.replace(tmp, obj)
    return obj


_tree = {}


def repo_hash():
    if "repo" not in _tree:
        _tree["repo"] = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "bindings"),
                                   os.path.join(REPO, "extension")])
        _tree["sim"] = tree_hash([SIM])
    return _tree["repo"], _tree["sim"]


def build(pid):
    spec = PROPS[pid]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    rh, sh = repo_hash()
    jobs = []
    for c in ["sim"] + spec.get("core", []):
        src = os.path.join(SIM, "core", c + ".cpp")
        flags = list(BASE)
        key = hashlib.sha256(repr((src, flags, sh)).encode()).hexdigest()[:24]
        jobs.append((src, flags, key))
    for s in spec["src"]:
        cov = s.endswith("+cov")
        s = s[:-4] if cov else s
        src = s.replace("$REPO", REPO) if s.startswith("$REPO") else os.path.join(SIM, "props", s)
        # -O0: an optimiser keeps shared state in registers, which hides the moments at which others change it
        flags = BASE + (COV + [spec.get("cov_opt", "-O0")] if cov else []) + ["-I" + os.path.join(REPO, "include"), "-I" + SIM]
        flags += [f.replace("$REPO", REPO) for f in spec.get("flags", [])]
        if s.startswith("$REPO"):
            flags += spec.get("repo_flags", [])
        if src.endswith(".c"):
            flags = ["-x", "c++"] + flags
        key = hashlib.sha256(repr((src, flags, rh, sh)).encode()).hexdigest()[:24]
        jobs.append((src, flags, key))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        objs = list(ex.map(compile_one, jobs))
    exe_key = hashlib.sha256(repr(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, pid + "-" + exe_key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [CXX, "-fsanitize=address", "-pthread", "-rdynamic"] + objs + ["-o", tmp]
        cmd += ["-l" + l for l in spec.get("libs", [])] + ["-ldl"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise HarnessError("linking %s failed:\n%s" % (pid, p.stdout[-6000:]))
        for old in glob.glob(os.path.join(BUILD, pid + "-*")):
            if old != tmp:
                try:
                    os.unlink(old)
                except OSError:
                    pass
        os.replace(tmp, exe)
    for extra in spec.get("prepare", []):
        extra(sys.modules[__name__])
    return exe


def seed_base(spec_index):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return seed, (seed * 1000003 + spec_index * 101) * 1000000


def workdir():
    d = os.path.join(BUILD, "work-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def run_env(tier):
    env = dict(os.environ)
    env["VERIF_TIER"] = tier
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    env.pop("SIM_REEXEC", None)
    return env


def batches(exe, first, per, seconds, workers, tier, hashes=False):
    wd = workdir()
    procs = []
    for w in range(workers):
        out = os.path.join(wd, "batch%d.json" % w)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--batch", str(first + w * per), str(per), str(seconds), out]
        if hashes:
            cmd += ["--hashes", os.path.join(wd, "hashes%d" % w)]
        procs.append((subprocess.Popen(cmd, env=run_env(tier), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, errors="replace"), out))
    res = []
    for p, out in procs:
        txt, _ = p.communicate()
        if p.returncode != 0 or not os.path.exists(out):
            raise HarnessError("simulator ended with %s: %s" % (p.returncode, txt[-2000:]))
        with open(out, errors="replace") as f:
            res.append(json.load(f))
    return res


def read_hashes(workers):
    wd = workdir()
    h = {}
    for w in range(workers):
        with open(os.path.join(wd, "hashes%d" % w)) as f:
            for line in f:
                a = line.split()
                h[int(a[0])] = " ".join(a[1:])
    return h


def replay(exe, tapes_text, tier):
    wd = workdir()
    t = os.path.join(wd, "tape")
    with open(t, "w") as f:
        f.write(tapes_text)
    o = os.path.join(wd, "replay.json")
    if os.path.exists(o):
        os.unlink(o)
    p = subprocess.run([exe, "--replay", t, o], env=run_env(tier), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if not os.path.exists(o):
        raise HarnessError("replay ended with %d: %s" % (p.returncode, p.stdout[-2000:]))
    with open(o, errors="replace") as f:
        return json.load(f)


def tape_text(tapes):
    return "\n".join(" ".join(str(x) for x in t) for t in tapes) + "\n"


def known_findings(pid):
    res = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    res.append(d)
    return res


def report(pid, exe, found, tier):
    """Gates, minimises and writes a violation; returns the path of the replay file."""
    wd = workdir()
    o = os.path.join(wd, "min.json")
    if os.path.exists(o):
        os.unlink(o)
    budget = 60 if tier == "quick" else 240
    p = subprocess.run([exe, "--minimise", str(found["seed"]), str(budget), o], env=run_env(tier),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if not os.path.exists(o):
        raise HarnessError("violation at seed %s (%s: %s) does not reproduce: %s" %
                           (found["seed"], found["class"], found["msg"], p.stdout[-500:]))
    with open(o, errors="replace") as f:
        m = json.load(f)
    if not m["deterministic"]:
        raise HarnessError("violation at seed %s (%s: %s): the same seed gave two different runs" %
                           (found["seed"], found["class"], found["msg"]))
    text = tape_text(m["tapes"])
    r1 = replay(exe, text, tier)
    if r1["outcome"] != "violation" or r1["class"] != m["class"] or r1["hash"] != m["hash"]:
        # fall back to the unminimised seed
        text = "seed %d\n" % found["seed"]
        r1 = replay(exe, text, tier)
        r2 = replay(exe, text, tier)
        if r1["outcome"] != "violation" or r1["hash"] != r2["hash"] or r1["class"] != r2["class"]:
            raise HarnessError("violation at seed %s (%s) does not replay in a fresh process" %
                               (found["seed"], found["class"]))
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%s.json" % (pid, found["seed"]))
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": found["seed"], "class": r1["class"], "message": r1["msg"],
                   "hash": r1["hash"], "tape": text, "minimised_draws": [len(t) for t in m["tapes"]],
                   "original_draws": m["original_draws"], "trace": r1["trace"].split("\n"),
                   "stderr": r1["stderr"].split("\n"),
                   "replay_with": "python3 run.py %s --replay %s" % (pid, path)}, f, indent=1)
        f.write("\n")
    print("class: %s\nmessage: %s" % (r1["class"], r1["msg"]))
    print("seed %s, minimised from %s to %s draws" % (found["seed"], m["original_draws"],
                                                     [len(t) for t in m["tapes"]]))
    tail = r1["trace"].rstrip("\n").split("\n")
    print("last events:\n  " + "\n  ".join(tail[-25:]))
    return path


def search(pid, tier):
    spec = PROPS[pid]
    t0 = time.time()
    exe = build(pid)
    tb = time.time() - t0
    seed, first = seed_base(spec["index"])
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    q = spec["quick"] if tier == "quick" else spec["thorough"]
    per, seconds = q
    if os.environ.get("VERIF_SECONDS"):
        seconds = float(os.environ["VERIF_SECONDS"])
        per = 10 ** 9 // 1000
    t1 = time.time()
    res = batches(exe, first, per, seconds, workers, tier, hashes=False)
    ts = time.time() - t1
    # the same seeds again, in other processes and with another number of workers
    recheck = {"seeds": 0, "mismatches": 0}
    found = [r["found"] for r in res if r["found"]]
    if not found:
        n = min(spec.get("recheck", 16), per)
        batches(exe, first, n, 60, 1, tier, hashes=True)
        a = read_hashes(1)
        batches(exe, first, (n + 2) // 3, 60, 3, tier, hashes=True)
        b = read_hashes(3)
        common = [s for s in a if s in b]
        bad = [s for s in common if a[s] != b[s]]
        recheck = {"seeds": len(common), "mismatches": len(bad)}
        if bad:
            print("WARNING: seeds %s gave different executions in different processes" % bad[:5])
    runs = sum(r["runs"] for r in res)
    stats = {}
    for r in res:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    distinct = set()
    for r in res:
        distinct.update(r["hashes"])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(distinct),
        "rule": spec["rule"],
        "samples": [s for r in res for s in r["samples"]][:4] or ["(no sample)"],
        "seeds": {"VERIF_SEED": seed, "first": first, "per_worker": per, "workers": workers},
        "simulated_runs_per_hour": int(runs / max(ts, 1e-9) * 3600),
        "search_wall_s": round(ts, 2),
        "simulated_time_s": round(sum(r["sim_s"] for r in res), 3),
        "events": sum(r["events"] for r in res),
        "faults_injected": faults,
        "probes": probes,
        "distinct_states": {"measure": spec.get("measure", "abstract states marked by the workload"),
                            "count_max_per_worker": max(r["cover"] for r in res)},
        "real_components": spec["real"],
        "stubbed_components": spec["stub"],
        "determinism_recheck": recheck,
    }
    code = 0
    lines = []
    violations = 0
    if found:
        found.sort(key=lambda f: f["seed"])
        f = found[0]
        if f["broken"]:
            raise HarnessError("the harness failed at seed %s: %s: %s" % (f["seed"], f["class"], f["msg"]))
        path = report(pid, exe, f, tier)
        violations = 1
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    for k in known_findings(pid):
        r = replay(exe, k["tape"], tier)
        if r["outcome"] == "violation" and r["class"] == k["class"]:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": violations,
          "build_s": round(tb, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs (%d distinct non-trivial) in %.1f s, build %.1f s, faults %s" %
          (pid, runs, len(distinct), ts, tb, json.dumps(faults)))
    for line in lines:
        print(line, flush=True)
    return code


def determinism(pid, n, tier):
    exe = build(pid)
    _, first = seed_base(PROPS[pid]["index"])
    first += 500000
    ref = None
    for workers in (1, 8, 3):
        per = (n + workers - 1) // workers
        batches(exe, first, per, 3600, workers, tier, hashes=True)
        h = read_hashes(workers)
        if ref is None:
            ref = h
        else:
            bad = [s for s in ref if s in h and ref[s] != h[s]]
            print("%s: %d seeds, %d workers: %d mismatches %s" % (pid, len([s for s in ref if s in h]), workers,
                                                                  len(bad), bad[:5]))
            if bad:
                return 2
    return 0


def main():
    args = sys.argv[1:]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--thorough" in args:
        tier = "thorough"
        args.remove("--thorough")
    if not args:
        print(__doc__)
        return 2
    if args[0] == "--setup":
        for pid in sorted(PROPS):
            t = time.time()
            build(pid)
            print("built %s in %.1f s" % (pid, time.time() - t), flush=True)
        return 0
    pid = args[0]
    try:
        if len(args) >= 3 and args[1] == "--replay":
            exe = build(pid)
            if args[2].startswith("seed:"):
                text = "seed %s\n" % args[2][5:]
            else:
                d = json.load(open(args[2]))
                text, tier = d["tape"], d.get("tier", tier)
            r = replay(exe, text, tier)
            print(r["trace"])
            print(r["stderr"])
            print("outcome %s class %s hash %s\n%s" % (r["outcome"], r["class"], r["hash"], r["msg"]))
            if r["outcome"] == "violation":
                print("VIOLATION property=%s replay=%s" % (pid, args[2]))
            return {"ok": 0, "violation": 1}.get(r["outcome"], 2)
        if len(args) >= 3 and args[1] == "--determinism":
            return determinism(pid, int(args[2]), tier)
        return search(pid, tier)
    finally:
        wd = os.path.join(BUILD, "work-%d" % os.getpid())
        if os.path.isdir(wd):
            for n in os.listdir(wd):
                os.unlink(os.path.join(wd, n))
            os.rmdir(wd)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        fail(str(e))
