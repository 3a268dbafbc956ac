#!/usr/bin/env python3
"""Build a property's harnesses against /repo's current working tree, run the
generated-input search, aggregate evidence, and report.

usage: run_check.py PROPERTY quick|thorough
       run_check.py PROPERTY --replay FILE
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MSF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))

BASE = ["-std=c++17", "-w", "-g0", "-DBOOST_NO_CXX11_VARIADIC_TEMPLATES", "-DENABLE_MSF_TIMING",
        "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-DBOOST_PRAGMA_MESSAGE_DISABLED"]
INC = ["%(gen)s", VERIF + "/stubs", VERIF + "/engine", VERIF + "/checks", "/usr/include/eigen3"]
REPOINC = ["msf_core/include", "msf_updates/include", "msf_timing/include", "msf_updates/src"]
MODES = {
    "rel": ["-O1"],
    "san": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,alignment", "-D_GLIBCXX_ASSERTIONS"],
}
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Build:
    def __init__(self, work):
        self.work = work
        self.gen = os.path.join(work, "gen")
        self.cachedir = os.environ.get("VERIF_CACHE")  # development only: never set by the registered commands
        self.tree = None

    def prepare(self):
        subprocess.run([sys.executable, VERIF + "/tools/gen_ros.py", REPO, self.gen], check=True)
        if self.cachedir:
            h = hashlib.sha256()
            roots = [REPO, VERIF + "/stubs", VERIF + "/engine", VERIF + "/checks", VERIF + "/tools", VERIF + "/msgs"]
            for r in roots:
                for d, ds, fs in sorted(os.walk(r)):
                    ds[:] = sorted(x for x in ds if x not in (".git", "_build", "__pycache__"))
                    if d.startswith(VERIF + "/checks"):
                        fs = [f for f in fs if f.endswith((".h", ".hpp"))]
                    for f in sorted(fs):
                        if f.endswith((".py", ".pyc", ".m", ".dot", ".md")):
                            continue
                        h.update(os.path.join(d, f).encode())
                        h.update(open(os.path.join(d, f), "rb").read())
            self.tree = h.hexdigest()

    def flags(self, mode, defs):
        inc = [i % {"gen": self.gen} for i in INC] + [os.path.join(REPO, i) for i in REPOINC]
        return BASE + MODES[mode] + ["-D" + d for d in defs] + ["-I" + i for i in inc]

    def _run(self, cmd, out, key_src):
        if self.cachedir:
            h = hashlib.sha256((self.tree + json.dumps([c.replace(self.work, "W") for c in cmd])).encode())
            h.update(open(key_src, "rb").read())
            c = os.path.join(self.cachedir, h.hexdigest())
            if os.path.exists(c):
                shutil.copy(c, out)
                return None
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            errs = [l for l in p.stdout.splitlines() if "error" in l]
            return "%s\n%s\n%s" % (" ".join(cmd), "\n".join(l[:600] for l in errs[:12]), p.stdout[-3000:])
        if self.cachedir:
            os.makedirs(self.cachedir, exist_ok=True)
            shutil.copy(out, c + ".tmp%d" % os.getpid())
            os.replace(c + ".tmp%d" % os.getpid(), c)
        return None

    def compile(self, src, mode, defs, out, extra=()):
        cxx = "clang++"
        return self._run([cxx] + self.flags(mode, defs) + list(extra) + ["-c", src, "-o", out], out, src)

    def link(self, objs, mode, out, libs, cxx="clang++", extra=()):
        p = subprocess.run([cxx] + MODES[mode] + list(extra) + objs + ["-o", out] + libs + ["-lglog", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return None if p.returncode == 0 else p.stdout[-6000:]


REPO_SRC = {
    "timing": "msf_timing/src/Timer.cc",
    "tools": "msf_core/src/lib/msf_tools.cc",
    "falsecolor": "msf_core/src/lib/falsecolor.cc",
    "gps": "msf_core/src/lib/gps_conversion.cc",
    "similarity": "msf_core/src/similaritytransform.cc",
    "distorter": "msf_updates/src/msf_distort/PoseDistorter.cc",
}
EKF_SRC = ["timing", "tools", "falsecolor", "gps", "distorter"]


def build_unit(b, pool, unit, mode, idx):
    """returns a future-like closure result: (binary, error)"""
    if unit.get("py"):  # a Python harness: an executable that knows the tree under test
        binary = os.path.join(b.work, "%s_%d" % (unit["py"].replace(".", "_"), idx))
        with open(binary, "w") as f:
            f.write("#!/bin/sh\nMSF_REPO='%s' exec '%s' -B '%s' \"$@\"\n" % (REPO, sys.executable, os.path.join(VERIF, "checks", unit["py"])))
        os.chmod(binary, 0o755)
        return binary, None, []
    defs = list(unit.get("defs", []))
    srcs = [os.path.join(VERIF, "checks", unit["src"])] if not unit.get("gen_src") else [unit["gen_src"]]
    jobs = []
    tag = "%s_%d_%s" % (os.path.basename(srcs[0]).replace(".", "_"), idx, mode)
    objs = []
    for s in srcs:
        o = os.path.join(b.work, tag + ".o")
        objs.append(o)
        jobs.append(pool.submit(b.compile, s, mode, defs, o, unit.get("cflags", ())))
    for r in unit.get("repo", EKF_SRC):
        s = os.path.join(REPO, REPO_SRC[r])
        if not os.path.exists(s):
            continue
        o = os.path.join(b.work, tag + "_" + r + ".o")
        objs.append(o)
        jobs.append(pool.submit(b.compile, s, mode, defs, o))
    for s in ["/engine/main.cc"] + (["/checks/util.cc"] if any(d.startswith("APP_") for d in defs) or unit.get("util") else []):
        o = os.path.join(b.work, tag + "_" + os.path.basename(s)[:-3] + ".o")
        objs.append(o)
        jobs.append(pool.submit(b.compile, VERIF + s, mode, [], o))
    binary = os.path.join(b.work, tag)
    return binary, objs, jobs


def run_targets(binary, target, seed, count, budget, work, workers, cpu, tag, env=None, start0=0):
    procs = []
    per = max(1, (count + workers - 1) // workers)
    for w in range(workers):
        out = os.path.join(work, "%s_%s_%d.json" % (tag, target, w))
        rep = os.path.join(work, "%s_%s_%d.replay" % (tag, target, w))
        cmd = [binary, "run", target, "seed=%d" % seed, "start=%d" % (start0 + w), "count=%d" % per, "step=%d" % workers,
               "budget=%g" % budget, "out=" + out, "replay=" + rep, "cpu=%d" % cpu]
        procs.append((subprocess.Popen(cmd, env=env), out, rep))
    res = []
    for p, out, rep in procs:
        p.wait()
        try:
            d = json.load(open(out))
        except Exception:
            d = {"target": target, "ran": 0, "nontrivial": 0, "evals": 0, "labels": {}, "hashes": [], "samples": [],
                 "failure": None, "rule": "", "broken": "runner exited with %s" % p.returncode}
        d["replay"] = rep
        res.append(d)
    return res


def main():
    from registry import PROPS
    prop = sys.argv[1]
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="msfv_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            sys.exit(replay_cmd(spec, work, sys.argv[3]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(run(prop, spec, tier, seed, work, t0))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def build_all(spec, work, modes, known=()):
    b = Build(work)
    b.prepare()
    plans, errs = [], []
    with cf.ThreadPoolExecutor(JOBS) as pool:
        for i, u in enumerate(spec["units"]):
            units = [u]
            if "generate" in u:  # program generators: produce sources first
                units = u["generate"](b, work, int(os.environ.get("VERIF_SEED", "1") or "1"), spec.get("_tier", "quick"))
            for j, uu in enumerate(units):
                uu["_idx"] = i * 100 + j
                for mode in modes(uu):
                    plans.append((uu, mode) + build_unit(b, pool, uu, mode, i * 100 + j))
        for u, mode, binary, objs, jobs in plans:
            for j in jobs:
                e = j.result()
                if e:
                    errs.append(e)
        if errs:
            return None, errs
        links = [pool.submit(b.link, objs, mode, binary, []) for u, mode, binary, objs, jobs in plans if objs]
        for l in links:
            e = l.result()
            if e:
                errs.append(e)
    return [(u, mode, binary) for u, mode, binary, _, _ in plans], errs


SAN_ENV = {"ASAN_OPTIONS": "abort_on_error=0:detect_leaks=0:detect_odr_violation=0:exitcode=99", "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0"}


def replay_target(text):
    """Target and, if recorded, the unit (the same target may be built for several applications)."""
    unit = re.search(r"^unit=(\d+)$", text, re.M)
    return re.search(r"^target=(.*)$", text, re.M).group(1), int(unit.group(1)) if unit else None


def replay_cmd(spec, work, f):
    text = open(f).read()
    mode = re.search(r"^mode=(.*)$", text, re.M)
    bins, errs = build_all(spec, work, lambda u: [mode.group(1) if mode else "rel"])
    if errs:
        log(errs[0])
        return 2
    tgt, unit = replay_target(text)
    env = dict(os.environ, **SAN_ENV)
    for u, mode, binary in bins:
        names = [l.split("\t")[0] for l in subprocess.run([binary, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
        if tgt in names and unit in (None, u["_idx"]):
            return subprocess.run([binary, "replay", f], env=env).returncode
    log("no such target " + tgt)
    return 2


def known_entries(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e["property"] == prop]


def run(prop, spec, tier, seed, work, t0):
    spec["_tier"] = tier
    def modes(u):
        m = list(u.get("modes_quick", ["rel"])) if tier == "quick" else list(u.get("modes_thorough", ["rel", "san"]))
        return m
    bins, errs = build_all(spec, work, modes)
    if errs:
        log("BUILD FAILED (harness does not compile against this tree)\n" + errs[0])
        return 2
    t_build = time.time() - t0
    agg = {"ran": 0, "nontrivial": 0, "evals": 0, "labels": {}, "samples": [], "rules": {}}
    hashes = set()
    failures = []
    per_target = {}
    env = dict(os.environ, **SAN_ENV)
    # Regression replays: shrunk failures found earlier (fixed defects, planted bugs) run first.
    replays = sorted(glob.glob(os.path.join(VERIF, "regress", prop, "*.replay")))
    nreg = 0
    for u, mode, binary in bins:
        names = [l.split("\t")[0] for l in subprocess.run([binary, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
        for r in replays:
            tgt, unit = replay_target(open(r).read())
            if tgt in names and unit in (None, u["_idx"]):
                nreg += 1
                outs = [subprocess.run([binary, "replay", r], stdout=subprocess.PIPE, text=True, env=env) for _ in range(3 if False else 1)]
                if outs[0].returncode == 1 and all(subprocess.run([binary, "replay", r], stdout=subprocess.DEVNULL, env=env).returncode == 1 for _ in range(2)):
                    failures.append({"target": tgt, "mode": mode, "msg": "regression case " + os.path.basename(r) + ": " + outs[0].stdout[:1500], "replay": r, "confirmed": True})
    known = [e for e in known_entries(prop) if e["status"] == "known"]
    known_lines = []
    for e in known:
        r = os.path.join(VERIF, e["replay"])
        tgt, unit = replay_target(open(r).read())
        for u, mode, binary in bins:
            if mode != "rel":
                continue
            names = [l.split("\t")[0] for l in subprocess.run([binary, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
            if tgt in names and unit in (None, u["_idx"]):
                if subprocess.run([binary, "replay", r], stdout=subprocess.DEVNULL, env=env).returncode == 1:
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
                break
    if not failures:
        for u, mode, binary in bins:
            for tname, qn, tn in u["targets"]:
                n = qn if tier == "quick" else tn
                if mode == "san":
                    n = max(1, n // u.get("san_div", 8))
                if n <= 0:
                    continue
                budget = u.get("budget", 120) if tier == "quick" else u.get("budget_thorough", 900)
                res = run_targets(binary, tname, seed if mode == "rel" else seed + 7919, n, budget, work, JOBS, u.get("cpu", 20), mode, env)
                pt = per_target.setdefault(tname + ("" if mode == "rel" else "@" + mode), {"ran": 0, "nontrivial": 0, "secs": 0, "labels": {}})
                for d in res:
                    if d.get("broken"):
                        log("worker problem:", d["broken"])
                        failures.append({"target": tname, "mode": mode, "msg": d["broken"], "replay": None, "confirmed": False})
                    agg["ran"] += d["ran"]; agg["nontrivial"] += d["nontrivial"]; agg["evals"] += d["evals"]
                    pt["ran"] += d["ran"]; pt["nontrivial"] += d["nontrivial"]; pt["secs"] = max(pt["secs"], round(d.get("secs", 0), 2))
                    hashes.update(d["hashes"])
                    agg["rules"][tname] = d["rule"]
                    for k, v in d["labels"].items():
                        pt["labels"][k] = pt["labels"].get(k, 0) + v
                    for s in d["samples"][:1]:
                        if sum(1 for x in agg["samples"] if x["target"] == tname) < 2:
                            agg["samples"].append({"target": tname, "case": s})
                    if d["failure"]:
                        f = dict(d["failure"]); f["target"] = tname; f["mode"] = mode; f["unit"] = u["_idx"]; f["replay"] = d["replay"]
                        failures.append(f)
                if any(f.get("confirmed") for f in failures):
                    break
            if any(f.get("confirmed") for f in failures):
                break
    confirmed = [f for f in failures if f.get("confirmed")]
    unconfirmed = [f for f in failures if not f.get("confirmed")]
    if tier == "thorough" and not confirmed and spec.get("fuzz"):
        import fuzz
        confirmed += fuzz.campaign(prop, spec, work, seed, per_target, hashes, agg)
    repl = None
    if confirmed:
        confirmed.sort(key=lambda f: (f.get("shrunk_draws", 0), f.get("case", 0)))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        repl = os.path.join(VERIF, "replays", "%s.replay" % prop)
        if os.path.abspath(confirmed[0]["replay"]) != repl:
            shutil.copy(confirmed[0]["replay"], repl)
            if "unit" in confirmed[0]:
                with open(repl, "a") as f:
                    f.write("\nunit=%d\nmode=%s\n" % (confirmed[0]["unit"], confirmed[0]["mode"]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["ran"], "distinct_nontrivial": len(hashes), "inner_evaluations": agg["evals"],
            "rule": "; ".join("%s: %s" % (k, v) for k, v in agg["rules"].items()) or "build or regression replay only",
            "samples": agg["samples"], "per_target": per_target, "regression_replays": nreg,
            "build_s": round(t_build, 1), "known_findings": known_lines,
            "excluded_by_construction": spec.get("excluded", []),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    if unconfirmed:
        ev["coverage"]["unconfirmed"] = [{k: f.get(k) for k in ("target", "mode", "msg", "case")} for f in unconfirmed]
    if confirmed:
        ev["coverage"]["failure"] = {k: confirmed[0].get(k) for k in ("target", "mode", "msg", "case", "shrunk_draws", "orig_draws", "shrink_tries", "note")}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in known_lines:
        print(l)
    for f in unconfirmed:
        log("not reproducible, not reported:", f.get("target"), f.get("msg"))
    if confirmed:
        f = confirmed[0]
        print("%s [%s/%s] %s" % (prop, f["target"], f["mode"], f["msg"][:1500]))
        if f.get("note"):
            print("minimal case:\n" + f["note"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, repl))
        return 1
    print("%s %s: held on %d cases (%d distinct non-trivial), build %.1fs, total %.1fs" % (prop, tier, agg["ran"], len(hashes), t_build, time.time() - t0))
    return 0
