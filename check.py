#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the property's harness from /repo's working tree in every configuration it names, explores its
bounded space exhaustively, replays what fails, writes evidence/PROPERTY.json.
Exit 0: held everywhere explored. Exit 1: VIOLATION line. Exit 2: the check itself could not decide."""
import concurrent.futures, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SUCCINCT_REPO", "/repo")
CONFIGS = {
    # name: (compiler, flags, intrinsics, popcnt)
    "asan": ("g++", "-O1 -g -fno-omit-frame-pointer -fsanitize=address", 1, 0),
    "soft": ("g++", "-O2 -funsigned-char", 0, 0),
    "popcnt": ("clang++", "-O2 -DNDEBUG -msse4.2 -mpopcnt", 1, 1),
    "default": ("g++", "-O2", 1, 0),
    "count": ("g++", "-O1 -g -fsanitize=thread -DMC_COUNT", 1, 0),   # likewise
    "sched": ("g++", "-O1 -g -fsanitize=thread -DMC_SCHED", 1, 0),   # linked against the harness's own hooks
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:hard_rss_limit_mb=6000:allocator_may_return_null=0:detect_stack_use_after_return=0",
           LC_ALL="C.UTF-8", MALLOC_PERTURB_="165")
ENV["PATH"] = "/usr/local/bin:/usr/bin:/bin"
for k in ("LD_LIBRARY_PATH", "LD_PRELOAD"):
    ENV.pop(k, None)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def stage(cfg, base):
    """A directory of links to /repo's sources with a configuration header of its own."""
    d = os.path.join(base, cfg, "succinct")
    shutil.rmtree(os.path.join(base, cfg), ignore_errors=True)
    os.makedirs(d)
    for f in sorted(os.listdir(REPO)):
        if f.startswith((".", "_", "test_")) or f in ("perftest", "succinct_config.hpp", "CMakeFiles"):
            continue
        p = os.path.join(REPO, f)
        if os.path.isdir(p) or re.search(r"\.(hpp|h|hh|cpp|cc|ipp|inl|tpp|inc|in)$", f):
            os.symlink(p, os.path.join(d, f))
    _, _, intr, pop = CONFIGS[cfg]
    with open(os.path.join(d, "succinct_config.hpp"), "w") as o:
        o.write("#pragma once\n#define SUCCINCT_USE_LIBCXX 0\n#define SUCCINCT_USE_INTRINSICS %d\n#define SUCCINCT_USE_POPCNT %d\n" % (intr, pop))
    return d


def compile_one(args):
    cmd, log = args
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    return r.returncode, " ".join(cmd) + "\n" + r.stdout


def build(prop, harness, cfgs, base):
    jobs, bins = [], {}
    for cfg in cfgs:
        d = stage(cfg, base)
        cxx, flags, _, _ = CONFIGS[cfg]
        inc = ["-I" + os.path.join(base, cfg), "-I" + d, "-I" + os.path.join(ROOT, "mc")]
        objs = []
        srcs = [(os.path.join(ROOT, "h", s), harness.get("flags", {}).get(s, "").replace("{ROOT}", ROOT)) for s in harness["src"]]
        libflags = harness.get("libflags", "")
        srcs += [(s, libflags) for s in sorted(glob.glob(os.path.join(d, "*.cpp")) + glob.glob(os.path.join(d, "*.cc")))]
        for s, extra in srcs:
            o = os.path.join(base, cfg, os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append(([cxx, "-w", "-include", os.path.join(ROOT, "mc", "prelude.hpp"), "-c", s, "-o", o] + flags.split() + extra.split() + inc, None))
        bins[cfg] = ([cxx, "-o", os.path.join(base, cfg, prop)] + objs + [f for f in flags.split() if f != "-fsanitize=thread"] + ["-lboost_iostreams", "-lboost_system", "-lpthread"])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for rc, log in ex.map(compile_one, jobs):
            if rc:
                die("does not compile:\n" + log[:2500])
        for rc, log in ex.map(compile_one, [(c, None) for c in bins.values()]):
            if rc:
                die("does not link:\n" + log[:2500])
    return {c: os.path.join(base, c, prop) for c in cfgs}


def run(cmd, timeout, log):
    with open(log, "wb") as o:
        p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    return rc, open(log, errors="replace").read()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = json.load(open(os.path.join(ROOT, "checks.json")))[prop]
    cfgs = spec.get("configs", ["asan", "soft", "popcnt"])
    t0 = time.time()
    budget = 800 if tier == "quick" else 6 * 3600
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    base = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(ROOT, "build"))
    scratch = tempfile.mkdtemp(prefix="succinct-mc-" + prop + "-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        code = decide(prop, tier, seed, spec, cfgs, base, scratch, t0, budget)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, spec, cfgs, base, scratch, t0, budget):
    bins = build(prop, spec, cfgs, base)
    tb = time.time() - t0
    total = {"cases": 0, "checks": 0, "states": 0, "outcomes": 0}
    per_cfg, samples, violation, cap, cut = {}, [], None, False, 0
    workers = str(spec.get("workers", os.cpu_count() or 8))
    for cfg in cfgs:
        out, log = os.path.join(base, cfg, "out.json"), os.path.join(base, cfg, "log.txt")
        common = [bins[cfg], "--tier", tier, "--cfg", cfg, "--scratch", scratch]
        cmd = common + ["--workers", workers, "--out", out]
        t1 = time.time()
        rc, text = run(cmd, max(10, budget - (time.time() - t0)), log)
        if rc is None:
            die("%s: time budget exhausted in configuration %s\n%s" % (prop, cfg, text[-2000:]))
        try:
            res = json.load(open(out))
        except (OSError, ValueError):
            die("%s: no result in configuration %s (exit %s)\n%s" % (prop, cfg, rc, text[-3000:]))
        if res.get("error") and "fail" not in res:
            die("%s: %s in configuration %s\n%s" % (prop, res["error"], cfg, text[-3000:]))
        per_cfg[cfg] = {"histories": res["cases"], "comparisons": res["checks"], "states": res["states"],
                        "distinct_outcomes": res["outcomes"], "sections": res["sections"], "wall_s": round(time.time() - t1, 2)}
        for k in ("cases", "checks"):
            total[k] += res[k]
        for k in ("states", "outcomes"):
            total[k] = max(total[k], res[k])
        cap = cap or bool(res["state_cap"])
        cut += res["cut"]
        if not samples:
            samples = [s for s in res["samples"].split("\n") if s]
        print("%s %s: histories=%d comparisons=%d states=%d %.1fs" % (prop, cfg, res["cases"], res["checks"], res["states"], time.time() - t1), flush=True)
        if "fail" in res:
            f = res["fail"]
            ident = "%s:%d" % (f["section"], f["index"])
            # replay the one case alone, twice, before reporting it
            with concurrent.futures.ThreadPoolExecutor(2) as ex:
                reps = list(ex.map(lambda k: run(common + ["--replay", ident, "--hang", "150"], 360, log + ".r%d" % k), range(2)))
            bad = [r for r in reps if r[0] not in (0, 2)]
            how = "case alone"
            if len(bad) < 2:
                # the failure may need the cases before it: re-run the whole exploration
                rc2, text2 = run(cmd, 600, log + ".again")
                try:
                    again = json.load(open(out)).get("fail")
                except (OSError, ValueError):
                    again = None
                if not again or (again["section"], again["index"]) != (f["section"], f["index"]):
                    die("%s: failure at %s in %s did not reproduce (first %r, then %r)\n%s" % (prop, ident, cfg, f, again, text[-2000:]))
                how = "entire exploration"
                reps = [(rc2, text2)]
            violation = {"property": prop, "tier": tier, "config": cfg, "case": ident, "kind": f["kind"], "message": f["msg"],
                         "reproduced_by": how, "replay_output": [r[1][-6000:] for r in reps],
                         "replay_cmd": "python3 /verif/replay.py <this file>"}
            break
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": total["states"], "transitions": total["checks"], "traces_validated_against_impl": total["cases"],
                       "distinct_outcomes": total["outcomes"], "exhaustive": violation is None and not cut, "parts_ended_by_budget": cut,
                       "bounds": spec["bounds"][tier], "alphabet": spec["alphabet"], "oracle": spec["oracle"],
                       "rule": "every case of the enumerated space is executed on the compiled /repo code in each configuration and every step compared with the reference; "
                               "states = distinct reference states/inputs visited (exact, largest configuration%s), transitions = compared steps, traces = complete histories run" % (", state table full: lower bound" if cap else ""),
                       "configurations": per_cfg, "samples": samples[:12]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 0 if violation is None else 1}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    if violation is None:
        print("%s: held on everything explored (%.1fs, build %.1fs)" % (prop, time.time() - t0, tb), flush=True)
        return 0
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    rp = os.path.join(ROOT, "evidence", "replay", prop + ".json")
    with open(rp, "w") as o:
        json.dump(violation, o, indent=1)
    print("%s: %s in %s at %s: %s" % (prop, violation["kind"], violation["config"], violation["case"], violation["message"] or violation["replay_output"][0][-1500:]))
    print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    return 1


if __name__ == "__main__":
    try:
        main()
    except Exception as e:  # never to be mistaken for a violation
        import traceback
        traceback.print_exc()
        die("unexpected %s" % type(e).__name__)
