#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C04                    quick (or VERIF_TIER) check, seed VERIF_SEED
  check.py C04 --tier thorough
  check.py C04 --replay FILE      replay one recorded failure
  check.py --setup                build every flavour

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 3: the machinery itself could not run (e.g. /repo does not compile).
"""
import argparse, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")

# property -> list of (flavour, quick cases, thorough seconds, workers)
# Quick budgets are case counts, so a run is a function of the tree and the
# seed; TIME_CAP only bounds a very slow machine.
PLAN = {
    "C01": [("asan", 60000, 300, 8), ("fast", 80000, 200, 8)],
    "C02": [("asan", 300000, 300, 8), ("fast", 700000, 200, 8)],
    "C03": [("asan", 130000, 300, 8), ("fast", 500000, 200, 8)],
    "C04": [("asan", 450000, 500, 8)],
    "C05": [("asan", 90000, 300, 8), ("fast", 120000, 200, 8)],
    "C06": [("asan", 60000, 300, 8), ("fast", 70000, 200, 8)],
    "C07": [("asan", 90000, 300, 8), ("fast", 350000, 200, 8)],
    "C08": [("asan", 60000, 300, 8), ("fast", 60000, 200, 8)],
    "C09": [("asan", 110000, 300, 8), ("fast", 350000, 200, 8)],
    "C10": [("asan", 130000, 300, 8), ("fast", 300000, 200, 8)],
    "C11": [("tsan", 12000, 500, 4), ("fast", 20000, 60, 4)],
    "C12": [("asan", 70000, 300, 8), ("fast", 350000, 200, 8)],
    "C13": [("fast", 14000, 350, 8), ("asan", 1500, 150, 8)],
    "C14": [("fast", 60000, 350, 8), ("asan", 6000, 150, 8)],
    "C15": [("asan", 180000, 300, 8), ("fast", 700000, 200, 8)],
    "C16": [("asan", 100000, 300, 8), ("fast", 400000, 200, 8)],
    "C17": [("asan", 380000, 300, 8), ("fast", 1400000, 200, 8)],
    "C18": [("asan", 250000, 300, 8), ("fast", 900000, 200, 8)],
    "C19": [("work", 60000, 500, 8)],
    "C20": [("asan", 100000, 500, 8)],
    "C21": [("asan", 150000, 300, 8), ("fast", 400000, 200, 8)],
}
# Coverage-guided search on top, thorough tier only: seconds.
FUZZ = {p: 240 for p in ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12 C15 C16 C17 C18 C20 C21").split()}
TIME_CAP = 150
LEVEL = "exploration"


def die(msg):
    print("check.py: " + msg)
    sys.exit(3)


def tree_hash():
    h = hashlib.sha256()
    files = subprocess.run(["git", "-C", REPO, "ls-files", "-z", "-c", "-o", "--exclude-standard"],
                           capture_output=True).stdout.split(b"\0")
    files = sorted(os.path.join(REPO.encode(), f) for f in files if f)
    if not files:
        for d, dirs, names in os.walk(REPO):
            dirs[:] = [x for x in dirs if x not in (".git", "_build")]
            files += [os.path.join(d, n).encode() for n in names]
        files.sort()
    hd = os.path.join(VERIF, "harness")
    files += sorted(os.path.join(hd, f).encode() for f in os.listdir(hd))
    for f in files:
        try:
            with open(f, "rb") as fh:
                h.update(f + b"\0" + hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(f + b"\0missing")
    return h.hexdigest()


def build(flavours):
    """Builds from /repo's working tree; a changed tree is rebuilt from scratch."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        for f in flavours:
            d = os.path.join(BUILD, f)
            stamp = os.path.join(d, "tree.sha256")
            try:
                if open(stamp).read() == want:
                    continue
            except OSError:
                pass
            shutil.rmtree(d, ignore_errors=True)
            log = ""
            for cmd in (["cmake", "-S", os.path.join(VERIF, "harness"), "-B", d, "-G", "Ninja", "-DFLAVOUR=" + f,
                         "-DREPO=" + REPO, "-DCMAKE_C_COMPILER=clang", "-DCMAKE_CXX_COMPILER=clang++"],
                        ["ninja", "-C", d, "all_needed"]):
                r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
                log += r.stdout + r.stderr
                if r.returncode:
                    print(log[-6000:])
                    die("building flavour %s failed" % f)
            with open(stamp, "w") as s:
                s.write(want)


def env_for(flavour):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:max_allocation_size_mb=4096:allocator_may_return_null=0:exitcode=99"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    for k in list(e):
        if k.startswith("FLAGS_"):
            del e[k]
    return e


def harness(flavour):
    return os.path.join(BUILD, flavour, "harness")


def common_args(flavour, prop, scratch, replays):
    return [harness(flavour), "--prop", prop, "--scratch", scratch, "--replay-dir", replays,
            "--vcdiff", os.path.join(BUILD, flavour, "repo", "vcdiff")]


def run_harness(flavour, prop, tier, seed, cases, secs, workers, scratch, replays):
    out = os.path.join(scratch, "out.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = common_args(flavour, prop, scratch, replays) + [
        "--tier", tier, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs),
        "--workers", str(workers), "--out", out]
    r = subprocess.run(cmd, env=env_for(flavour), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    sys.stdout.write(r.stdout)
    sys.stdout.flush()
    if r.returncode not in (0, 1) or not os.path.exists(out):
        die("harness %s ended with status %d" % (flavour, r.returncode))
    return json.load(open(out))


def run_fuzz(prop, seed, secs, scratch, replays):
    """libFuzzer over the choice sequence of the property."""
    build(["fuzz", "asan"])
    corpus = os.path.join(scratch, "corpus")
    os.makedirs(corpus)
    exe = os.path.join(BUILD, "fuzz", "harness_fuzz")
    procs = []
    for w in range(8):
        e = env_for("fuzz")
        e["VERIF_PROP"] = prop
        e["VERIF_FUZZ_REPLAY"] = os.path.join(scratch, "fuzz%d.choices" % w)
        e["ASAN_OPTIONS"] += ":handle_abort=1"
        log = open(os.path.join(scratch, "fuzz%d.log" % w), "wb")
        # Half of the workers share one corpus and exchange finds; the others
        # work alone from an empty one.
        c = corpus if w < 4 else os.path.join(scratch, "corpus%d" % w)
        os.makedirs(c, exist_ok=True)
        procs.append((w, e, subprocess.Popen(
            [exe, c, "-seed=%d" % (seed * 8 + w + 1), "-max_total_time=%d" % secs, "-max_len=%d" % (400 if w % 2 else 4000),
             "-len_control=50", "-timeout=100", "-rss_limit_mb=3000", "-print_final_stats=1", "-reload=1", "-close_fd_mask=0",
             "-artifact_prefix=" + scratch + "/"], env=e, stdout=log, stderr=log, cwd=scratch)))
    execs, cov, viol = 0, 0, None
    for w, e, p in procs:
        p.wait()
    for w, e, p in procs:
        txt = open(os.path.join(scratch, "fuzz%d.log" % w), errors="replace").read()
        for line in txt.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[-1])
            i = line.find(" cov: ")
            if i >= 0:
                cov = max(cov, int(line[i + 6:].split()[0]))
        if p.returncode and os.path.exists(e["VERIF_FUZZ_REPLAY"]) and not viol:
            r = subprocess.run(common_args("asan", prop, scratch, replays) + ["--import", e["VERIF_FUZZ_REPLAY"]],
                               env=env_for("asan"), capture_output=True, text=True, errors="replace")
            if r.returncode == 1:
                sys.stdout.write(r.stdout)
                viol = r.stdout.strip().split("replay=")[-1]
    print("%s[fuzz]: %d executions, %d edges" % (prop, execs, cov))
    return {"executions": execs, "edges": cov, "seconds": secs, "violation": viol}


def known_findings(prop):
    res = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            if line.startswith("known: property=%s " % prop):
                res.append(line.strip()[len("known: "):])
    except OSError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0, help="multiplies the case budgets")
    a = ap.parse_args()
    if a.setup:
        build(["asan", "fast", "tsan", "work"])
        return 0
    prop = a.prop
    if prop not in PLAN:
        die("unknown property %r" % prop)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vverif.")
    t0 = time.time()
    try:
        if a.replay:
            fl = "asan"
            for line in open(a.replay, errors="replace"):
                if line.startswith("flavour "):
                    fl = line.split()[1]
                    break
            build([fl])
            r = subprocess.run(common_args(fl, prop, scratch, replays) + ["--replay", os.path.abspath(a.replay)],
                               env=env_for(fl))
            return r.returncode
        plan = PLAN[prop]
        build([p[0] for p in plan])
        runs, viol, fuzz = [], None, None
        for fl, cases, tsecs, workers in plan:
            if tier == "quick":
                res = run_harness(fl, prop, tier, seed, max(1, int(cases * a.scale)), TIME_CAP, workers, scratch, replays)
            else:
                res = run_harness(fl, prop, tier, seed, 1 << 60, tsecs, workers, scratch, replays)
            runs.append(res)
            if res["violation"]:
                viol = res["replay"]
                break
        if not viol and tier == "thorough" and prop in FUZZ:
            fuzz = run_fuzz(prop, seed, FUZZ[prop], scratch, replays)
            viol = fuzz["violation"]
        known = known_findings(prop)
        cov = {
            "evaluations": sum(r["evaluations"] for r in runs) + (fuzz["executions"] if fuzz else 0),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs),
            "rule": runs[0]["rule"],
            "samples": [x for r in runs for x in r["samples"]][:6],
            "oracle_evaluations_inside_cases": sum(r["sub_evaluations"] for r in runs),
            "discarded": sum(r["discarded"] for r in runs),
            "exhaustive": False,
            "builds": [{k: r[k] for k in ("flavour", "evaluations", "distinct_nontrivial", "secs", "case_budget",
                                          "time_capped")} for r in runs],
            "classes": {r["flavour"]: r["labels"] for r in runs},
        }
        un = [u for r in runs for u in r["unreproduced"]]
        if un:
            cov["failures_that_did_not_repeat"] = un
        if fuzz:
            cov["coverage_guided"] = {k: fuzz[k] for k in ("executions", "edges", "seconds")}
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
            "assumptions": [
                "cases are sampled, not enumerated; absence of a failure is evidence, not proof",
                "the oracle (reference decoder, model or relation in /verif/harness) is right",
                "clang builds of /repo behave as other builds do",
            ],
            "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
        for k in known:
            print("KNOWN-FINDING: " + k)
        if viol:
            print("VIOLATION property=%s replay=%s" % (prop, viol))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
