#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current working tree.

  check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale F]

exit 0: the property held on everything observed (known findings are listed)
exit 1: violated, with a line  VIOLATION property=<ID> replay=<path>
exit 2: no verdict (harness does not build, nothing observed, ...)
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS  # noqa: E402

NPROC = max(1, min(8, os.cpu_count() or 1))
CXX = "clang++-18"
BASE = ["-std=c++14", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function",
             "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-fsanitize=thread"],
}
LIBS = ["-lboost_thread", "-lboost_system", "-lboost_chrono", "-lboost_atomic", "-lpthread"]

BUILD_CONFIG = """#pragma once
#define HUMOTO_COMPILER_SUPPORTS_FUNC_
#define HUMOTO_COMPILER_SUPPORTS_FUNCTION_
#define HUMOTO_DEFAULT_CONFIG_PREFIX "./config/"
#ifndef VH_NO_LOG_THREADS
#define HUMOTO_USE_THREADS_FOR_LOGGING
#endif
#define HUMOTO_GIT_COMMIT_INFO "verif"
#define HUMOTO_BRIDGE_config_msgpack
#define HUMOTO_BRIDGE_obstacle_avoidance
#define HUMOTO_MODULE_pepper_mpc
#define HUMOTO_MODULE_wpg04
"""


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    os._exit(2)


def assemble(inc):
    """The include tree which the project's own build assembles."""
    dst = os.path.join(inc, "humoto")
    os.makedirs(dst)
    srcs = [os.path.join(REPO, "core/include")]
    srcs += sorted(glob.glob(os.path.join(REPO, "modules/*/include")))
    srcs += sorted(glob.glob(os.path.join(REPO, "bridges/*/interface")))
    for s in srcs:
        shutil.copytree(s, dst, dirs_exist_ok=True, ignore=shutil.ignore_patterns("*.in"))
    oa = os.path.join(REPO, "bridges/obstacle_avoidance")
    for e in ("obstacle_avoidance.h", "obstacles"):
        p = os.path.join(oa, e)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(dst, e), dirs_exist_ok=True)
        elif os.path.exists(p):
            shutil.copy(p, dst)
    with open(os.path.join(dst, "build_config.h"), "w") as f:
        f.write(BUILD_CONFIG)


def compile_one(work, inc, prog):
    out = os.path.join(work, prog["name"])
    cmd = [CXX] + BASE + FLAVOURS[prog.get("flavour", "asan")] + prog.get("flags", []) + [
        "-DVH_REPO=\"%s\"" % REPO,
        "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "harness/standins"), "-I", inc,
        "-isystem", "/usr/include/eigen3",
        os.path.join(VERIF, "harness", prog["src"]), "-o", out] + prog.get("libs", []) + LIBS
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, out


def env_for(flavour):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:"
                         "max_malloc_fill_size=1048576:malloc_fill_byte=255:allocator_may_return_null=1:"
                         "hard_rss_limit_mb=6000:max_allocation_size_mb=2000:detect_container_overflow=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1"
    return e


def crash_key(family, rc, err):
    kind = "signal%d" % (-rc) if rc < 0 else "exit%d" % rc
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w\-]+)", err)
    if m:
        kind = m.group(1) + "-" + m.group(2)
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if m2:
        kind = "UBSan-" + re.sub(r"[^a-z ]+", "", m2.group(1).lower())[:60].strip().replace(" ", "-")
    if "terminate called" in err:
        kind = "terminate"
    return "crash/%s/%s" % (family, kind)


def run_shard(work, prog, binary, seed, tier, scale, shard, shards):
    """Returns (list of result dicts, list of violations, list of notes)."""
    results, violations, notes = [], [], []
    start, part, crashes = 0, 0, 0
    env = env_for(prog.get("flavour", "asan"))
    scratch = os.path.join(work, "scratch_%s_%d" % (prog["name"], shard))
    os.makedirs(scratch, exist_ok=True)
    while True:
        tag = "%s_%d_%d" % (prog["name"], shard, part)
        out, progf = os.path.join(work, tag + ".json"), os.path.join(work, tag + ".progress")
        errf = os.path.join(work, tag + ".err")
        cmd = [binary, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--shards", str(shards),
               "--start", str(start), "--out", out, "--progress", progf, "--scale", str(scale)]
        with open(errf, "w") as ef:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, cwd=scratch, env=env)
        if os.path.exists(out):
            try:
                results.append(json.load(open(out)))
            except ValueError:
                notes.append("unreadable result " + tag)
        if p.returncode in (0, 1) and results and results[-1].get("finished"):
            break
        err = open(errf, errors="replace").read()
        try:
            pos, fam, idx = open(progf).read().split()
        except (OSError, ValueError):
            notes.append("no progress: rc=%d %s" % (p.returncode, err[-800:]))
            break
        one = [binary, "--seed", str(seed), "--tier", tier, "--family", fam, "--index", idx, "--scale", str(scale)]
        if p.returncode == 97:
            q = subprocess.run(one, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch, env=env, text=True, errors="replace")
            if q.returncode == 97:
                violations.append(dict(key="hang/" + fam, family=fam, index=int(idx), msg="no progress within 60 s of CPU time, twice"))
            else:
                notes.append("timeout not reproduced: %s %s" % (fam, idx))
        elif p.returncode == -9:
            q = subprocess.run(one, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch, env=env, text=True, errors="replace")
            if q.returncode in (0, 1):
                notes.append("killed, not reproduced: %s %s" % (fam, idx))
            else:
                violations.append(dict(key=crash_key(fam, q.returncode, q.stderr), family=fam, index=int(idx), msg=q.stderr[:3000]))
        else:
            violations.append(dict(key=crash_key(fam, p.returncode, err), family=fam, index=int(idx), msg=err[:3000]))
        crashes += 1
        part += 1
        start = int(pos) + 1
        if crashes >= 4:
            break
    return results, violations, notes


def load_known(pid):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.id
    spec = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work)
    try:
        return check(a, pid, spec, t0, work)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def check(a, pid, spec, t0, work):
    replay = None
    progs = [dict(p) for p in spec["programs"]]
    if a.replay:
        replay = json.load(open(a.replay))
        progs = [p for p in progs if p["name"] == replay["program"]]
        a.seed, a.tier, a.scale = replay["seed"], replay["tier"], replay.get("scale", 1.0)
    inc = os.path.join(work, "inc")
    assemble(inc)
    with ThreadPoolExecutor(NPROC) as ex:
        built = list(ex.map(lambda p: compile_one(work, inc, p), progs))
    for p, (rc, log, out) in zip(progs, built):
        if rc != 0:
            print(log[-4000:])
            die("harness %s does not build against the current tree" % p["name"])
    t_build = time.time() - t0

    if replay:
        bad = 0
        for p, (_, _, binary) in zip(progs, built):
            q = subprocess.run([binary, "--seed", str(a.seed), "--tier", a.tier, "--family", replay["family"], "--index",
                                str(replay["index"]), "--scale", str(a.scale)], env=env_for(p.get("flavour", "asan")), cwd=work)
            print("replay %s: exit %d" % (p["name"], q.returncode))
            bad |= q.returncode != 0
        return 1 if bad else 0

    known = load_known(pid)
    agg = dict(evaluations=0, checks=0, counters={}, cases={}, samples=[], signatures=set())
    violations, notes = [], []
    tiers = [(a.seed, a.tier)]
    jobs = []
    with ThreadPoolExecutor(NPROC) as ex:
        for p, (_, _, binary) in zip(progs, built):
            shards = p.get("shards", NPROC)
            for s, tier in tiers:
                for k in range(shards):
                    jobs.append((p, s, ex.submit(run_shard, work, p, binary, s, tier, a.scale, k, shards)))
    for p, s, j in jobs:
        res, viol, nt = j.result()
        notes += nt
        for r in res:
            agg["evaluations"] += r["evaluations"]
            agg["checks"] += r["checks"]
            for k, v in r["counters"].items():
                agg["counters"][k] = agg["counters"].get(k, 0) + v
            for k, v in r["cases"].items():
                k = p["name"] + "/" + k
                agg["cases"][k] = agg["cases"].get(k, 0) + v
            agg["signatures"].update(p["name"] + x for x in r["signatures"])
            for k, v in r["samples"].items():
                for x in v:
                    if sum(1 for y in agg["samples"] if y["family"] == k) < 1 and len(agg["samples"]) < 14:
                        agg["samples"].append(dict(family=k, case=x))
            viol = viol + r["violations"]
        for v in viol:
            v["program"], v["seed"] = p["name"], s
            violations.append(v)

    new, seen_known = [], {}
    for v in violations:
        hit = next((k for k in known if v["key"] == k), None)
        if hit:
            seen_known[hit] = v
        else:
            new.append(v)
    for k, text in known.items():
        print("KNOWN-FINDING: property=%s %s%s" % (pid, text, "" if k in seen_known else " (not reproduced in this run)"))

    evidence = dict(
        property=pid, tier=a.tier, seed=a.seed, level=spec.get("level", "exploration"),
        coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=len(agg["signatures"]), rule=spec["rule"],
                      samples=agg["samples"], oracle_comparisons=agg["checks"], cases_per_family=agg["cases"],
                      observed=agg["counters"], build_s=round(t_build, 1), notes=notes[:20],
                      known_findings_seen=sorted(seen_known)),
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print("%s: %d cases, %d distinct nontrivial, %d comparisons, %d violations, %.0f s (build %.0f s)" % (
        pid, agg["evaluations"], len(agg["signatures"]), agg["checks"], len(new), time.time() - t0, t_build))
    for n in notes[:5]:
        print("note: " + n[:600])
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        keys = {}
        for v in new:
            keys.setdefault(v["key"], []).append(v)
        for key, vs in sorted(keys.items()):
            v = vs[0]
            path = os.path.join(rd, "%s-%s.json" % (pid, re.sub(r"[^\w]+", "_", key)[:80]))
            with open(path, "w") as f:
                json.dump(dict(property=pid, program=v["program"], seed=v["seed"], tier=a.tier, scale=a.scale, family=v["family"],
                               index=v["index"], key=key, msg=v["msg"], occurrences=len(vs)), f, indent=1)
            print("  [%s] x%d: %s" % (key, len(vs), v["msg"][:700].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    missing = [k for k in spec.get("require", []) if agg["counters"].get(k, 0) == 0]
    if agg["evaluations"] == 0 or not agg["signatures"] or missing:
        print("ERROR: nothing observed %s" % missing)
        return 2
    if any(n.startswith(("no progress", "unreadable")) for n in notes):
        print("ERROR: a shard gave no result")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
