#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, explores its space and reports.

usage: check.py ID [--thorough] [--replay FILE] [--only SCENARIO] [--repo DIR]

The first lines of harness/ID.cpp may hold directives:
  // mc: sources=std_test_object:Creator,pmr_test_object libs=sqlite3 level=model_checking variants=default,arch32
  // mc: groups=arrays:KIT_PACKED=1
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
CXX = os.environ.get("MC_CXX", "clang++")
BASE_FLAGS = ["-std=c++17", "-g1", "-fsanitize=address,undefined,float-cast-overflow",
              "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-w"]
VARIANTS = {
    "default": [],
    # the 32-bit code paths of the runtime (cache word of the reader, word-wise reads) on the same inputs
    "arch32": ["-include", os.path.join(VERIF, "lib", "arch32.h")],
}
TEST_OBJECTS = {
    "std_test_object": "test_object/std_allocator",
    "pmr_test_object": "test_object/pmr_allocator",
    "ppmr_test_object": "test_object/ppmr_allocator",
}


def sha(*parts):
    h = hashlib.sha256()
    for part in parts:
        h.update(part if isinstance(part, bytes) else str(part).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


class Error(Exception):
    pass


def directives(ident):
    cfg = {"sources": [], "libs": [], "groups": [], "level": "model_checking", "opt": "1", "groupopt": "1", "variants": ["default"]}
    with open(os.path.join(VERIF, "harness", ident + ".cpp")) as f:
        for line in f:
            if not line.startswith("//"):
                break
            m = re.match(r"// mc:(.*)", line)
            if m:
                for item in m.group(1).split():
                    key, value = item.split("=", 1)
                    cfg[key] = value if key in ("level", "opt", "groupopt") else value.split(",")
    return cfg


def treeHash(repo):
    files = []
    for root in (os.path.join(repo, "runtime/src"), os.path.join(repo, "runtime/test"), os.path.join(VERIF, "lib")):
        for path, _, names in os.walk(root):
            for name in names:
                if name.endswith((".h", ".cpp", ".inc")):
                    files.append(os.path.join(path, name))
    files.sort()
    h = hashlib.sha256()
    for name in files:
        h.update(name.encode() + b"\0" + read(name) + b"\0")
    return h.hexdigest()[:16]


def compileAll(jobs):
    def one(job):
        src, obj, flags = job
        if os.path.exists(obj):
            return None
        tmp = obj + ".%d.tmp" % os.getpid()
        proc = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT)
        if proc.returncode != 0:
            return "%s\n%s" % (src, proc.stdout.decode(errors="replace")[:6000])
        os.rename(tmp, obj)
        return None
    jobs = sorted(jobs, key=lambda job: (0 if job[0].startswith(VERIF) else 1, -os.path.getsize(job[0])))
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        errors = [e for e in pool.map(one, jobs) if e]
    if errors:
        raise Error("does not compile:\n" + "\n".join(errors[:3]))


def build(ident, repo, cfg, variant):
    tree = treeHash(repo)
    base = os.path.join(BUILD, "obj", tree)
    os.makedirs(base, exist_ok=True)
    os.utime(base)
    old = sorted(glob.glob(os.path.join(BUILD, "obj", "*")), key=os.path.getmtime)
    for name in old[:-4]:
        shutil.rmtree(name, ignore_errors=True)
    flags = BASE_FLAGS + ["-I" + os.path.join(repo, "runtime/src"), "-I" + os.path.join(repo, "runtime/test"),
                          "-I" + os.path.join(VERIF, "lib"), "-I/opt/vp/cmake/sqlite3"]
    sources = sorted(glob.glob(os.path.join(repo, "runtime/src/zserio/**/*.cpp"), recursive=True))
    slow = [] # generated objects take long to optimize and run little
    for name in cfg["sources"]:
        name, _, prefix = name.partition(":")
        slow += sorted(glob.glob(os.path.join(repo, "runtime/test", TEST_OBJECTS[name], prefix + "*.cpp")))
    sources.append(os.path.join(VERIF, "lib", "mc.cpp"))
    harness = os.path.join(VERIF, "harness", ident + ".cpp")
    sources.append(harness)
    sources += sorted(glob.glob(os.path.join(VERIF, "harness", ident + "_*.cpp")))
    sources = [(src, ["-O0"]) for src in slow] + [(src, ["-O" + cfg["opt"]]) for src in sources]
    # the array kinds are instantiated in groups, so that they compile in parallel
    for name in cfg["groups"]:
        for i in range(8):
            sources.append((os.path.join(VERIF, "lib", name.split(":")[0] + ".cpp"),
                            ["-O" + cfg["groupopt"], "-DKIT_GROUP=%d" % i] + ["-D" + define for define in name.split(":")[1:]]))
    jobs, objs = [], []
    for src, defines in sources:
        # a variant concerns the runtime's own translation units only
        srcFlags = flags + defines + (VARIANTS[variant] if src.startswith(os.path.join(repo, "runtime/src")) else [])
        obj = os.path.join(base, sha(src, read(src), CXX, *srcFlags) + ".o")
        objs.append(obj)
        jobs.append((src, obj, srcFlags))
    compileAll(jobs)
    exe = os.path.join(base, ident + "-" + sha(*objs) + ".exe")
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        proc = subprocess.run([CXX] + BASE_FLAGS + objs + ["-l" + lib for lib in cfg["libs"]] + ["-o", tmp],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if proc.returncode != 0:
            raise Error("does not link:\n" + proc.stdout.decode(errors="replace")[:6000])
        os.rename(tmp, exe)
    return exe


def probe(ident, repo):
    """Uses of the interface that once did not compile; returns (file, compiler output) of a failing one."""
    for src in sorted(glob.glob(os.path.join(VERIF, "harness", "probes", ident + "_*.cpp"))):
        proc = subprocess.run([CXX, "-std=c++17", "-w", "-fsyntax-only", "-I" + os.path.join(repo, "runtime/src"), src],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if proc.returncode != 0:
            return src, proc.stdout.decode(errors="replace")
    return None


def known(ident):
    result = {}
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == ident:
                    result[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return result


def environment(ident):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0:" \
                          "handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=32"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    env["MC_KNOWN"] = ";".join(known(ident))
    env["LC_ALL"] = "C"
    return env


def replayOnce(exe, env, violation, thorough, timeout):
    cmd = [exe, "--replay", violation["scenario"], ",".join(map(str, violation["choices"]))]
    if thorough:
        cmd.append("--thorough")
    try:
        proc = subprocess.run(cmd, env=env, cwd=os.path.dirname(exe), stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "does not terminate within %d s" % timeout
    return proc.returncode not in (0, 2), proc.stdout.decode(errors="replace")


def main():
    args = sys.argv[1:]
    ident = args.pop(0)
    repo = "/repo"
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    replay = only = None
    while args:
        arg = args.pop(0)
        if arg == "--thorough":
            thorough = True
        elif arg == "--replay":
            replay = args.pop(0)
        elif arg == "--only":
            only = args.pop(0)
        elif arg == "--repo":
            repo = os.path.abspath(args.pop(0))
        else:
            raise Error("unknown argument " + arg)
    tier = "thorough" if thorough else "quick"
    started = time.time()
    cfg = directives(ident)
    env = environment(ident)

    if replay:
        with open(replay) as f:
            violation = json.load(f)
        exe = build(ident, repo, cfg, violation.get("variant", "default"))
        failed, output = replayOnce(exe, env, violation, violation.get("tier") == "thorough", 600)
        print(output)
        print("reproduced" if failed else "not reproduced")
        return 1 if failed else 0

    merged = {"executions": 0, "transitions": 0, "cases": 0}
    saturated = False
    seenKnown = set()
    scenarios, samples, states = {}, [], set()
    buildTime = 0
    failedProbe = probe(ident, repo)
    for variant in cfg["variants"]:
        t0 = time.time()
        try:
            exe = build(ident, repo, cfg, variant)
        except Error:
            if not failedProbe:
                raise
        if failedProbe:
            print("cannot be compiled: %s\n%s" % (failedProbe[0], failedProbe[1][:2000]))
            writeEvidence(ident, tier, cfg, merged, states, saturated, scenarios, samples, started, buildTime, 1)
            print("VIOLATION property=%s replay=%s" % (ident, failedProbe[0]))
            return 1
        buildTime += time.time() - t0
        out = os.path.join(BUILD, "run", "%s-%s-%d" % (ident, variant, os.getpid()))
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        cmd = [exe, "--out", out, "--workers", "8"]
        if thorough:
            cmd.append("--thorough")
        if only:
            cmd += ["--only", only]
        log = os.path.join(out, "log.txt")
        with open(log, "wb") as f:
            proc = subprocess.Popen(cmd, env=env, cwd=out, stdout=f, stderr=subprocess.STDOUT,
                                    start_new_session=True)
            try:
                rc = proc.wait(timeout=10800 if thorough else 840)
            except subprocess.TimeoutExpired:
                os.killpg(proc.pid, 9)
                raise Error("exploration did not finish in time")
        violations = []
        for name in sorted(glob.glob(os.path.join(out, "violation.*.json"))):
            with open(name) as f:
                violations.append(json.load(f))
        if violations:
            violation = violations[0]
            violation.update({"property": ident, "variant": variant, "tier": tier})
            failed, output = replayOnce(exe, env, violation, thorough, 420)
            if not failed:
                sys.stdout.write(read(log).decode(errors="replace")[-3000:])
                raise Error("violation did not replay (%s): %s" % (violation["key"], json.dumps(violation)))
            violation["replay_output"] = output[-4000:]
            os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
            path = os.path.join(BUILD, "replay", "%s-%s.json" % (ident, sha(json.dumps(violation["choices"]),
                                                                             violation["scenario"])))
            with open(path, "w") as f:
                json.dump(violation, f, indent=1)
            print("scenario %s, choices %s, key %s" % (violation["scenario"], violation["choices"],
                                                       violation["key"]))
            print("what: " + (violation["note"] or "")[:1500])
            print(violation["message"][:1500])
            if violation["key"] in ("crash", "hang"):
                print(output[-2500:])
            writeEvidence(ident, tier, cfg, merged, states, saturated, scenarios, samples, started, buildTime, 1)
            print("VIOLATION property=%s replay=%s" % (ident, path))
            shutil.rmtree(out, ignore_errors=True)
            return 1
        if rc != 0:
            sys.stdout.write(read(log).decode(errors="replace")[-3000:])
            raise Error("harness ended with %d" % rc)
        workers = sorted(glob.glob(os.path.join(out, "worker.*.json")))
        if len(workers) != 8:
            raise Error("missing worker results")
        for name in workers:
            with open(name) as f:
                data = json.load(f)
            for key in merged:
                merged[key] += data[key]
            saturated = saturated or data["saturated"]
            seenKnown.update(data["known"])
            samples += data["samples"][:2]
            for item in data["scenarios"]:
                key = item["name"] + ("" if variant == "default" else "@" + variant)
                entry = scenarios.setdefault(key, {"executions": 0, "transitions": 0, "seconds": 0})
                entry["executions"] += item["executions"]
                entry["transitions"] += item["transitions"]
                entry["seconds"] = max(entry["seconds"], item["seconds"])
        for name in glob.glob(os.path.join(out, "states.*.bin")):
            data = read(name)
            if len(states) < 20000000:
                states.update(memoryview(data).cast("Q"))
            else:
                saturated = True
        shutil.rmtree(out, ignore_errors=True)
    for key in sorted(seenKnown):
        print("KNOWN-FINDING: property=%s %s" % (ident, known(ident).get(key, key)))
    writeEvidence(ident, tier, cfg, merged, states, saturated, scenarios, samples, started, buildTime, 0)
    print("%s ok: %d executions, %d transitions, %d states, %d cases, build %.1fs, total %.1fs" % (
        ident, merged["executions"], merged["transitions"], len(states), merged["cases"], buildTime,
        time.time() - started))
    for name, entry in scenarios.items():
        print("  %-28s executions %-10d transitions %-12d %.1fs" % (
            name, entry["executions"], entry["transitions"], entry["seconds"]))
    return 0


def writeEvidence(ident, tier, cfg, merged, states, saturated, scenarios, samples, started, buildTime, violations):
    coverage = {"samples": samples[:12] or ["(none before the violation)"]}
    if cfg["level"] == "model_checking":
        coverage.update({
            "states": len(states),
            "transitions": merged["transitions"],
            "traces_validated_against_impl": merged["executions"],
        })
    else:
        coverage.update({
            "evaluations": merged["executions"] ,
            "distinct_nontrivial": len(states),
            "rule": "every resolution of every choice of each scenario is executed; distinct outcomes are counted "
                    "by a hash of the observed outcome",
            "transitions": merged["transitions"],
        })
    if merged["cases"]:
        coverage["cases_evaluated_inside_executions"] = merged["cases"]
    coverage["scenarios"] = scenarios
    coverage["exhaustive"] = violations == 0
    coverage["state_count_is_lower_bound"] = saturated
    evidence = {
        "property": ident,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": cfg["level"],
        "coverage": coverage,
        "assumptions": [
            "the space is bounded as DESIGN.md states for this property; within it every execution is run on the "
            "real code, and the reference model in the harness is the oracle",
            "compiled with clang, address and undefined behaviour sanitizers; no random choice is made, the seed "
            "is not used",
        ],
        "wall_s": round(time.time() - started, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", ident + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + ".tmp", path)


if __name__ == "__main__":
    try:
        code = main()
    except Error as error:
        print("ERROR: %s" % error)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
