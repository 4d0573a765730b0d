#!/usr/bin/env python3
"""run.py ID [quick|thorough] [--replay FILE] [--only SCENARIO] [--keep]

Builds mdflib from /repo's working tree together with the harness of property ID, runs the bounded
exhaustive exploration and writes evidence/ID.json.  Exit 0: held on everything explored.  Exit 1: a
VIOLATION line was printed."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MDF_REPO", "/repo")
CXX = "g++"
BASE = ["-std=c++17", "-O1", "-g1", "-w", "-I%s/include" % REPO, "-I%s/mdflib/src" % REPO]
VARIANT = {
    "asan": ["-fsanitize=address", "-fno-omit-frame-pointer"],
    "ubsan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,nonnull-attribute,pointer-overflow,function",
              "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "plain": ["-fno-omit-frame-pointer"],
    # instrumented accesses call the runtime in mc/ctlsched.cpp, which is compiled and linked without the sanitizer
    "sched": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
}

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def sources():
    src = os.path.join(REPO, "mdflib/src")
    return sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cpp"))


def tree_hash(variant):
    h = hashlib.sha256()
    h.update(repr((BASE, VARIANT[variant])).encode())
    for d in ("include", "mdflib/src"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:24]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_lib(variant, harness_srcs, out_exe, libs):
    """Compiles all of mdflib (cached by content hash) and the harness in parallel, and links."""
    bdir = os.path.join(HERE, "build")
    lib = os.path.join(bdir, "lib", "%s-%s" % (variant, tree_hash(variant)))
    done = os.path.join(lib, "DONE")
    jobs = []
    tmp = None
    if not os.path.exists(done):
        os.makedirs(os.path.join(bdir, "lib"), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="mk", dir=os.path.join(bdir, "lib"))
        for s in sources():
            o = os.path.join(tmp, os.path.basename(s)[:-4] + ".o")
            jobs.append([CXX] + BASE + VARIANT[variant] + ["-c", s, "-o", o])
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
    hobj = []
    hdir = tempfile.mkdtemp(prefix="h", dir=os.path.join(bdir)) if os.path.isdir(bdir) else None
    if hdir is None:
        os.makedirs(bdir, exist_ok=True)
        hdir = tempfile.mkdtemp(prefix="h", dir=bdir)
    hjobs = []
    for s in harness_srcs:
        o = os.path.join(hdir, os.path.basename(s)[:-4] + ".o")
        hobj.append(o)
        hjobs.append([CXX] + BASE + (["-O2"] if s.endswith("/ctlsched.cpp") else VARIANT[variant]) + ["-I" + os.path.join(HERE, "mc"), "-c", s, "-o", o])
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        res = list(ex.map(run, hjobs + jobs))
    fail = [(j, txt) for (rc, txt), j in zip(res, hjobs + jobs) if rc != 0]
    libfail = [f for f in fail if f[0] in jobs]
    if tmp and not libfail:
        objs = sorted(os.path.join(tmp, f) for f in os.listdir(tmp) if f.endswith(".o"))
        run(["ar", "rcs", os.path.join(tmp, "libmdf.a")] + objs)
        for o in objs:
            os.unlink(o)
        open(os.path.join(tmp, "DONE"), "w").close()
        try:
            os.rename(tmp, lib)
        except OSError:
            lib = tmp
        # keep the cache small
        olds = sorted((os.path.join(bdir, "lib", d) for d in os.listdir(os.path.join(bdir, "lib"))), key=os.path.getmtime)
        for d in olds[:-6]:
            if d != lib:
                shutil.rmtree(d, ignore_errors=True)
    for j, txt in fail:
        print("BUILD FAILED:", " ".join(j), "\n", txt[-4000:])
    if fail:
        shutil.rmtree(hdir, ignore_errors=True)
        sys.exit(3)
    rc, txt = run([CXX] + ([] if variant == "sched" else VARIANT[variant]) + ["-rdynamic", "-o", out_exe] + hobj + [os.path.join(lib, "libmdf.a")] +
                  libs + ["-lz", "-lexpat", "-lpthread", "-ldl"])
    shutil.rmtree(hdir, ignore_errors=True)
    if rc != 0:
        print("LINK FAILED\n", txt[-4000:])
        sys.exit(3)


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = "quick"
    extra = []
    replay = None
    i = 1
    while i < len(args):
        if args[i] in ("quick", "thorough"):
            tier = args[i]
        elif args[i] == "--replay":
            replay = os.path.abspath(args[i + 1]); i += 1
        else:
            extra.append(args[i])
        i += 1
    ck = CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run_%s_" % pid, dir=os.path.join(HERE, "build"))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=0:symbolize=1:handle_abort=1:" \
                          "hard_rss_limit_mb=6000:allocator_may_return_null=0:max_allocation_size_mb=4000:quarantine_size_mb=16:malloc_context_size=8"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    env.setdefault("TZ", "UTC")
    try:
        exe = os.path.join(work, "check_" + pid)
        srcs = [os.path.join(HERE, "mc", s) for s in ["mc.cpp"] + ck["src"]]
        build_lib(ck.get("variant", "asan"), srcs, exe, ck.get("libs", []))
        tb = time.time() - t0
        print("%s %s: build %.1fs" % (pid, tier, tb), flush=True)
        res = os.path.join(work, "result.json")
        cmd = [exe, "--tier", tier, "--out", res, "--scratch", os.path.join(work, "scratch"),
               "--replay-dir", os.path.join(HERE, "evidence", "replay"),
               "--known", os.path.join(HERE, "known_findings.txt"),
               "--workers", str(ck.get("workers", os.cpu_count() or 8)),
               "--cap", str(ck.get("cap", {}).get(tier, 600 if tier == "quick" else 5400))] + extra
        if replay:
            cmd += ["--replay", replay]
        r = subprocess.run(cmd, env=env)
        if replay:
            return r.returncode
        if r.returncode not in (0, 1) or not os.path.exists(res):
            print("harness error, exit", r.returncode)
            return 4
        d = json.load(open(res))
        cov = {"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct"], "rule": ck["rule"],
               "samples": d["samples"], "exhaustive": d["exhaustive"], "scenarios": d["scenarios"],
               "bounds": ck.get("bounds", ""), "not_reproduced": d["unconfirmed"], "known_findings": d["known"]}
        if ck["level"] == "model_checking":
            cov = {"states": d["distinct"], "transitions": d["steps"], "traces_validated_against_impl": d["evaluations"],
                   "samples": d["samples"], "exhaustive": d["exhaustive"], "scenarios": d["scenarios"],
                   "explanation": ck["rule"], "bounds": ck.get("bounds", ""), "not_reproduced": d["unconfirmed"],
                   "known_findings": d["known"]}
        else:
            cov["operations"] = d["steps"]
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": ck["level"],
              "coverage": cov, "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": d["violations"]}
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
