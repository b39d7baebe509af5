"""Driver shared by all checks: incremental rebuild of what a check needs from
/repo's working tree, sharded run of its explorer, known-findings filter,
evidence file, VIOLATION lines."""
import fnmatch, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.environ.get("VH_BUILD", os.path.join(VERIF, ".build"))
PY = "/opt/roughpy-venv/bin/python"
NPROC = min(8, os.cpu_count() or 8)

# operations the controlled scheduler takes over
_WRAPS = ",".join("--wrap=" + f for f in
    ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",
     "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once", "__cxa_guard_acquire",
     "__cxa_guard_release", "__cxa_guard_abort"]
    + ["__tsan_atomic%d_%s" % (b, o) for b in (8, 32, 64) for o in
       ("fetch_add", "fetch_sub", "exchange", "fetch_and", "fetch_or", "load", "store",
        "compare_exchange_strong", "compare_exchange_weak", "compare_exchange_val")])

FLAVOURS = {
    # name: (compile flags, link flags, build python module)
    "plain": ("-O1 -DNDEBUG -g0 -ffp-contract=off", "", True),
    "asan": ("-O1 -DNDEBUG -g1 -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined -fno-omit-frame-pointer", "-fsanitize=address,undefined", False),
    "tsan": ("-O1 -DNDEBUG -g1 -fsanitize=thread", "-fsanitize=thread -Wl," + _WRAPS, False),
}


def env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", CC="gcc", CXX="g++",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("CMAKE_TOOLCHAIN_FILE", "VIRTUAL_ENV", "PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
        e.pop(k, None)
    return e


def bdir(flavour):
    return os.path.join(BUILD, flavour)


def configure(flavour):
    cflags, lflags, py = FLAVOURS[flavour]
    d = bdir(flavour)
    os.makedirs(d, exist_ok=True)
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja",
           "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_FLAGS_RELEASE=" + cflags,
           "-DCMAKE_C_FLAGS_RELEASE=" + cflags,
           "-DCMAKE_SHARED_LINKER_FLAGS=" + lflags, "-DCMAKE_EXE_LINKER_FLAGS=" + lflags,
           "-DROUGHPY_NO_VCPKG=ON", "-DROUGHPY_BUILD_TESTS=OFF",
           "-DROUGHPY_BUILD_TEST_PYTHON_EMBED=OFF",
           "-DROUGHPY_BUILD_PYLIB=" + ("ON" if py else "OFF"),
           "-DROUGHPY_EXPERIMENTAL=ON", "-DROUGHPY_USE_CCACHE=OFF",
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DCMAKE_PREFIX_PATH=/opt/vp/cmake",
           "-DCMAKE_PROJECT_RoughPy_INCLUDE=" + os.path.join(VERIF, "cmake/inject.cmake"),
           "-DVH_HARNESS_DIR=" + os.path.join(VERIF, "harness"), "-DVH_FLAVOUR=" + flavour,
           "-DPCGRandom_INCLUDE_DIRS=/opt/vp/cmake/include",
           "-DPython_ROOT_DIR=/opt/roughpy-venv", "-DPython_EXECUTABLE=" + PY]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(2)


def build(flavour, targets):
    d = bdir(flavour)
    if not os.path.exists(os.path.join(d, "build.ninja")):
        configure(flavour)
    r = subprocess.run(["ninja", "-C", d, "-j%d" % NPROC] + list(targets), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        # a stale configuration is re-made once
        configure(flavour)
        r = subprocess.run(["ninja", "-C", d, "-j%d" % NPROC] + list(targets), env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-8000:])
        sys.stderr.write("\nbuild failed\n")
        raise SystemExit(2)


def sync_py():
    """Python sources of the package beside the freshly built extension module."""
    src = os.path.join(REPO, "roughpy")
    dst = os.path.join(bdir("plain"), "py", "roughpy")
    os.makedirs(dst, exist_ok=True)
    for root, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("src", "_src", "__pycache__")]
        rel = os.path.relpath(root, src)
        for f in files:
            if f.endswith((".py", ".pyi")):
                t = os.path.join(dst, rel, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                s = os.path.join(root, f)
                if not os.path.lexists(t) or not os.path.islink(t) or os.readlink(t) != s:
                    if os.path.lexists(t):
                        os.unlink(t)
                    os.symlink(s, t)
    for root, dirs, files in os.walk(dst):
        for f in files:
            t = os.path.join(root, f)
            if os.path.islink(t) and not os.path.exists(t):
                os.unlink(t)
    return os.path.join(bdir("plain"), "py")


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if isinstance(k, dict) and k["property"] == prop and k.get("status") == "known"]


def run_shards(part, prop, tier, seed, work, timeout):
    """Run one explorer; returns list of (result dict | None, crash text)."""
    n = part.get("shards", NPROC)
    procs = []
    e = env()
    e["VERIF_TIER"], e["VERIF_SEED"] = tier, str(seed)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    for k, v in part.get("env", {}).items():
        e[k] = v
    if part["kind"] == "py":
        e["PYTHONPATH"] = os.pathsep.join([sync_py(), os.path.join(VERIF, "lib")])
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        base = [PY, os.path.join(VERIF, "harness", part["prog"])]
    else:
        base = [os.path.join(bdir(part.get("flavour", "plain")), "harness", part["prog"])]
    base += part.get("args", [])
    for i in range(n):
        out = os.path.join(work, "%s.%d.json" % (part["prog"], i))
        cmd = base + ["--tier", tier, "--seed", str(seed), "--shard", str(i), "--nshards", str(n), "--out", out]
        wd = os.path.join(work, "cwd.%s.%d" % (part["prog"], i))
        os.makedirs(wd, exist_ok=True)
        log = open(out + ".log", "w")
        procs.append((cmd, out, subprocess.Popen(cmd, env=e, cwd=wd, stdout=log, stderr=subprocess.STDOUT), log))
    res = []
    t0 = time.time()
    for cmd, out, p, log in procs:
        try:
            p.wait(timeout=max(1, timeout - (time.time() - t0)))
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            hung = True
        log.close()
        tail = open(out + ".log", errors="replace").read()[-3000:]
        cur = ""
        try:
            cur = open(out + ".cur", "rb").read().split(b"\0")[0].decode("latin1")
        except OSError:
            pass
        if not hung and p.returncode == 0 and os.path.exists(out):
            res.append((json.load(open(out)), None, cmd))
        else:
            res.append((None, {"hung": hung, "rc": p.returncode, "case": cur, "log": tail}, cmd))
    return res


def main(prop, spec):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    groups = {}
    for part in spec["parts"]:
        groups.setdefault(part.get("flavour", "plain"), set()).update(
            part.get("targets", [part["prog"]] if part["kind"] == "cpp" else ["RoughPy_PyModule"]))
    for fl, targets in groups.items():
        build(fl, sorted(targets))
    t_build = time.time() - t0
    work = os.path.join(VERIF, ".work", "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "explorers": {}}
    viols = []
    errors = []
    budget = spec.get("timeout", 700 if tier == "quick" else 3000)
    for part in spec["parts"]:
        t1 = time.time()
        dims, st, tr, vt = {}, 0, 0, 0
        for r, crash, cmd in run_shards(part, prop, tier, seed, work, budget):
            replay_cmd = " ".join(cmd)
            if crash:
                if crash["rc"] in (2, 3, 127) and not crash["hung"]:
                    errors.append((replay_cmd, crash))
                    continue
                kind = "hang" if crash["hung"] else "crash"
                case = crash["case"]
                viols.append({"key": "%s:%s:%s" % (part["prog"], kind, case.split("|")[0].strip()),
                              "detail": "explorer %s (rc=%s) while executing: %s\n%s" % (kind, crash["rc"], case, crash["log"]),
                              "cmd": replay_cmd})
                continue
            st += r["states"]; tr += r["transitions"]
            cov["traces_validated_against_impl"] += r["traces"]
            vt += r["viol_total"]
            for k, v in r["dims"].items():
                dims[k] = dims.get(k, 0) + v
            if len(cov["samples"]) < 6:
                cov["samples"] += r["samples"][:2]
            for v in r["violations"]:
                v["cmd"] = replay_cmd
                viols.append(v)
        cov["states"] += st
        cov["transitions"] += tr
        cov["explorers"][part["prog"] + "".join(part.get("args", []))] = {
            "states": st, "transitions": tr, "cases": dims, "wall_s": round(time.time() - t1, 1)}
    if errors:
        sys.stderr.write("explorer error: %s\n%s\n" % (errors[0][0], errors[0][1]["log"]))
        shutil.rmtree(work, ignore_errors=True)
        raise SystemExit(2)
    known = known_findings(prop)
    seen_known, fresh = {}, []
    for v in viols:
        for k in known:
            if any(fnmatch.fnmatchcase(v["key"], m) for m in k["keys"]):
                seen_known.setdefault(k["what"], 0)
                seen_known[k["what"]] += 1
                break
        else:
            fresh.append(v)
    cov["exhaustive"] = True
    cov["bounds"] = spec.get("bounds", "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    cov["build_wall_s"] = round(t_build, 1)
    cov["known_findings_seen"] = len(seen_known)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rc = 0
    if fresh:
        rc = 1
        rp = os.path.join(VERIF, ".work", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, prop + ".json")
        json.dump({"property": prop, "violations": fresh[:200]}, open(path, "w"), indent=1)
        shown = set()
        for v in fresh:
            if v["key"] in shown or len(shown) > 12:
                continue
            shown.add(v["key"])
            print("  [%s] %s" % (v["key"], v["detail"][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: states=%d transitions=%d violations=%d build=%.1fs total=%.1fs" % (
        prop, tier, cov["states"], cov["transitions"], len(fresh), t_build, time.time() - t0))
    shutil.rmtree(work, ignore_errors=True)
    raise SystemExit(rc)
