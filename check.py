#!/usr/bin/env python3
"""Check driver: solver-based checking of the real copc-lib sources (see DESIGN.md).

  check.py C01 [--tier quick|thorough] [--repo /repo] [--strict] [--only ENTRY] [-v]
  check.py --replay FILE

exit 0: the property held on everything explored; exit 1 + "VIOLATION property=.. replay=.." otherwise.
exit 3: the check itself could not run (sources do not compile, ...).
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import spec

CXX, CC, LINK, OPT = "/usr/bin/clang++-18", "/usr/bin/clang-18", "/usr/bin/llvm-link-18", "/usr/bin/opt-18"
BUILD = os.environ.get("VP_BUILD", VERIF + "/build")
SYMEX = BUILD + "/symex"
NPROC = int(os.environ.get("VP_JOBS", "8"))
OPTFLAGS = ["-O1", "-inline-threshold=1000"]
COMMON = ["-std=c++17", "-ffp-contract=off", "-fwrapv", "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", "-w"]


def flags(repo):
    inc = ["-I" + VERIF + "/rt/lazperf", "-I" + VERIF + "/rt", "-I" + repo + "/cpp/include", "-I" + repo + "/python"]
    sym = COMMON + ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-vectorize", "-fno-slp-vectorize",
                    "-include", VERIF + "/rt/sym/pre.h", "-I" + VERIF + "/rt/sym"] + inc + ["-emit-llvm", "-c"]
    nat = COMMON + ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
                    "-include", "memory", "-include", "cstdint"] + inc + ["-c"]
    return sym, nat


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd[:1] + cmd[-3:]) + "\n" + r.stdout[-4000:])
    return r.stdout


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def repo_sources(repo):
    r = []
    for d, _, ff in os.walk(repo + "/cpp/src"):
        r += [os.path.join(d, f) for f in ff if f.endswith(".cpp")]
    return sorted(r)


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    ek = tree_hash([VERIF + "/engine"])
    if not os.path.exists(SYMEX) or not os.path.exists(SYMEX + "." + ek):
        run(["bash", VERIF + "/engine/build.sh", SYMEX])
        open(SYMEX + "." + ek, "w").close()


def build(repo, harness, log):
    """compile the current sources; returns (bitcode, native binary). Objects are cached by content hash only."""
    ensure_engine()
    sym, nat = flags(repo)
    srcs = repo_sources(repo)
    key = tree_hash([repo + "/cpp/src", repo + "/cpp/include", VERIF + "/rt"], repr((sym, nat)))
    cdir = BUILD + "/cache/" + key
    hsrc = VERIF + "/harness/" + harness + ".cpp"
    hdrs = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(VERIF + "/harness")) if not f.endswith(".cpp")]
    hkey = tree_hash([hsrc] + hdrs + [repo + "/python/bindings.cpp"], key + repr(OPTFLAGS))
    tmp = None
    jobs = []
    fresh = not os.path.exists(cdir + "/ok")
    if fresh:
        os.makedirs(BUILD + "/cache", exist_ok=True)
        old = sorted((os.path.getmtime(BUILD + "/cache/" + d), d) for d in os.listdir(BUILD + "/cache"))
        for t, d in old[:-6]:  # not those another check may still be using
            if t < time.time() - 2400:
                shutil.rmtree(BUILD + "/cache/" + d, ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=BUILD + "/cache")
        for i, s in enumerate(srcs + [VERIF + "/rt/rt.cpp"]):
            jobs.append(([CXX] + sym + [s, "-o", "%s/s%d.bc" % (tmp, i)]))
        jobs.append([CC, "-O1", "-fno-builtin", "-w", "-emit-llvm", "-c", VERIF + "/rt/fmt.c", "-o", tmp + "/fmt.bc"])
        for i, s in enumerate(srcs + [VERIF + "/rt/native.cpp"]):
            jobs.append(([CXX] + nat + [s, "-o", "%s/n%d.o" % (tmp, i)]))
    od = tmp or cdir
    hb, hn = "%s/h_%s.bc" % (od, hkey), "%s/h_%s.o" % (od, hkey)
    if fresh or not os.path.exists(hb + ".opt"):
        jobs.insert(0, [CXX] + sym + [hsrc, "-o", hb])
        jobs.insert(0, [CXX] + nat + [hsrc, "-o", hn])
    if jobs:
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(run, jobs))
    n = len(srcs)
    if fresh:
        run([LINK] + ["%s/s%d.bc" % (tmp, i) for i in range(n + 1)] + [tmp + "/fmt.bc", "-o", tmp + "/base.bc"])
    if jobs:
        run([LINK, od + "/base.bc", hb, "-o", hb + ".lnk"])
        run([SYMEX, "--prep", hb + ".lnk", hb + ".lnk2"])
        run([OPT] + OPTFLAGS + [hb + ".lnk2", "-o", hb + ".opt"])
        run([CXX, "-fsanitize=address", "-rdynamic", hn] + ["%s/n%d.o" % (od, i) for i in range(n + 1)] + ["-ldl", "-o", hn + ".exe"])
        os.remove(hb + ".lnk")
        os.remove(hb + ".lnk2")
    if fresh:
        open(tmp + "/ok", "w").close()
        try:
            os.rename(tmp, cdir)
        except OSError:  # another check compiled the same sources meanwhile
            for f in (hb + ".opt", hn + ".exe"):
                os.replace(f, cdir + "/" + os.path.basename(f))
            shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.utime(cdir)
    return "%s/h_%s.bc.opt" % (cdir, hkey), "%s/h_%s.o.exe" % (cdir, hkey)


def replay(exe, entry, params, model, timeout=60):
    """run the entry natively on one model; returns (outcome, stdout, stderr)"""
    d = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        with open(d + "/model", "w") as f:
            for n, w, v in model:
                f.write("%s %d %s\n" % (n, w, v))
        os.mkdir(d + "/cwd")
        cmd = [exe, entry, d + "/model"] + ["%s=%s" % kv for kv in sorted(params.items())]
        try:
            r = subprocess.run(cmd, cwd=d + "/cwd", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               env={"PATH": "/usr/bin:/bin", "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18"})
        except subprocess.TimeoutExpired:
            return "hang", "", ""
        out, err = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        if r.returncode == 0:
            oc = "ok"
        elif r.returncode == 1 and "ASSERT-FAIL" in out:
            oc = "assert"
        elif r.returncode == 77:
            oc = "assume"
        elif r.returncode == 2:
            oc = "usage"
        else:
            oc = "crash"
        return oc, out, err
    finally:
        shutil.rmtree(d, ignore_errors=True)


def crash_summary(err):
    m = re.search(r"SUMMARY: (.*)", err)
    if m:
        return m.group(1)
    m = re.search(r"terminate called[^\n]*\n[^\n]*", err)
    return m.group(0).replace("\n", " ") if m else err[-200:]


def run_job(job):
    j = dict(job)
    out = job["out"]
    cmd = [SYMEX, job["bc"], "--entry", job["entry"], "--repo", job["repo"], "--out", out, "--time", str(job["time"]),
           "--samples", str(job["samples"]), "--seed", str(job["seed"]), "--mem", str(job["mem"])]
    for k, v in sorted(job["params"].items()):
        cmd += ["--param", "%s=%d" % (k, v)]
    cmd += job["opts"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=job["time"] + 120)
        j["log"] = r.stdout[-2000:]
        j["rc"] = r.returncode
    except subprocess.TimeoutExpired:
        j["log"], j["rc"] = "engine timeout", -1
    j["wall"] = time.time() - t0
    try:
        with open(out) as f:
            j["res"] = json.load(f)
    except Exception as e:
        j["res"] = None
        j["log"] += "\nno result: %r" % e
    return j


def known_findings(prop):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def match_known(kf, entry, params, kind, label):
    for k in kf:
        if k["entry"] == entry and k["kind"] == kind and k["label"] == label and \
                all(params.get(p) == v for p, v in k.get("params", {}).items()):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--strict", action="store_true", help="development: exit 4 when anything is inconclusive")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        rp = json.load(open(a.replay))
        if rp["harness"] == "py":
            import pycheck
            return pycheck.replay(a.replay, a.repo)
        _, exe = build(a.repo, rp["harness"], [])
        oc, out, err = replay(exe, rp["entry"], rp["params"], rp["model"])
        print(out)
        print(err[-3000:])
        print("outcome:", oc)
        return 1 if oc in ("assert", "crash", "hang") else 0
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sp = spec.SPEC[prop]
    if "custom" in sp:
        import importlib
        return importlib.import_module(sp["custom"]).main(a, prop, seed, sp)
    t0 = time.time()
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    kf = known_findings(prop)
    try:
        bc, exe = build(a.repo, sp.get("harness", prop), [])
    except BuildError as e:
        print("the sources do not build for the check:\n" + str(e))
        return 3
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="vp-check-")
    jobs = []
    for e in sp["entries"]:
        if a.only and e["entry"] != a.only:
            continue
        sets = e["t"] if a.tier == "thorough" and e["t"] is not None else e["q"]
        for i, ps in enumerate(sets):
            ps = dict(ps)
            jobs.append(dict(entry=e["entry"], params=ps, bc=bc, repo=a.repo, opts=e["opts"], seed=seed,
                             time=e["tq"] if a.tier == "quick" else e["tt"], samples=e["samples"], mem=e["mem"],
                             weight=e["weight"], reach=e["reach"], out="%s/%d.json" % (work, len(jobs))))
    jobs.sort(key=lambda j: -j["weight"])
    with ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(run_job, jobs))
    violations, known, spurious, notes = [], [], [], []
    validated = mism = 0
    reached = {}
    fns = set()
    tot = dict(paths=0, completed=0, forks=0, steps=0, asserts=0, assert_queries=0, queries=0, sat=0, unsat=0, unknown=0,
               seconds=0.0, asserts_unknown=0, branch_unknown=0, assume_pruned=0)
    per = []
    samples = []

    def check_sample(args):
        j, s = args
        oc, out, err = replay(exe, j["entry"], j["params"], s["model"])
        obs = [ln.split(" ", 1)[1].rsplit(" ", 1) for ln in out.split("\n") if ln.startswith("OBS ")]
        want = [[o[0], o[1]] for o in s["obs"]]
        return j, s, oc, obs == want, obs, want, out, err

    todo = []
    seen = set()
    for j in results:
        r = j["res"]
        if r is None:
            notes.append("%s %s: engine failed: %s" % (j["entry"], j["params"], j["log"][-300:]))
            continue
        for k in ("paths", "completed", "forks", "steps", "asserts", "assert_queries", "branch_unknown", "assume_pruned"):
            tot[k] += r[k]
        for k in ("queries", "sat", "unsat", "unknown", "seconds"):
            tot[k] += r["solver"][k]
        tot["asserts_unknown"] += r["assert_unknown"]
        fns.update(r["repo_functions"])
        for k, v in r["reach"].items():
            reached[(j["entry"], k)] = reached.get((j["entry"], k), 0) + v
        per.append(dict(entry=j["entry"], params=j["params"], paths=r["paths"], completed=r["completed"],
                        steps=r["steps"], asserts=r["asserts"], queries=r["solver"]["queries"],
                        solver_s=round(r["solver"]["seconds"], 3), wall_s=round(r["wall"], 2),
                        complete=r["complete"] and not r["unknown_asserts"], why=r["why"]))
        if not r["complete"]:
            notes.append("%s %s: exploration incomplete (%s)" % (j["entry"], j["params"], r["why"]))
        if r["unknown_asserts"]:
            notes.append("%s %s: undecided assertions %s" % (j["entry"], j["params"], r["unknown_asserts"]))
        if r["branch_unknown"]:
            notes.append("%s %s: %d branch conditions undecided (both sides explored)" % (j["entry"], j["params"], r["branch_unknown"]))
        if r["unsupported"]:
            notes.append("%s %s: unsupported %s" % (j["entry"], j["params"], r["unsupported"]))
        for er in r["errors"]:
            oc, out, err = replay(exe, j["entry"], j["params"], er["model"])
            what = "%s %s: %s" % (j["entry"], er["kind"], er["label"])
            rec = dict(property=prop, harness=sp.get("harness", prop), entry=j["entry"], params=j["params"], kind=er["kind"],
                       label=er["label"], where=er["where"], model=er["model"], native=oc,
                       native_detail=(re.search(r"ASSERT-FAIL (.*)", out).group(1) if oc == "assert" else
                                      crash_summary(err) if oc == "crash" else ""))
            if oc in ("assert", "crash", "hang"):
                k = match_known(kf, j["entry"], j["params"], er["kind"], er["label"])
                (known if k else violations).append((rec, k))
            else:
                spurious.append(rec)
                notes.append("counterexample not reproduced natively (%s): %s @ %s" % (oc, what, er["where"]))
        for s in r["samples"]:
            todo.append((j, s))
    todo = todo[: 64 if a.tier == "quick" else 400]
    with ThreadPoolExecutor(NPROC) as ex:
        for j, s, oc, same, obs, want, out, err in ex.map(check_sample, todo):
            if oc == "ok" and same:
                validated += 1
                if len(samples) < 5 and s["model"]:
                    samples.append(dict(entry=j["entry"], params=j["params"], inputs={m[0]: "0x" + m[2] for m in s["model"][:24]},
                                        observed=[[o[0], o[1]] for o in s["obs"][:8]]))
            elif oc in ("assert", "crash"):
                # a real run inside the explored path fails: report it (the solver should have, too)
                rec = dict(property=prop, harness=sp.get("harness", prop), entry=j["entry"], params=j["params"],
                           kind="native-" + oc, label=(re.search(r"ASSERT-FAIL (.*)", out) or ["", crash_summary(err)])[1],
                           where="path witness", model=s["model"], native=oc, native_detail=crash_summary(err) if oc == "crash" else "")
                k = match_known(kf, j["entry"], j["params"], rec["kind"], rec["label"])
                mism += 1
                (known if k else violations).append((rec, k))
                notes.append("native run of a verified path failed: %s %s" % (rec["kind"], rec["label"]))
            else:
                mism += 1
                notes.append("native run differs from the symbolic path: %s %s outcome=%s\n   native  %s\n   encoded %s" %
                             (j["entry"], j["params"], oc, obs[:6], want[:6]))
    for e in sp["entries"]:
        if a.only and e["entry"] != a.only:
            continue
        for l in e["reach"]:
            if not reached.get((e["entry"], l)):
                notes.append("vacuity: %s never reached '%s'" % (e["entry"], l))
    lines = []
    rdir = VERIF + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(rdir + "/" + f)
    dist = {}
    for rec, _ in violations:
        dist.setdefault((rec["entry"], rec["kind"], rec["label"]), rec)
    for i, (k, rec) in enumerate(sorted(dist.items())):
        p = "%s/%s-%d.json" % (rdir, prop, i)
        with open(p, "w") as f:
            json.dump(rec, f, indent=1)
        print("counterexample: %s %s [%s] at %s; native replay: %s %s" % (rec["entry"], rec["label"], rec["kind"], rec["where"], rec["native"], rec["native_detail"]))
        print("  inputs: " + ", ".join("%s=0x%s" % (m[0], m[2]) for m in rec["model"][:16]) + (" ..." if len(rec["model"]) > 16 else ""))
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    kseen = {}
    for rec, k in known:
        kseen[k["id"]] = k
    for k in kf:
        if k["id"] in kseen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    try:
        fnames = sorted(set(subprocess.run(["/usr/bin/llvm-cxxfilt-18"], input="\n".join(sorted(fns)), text=True,
                                           stdout=subprocess.PIPE).stdout.split("\n")) - {""})
    except Exception:
        fnames = sorted(fns)
    fnames = [f for f in fnames if "copc" in f]
    ev = dict(property=prop, tier=a.tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(dist),
              assumptions=spec.ASSUME + sp.get("assumptions", []),
              coverage=dict(states=tot["paths"], transitions=tot["steps"], traces_validated_against_impl=validated,
                            samples=samples, exhaustive=not notes, bounds=sp["bounds"],
                            functions_encoded=fnames, functions_encoded_count=len(fnames),
                            meaning="states = symbolic paths explored; transitions = LLVM instructions executed symbolically; "
                                    "traces_validated_against_impl = solver-chosen path inputs re-run on a native ASan build of the same sources with identical observations",
                            assertions_checked=tot["asserts"], assertion_queries=tot["assert_queries"],
                            solver=dict(queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"],
                                        seconds=round(tot["seconds"], 3)),
                            undecided_assertions=tot["asserts_unknown"], forks=tot["forks"],
                            witnesses={"%s:%s" % k: v for k, v in sorted(reached.items())},
                            not_reproduced=len(spurious), native_mismatches=mism, known_findings=sorted(kseen),
                            inconclusive=notes, build_s=round(tb, 2), entries=per))
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v or notes:
        for n in notes:
            print("note: " + n)
    if a.v:
        for p in sorted(per, key=lambda x: -x["wall_s"]):
            print("  %-28s %-30s paths=%d/%d asserts=%d q=%d solver=%.2fs wall=%.2fs %s" % (
                p["entry"], p["params"], p["completed"], p["paths"], p["asserts"], p["queries"], p["solver_s"], p["wall_s"],
                "" if p["complete"] else "INCOMPLETE " + p["why"]))
    print("%s %s: %d entries/bounds, %d paths, %d assertions, %d solver queries (%.2fs), %d native runs agree, %d functions, build %.1fs, wall %.1fs%s" % (
        prop, a.tier, len(per), tot["paths"], tot["asserts"], tot["queries"], tot["seconds"], validated, len(fnames), tb, wall,
        "" if not notes else " (%d notes)" % len(notes)))
    shutil.rmtree(work, ignore_errors=True)
    for l in lines:
        print(l)
    if lines:
        return 1
    if a.strict and notes:
        return 4
    return 0


if __name__ == "__main__":
    sys.exit(main())
