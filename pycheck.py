"""Driver for checks of Python sources (py/<id>.py on py/pysym.py); re-executes itself under the interpreter that has z3."""
import importlib, json, os, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"


def main(a, prop, seed, sp):
    cmd = [PY, VERIF + "/pycheck.py", prop, a.tier, a.repo, "1" if a.strict else "0", a.only or "", "1" if a.v else "0"]
    return subprocess.run(cmd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")).returncode


def replay(path, repo):
    return subprocess.run([PY, VERIF + "/pycheck.py", "--replay", path, repo], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")).returncode


def job(args):
    prop, entry, params, repo, seconds, samples = args
    sys.setrecursionlimit(10000)
    import pysym
    mod = importlib.import_module(prop)
    mod.REPO = repo
    try:
        ex = pysym.Explorer(mod.ENTRIES[entry], params, seconds, samples).run()
    except Exception as e:
        import traceback
        return dict(entry=entry, params=params, failed=traceback.format_exc())
    fns = set()
    errors, samp, mism = [], [], []

    def prof(frame, ev, arg):
        if ev == "call" and frame.f_code.co_filename.startswith(repo):
            fns.add("%s:%s" % (os.path.relpath(frame.f_code.co_filename, repo), frame.f_code.co_qualname))

    for label, m in ex.errors:
        oc, l, _ = pysym.run_concrete(mod.ENTRIES[entry], params, m)
        errors.append((label, m, oc, l))
    for m, obs in ex.samples:
        sys.setprofile(prof)
        try:
            oc, l, got = pysym.run_concrete(mod.ENTRIES[entry], params, m)
        finally:
            sys.setprofile(None)
        same = oc == "ok" and [list(x) for x in got] == [list(x) for x in obs]
        (samp if same else mism).append((m, oc, l, got, obs))
    return dict(entry=entry, params=params, failed=None, paths=ex.paths, completed=ex.completed, asserts=ex.asserts, forks=ex.forks, queries=ex.queries, seconds=ex.qtime,
                unknown=ex.unknown, reached=ex.reached, errors=errors, samples=samp, mism=mism, why=ex.why, wall=ex.wall, functions=sorted(fns))


def run(prop, tier, repo, strict, only, verbose):
    import multiprocessing
    import check, spec
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sp = spec.SPEC[prop]
    kf = check.known_findings(prop)
    jobs = []
    try:
        for d, _, ff in os.walk(repo + "/python"):
            for f in ff:
                if f.endswith(".py"):
                    compile(open(d + "/" + f).read(), f, "exec")
    except SyntaxError as e:
        print("the sources do not compile: %s" % e)
        return 3
    for e in sp["entries"]:
        if only and e["entry"] != only:
            continue
        for ps in (e["t"] if tier == "thorough" and e["t"] is not None else e["q"]):
            jobs.append((prop, e["entry"], dict(ps), repo, e["tq"] if tier == "quick" else e["tt"], e["samples"]))
    with multiprocessing.get_context("spawn").Pool(min(8, len(jobs))) as pool:
        res = pool.map(job, jobs, chunksize=1)
    notes, viol, known, reached, fns, samples, per = [], {}, {}, {}, set(), [], []
    tot = dict(paths=0, completed=0, asserts=0, forks=0, seconds=0.0)
    q = dict(sat=0, unsat=0, unknown=0)
    agree = mism = 0
    for r in res:
        if r["failed"]:
            notes.append("%s %s: engine failed: %s" % (r["entry"], r["params"], r["failed"][-1500:]))
            continue
        for k in tot:
            tot[k] += r[k]
        for k in q:
            q[k] += r["queries"][k]
        fns.update(r["functions"])
        for k, v in r["reached"].items():
            reached[r["entry"] + ":" + k] = reached.get(r["entry"] + ":" + k, 0) + v
        if r["why"]:
            notes.append("%s %s: exploration incomplete (%s)" % (r["entry"], r["params"], r["why"]))
        for l in r["unknown"]:
            notes.append("%s: undecided assertion %s" % (r["entry"], l))
        for label, m, oc, l in r["errors"]:
            kind = "uncaught" if label.startswith("uncaught") else "assert"
            if oc != "assert":
                notes.append("counterexample not reproduced concretely (%s): %s %s" % (oc, r["entry"], label))
                continue
            k = check.match_known(kf, r["entry"], r["params"], kind, label.split("Traceback")[0].strip())
            rec = dict(property=prop, harness="py", entry=r["entry"], params=r["params"], kind=kind, label=label, model=m, native=oc, native_detail=l)
            if k:
                known[k["id"]] = k
            else:
                viol.setdefault((r["entry"], label.split("Traceback")[0]), rec)
        for m, oc, l, got, obs in r["mism"]:
            mism += 1
            if oc == "assert":
                viol.setdefault((r["entry"], l), dict(property=prop, harness="py", entry=r["entry"], params=r["params"], kind="concrete", label=l, model=m, native=oc, native_detail=l))
            notes.append("concrete run differs from the symbolic path: %s %s %s %s %s" % (r["entry"], oc, l, got[:5], obs[:5]))
        agree += len(r["samples"])
        for m, oc, l, got, obs in r["samples"][:1]:
            if len(samples) < 6:
                samples.append(dict(entry=r["entry"], params=r["params"], inputs=m["vars"], observed=obs[:8]))
        per.append(dict(entry=r["entry"], params=r["params"], paths=r["paths"], completed=r["completed"], asserts=r["asserts"], queries=sum(r["queries"].values()),
                        solver_s=round(r["seconds"], 2), wall_s=round(r["wall"], 2), complete=not r["why"], why=r["why"]))
    for e in sp["entries"]:
        if only and e["entry"] != only:
            continue
        for l in e["reach"]:
            if not reached.get(e["entry"] + ":" + l):
                notes.append("vacuity: %s never reached '%s'" % (e["entry"], l))
    rdir = VERIF + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(rdir + "/" + f)
    lines = []
    for i, (k, rec) in enumerate(sorted(viol.items())):
        p = "%s/%s-%d.json" % (rdir, prop, i)
        json.dump(rec, open(p, "w"), indent=1)
        print("counterexample: %s %s; concrete replay: %s %s" % (rec["entry"], rec["label"], rec["native"], rec["native_detail"][:300]))
        print("  inputs: %s" % {k: v for k, v in list(rec["model"]["vars"].items())[:16]})
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    nq = sum(q.values())
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(viol), assumptions=sp.get("assumptions", []),
              coverage=dict(states=tot["paths"], transitions=tot["forks"] + tot["asserts"], traces_validated_against_impl=agree, samples=samples, exhaustive=not notes, bounds=sp["bounds"],
                            functions_encoded=sorted(fns), meaning="states = symbolic paths explored; transitions = decisions forked and assertions decided on them; traces_validated_against_impl = solver-chosen "
                            "path inputs re-run in plain Python on the same sources with identical observations",
                            assertions_checked=tot["asserts"], solver=dict(queries=nq, seconds=round(tot["seconds"], 3), **q), witnesses=reached, native_mismatches=mism,
                            known_findings=sorted(known), inconclusive=notes, entries=per))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    for n in notes:
        print("note: " + n)
    if verbose:
        for p in sorted(per, key=lambda x: -x["wall_s"]):
            print("  %-18s %-24s paths=%d/%d asserts=%d q=%d solver=%.1fs wall=%.1fs %s" % (p["entry"], p["params"], p["completed"], p["paths"], p["asserts"], p["queries"], p["solver_s"], p["wall_s"], p["why"]))
    print("%s %s: %d entries/bounds, %d paths, %d assertions, %d solver queries (%.1fs), %d concrete runs agree, %d functions, wall %.1fs%s" % (
        prop, tier, len(per), tot["paths"], tot["asserts"], nq, tot["seconds"], agree, len(fns), wall, " (%d notes)" % len(notes) if notes else ""))
    for l in lines:
        print(l)
    return 1 if lines else 4 if strict and notes else 0


if __name__ == "__main__":
    sys.path.insert(0, VERIF + "/py")
    sys.path.insert(0, VERIF)
    if sys.argv[1] == "--replay":
        import pysym
        rp = json.load(open(sys.argv[2]))
        mod = importlib.import_module(rp["property"])
        mod.REPO = sys.argv[3]
        oc, l, obs = pysym.run_concrete(mod.ENTRIES[rp["entry"]], rp["params"], rp["model"])
        print(obs, "\noutcome:", oc, l)
        sys.exit(1 if oc == "assert" else 0)
    a = sys.argv[1:]
    sys.exit(run(a[0], a[1], a[2], a[3] == "1", a[4], a[5] == "1"))
