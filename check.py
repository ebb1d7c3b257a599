#!/usr/bin/env python3
"""Decides one property of /repo: check.py ID

Contracts on the functions in /repo are verified by gocv (see DESIGN.md), and the bounded checks
in harness/ stand in for what the contracts do not reach. Both work on /repo's current tree.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()


def env(**kw):
    e = dict(os.environ)
    e.update(GOSUMDB="off", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(kw)
    return e


def run(cmd, timeout, **kw):
    """Runs a command; gives its exit code (None when out of time) and output."""
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, start_new_session=True, **kw)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = None
        out.seek(0)
        return rc, out.read().decode("utf-8", "replace")


def build_gocv(tmp):
    exe = os.path.join(tmp, "gocv")
    rc, out = run(["go", "build", "-o", exe, "."], 600, cwd=os.path.join(HERE, "gocv"), env=env())
    if rc != 0:
        raise SystemExit("cannot build the verifier:\n" + out)
    return exe


def prove(tmp, conf, res):
    """Verifies the contracts that the property depends on."""
    if not conf["contracts"]:
        return
    exe = build_gocv(tmp)
    out = os.path.join(tmp, "proof.json")
    only = "^(" + "|".join(conf["contracts"]) + ")$"
    cmd = [exe, "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"), "-only", only, "-json", out, "-v", "-budget", "420", "-total", "620"]
    rc, log = run(cmd, 760, cwd=REPO, env=env())
    res["proof_log"] = log
    if os.path.exists(out):
        res["proof"] = json.load(open(out)) or []
    else:
        res["proof_error"] = "the verifier gave no result (exit code %s)\n%s" % (rc, log)


def explore(tmp, pid, conf, res):
    """Runs the bounded check."""
    kind = conf.get("harness")
    if not kind:
        return
    files = glob.glob(os.path.join(HERE, "harness", "core", "*_test.go"))
    if kind == "plugin":
        files += glob.glob(os.path.join(HERE, "harness", "plugin", "*_test.go"))
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": {os.path.join(REPO, "internal/zzverif", os.path.basename(f)): f for f in files}}, open(ov, "w"))
    exe = os.path.join(tmp, "harness.test")
    e = env()
    cmd = ["go", "test", "-vet=off", "-overlay", ov, "-c", "-o", exe]
    if kind == "race":
        e = env(CGO_ENABLED="1")
        cmd.append("-race")
    rc, out = run(cmd + ["./internal/zzverif"], 600, cwd=REPO, env=e)
    if rc != 0:
        res["harness_error"] = "cannot build the bounded check:\n" + out
        return
    secs = conf.get("secs", 20) * (12 if TIER == "thorough" else 1)
    js = os.path.join(tmp, "harness.json")
    work = os.path.join(tmp, "work")
    os.mkdir(work)
    e = env(VERIF_ID=pid, VERIF_SEED=str(SEED), VERIF_SECS=str(secs), VERIF_TIER=TIER, VERIF_OUT=js, VERIF_REPO=REPO, TMPDIR=work,
            GORACE="halt_on_error=1 exitcode=66")
    rc, log = run([exe, "-test.run", "^TestVerif$", "-test.timeout", "0"], secs + 150, cwd=work, env=e)
    d = json.load(open(js)) if os.path.exists(js) else {"failures": []}
    d["failures"] = d.get("failures") or []
    if rc != 0 and not d["failures"]:
        cur = open(js + ".cur", "rb").read().decode("utf-8", "backslashreplace") if os.path.exists(js + ".cur") else ""
        m = re.search(r"^(panic:|fatal error:|WARNING: DATA RACE|runtime:).*", log, re.M)
        what = "does not terminate" if rc is None else "the process ends: " + (m.group(0) if m else "exit code %d" % rc)
        if not cur:
            res["harness_error"] = what + "\n" + log[:5000]
            return
        at = m.start() if m else 0
        d["failures"].append({"what": what, "input": cur, "detail": log[at:at + 5000]})
    res["harness"] = d


def known_findings(pid):
    known = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            known.append(m.group(2))
    return known


def main():
    pid = sys.argv[1]
    conf = json.load(open(os.path.join(HERE, "props.json")))[pid]
    tmp = tempfile.mkdtemp(prefix="verif-")
    res = {}
    errs = []

    def guard(f, *a):
        try:
            f(*a)
        except BaseException as e:  # reported below
            errs.append("%s: %s" % (f.__name__, e))

    try:
        ts = [threading.Thread(target=guard, args=(prove, tmp, conf, res)), threading.Thread(target=guard, args=(explore, tmp, pid, conf, res))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if errs or "harness_error" in res:
        print("\n".join(errs + [res.get("harness_error", "")]))
        sys.exit(2)

    violations = []
    for f in res.get("harness", {}).get("failures", []):
        violations.append({"kind": "input", "what": f["what"], "input": f["input"], "detail": f["detail"]})
    proof = res.get("proof", [])
    obligations = discharged = 0
    by = {}
    for r in proof:
        obls = r["obligations"] or []
        obligations += len(obls)
        for o in obls:
            if o["status"] == "proved":
                discharged += 1
                b = o.get("by") or "z3"
                by[b] = by.get(b, 0) + 1
            else:
                violations.append({"kind": "obligation", "what": "%s: %s (%s)" % (r["name"], o["obligation"], o["status"]), "at": o.get("at"), "detail": o.get("detail")})
        if r.get("error"):
            obligations += 1
            violations.append({"kind": "obligation", "what": "%s: %s" % (r["name"], r["error"]), "detail": "\n".join(r.get("notes") or [])})
        if r["kind"] not in ("trusted",) and not obls and not r.get("error"):
            obligations += 1
            violations.append({"kind": "obligation", "what": r["name"] + ": no obligations were generated", "detail": ""})
    if "proof_error" in res:
        obligations += 1
        violations.append({"kind": "obligation", "what": "the contracts could not be verified", "detail": res["proof_error"]})
    missing = []
    for pat in conf["contracts"]:
        if "proof_error" not in res and not any(re.fullmatch(pat, r["name"]) for r in proof):
            missing.append(pat)
    for pat in missing:
        obligations += 1
        violations.append({"kind": "obligation", "what": "no contract " + pat, "detail": ""})

    # Known findings are printed, and suppress exactly what the bounded check identified as such.
    listed = known_findings(pid)
    for k in res.get("harness", {}).get("known") or []:
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        else:
            violations.append({"kind": "input", "what": k, "input": "", "detail": "not listed in known-findings.txt"})

    write_evidence(pid, conf, res, proof, obligations, discharged, by, len(violations))
    functions = [r for r in proof if r["kind"] == "function"]
    h = res.get("harness", {})
    print("%s: %d functions and %d lemmas under contract, %d of %d obligations discharged; bounded check: %d cases (%d distinct and non-trivial); %.0f s" % (
        pid, len(functions), len([r for r in proof if r["kind"] == "lemma"]), discharged, obligations, h.get("evaluations", 0), h.get("distinct_nontrivial", 0), time.time() - T0))
    if not violations:
        return 0
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    replay = os.path.join(HERE, "replay", pid + ".json")
    inputs = [v for v in violations if v["kind"] == "input"]
    json.dump({"property": pid, "seed": SEED, "tier": TIER,
               "rerun": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (SEED, TIER, pid),
               "violations": violations, "verifier_output": res.get("proof_log", "")[-20000:]}, open(replay, "w"), indent=1)
    for v in violations[:10]:
        print("- %s%s" % (v["what"], "" if v["kind"] == "input" else " [obligation]"))
        for k in ("input", "detail"):
            if v.get(k):
                print("    %s: %s" % (k, str(v[k])[:1500].replace("\n", "\n      ")))
    print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if inputs else " no-failing-input-found"))
    return 1


def write_evidence(pid, conf, res, proof, obligations, discharged, by, n):
    h = res.get("harness", {})
    cov = {}
    if conf["contracts"]:
        solver = sum(r["solver_secs"] for r in proof)
        relied = sorted({u for r in proof for u in (r.get("relies_on") or [])})
        cov.update({
            "obligations": obligations, "discharged": discharged, "discharged_by": by, "solver_secs": round(solver, 1),
            "queries": sum(r["queries"] for r in proof),
            "checker_cmd": "gocv -only '^(%s)$' (built from /verif/gocv; back end z3-new)" % "|".join(conf["contracts"]),
            "functions_under_contract": [{"name": r["name"], "obligations": len(r["obligations"] or []), "secs": round(r["secs"], 1), "inlined": r.get("inlined") or []} for r in proof if r["kind"] == "function"],
            "lemmas": [r["name"] for r in proof if r["kind"] == "lemma"],
            "trusted_contracts": [{"name": r["name"], "why": r.get("trusted")} for r in proof if r["kind"] == "trusted"],
            "relies_on_contracts": relied,
            "trusted_base": conf.get("trusted", []) + ["gocv (symbolic execution of the SSA form of /repo's packages, /verif/gocv)", "z3-new", "golang.org/x/tools/go/ssa"],
        })
    if h:
        cov["bounded"] = "bounded check of the whole property on generated cases; it stands in for what is not under contract and is not counted as proved" if conf["contracts"] else "bounded: generated cases only"
        cov.update({"evaluations": h["evaluations"], "distinct_nontrivial": h["distinct_nontrivial"], "rule": h["rule"], "samples": h.get("samples") or [], "counts": h.get("counts") or {}})
    if conf["level"] == "other":
        cov["explanation"] = conf.get("explanation", "")
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": conf["level"], "coverage": cov, "assumptions": conf.get("assumptions", []),
          "wall_s": round(time.time() - T0, 1), "violations": n}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
