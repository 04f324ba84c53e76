#!/usr/bin/env python3
"""check.py ID: decides one property.

1. The verifier (tool/) reads the contracts (contracts/*.spec) and the current source of
   /repo, generates the proof obligations of the functions under contract of the property
   and discharges them.
2. The search (harness/) runs the real code against the statement of the property.
   A failing input is a violation.  If an obligation fails, the search goes on for longer;
   when it finds nothing the violation is reported as no-failing-input-found.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
GO = "/opt/veriftools/go1.27.3/bin"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", LC_ALL="C.UTF-8")
ENV.setdefault("HOME", "/root")
if os.path.isdir(GO):
    ENV["PATH"] = GO + ":" + ENV.get("PATH", "/usr/bin:/bin")

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def newest(pattern):
    return max([os.path.getmtime(f) for f in glob.glob(pattern)] + [0])


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "vgo")
    if os.path.exists(out) and os.path.getmtime(out) > newest(os.path.join(VERIF, "tool", "*")):
        return out
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "tool"), env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        log(r.stdout, r.stderr)
        log("cannot build the verifier")
        sys.exit(3)
    return out


def prove(pid, tier, tmp):
    tool = build_tool()
    rep = os.path.join(tmp, "proof.json")
    cmd = [tool, "check", "-prop", pid, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-json", rep,
           "-budget", "500" if tier == "quick" else "600", "-scale", "1" if tier == "quick" else "3", "-dump", os.path.join(tmp, "failed")]
    r = subprocess.run(cmd, env=ENV, capture_output=True, text=True, timeout=800)
    out = r.stdout + r.stderr
    if os.path.exists(rep):
        d = json.load(open(rep))
        d["failed"] = d.get("failed") or []
    else:
        d = {"functions": [], "obligations": 0, "discharged": 0, "failed": [{"func": "", "name": "the current source could be loaded", "kind": "tool", "status": "failed", "detail": out[-2000:]}]}
    d["cmd"] = " ".join(cmd)
    d["output"] = out
    return d


def build_harness(tmp):
    """compiles the search programs against the current source"""
    files = {os.path.join(REPO, "backend/ledger", "zz_" + os.path.basename(f)): f for f in glob.glob(os.path.join(VERIF, "harness", "*_test.go"))}
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": files}, open(ov, "w"))
    binary = os.path.join(tmp, "search.test")
    r = subprocess.run(["go", "test", "-vet=off", "-overlay", ov, "-c", "-o", binary, "./backend/ledger"], cwd=REPO, env=ENV, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(binary):
        log("search: cannot be compiled with the current source:", (r.stdout + r.stderr)[-1500:])
        return None
    cli = os.path.join(tmp, "ledger")
    r = subprocess.run(["go", "build", "-o", cli, "./cmd/ledger"], cwd=REPO, env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        log("search: cannot build cmd/ledger:", (r.stdout + r.stderr)[-1500:])
    return binary


def search(pid, chk, binary, tmp, ms, seed, workers, first=0):
    """runs the search in several processes"""
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "failures": []}
    if not binary:
        return tot
    procs = []
    for w in range(first, first + workers):
        d = os.path.join(tmp, "w%d" % w)
        os.makedirs(d, exist_ok=True)
        e = dict(ENV, VERIF_SEED=str(seed), VERIF_WORKER=str(w), VERIF_MS=str(ms), VERIF_OUT=os.path.join(d, "out.json"),
                 VERIF_TRACE=os.path.join(d, "trace"), VERIF_SCRATCH=d, VERIF_LEDGER=os.path.join(tmp, "ledger"), TZ="UTC", GOTRACEBACK="all")
        lf = open(os.path.join(d, "log"), "w")
        p = subprocess.Popen([binary, "-test.run", "^TestVerif" + pid + "$", "-test.timeout", "%ds" % (ms // 1000 + 120)], cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT)
        procs.append((p, d, lf))
    for p, d, lf in procs:
        try:
            p.wait(timeout=ms / 1000 + 150)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        lf.close()
        of = os.path.join(d, "out.json")
        if os.path.exists(of):
            o = json.load(open(of))
            tot["evaluations"] += o["evaluations"]
            tot["distinct_nontrivial"] += o["distinct_nontrivial"]
            tot["rule"] = o["rule"]
            if len(tot["samples"]) < 3:
                tot["samples"] += (o["samples"] or [])[:1]
            tot["failures"] += o["failures"] or []
        else:
            lg = open(os.path.join(d, "log"), errors="replace").read()
            tr = ""
            if os.path.exists(os.path.join(d, "trace")):
                tr = open(os.path.join(d, "trace"), errors="replace").read()
            if "no tests to run" in lg:
                continue
            if tr == "":
                log("search: a worker failed before trying anything:", lg[-800:])
                continue
            tot["failures"].append({"key": "crash", "text": "the program crashed or did not end\n" + lg[:3000] + "\ninput:\n" + tr})
        shutil.rmtree(d, ignore_errors=True)
    return tot


def known():
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    t0 = time.time()
    if sys.argv[1] == "--build":
        build_tool()
        tmp = tempfile.mkdtemp(prefix="verif-build-")
        build_harness(tmp)  # fills the build cache
        shutil.rmtree(tmp, ignore_errors=True)
        return
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = run(pid, chk, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(pid, chk, tier, seed, tmp, t0):
    proof = prove(pid, tier, tmp)
    log(proof["output"].rstrip())
    binary = build_harness(tmp) if chk.get("search", True) else None
    ms = chk.get("ms", 6000) * (1 if tier == "quick" else 15)
    found = search(pid, chk, binary, tmp, ms, seed, 8)
    kn = [k for k in known() if k[0] == pid]
    kkeys = {k[1] for k in kn}
    fails = [f for f in found["failures"] if f["key"] not in kkeys]
    pfails = [f for f in proof["failed"] if "obligation:" + f["func"] + ":" + f["name"] not in kkeys]
    if pfails and not fails and binary:
        log("an obligation failed: searching for longer")
        more = search(pid, chk, binary, tmp, max(ms * 3, 30000), seed + 17, 8, first=100)
        for k in ("evaluations", "distinct_nontrivial"):
            found[k] += more[k]
        fails = [f for f in more["failures"] if f["key"] not in kkeys]
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, pid + ".txt")
    if os.path.exists(replay):
        os.remove(replay)
    code = 0
    for k in kn:
        log("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    if fails or pfails:
        with open(replay, "w") as f:
            f.write("property %s\n\n" % pid)
            for x in fails:
                f.write("FAILING INPUT (%s) found by running the code in %s (seed %d):\n%s\n\n" % (x["key"], REPO, seed, x["text"]))
            for x in pfails:
                f.write("FAILED OBLIGATION %s: %s (%s) %s\n  status %s, solvers: %s\n" % (x["func"], x["name"], x["kind"], x.get("pos", ""), x["status"], x.get("detail", "")))
            f.write("\nrun again: VERIF_SEED=%d python3 %s %s\nverifier: %s\n" % (seed, os.path.join(VERIF, "check.py"), pid, proof["cmd"]))
            f.write("\nverifier output:\n" + proof["output"])
        for x in fails[:2]:
            log("failing input (%s): %s" % (x["key"], x["text"][:1500]))
        for x in pfails[:10]:
            log("failed obligation: %s: %s %s" % (x["func"], x["name"], x.get("pos", "")))
        log("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if fails else " no-failing-input-found"))
        code = 1
    evidence(pid, chk, tier, seed, proof, found, t0, len(fails) + len(pfails))
    return code


def evidence(pid, chk, tier, seed, proof, found, t0, nviol):
    fs = proof.get("functions") or []
    trusted = sorted({t for f in fs for t in f.get("trusted_library") or []})
    notes = sorted({f["name"].split("/")[-1] + ": " + a for f in fs for a in f.get("assumptions") or []})
    called = sorted({c.split("/")[-1] for f in fs for c in f.get("contracts_assumed_at_calls") or []})
    own = {f["name"].split("/")[-1] for f in fs}
    cov = {
        "obligations": proof["obligations"], "discharged": proof["discharged"],
        "checker_cmd": "tool/vgo check -prop %s (verification conditions from /repo's current source; z3, cvc5)" % pid,
        "trusted_base": ["tool/ (translation of Go SSA to verification conditions)", "golang.org/x/tools/go/ssa", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"]
        + ["contract of library function " + t for t in trusted] + ["contract without proof: " + t for t in proof.get("trusted_contracts") or []],
        "functions_under_contract": [{"name": f["name"], "obligations": f["obligations"], "proved": f["proved"], "inlined": f.get("inlined") or [],
                                      "machine_integers": f.get("machine_integers", False)} for f in fs],
        "lemmas_proved": proof.get("lemmas") or [], "definitions": proof.get("definitions") or [],
        "discharged_by": proof.get("by_solver") or {}, "obligations_by_kind": proof.get("by_kind") or {},
        "solver_seconds": round(proof.get("solver_seconds", 0), 2), "slowest_obligation_seconds": round(proof.get("slowest_obligation_seconds", 0), 2),
        "vacuity_checks": proof.get("vacuity_checks", 0), "sample_obligations": proof.get("samples") or [],
        "callee_contracts_used": called, "callee_contracts_proved_by_other_checks": [c for c in called if c not in own],
        "failed_obligations": [x["func"] + ": " + x["name"] for x in proof["failed"]],
        "evaluations": found["evaluations"], "distinct_nontrivial": found["distinct_nontrivial"],
        "rule": "(bounded search on the real code, in support of the proof) " + (found["rule"] or "not run"), "samples": found["samples"] or ["not run"],
        "bounded_parts": chk.get("bounded", []),
    }
    ass = ["amounts are mathematical integers in the proofs, except in functions marked machine_integers"] + chk.get("assumptions", []) + notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "proof"), "coverage": cov, "assumptions": ass,
                   "wall_s": round(time.time() - t0, 2), "violations": nviol}, f, indent=1, ensure_ascii=False)


main()
