#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property of /repo.

1. govc generates the verification conditions of every contract the property
   rests on from /repo's current source and discharges them (deciding step).
2. the replay harness, compiled against /repo's current source through an
   overlay, looks for a concrete failing input; it is also the labelled
   bounded stand-in for the functions that are outside govc's reach.
Exit 0: every obligation discharged and no failing input.  Exit 1: a VIOLATION
line.  Anything else is an error of the check.
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VRF_REPO", "/repo")
SETTINGS = json.load(open(os.path.join(HERE, "settings.json")))


def environment():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod",
             GO111MODULE="on", GOWORK="off", REPO=REPO, VRF_REPO=REPO)
    return e


ENV = environment()
ENV.setdefault("GORACE", "halt_on_error=1")


def modfiles():
    """The repository has no go.mod of its own (git-ignored): put it back."""
    for f in ("go.mod", "go.sum"):
        dst = os.path.join(REPO, f)
        if not os.path.exists(dst):
            src = os.path.join("/opt/vp/mod", f)
            if not os.path.exists(src):
                src = os.path.join(HERE, "mod", f)
            shutil.copy(src, dst)


def govc_binary():
    """Build the verifier unless this build of the same sources is there."""
    h = hashlib.sha256()
    d = os.path.join(HERE, "govc")
    for f in sorted(os.listdir(d)):
        if f.endswith(".go") or f in ("go.mod", "go.sum"):
            h.update(f.encode())
            h.update(open(os.path.join(d, f), "rb").read())
    out = os.path.join(HERE, "bin", "govc-" + h.hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        subprocess.run(["bash", os.path.join(d, "build.sh"), tmp], check=True, env=ENV)
        os.replace(tmp, out)
    return out


class Harness:
    def __init__(self, scratch):
        self.bin = os.path.join(scratch, "vrfharness")
        self.scratch = scratch

    def build(self, race=False):
        cmd = ["bash", os.path.join(HERE, "replay", "run.sh"), self.bin] + (["-race"] if race else [])
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("the replay harness does not build:\n" + r.stdout)

    def run(self, prop, seed, mult, secs):
        rep = os.path.join(self.scratch, "report.json")
        trace = os.path.join(self.scratch, "trace")
        if os.path.exists(rep):
            os.remove(rep)
        base = ["-prop", prop, "-seed", str(seed), "-mult", str(mult), "-secs", str(secs)]
        r = subprocess.run([self.bin] + base + ["-out", rep, "-trace", trace], env=ENV, cwd=self.scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=secs + 180)
        if os.path.exists(rep):
            d = json.load(open(rep))
            for f in d["failures"]:
                f["mult"] = mult
            if "DATA RACE" in r.stdout and not d["failures"]:
                d["failures"].append(dict(property=prop, suite="-race", case=0, seed=seed, mult=mult,
                                          input=["see the race report"], observed=r.stdout[:6000]))
            return d
        where = open(trace).read().split() if os.path.exists(trace) else []
        suite, case = (where + ["?", "0"])[:2]
        return dict(cases=0, distinct_nontrivial=0, checks=0, expected_accept=0, expected_reject=0, suites={},
                    samples=[], wall_s=0.0,
                    failures=[dict(property=prop, suite=suite, case=int(case), seed=seed, mult=mult,
                                   input=["suite %s case %s seed %s" % (suite, case, seed)],
                                   observed="the process died: " + r.stdout[:3000])])


def known_findings(prop):
    return [k for k in json.load(open(os.path.join(HERE, "known-findings.json")))["findings"]
            if k["property"] == prop and k["status"] == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = SETTINGS["properties"][prop]
    t0 = time.time()
    modfiles()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vrf-" + prop + "-")
    try:
        return decide(prop, tier, seed, cfg, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, cfg, scratch, t0):
    quick = tier == "quick"
    proof_json = os.path.join(scratch, "proof.json")
    budget = 300 if quick else 600
    found = os.path.join(scratch, "failing-input-found")
    box = {}

    def prove():
        try:
            if cfg.get("bounded_only"):
                box.update(rc=0, out="no function under contract for %s: bounded check only" % prop, cmd="")
                return
            g = govc_binary()
            cmd = [g, "-prop", prop, "-repo", REPO, "-specs", os.path.join(HERE, "contracts"),
                   "-json", proof_json, "-budget", "%ds" % budget, "-hurry", found]
            box["cmd"] = " ".join(cmd)
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=budget + 120)
            box["rc"], box["out"] = r.returncode, r.stdout
        except Exception as ex:  # reported below
            box["rc"], box["out"] = 99, "govc: %s" % ex

    th = threading.Thread(target=prove)
    th.start()
    h = Harness(scratch)
    try:
        h.build(race=cfg.get("race", False))
    except RuntimeError as ex:
        print("ERROR: %s" % ex)
        th.join()
        return 2
    mult = cfg.get("mult", 1.0) * (1 if quick else cfg.get("thorough_mult", 20))
    bounded = h.run(prop, seed, mult, 200 if quick else 420)
    if bounded["failures"]:
        open(found, "w").close()
    th.join()
    print(box["out"].rstrip())
    proof = dict(obligations=0, discharged=0, by_kind={}, functions=[], solver_secs={}, solver_runs={})
    problems = []
    if cfg.get("bounded_only"):
        pass
    elif box["rc"] in (0, 1):
        proof = json.load(open(proof_json))
    else:
        problems = ["the verifier gave no answer (exit %s)" % box["rc"]]
    failed = proof.get("failed") or []
    problems = problems + (proof.get("problems") or [])
    minimum = cfg.get("min_property_obligations", 0 if cfg.get("bounded_only") else 1)
    posts = len(proof.get("property_obligations") or [])
    if box["rc"] == 0 and posts < minimum:
        problems = problems + ["only %d obligations state the property (expected at least %d)" % (posts, minimum)]

    # no concrete input yet: search deeper behind the failed obligations
    searched = [dict(seed=seed, mult=mult, cases=bounded["cases"])]
    if (failed or problems) and not bounded["failures"]:
        for k in range(1, 6):
            left = 780 - (time.time() - t0) if quick else 300
            if left < 60:
                break
            d = h.run(prop, seed * 1000 + k, mult * 4, min(60, left - 30))
            searched.append(dict(seed=seed * 1000 + k, mult=mult * 4, cases=d["cases"]))
            if d["failures"]:
                bounded["failures"] = d["failures"]
                break

    known = known_findings(prop)
    fails, seen_known = [], []
    for f in bounded["failures"]:
        for k in known:
            if k.get("suite") == f["suite"] and k.get("observed_contains", "\0") in f["observed"]:
                seen_known.append(k)
                break
        else:
            fails.append(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    violations = 0
    if fails or failed or problems:
        violations = 1
        replay = os.path.join(HERE, "evidence", prop + ".replay.txt")
        with open(replay, "w") as w:
            w.write("property %s violated on the current tree of %s\n\n" % (prop, REPO))
            for f in fails:
                w.write("FAILING INPUT (real code, suite %s case %d seed %d)\n" % (f["suite"], f["case"], f["seed"]))
                for i in f["input"]:
                    w.write("  input:    %s\n" % i)
                w.write("  observed: %s\n" % f["observed"])
                w.write("  again:    bash %s/replay/run.sh /tmp/vrfharness%s && /tmp/vrfharness -prop %s -suite %s -case %d -seed %d -mult %g\n\n"
                        % (HERE, " -race" if cfg.get("race") else "", prop, f["suite"], f["case"], f["seed"], f["mult"]))
            for f in failed:
                w.write("FAILED OBLIGATION %s: %s %s\n  at %s\n  %s\n  verifier: %s (%s)\n" % (
                    f["function"], f["kind"], f["name"], f.get("where", ""), f.get("src", ""), f["status"],
                    f.get("solver", "")))
                if f.get("solver_output"):
                    w.write("  output: %s\n" % f["solver_output"][:4000])
            for p in problems:
                w.write("UNDECIDED %s\n" % p)
            w.write("\nverifier output\n%s\n" % box["out"])
            w.write("searched for a failing input: %s\n" % json.dumps(searched))
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if fails else " no-failing-input-found"))

    ev = dict(
        property=prop, tier=tier, seed=seed, level=cfg["level"],
        coverage=dict(
            obligations=proof["obligations"], discharged=proof["discharged"], checker_cmd=box["cmd"],
            trusted_base=(proof.get("trusted") or []) + SETTINGS["trusted_base"],
            property_obligations=[dict(function=o["function"], name=o["name"], status=o["status"],
                                       solver=o.get("solver", ""), text=o.get("src", ""))
                                  for o in (proof.get("property_obligations") or [])],
            obligations_by_kind=proof["by_kind"],
            functions_under_contract=[dict(name=f["name"], role=f["role"], obligations=f["obligations"],
                                           discharged=f["discharged"], secs=round(f["secs"], 3),
                                           inlined=f.get("inlined") or [], note=f.get("note", ""))
                                      for f in proof["functions"]],
            solver_seconds=proof["solver_secs"], solver_queries=proof["solver_runs"],
            failed=[f["function"] + ": " + f["name"] for f in failed], undecided=problems,
            bounded=dict(
                label="bounded: concrete runs of the real code; never counted as proved",
                role=cfg.get("bounded_role", "replays failed obligations on the real code"),
                evaluations=bounded["cases"], distinct_nontrivial=bounded["distinct_nontrivial"],
                rule="randomly generated (schema or constraint, value) cases from VERIF_SEED compared with an "
                     "independent reading of the statement; distinct by input text, trivial ones left out",
                checks=bounded["checks"], expected_accept=bounded["expected_accept"],
                expected_reject=bounded["expected_reject"], suites=bounded["suites"],
                samples=bounded["samples"], searched=searched)),
        assumptions=(proof.get("assumptions") or []) + SETTINGS["assumptions"] + cfg.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=violations)
    if cfg["level"] == "exploration":
        ev["coverage"].update(evaluations=bounded["cases"], distinct_nontrivial=bounded["distinct_nontrivial"],
                              rule=ev["coverage"]["bounded"]["rule"], samples=bounded["samples"])
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as w:
        json.dump(ev, w, indent=1)
        w.write("\n")
    print("%s %s: %d functions under contract, %d/%d obligations, %d bounded cases, %.1fs" % (
        prop, tier, len(proof["functions"]), proof["discharged"], proof["obligations"], bounded["cases"],
        time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
