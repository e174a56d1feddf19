#!/usr/bin/env python3
"""Entry point of every check: run.py <property id> <quick|thorough>   or   run.py --replay FILE

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it did not.
Exit 2: no answer (the tree does not build with the harness, or the harness itself is broken)."""
import json, os, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as B
from checks import CHECKS

def known_findings():
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding: "):
                kv = l[len("finding: "):].split(" ", 2)
                d = dict(x.split("=", 1) for x in kv[:2])
                d["text"] = kv[2] if len(kv) > 2 else ""
                out.append(d)
    except FileNotFoundError:
        pass
    return out

def binary(scratch, r):
    key = "%s-%s" % (r["harness"], r.get("cfg_name", "base"))
    path = os.path.join(scratch, key, "bin")
    if os.path.exists(path):
        return path
    kw = dict(r.get("build", {}))
    return B.build(scratch, key, r["harness"] + ".cpp", B.config(**r.get("cfg", {})), **kw)

def run_cpp(pid, r, tier, seed, scratch):
    binp = binary(scratch, r)
    t = r["quick"] if tier == "quick" else r["thorough"]
    out = os.path.join(scratch, "out.json")
    tag = r["prop"] + ("-" + r["cfg_name"] if r.get("cfg_name") else "")
    replay = os.path.join(HERE, "replays", "%s-%s.txt" % (pid, tag))
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    cmd = [binp, "--prop", r["prop"], "--seed", str(seed), "--time", str(t), "--workers", str(r.get("workers", 7)),
           "--out", out, "--save", replay, "--limit", str(r.get("limit", 25))]
    if "cases" in r: cmd += ["--max-cases", str(r["cases"])]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1",
               TSAN_OPTIONS="halt_on_error=1")
    env.update(r.get("env", {}))
    p = subprocess.run(cmd, env=env, cwd=scratch, stdout=subprocess.DEVNULL)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise RuntimeError("harness %s ended with %s" % (tag, p.returncode))
    d = json.load(open(out)); os.unlink(out)
    d["tag"] = tag
    if d["verdict"]:
        # the replay file names what rebuilds and reruns it
        body = open(replay).read()
        open(replay, "w").write("check: %s\nrun: %s\n%s" % (pid, tag, body))
        d["replay"] = replay
    return d

def run_py(pid, r, tier, seed, scratch):
    t = r["quick"] if tier == "quick" else r["thorough"]
    out = os.path.join(scratch, "out.json")
    tag = r["prop"]
    replay = os.path.join(HERE, "replays", "%s-%s.txt" % (pid, tag))
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    cmd = ["python3-vt", os.path.join(HERE, "harness", r["harness"]), "--prop", r["prop"], "--seed", str(seed), "--time", str(t),
           "--out", out, "--save", replay, "--scratch", scratch]
    p = subprocess.run(cmd, cwd=scratch, stdout=subprocess.DEVNULL, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise RuntimeError("harness %s ended with %s" % (tag, p.returncode))
    d = json.load(open(out)); os.unlink(out)
    d["tag"] = tag
    if d["verdict"]:
        body = open(replay).read()
        open(replay, "w").write("check: %s\nrun: %s\n%s" % (pid, tag, body))
        d["replay"] = replay
    return d

def find_run(pid, tag):
    for r in CHECKS[pid]["runs"]:
        if tag == r["prop"] + ("-" + r["cfg_name"] if r.get("cfg_name") else ""):
            return r
    raise SystemExit("no such run " + tag)

def do_replay(path):
    lines = open(path).read().splitlines()
    pid = lines[0].split(": ", 1)[1]; tag = lines[1].split(": ", 1)[1]
    r = find_run(pid, tag)
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        if r["harness"].endswith(".py"):
            cmd = ["python3-vt", os.path.join(HERE, "harness", r["harness"]), "--prop", r["prop"], "--replay", path, "--scratch", scratch]
        else:
            cmd = [binary(scratch, r), "--prop", r["prop"], "--replay", path]
        rc = subprocess.run(cmd, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1",
                            UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1", **r.get("env", {}))).returncode
        if rc == 1: print("VIOLATION property=%s replay=%s" % (pid, path))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    if sys.argv[1] == "--replay":
        return do_replay(os.path.abspath(sys.argv[2]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-")
    spec = CHECKS[pid]
    results, violations = [], []
    try:
        # distinct binaries are built first
        for r in spec["runs"]:
            if r.get("only") and r["only"] != tier: continue
            if not r["harness"].endswith(".py"): binary(scratch, r)
        for r in spec["runs"]:
            if r.get("only") and r["only"] != tier: continue
            d = (run_py if r["harness"].endswith(".py") else run_cpp)(pid, r, tier, seed, scratch)
            results.append(d)
            if d["verdict"]: violations.append(d)
            elif d.get("unreproduced"):
                print("note: a failure of %s did not reproduce and is not reported: %s" % (d["tag"], d["message"]))
    except B.BuildError as e:
        print("NO ANSWER property=%s: %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); print("NO ANSWER property=%s" % pid); return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = [k for k in known_findings() if k.get("property") == pid]
    # a known finding is a witness run of its own ("finding" key); its failure is expected
    real = []
    for d in violations:
        r = find_run(pid, d["tag"])
        f = r.get("finding")
        k = [x for x in known if x.get("id") == f] if f else []
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["text"]))
            try: os.unlink(d["replay"])
            except OSError: pass
        else:
            real.append(d)
    samples = []
    for d in results:
        for s in d.get("samples", [])[:2]: samples.append({"run": d["tag"], "case": s})
    cov = {
        "evaluations": sum(d["evaluations"] for d in results),
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in results),
        "rule": "; ".join("%s: %s" % (d["tag"], d["rule"]) for d in results),
        "samples": samples[:12] or [{"run": d["tag"], "case": d.get("case", "")} for d in results],
        "runs": [{k: d[k] for k in ("tag", "evaluations", "discarded", "nontrivial", "distinct_nontrivial", "labels", "verdict", "message") if k in d} for d in results],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for d in real:
        print("run %s: %s\n  case: %s" % (d["tag"], d["message"], d["case"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, d["replay"]))
    if not real:
        print("OK property=%s tier=%s evaluations=%d nontrivial=%d wall=%.1fs" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 1 if real else 0

if __name__ == "__main__":
    sys.exit(main())
