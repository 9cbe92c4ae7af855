#!/usr/bin/env python3
"""check.py <property> [--thorough]: runs the monitors of one property against /repo's working tree.

Builds the harness (harness/**, placed into kache's module by a build overlay, so /repo is not
touched), runs the monitored workloads and reports what the monitors observed.
Exit 0: the property held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import overlay  # noqa: E402
from registry import PROPS  # noqa: E402

BUDGET = 840  # seconds for all runs of a quick check
KNOWN = os.path.join(VERIF, "known-findings.txt")


def goenv():
    env = dict(os.environ)
    env.update(GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
    env.setdefault("HOME", "/root")
    return env


def build(pkg, race, tmp, env):
    ov = os.path.join(tmp, "overlay.json")
    overlay.write(ov, REPO, VERIF)
    out = os.path.join(tmp, pkg + (".race" if race else "") + ".test")
    if os.path.exists(out):
        return out, ""
    # go commands must not touch go.mod/go.sum of the tree
    mod = os.path.join(tmp, "go.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    if os.path.exists(os.path.join(REPO, "go.sum")):
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
    cmd = ["go", "test", "-vet=off", "-modfile", mod, "-overlay", ov, "-c", "-o", out]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["./verifharness/" + pkg], cwd=REPO, env=env, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stdout + p.stderr
    return out, ""


def build_kache(race, tmp, env):
    """Builds the real program, for workloads which run it as a process."""
    out = os.path.join(tmp, "kache" + (".race" if race else ""))
    if os.path.exists(out):
        return out, ""
    mod = os.path.join(tmp, "go.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    if os.path.exists(os.path.join(REPO, "go.sum")):
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
    cmd = ["go", "build", "-modfile", mod, "-buildvcs=false", "-o", out] + (["-race"] if race else [])
    p = subprocess.run(cmd + ["./cmd/kache"], cwd=REPO, env=env, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stdout + p.stderr
    return out, ""


def known_sigs(prop):
    sigs = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                sigs[m.group(2)] = m.group(3)
    return sigs


def crash_of(out):
    """Classifies an abnormal end. Returns (sig, excerpt) if the code under test is to blame."""
    m = re.search(r"(?m)^(WARNING: DATA RACE)", out)
    if m:
        blk = out[m.start():m.start() + 6000]
        sites = re.findall(r"kache/pkg/[\w/.()*-]+", blk)
        if sites:
            return "data-race:" + sites[0].split("(0x")[0], blk
        return None, blk
    m = re.search(r"(?m)^(panic: .*|fatal error: .*)$", out)
    if not m:
        return None, out[-3000:]
    blk = out[m.start():m.start() + 12000]
    head = m.group(1)
    if "test timed out" in head:
        return ("hang", blk) if "kache/pkg/" in blk else (None, blk)
    if "deadlock" in head or "all goroutines are asleep" in head:
        return "deadlock", blk
    # the goroutine which crashed comes first
    first = blk.split("\n\n", 2)
    top = "\n\n".join(first[:2])
    if "kache/pkg/" in top or "kache/cmd/" in top:
        fr = re.search(r"kache/(?:pkg|cmd)/[\w/.()*]+", top).group(0)
        return "crash:" + re.sub(r"\(0x.*", "", fr), blk
    # unsynchronised sharing may bring down a goroutine of the standard library
    if "concurrent map" in head and "verifharness" not in top and "kache/pkg/" in blk:
        return "crash:" + head[:60].replace(" ", "-"), blk
    return None, blk


def run_part(binary, part, prop, tier, seed, tmp, env, limit):
    e = dict(env)
    e.pop("GOFLAGS", None)
    out = os.path.join(tmp, "result.json")
    if os.path.exists(out):
        os.remove(out)
    scratch = tempfile.mkdtemp(prefix="run", dir=tmp)
    e.update(VERIF_OUT=out, VERIF_TIER=tier, VERIF_SEED=str(seed), TMPDIR=scratch, VERIF_SCRATCH=scratch, VERIF_DIR=VERIF,
             GOTRACEBACK="all", GORACE="halt_on_error=0 history_size=3")
    e.update(part.get("env", {}))
    cmd = [binary, "-test.run", "^" + part["test"] + "$", "-test.timeout", "%ds" % limit, "-test.count=1"]
    p = subprocess.Popen(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    timed_out = False
    try:
        text, _ = p.communicate(timeout=limit + 15)
    except subprocess.TimeoutExpired:
        timed_out = True
        os.killpg(p.pid, signal.SIGKILL)
        text, _ = p.communicate()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    shutil.rmtree(scratch, ignore_errors=True)
    return p.returncode, text or "", res, timed_out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier != "thorough":
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = PROPS[prop]
    env = goenv()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    violations, observed_known, problems = [], {}, []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
    known = known_sigs(prop)
    try:
        for part in spec["parts"]:
            binary, err = build(part["pkg"], part.get("race", False), tmp, env)
            if binary is None:
                print("build of the harness failed:\n" + err[-4000:], file=sys.stderr)
                problems.append("build")
                break
            if part.get("bin"):
                kbin, err = build_kache(part.get("race", False), tmp, env)
                if kbin is None:
                    print("build of kache failed:\n" + err[-4000:], file=sys.stderr)
                    problems.append("build")
                    break
                part = dict(part, env=dict(part.get("env", {}), VERIF_KACHE=kbin))
            limit = part.get("limit", (240, 3300))[1 if tier == "thorough" else 0]
            part = dict(part)
            rc, text, res, timed_out = run_part(binary, part, prop, tier, seed, tmp, env, limit)
            found = []
            if res:
                found += res["violations"] or []
            crashed = timed_out or (rc != 0 and (res is None or not res["complete"])) or "WARNING: DATA RACE" in text
            if crashed:
                sig, blk = ("hang", text[-3000:]) if timed_out else crash_of(text)
                if sig:
                    found.append({"sig": sig, "detail": "the code under test crashed, raced or hung: " + blk[:300], "history": blk.splitlines()[:200]})
                elif not found:
                    problems.append("incomplete run of %s (rc %s): %s" % (part["test"], rc, text[-3000:]))
            # workloads in real time must show a violation twice, except for what no delay can cause
            sure = {v["sig"] for v in found if v["sig"].startswith(("crash:", "data-race:", "deadlock"))}
            unknown = [v for v in found if v["sig"] not in known and v["sig"] not in sure]
            if unknown and part.get("confirm") and not sure:
                sigs = set()
                part["env"] = dict(part.get("env", {}), VERIF_CONFIRM="\n".join(sorted({v["sig"] for v in unknown})))
                for k in range(3):
                    # within the time a check has; what could not be tried again in it stands
                    left = BUDGET - (time.time() - t0) if tier != "thorough" else limit + 60
                    if left < 60:
                        if not k:
                            sigs |= {v["sig"] for v in unknown}
                        break
                    limit2 = int(min(limit, left - 25))
                    rc2, text2, res2, to2 = run_part(binary, part, prop, tier, seed + (k if k else 0), tmp, env, limit2)
                    if res2:
                        sigs |= {v["sig"] for v in res2["violations"] or []}
                    if to2 or (rc2 != 0 and (res2 is None or not res2["complete"])):
                        s2, _ = ("hang", "") if to2 else crash_of(text2)
                        if s2:
                            sigs.add(s2)
                    elif res2 and (res is None or not res["complete"]):
                        res = res2
                    if sigs & {v["sig"] for v in unknown}:
                        break
                dropped = [v for v in unknown if v["sig"] not in sigs]
                if dropped:
                    print("not reproduced, dropped: " + ", ".join(sorted({v["sig"] for v in dropped})), file=sys.stderr)
                    cov["not_reproduced"] = cov.get("not_reproduced", 0) + len(dropped)
                    if len(dropped) == len(found) and (res is None or not res["complete"]):
                        problems.append("incomplete run of %s (rc %s): %s" % (part["test"], rc, text[-3000:]))
                found = [v for v in found if v["sig"] in known or v["sig"] in sigs]
            for v in found:
                if v["sig"] in known:
                    observed_known[v["sig"]] = known[v["sig"]]
                else:
                    violations.append(v)
            if res:
                cov["evaluations"] += res["evaluations"]
                cov["distinct_nontrivial"] += res["distinct_nontrivial"]
                if res["rule"] and res["rule"] not in cov["rule"]:
                    cov["rule"] += (" " if cov["rule"] else "") + res["rule"]
                cov["samples"] += (res["samples"] or [])[:4]
                obs = cov.setdefault("observed", {})
                for k, n in (res["counters"] or {}).items():
                    obs[k] = max(obs.get(k, 0), n) if k.startswith("max_") else obs.get(k, 0) + n
            if violations and tier == "quick":
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for s, w in observed_known.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, s, w))
    if not cov["samples"]:
        cov["samples"] = [{"note": "no sample recorded"}]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-seed%d-%s.json" % (prop, seed, tier))
        with open(path, "w") as fh:
            json.dump({"property": prop, "seed": seed, "tier": tier, "how": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (seed, tier, prop),
                       "violations": violations}, fh, indent=1)
        seen = set()
        for v in violations:
            if v["sig"] not in seen:
                seen.add(v["sig"])
                print("observed [%s] %s" % (v["sig"], v["detail"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        for p in problems:
            print("no answer: " + p, file=sys.stderr)
        return 2
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
