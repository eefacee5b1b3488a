#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decides one property against /repo's working tree.

Builds the property's harness into the packages under test through a go build overlay (nothing is
written to /repo), runs it in parallel shards in a scratch directory, filters the violations the
harness reports through known_findings.json, writes evidence/<id>.json and prints the verdict.
exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # set only when mutants are tried on copies
MOD = "github.com/sbraveyoung/GGmpeg"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
           GOWORK="off", PATH=os.environ.get("PATH", "") + ":/usr/local/bin:/opt/veriftools/go1.27.3/bin")

def die(msg):
    print("CHECK-ERROR: " + msg); sys.exit(2)

def load():
    ids = {}
    for n in sorted(os.listdir(os.path.join(V, "checks"))):
        if n.endswith(".json"):
            ids.update(json.load(open(os.path.join(V, "checks", n))))
    return ids

class Uninstrumentable(Exception): pass

def plain_builds(pkg):
    r = subprocess.run(["go", "build", "./" + pkg], cwd=REPO, env=ENV, capture_output=True, text=True)
    return r.returncode == 0

def build(pid, spec, unit, tmp):
    """compile one unit (a harness in one package) and return the binary path"""
    pkg = unit["pkg"]
    rep = {}
    pdir = os.path.join(REPO, pkg)
    for n in os.listdir(pdir):          # the repository's own tests are not part of the harness
        if n.endswith("_test.go"):
            rep[os.path.join(pdir, n)] = ""
    for d in ["vlib"] + unit.get("libs", []):
        src = os.path.join(V, "harness", d)
        for n in sorted(os.listdir(src)):
            if n.endswith(".go"):
                rep[os.path.join(REPO, "verif_" + d, n)] = os.path.join(src, n)
    for f in unit["files"]:
        rep[os.path.join(pdir, "zz_verif_" + os.path.basename(f))] = os.path.join(V, "harness", f)
    if unit.get("instrument"):
        gen = os.path.join(tmp, "gen_" + unit.get("name", unit["test"]))
        os.makedirs(gen, exist_ok=True)
        tool = os.path.join(tmp, "instr")
        if not os.path.exists(tool):
            r = subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(V, "instrument"), env=ENV,
                               capture_output=True, text=True)
            if r.returncode: die("instrumenter build failed\n" + r.stderr)
        r = subprocess.run([tool, "-repo", REPO, "-out", gen] + unit["instrument"], cwd=REPO, env=ENV,
                           capture_output=True, text=True)
        if r.returncode:
            if plain_builds(pkg): raise Uninstrumentable(r.stdout + r.stderr)
            die("instrumenter failed\n" + r.stdout + r.stderr)
        rep.update(json.load(open(os.path.join(gen, "overlay.json"))))
    ov = os.path.join(tmp, "overlay_%s.json" % pkg.replace("/", "_"))
    json.dump({"Replace": rep}, open(ov, "w"))
    binp = os.path.join(tmp, "bin_%s_%s" % (pid, unit.get("name", pkg.replace("/", "_"))))
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", binp]
    if unit.get("race"): cmd.append("-race")
    r = subprocess.run(cmd + ["./" + pkg], cwd=REPO, env=ENV, capture_output=True, text=True)
    if r.returncode and unit.get("instrument") and not os.environ.get("VERIF_STRICT") and plain_builds(pkg):
        raise Uninstrumentable(r.stdout + r.stderr)
    if r.returncode:
        die("build of harness for %s in %s failed\n%s" % (pid, pkg, r.stdout + r.stderr))
    return binp

FRAME = re.compile(r"^\t(\S+\.go):(\d+)")
def classify_crash(err):
    """returns (key,msg) when the process was brought down by the code under test, else None"""
    m = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
    if not m: return None
    head = m.group(1)
    if "test timed out" in head or "verif-internal" in head: return None
    tail = err[m.end():]
    g = re.search(r"^goroutine \d+.*?:$", tail, re.M)
    lines = tail[g.end():].splitlines() if g else tail.splitlines()
    fn = None
    prev = ""
    for ln in lines:
        if ln.startswith("goroutine ") and fn is None and prev: break
        f = FRAME.match(ln)
        if f:
            p = f.group(1)
            if "/verif_" in p or "zz_verif_" in p or "/harness/" in p: return None
            # instrumented sources keep their original positions through //line
            if (p.startswith(REPO + "/") or "smart!brave" in p.lower() or "/SmartBrave/" in p):
                name = prev.strip().split("(0x")[0]
                name = re.sub(r"\(\.\.\.\)$|\([^()]*\)$", "", name)
                fn = name.split("/")[-1]
                if p.startswith(REPO + "/"): break
        prev = ln
    if fn is None: return None
    short = re.sub(r"0x[0-9a-f]+|\d+", "N", head)[:120]
    return ("crash:%s:%s" % (fn, short), head)

def run_unit(pid, unit, binp, tier, seed, tmp, budget):
    shards = unit.get("shards", 8)
    procs = []
    for i in range(shards):
        wd = os.path.join(tmp, "run_%s_%d" % (unit.get("name", unit["pkg"].replace("/", "_")), i))
        os.makedirs(wd)
        env = dict(ENV, VERIF_OUT=wd, VERIF_SHARD="%d/%d" % (i, shards), VERIF_TIER=tier,
                   VERIF_SEED=str(seed), VERIF_BUDGET=str(budget), TMPDIR=wd,
                   GOMAXPROCS=str(unit.get("gomaxprocs", 2)), GOMEMLIMIT="3GiB", GOTRACEBACK="all")
        if unit.get("race"): env["GORACE"] = "halt_on_error=1 exitcode=66"
        cmd = [binp, "-test.run", "^%s$" % unit["test"], "-test.timeout", "%ds" % (budget * 2 + 120), "-test.count", "1"]
        if os.environ.get("VERIF_PROFILE") and i == 0: cmd += ["-test.cpuprofile", os.environ["VERIF_PROFILE"]]
        fo = open(os.path.join(wd, "stdout"), "wb"); fe = open(os.path.join(wd, "stderr"), "wb")
        procs.append((i, wd, subprocess.Popen(cmd, cwd=wd, env=env, stdout=fo, stderr=fe), cmd, env))
    res, viol, errors = [], [], []
    for i, wd, p, cmd, env in procs:
        try:
            p.wait(timeout=budget * 2 + 180)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); errors.append("shard %d did not end" % i); continue
        stats = os.path.join(wd, "stats.json")
        for fn in [os.path.join(wd, "violations.jsonl")]:
            if os.path.exists(fn):
                for l in open(fn, errors="replace"):
                    try: viol.append(json.loads(l))
                    except ValueError: pass
        if os.path.exists(stats):
            res.append(json.load(open(stats)))
            continue
        err = tail(os.path.join(wd, "stderr"), 400000) + "\n" + tail(os.path.join(wd, "stdout"), 400000)
        c = classify_crash(err)
        jr = ""
        jf = os.path.join(wd, "journal")
        if os.path.exists(jf): jr = open(jf, errors="replace").read().rstrip("\0 \n")
        if c:
            viol.append({"key": c[0], "msg": "the server process died: %s" % c[1], "case": jr,
                         "trace": err[err.find(c[1]):][:4000]})
        else:
            errors.append("shard %d of %s: exit %s\njournal: %s\n%s" % (i, unit["test"], p.returncode, jr[:1000], err[-6000:]))
    return res, viol, errors

def tail(p, n):
    try:
        with open(p, "rb") as f:
            f.seek(0, 2); s = f.tell(); f.seek(max(0, s - n)); return f.read().decode(errors="replace")
    except OSError:
        return ""

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = load().get(pid) or die("unknown property " + pid)
    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir=base)
    try:
        allres, viol, errors = [], [], []
        budget = spec.get("budget_" + tier, 200 if tier == "quick" else 1800)
        units = [u for u in spec["units"] if tier in u.get("tiers", ["quick", "thorough"])]
        if os.environ.get("VERIF_ONLY"): units = [u for u in units if u.get("name") in os.environ["VERIF_ONLY"].split(",")]
        for u in units:
            try:
                binp = build(pid, spec, u, tmp)
            except Uninstrumentable as e:
                # code the scheduler cannot take over (say, a construct it has no replacement for):
                # less is explored, which the evidence says; nothing is claimed about it
                print("NOTE: reduced coverage, %s cannot be scheduled: %s" % (u["pkg"], str(e)[:300]))
                allres.append({"counts": {}, "exhaustive": False, "notes": ["not explored: %s cannot be scheduled" % u["test"]], "unit": u["test"]})
                continue
            t1 = time.time()
            r, v, e = run_unit(pid, u, binp, tier, seed, tmp, u.get("budget_" + tier, budget))
            for x in r: x["unit"] = u.get("name", u["test"])
            if os.environ.get("VERIF_TIMES"): print("  unit %s: %.1fs" % (u.get("name", u["test"]), time.time() - t1))
            allres += r; viol += v; errors += e
        finish(pid, spec, tier, seed, t0, allres, viol, errors)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)

def finish(pid, spec, tier, seed, t0, res, viol, errors):
    known = {}
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)).get("findings", []):
            if e["property"] == pid: known[e["key"]] = e["what"]
    seen, new, kn = {}, [], {}
    for v in viol:
        k = v["key"]
        if k in known: kn.setdefault(k, v); continue
        if k in seen: seen[k] += 1; continue
        seen[k] = 1; new.append(v)
    cov = {}
    exhaustive = bool(res) and not errors
    notes, samples, outc = [], [], {}
    for r in res:
        for k, n in (r.get("counts") or {}).items():
            cov[k] = cov.get(k, 0) + n
        for k, n in (r.get("outcomes") or {}).items():
            outc[k] = outc.get(k, 0) + n
        exhaustive = exhaustive and r.get("exhaustive", False)
        notes += r.get("notes") or []
        samples += (r.get("samples") or [])[:2]
    level = spec["level"]
    cov.setdefault("evaluations", 0)
    cov["distinct_nontrivial"] = max(cov.get("distinct", 0), 0); cov.pop("distinct", None)
    cov["rule"] = spec.get("rule", "")
    cov["exhaustive"] = exhaustive
    cov["samples"] = samples[:6]
    cov["outcome_classes"] = len(outc)
    cov["outcomes"] = dict(sorted(outc.items(), key=lambda kv: -kv[1])[:40])
    cov["bounds"] = sorted(set(notes))
    if level == "model_checking":
        cov.setdefault("states", cov.get("evaluations", 0)); cov.setdefault("transitions", 0)
        cov["traces_validated_against_impl"] = cov["evaluations"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(kn):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    if new:
        rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new[:12]):
            p = os.path.join(rd, "%s-%d.json" % (pid, i))
            json.dump({"property": pid, "violation": v, "rerun": "python3 /verif/check.py %s %s" % (pid, tier)}, open(p, "w"), indent=1)
            print("  %s: %s" % (v["key"], v.get("msg", "")[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        if len(new) > 12: print("  ... and %d more distinct violations" % (len(new) - 12))
        sys.exit(1)
    if errors:
        die("\n".join(errors[:3]))
    if not res: die("no results")
    print("OK property=%s tier=%s %s wall=%.1fs" % (pid, tier,
          " ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, (int, bool))), time.time() - t0))

if __name__ == "__main__":
    main()
