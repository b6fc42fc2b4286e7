#!/usr/bin/env python3
"""Runs the abstract interpreter for one property and reports.

check.py <property> [--tier quick|thorough]     exit 0 held, 1 violated, 2 no answer
"""
import sys, os, json, subprocess, threading, time, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SA = os.path.join(HERE, "sa")
BIN = os.path.join(SA, "target/release/jsa")
HD = os.path.join(SA, "harness")
REPO = os.environ.get("JSA_REPO", "/repo")
NPROC = 8
sys.path.insert(0, os.path.join(HERE, "tools"))
import jobs as J


def sh(c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def build():
    """(re)build the driver when its sources are newer than the binary"""
    src = [os.path.join(SA, "src", f) for f in os.listdir(os.path.join(SA, "src"))] + [os.path.join(SA, "Cargo.toml")]
    if os.path.exists(BIN) and all(os.path.getmtime(f) <= os.path.getmtime(BIN) for f in src):
        return
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=SA)
    if r.returncode or not os.path.exists(BIN):
        print(r.stderr[-3000:])
        print("cannot build the analyser")
        sys.exit(2)
    os.utime(BIN)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def crate():
    """library path and edition from the manifest"""
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r'^\s*edition\s*=\s*"(\d+)"', t, re.M)
    lib = os.path.join(REPO, "src/lib.rs")
    m2 = re.search(r'\[lib\][^\[]*?path\s*=\s*"([^"]+)"', t, re.S)
    if m2:
        lib = os.path.join(REPO, m2.group(1))
    return lib, m.group(1) if m else "2015"


def run_shard(job, i, n, tmp, lib, ed, env):
    out = os.path.join(tmp, "%s.%d.json" % (job["name"], i))
    hs = ",".join(os.path.join(HD, h + ".rs") for h in ["api"] + job["harness"])
    cmd = [BIN, "--lib", lib, "--edition", ed, "--features", job.get("features", "simd,std"), "--out", out,
           "--secs", str(job.get("secs", 600))]
    if job.get("structural"):
        cmd += ["--structural"]
    else:
        cmd += ["--harness", hs, "--entry", ",".join(job["entries"]), "--shard", "%d/%d" % (i, n)]
    if job.get("bodies_of"):
        cmd += ["--bodies-of", job["bodies_of"]]
    if time.time() > LIMIT["end"]:
        return {"error": "not run: " + LIMIT["why"]}
    errf = out + ".err"
    with open(errf, "w") as ef:
        r = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env)
        t0 = time.time()
        while r.poll() is None:
            time.sleep(0.05)
            if time.time() > min(LIMIT["end"], t0 + job.get("secs", 600) + 60):
                r.kill()
                r.wait()
                return {"error": "stopped: " + LIMIT["why"]}
    stderr = open(errf, errors="replace").read()
    if not os.path.exists(out):
        return {"error": "analyser stopped: " + stderr[-800:]}
    try:
        d = json.load(open(out))
    except Exception as e:
        return {"error": "unreadable result %s" % e}
    if "error" in d:
        d["error"] += " " + "\n".join(l for l in stderr.splitlines() if l.startswith("error"))[:1500]
    return d


# no shard starts or continues after this; once a violation is found the rest gets two more minutes
LIMIT = dict(end=0, why="time limit")
LOCK = threading.Lock()


def judge(pid, j, ev):
    """kind of an event for a property: violation (rule name), no answer, other"""
    k, i = ev["kind"], ev["id"]
    if k == "check":
        if i.startswith(pid + ":") or i.startswith(tuple(j.get("also", {}).get(pid, ()))):
            return i
    elif k == "panic":
        if pid in j.get("panics", ()) or pid == "C24":
            return "%s:panic %s" % (pid, i.strip())
    elif k in ("unsafe-oob", "feature-gate"):
        if pid == "C19":
            return "C19:%s %s" % (k, i.strip())
    elif k in ("uninit-read", "global-write"):
        if pid == "C21" or (pid == "C19" and k == "uninit-read"):
            return "%s:%s %s" % (pid, k, i.strip())
    elif k == "structural":
        if i.startswith(pid + ":"):
            return i
    return None


def found(pid, j, d):
    if pid != "C23" and not J.known(pid, HERE) and any(judge(pid, j, ev) for e in d.get("entries", []) for ev in e.get("events", [])):
        with LOCK:
            end = time.time() + 120
            if end < LIMIT["end"]:
                LIMIT.update(end=end, why="a violation was found elsewhere")
    return d


def short(s):
    s = re.sub(r"/root/\.rustup/[^ ]*/library/", "std:", s)
    return s.replace("jpeg_encoder::", "")


def construct(stack):
    """innermost frame inside the repository"""
    for s in reversed(stack):
        if "__jsa::" in s.split(" (")[0] or "/verif/" in s:
            continue
        if "/root/.rustup" in s or "/rustc/" in s:
            continue
        return short(s)
    return short(stack[-1]) if stack else "?"


def configurations(res, viol, noans, checks):
    """C23: compares what the analyses found in the different feature configurations"""
    def note(rule, ok, detail, where=""):
        checks[rule] = checks.get(rule, 0) + 1
        if not ok:
            viol.setdefault(rule, []).append(dict(job="configurations", entry="structural", partition=[], kind="structural", rule=rule,
                                                  detail=detail, construct=where or detail, path=[where or detail]))
    st, runs = {}, {}
    for j, d in res:
        f = j.get("features", "simd,std")
        if "error" in d:
            continue
        if j.get("structural"):
            st[f] = d
            continue
        if "base" not in j:
            continue
        r = runs.setdefault(j["base"], {}).setdefault(f, dict(viol={}, fail=[]))
        for e in d["entries"]:
            for ev in e["events"]:
                if ev["kind"] in ("check", "panic", "unsafe-oob", "uninit-read"):
                    r["viol"].setdefault((e["entry"], ev["kind"], ev["id"].strip()), ev)
            for k, v in e["checks"].items():
                checks["C23:configurations compared"] = checks.get("C23:configurations compared", 0) + v
    for f, d in st.items():
        name = "features [%s]" % f
        if "std" not in f.split(","):
            bad = [c for c in d["crates"] if c not in ("core", "alloc", "compiler_builtins")]
            note("C23:without std only core and alloc are linked", not bad, "%s: also %s" % (name, ", ".join(bad)))
        if "simd" not in f.split(","):
            for u in d["unsafe"] or [None]:
                note("C23:no unsafe code without the SIMD feature", u is None, "%s: %s" % (name, u), u)
    def api(f):
        return st[f]["api"] if f in st else None
    base = api("")
    for f in st:
        if f == "" or base is None:
            continue
        for k, v in base.items():
            if "writer::JfifWrite>" in k and k.startswith("impl"):
                continue
            note("C23:an item of the core interface is the same in every configuration", api(f).get(k) == v,
                 "%s: %s is %s, without features %s" % (f, k, api(f).get(k), v), k)
        for k, v in api(f).items():
            if k in base or k.startswith("impl") and "writer::JfifWrite>" in k:
                continue
            t = k + " " + v
            ok = "std::" in t or "::io::" in t or "error::Error>" in t
            if "benchmark" in f.split(","):
                ok = ok or k not in (api("std") or {})
            note("C23:only items about std types need the std feature", ok, "%s exists with [%s] only" % (k, f), k)
    if "std" in st and "simd,std" in st:
        for k in sorted(set(api("std")) | set(api("simd,std"))):
            note("C23:the SIMD feature does not change the interface", api("std").get(k) == api("simd,std").get(k), k, k)
    if "std" in st and "std,benchmark" in st:
        for k in api("std"):
            note("C23:the benchmark feature only adds to the interface", api("std").get(k) == api("std,benchmark").get(k), k, k)
    for b, r in runs.items():
        ids = set(k for f in r for k in r[f]["viol"])
        for k in ids:
            have = [f for f in r if k in r[f]["viol"]]
            if len(have) < len(r):
                ev = r[have[0]]["viol"][k]
                note("C23:every configuration behaves alike", False, "%s: %s with [%s] only" % (b, k, "] and [".join(have)), construct(ev["stack"]))
        note("C23:every configuration behaves alike", True, "")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    outdir = HERE
    if "--out" in sys.argv:  # development aid: evidence of runs against scratch copies goes elsewhere
        outdir = sys.argv[sys.argv.index("--out") + 1]
    t0 = time.time()
    build()
    lib, ed = crate()
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), RUST_BACKTRACE="0")
    jobs = J.jobs_for(pid, tier)
    tmp = tempfile.mkdtemp(prefix="jsa.")
    LIMIT["end"] = t0 + (840 if tier == "quick" else 3 * 3600)
    work = []
    for j in jobs:
        n = j.get("shards", NPROC)
        for i in range(n):
            work.append((j, i, n))
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda w: (w[0], found(pid, w[0], run_shard(w[0], w[1], w[2], tmp, lib, ed, env))), work))
    shutil.rmtree(tmp, ignore_errors=True)
    viol, noans, checks, fns, runs, steps, models, cut = {}, [], {}, set(), 0, 0, {}, []
    samples = []
    per_entry = {}
    for j, d in res:
        if "error" in d:
            noans.append("%s: %s" % (j["name"], d["error"]))
            continue
        for e in d["entries"]:
            if e.get("missing"):
                noans.append("%s: entry %s not found" % (j["name"], e["entry"]))
                continue
            runs += e["runs"]
            steps += e["steps"]
            pe = per_entry.setdefault(e["entry"], dict(partitions=0, steps=0))
            pe["partitions"] += e["runs"]
            pe["steps"] += e["steps"]
            for k, v in e["checks"].items():
                checks[k] = checks.get(k, 0) + v
            fns |= set(f for f in e["fns"] if "__jsa::" not in f or "<" in f)
            for k, v in e["models"].items():
                models[k] = models.get(k, 0) + v
            for f in e["fails"]:
                noans.append("%s/%s: %s" % (j["name"], e["entry"], short(f)))
            for ev in e["events"]:
                k, i = ev["kind"], ev["id"]
                det = dict(job=j["name"], entry=e["entry"], partition=ev["parts"], kind=k, rule=i, detail=ev["detail"],
                           construct=construct(ev["stack"]), path=[short(s) for s in ev["stack"]])
                rule = judge(pid, j, ev)
                if rule:
                    viol.setdefault(rule, []).append(det)
                elif k == "check":
                    if i.startswith("anchor:"):
                        noans.append("%s: %s" % (j["name"], i))
                elif k == "panic":
                    cut.append("%s at %s" % (i, det["construct"]))
                elif k in ("unsafe-oob", "feature-gate", "uninit-read", "global-write"):
                    cut.append("%s %s at %s" % (k, i, det["construct"]))
                elif k == "unsupported":
                    noans.append("%s: unsupported: %s %s at %s" % (j["name"], i, ev["detail"][:200], det["construct"]))
    if pid == "C23":
        configurations(res, viol, noans, checks)
    # floors: obligations that must have been met at least once / n times
    for cid, floor in J.floors(pid, tier).items():
        if checks.get(cid, 0) < floor:
            noans.append("obligation %r met %d times, expected at least %d" % (cid, checks.get(cid, 0), floor))
    mine = {k: v for k, v in checks.items() if k.startswith(pid + ":")}
    if pid == "C24":
        mine = {k: v for k, v in checks.items() if k in ("panic-site",)}
    if pid == "C19":
        mine = {k: v for k, v in checks.items() if k in ("raw-access", "target-feature-call", "simd-op") or k.startswith("C19:")}
    known = J.known(pid, HERE)
    kf, real = [], {}
    for k, v in viol.items():
        key = k
        hit = [e for e in known if e["rule"] == k and all(any(c in d["construct"] or c in " ".join(d["path"]) for c in [e["construct"]]) for d in v)]
        if hit:
            kf.append(hit[0])
        else:
            real[key] = v
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=J.level(pid),
              wall_s=round(time.time() - t0, 2), coverage=dict(
                  explanation=J.explain(pid),
                  obligations=sum(mine.values()), obligation_kinds=mine,
                  partitions=runs, abstract_steps=steps, entries=per_entry,
                  functions_analysed=sorted(short(f) for f in fns), n_functions=len(fns),
                  replaced_operations=models,
                  violations={k: v[:3] for k, v in real.items()},
                  no_answer=noans[:20], paths_cut_by_other_findings=sorted(set(cut))[:20],
                  samples=[dict(rule=k, count=v) for k, v in list(mine.items())[:12]]))
    os.makedirs(os.path.join(outdir, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(outdir, "evidence", pid + ".json"), "w"), indent=1)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s: %d obligations of %d kinds, %d partitions, %d functions, %d steps, %.1fs" % (
        pid, sum(mine.values()), len(mine), runs, len(fns), steps, time.time() - t0))
    if real:
        rp = os.path.join(outdir, "replay", pid + ".json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({k: v[:5] for k, v in real.items()}, open(rp, "w"), indent=1)
        for k, v in real.items():
            d = v[0]
            print("  rule %s\n    construct: %s\n    entry %s partition %s  %s\n    path: %s" % (
                k, d["construct"], d["entry"], d["partition"], d["detail"][:300], " > ".join(d["path"][-5:])))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if noans:
        for n in noans[:12]:
            print("  no answer:", n[:600])
        sys.exit(2)
    sys.exit(0)


try:
    main()
except Exception:
    import traceback
    traceback.print_exc(file=sys.stdout)
    sys.exit(2)
