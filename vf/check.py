#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only CFG] [--test NAME]"""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS
VERIF = build.VERIF
NSH = int(os.environ.get("VF_JOBS", os.cpu_count() or 8))

def load_known(pid):
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")) if os.path.exists(os.path.join(VERIF, "known-findings.txt")) else []:
        l = l.strip()
        if l.startswith("finding:"):
            f = dict(x.split("=", 1) for x in l.split("::")[0].split()[1:])
            if f["property"] == pid: out.append((f["key"].replace("~", " "), l.split("::", 1)[1].strip()))
    return out

def env(omp=4):
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = e.get("VF_OMP", str(omp)); e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
    e["OMP_WAIT_POLICY"] = "passive"
    e["MALLOC_PERTURB_"] = "64"                  # heap memory starts as 0xbf bytes and is overwritten with 0x40 when freed
    return e

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--test"); ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--sessions", type=int); ap.add_argument("--time", type=float)
    a = ap.parse_args()
    pid, P = a.prop, PROPS[a.prop]
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-"); os.chmod(scratch, 0o755)
    try:
        return go(a, pid, P, seed, tier, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def go(a, pid, P, seed, tier, t0, scratch):
    b = build.Builder()
    if a.replay:
        r = json.load(open(a.replay))
        exe = b.harness(r["config"], pid, P["src"], P.get("opt", "-O1"), tuple(P.get("defs", ())))()
        f = os.path.join(scratch, "r")
        if r.get("session"): open(f, "w").write("session " + " ".join(map(str, r["session"])) + "\n")
        else: open(f, "w").write(r["test"] + "\n" + " ".join(map(str, r["choices"])) + "\n")
        p = subprocess.run([exe, "--replay", f, "--scratch", scratch + "/s", *P.get("args", [])], env=env(P.get("omp", 4)), stdout=subprocess.PIPE, text=True)
        print(p.stdout, end="")
        if p.returncode == 1: print(f"VIOLATION property={pid} replay={a.replay}")
        return p.returncode
    runs = P[tier] if tier in P else P["quick"]
    if a.only: runs = [(n, w) for n, w in runs if n == a.only] or [(a.only, 1)]
    try:
        links = [(n, w, b.harness(n, pid, P["src"], P.get("opt", "-O1"), tuple(P.get("defs", ())))) for n, w in runs]
        exes = [(n, w, l()) for n, w, l in links]
    except build.BuildError as e:
        print(f"BUILD FAILED for {pid}: {e}", file=sys.stderr); return 2
    tbuild = time.time() - t0
    known = load_known(pid)
    kf = os.path.join(scratch, "known"); open(kf, "w").write("".join(k + "\n" for k, _ in known))
    budget = a.time or P.get("time", {}).get(tier, 14 if tier == "quick" else 400)
    sessions = a.sessions or P.get("sessions", {}).get(tier, 100000)
    tot = sum(w for _, w, _ in exes)
    jobs = []
    for n, w, exe in exes:
        k = P.get("shards", NSH)
        omp = build.cfg(n)["omp"]
        k = max(1, k // 2) if omp else k
        for s in range(k): jobs.append((n, exe, s, k, budget * w / tot))
    def one(j):
        i, (n, exe, s, k, tl) = j
        out = os.path.join(scratch, f"o{i}")
        cmd = [exe, "--seed", str(seed + 1000 * [x[0] for x in exes].index(n)), "--shard", str(s), "--shards", str(k), "--sessions", str(sessions), "--time", f"{tl:.1f}",
               "--per", str(P.get("per", 12)), "--scratch", os.path.join(scratch, f"s{i}"), "--out", out, "--known", kf, *P.get("args", [])]
        if a.test: cmd += ["--test", a.test]
        p = subprocess.run(cmd, env=env(P.get("omp", 4)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        return n, p.returncode, p.stdout, recs
    with cf.ThreadPoolExecutor(NSH) as ex: res = list(ex.map(one, enumerate(jobs)))
    cases = nontriv = 0; per = {}; percfg = {}; samples = []; viol = []; hits = set(); unrep = []
    for n, rc, so, recs in res:
        if rc not in (0, 1): print(f"harness ended with {rc}: {so[-2000:]}", file=sys.stderr); return 2
        for r in recs:
            if r["kind"] == "stats":
                cases += r["cases"]; nontriv += r["nontrivial"]; percfg[n] = percfg.get(n, 0) + r["cases"]
                for k, v in r["per_test"].items(): per[k] = per.get(k, 0) + v
                samples += [f"[{n}] {s['test']}: {s['case']}" for s in r["samples"][:3]]
            elif r["kind"] == "violation": viol.append((n, r))
            elif r["kind"] == "known": hits.add(r["key"])
            elif r["kind"] == "unreproduced": unrep.append((n, r))
    extra = P["post"](b, seed, tier, scratch, env()) if "post" in P else None
    if extra:
        cases += extra["cases"]; nontriv += extra["nontrivial"]; samples += extra["samples"]
        viol += extra["violations"]
    wall = time.time() - t0
    samples = samples[:: max(1, len(samples) // 20)][:24]
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": cases, "distinct_nontrivial": nontriv, "rule": P["rule"], "samples": samples,
                       "tests": len(per), "least_run_test": min(per.values()) if per else 0, "cases_per_configuration": percfg},
          "wall_s": round(wall, 2), "violations": len(viol),
          "assumptions": P.get("assumptions", ["x86-64 Linux, gcc 13, ARCH_SCALAR builds of the listed configurations"])}
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {cases} cases, {nontriv} distinct non-trivial, {len(per)} tests (least run {ev['coverage']['least_run_test']}x), {percfg}, build {tbuild:.0f}s, total {wall:.0f}s")
    for n, r in unrep: print(f"note: a failure in {n} did not reproduce on replay: {r['key']} {r['msg'][:300]}")
    for k, d in known:
        print(f"KNOWN-FINDING: property={pid} {d}" + ("" if k in hits else " (not reached this run)"))
    if not viol:
        if not cases: print("no cases ran", file=sys.stderr); return 2
        return 0
    os.makedirs(VERIF + "/replays", exist_ok=True)
    for i, (n, r) in enumerate(viol[:8]):
        path = f"{VERIF}/replays/{pid}-{n}-{i}.json"
        json.dump({"property": pid, "config": n, "test": r["test"], "sig": r["sig"], "session": r.get("session"), "choices": r.get("choices", []), "desc": r["desc"], "msg": r["msg"]}, open(path, "w"), indent=1)
        print(f"  [{n}] {r['test']} ({r['sig']}): {r['msg'][:600]}\n    case: {r['desc'][:300]}")
        print(f"VIOLATION property={pid} replay={path}")
    return 1

if __name__ == "__main__":
    sys.exit(main())
