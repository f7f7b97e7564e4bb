#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --replay <file>
Runs every monitored workload registered for a property in props.py and decides it.
exit 0 held, 1 violation (VIOLATION line), 2 no verdict (could not build / run)."""
import argparse, concurrent.futures as cf, fnmatch, json, os, re, signal, subprocess, sys, tempfile, time, shutil

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS

V = B.VERIF
ENVS = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:"
                             "allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=1:"
                             "detect_container_overflow=1:strict_init_order=0",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:detect_deadlocks=0:report_thread_leaks=0:"
                             "history_size=4:suppressions=" + V + "/mon/tsan.supp"},
    "plain": {},
}


def classify(rc, err):
    """maps an abnormal end of a workload process to a stable key"""
    def frame():
        for m in re.finditer(r"^\s+#\d+ (?:0x[0-9a-f]+ in )?(.+?)(?: \(|$)", err, re.M):
            f = m.group(1)
            if "maf::" in f and "std::" not in f.split("maf::")[0]:
                f = re.sub(r"<.*", "", f)
                f = re.sub(r"\(.*", "", f)
                return f.strip().split(" ")[-1]
        return "?"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return f"asan:{m.group(1)}@{frame()}"
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", err)
    if m:
        return f"tsan:{m.group(1).strip().replace(' ', '-')}@{frame()}"
    m = re.search(r"runtime error: ([^\n]{0,60})", err)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1)).replace(" ", "-") + "@" + frame()
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        return "assert:" + m.group(1)[:80].replace(" ", "_")
    m = re.search(r"terminate called.*?(?:instance of|what\(\):)\s*'?([^\n']+)", err, re.S)
    if m or "terminate called" in err:
        return "terminate:" + (m.group(1).strip().replace(" ", "_") if m else "?")
    if rc < 0:
        return f"signal:{signal.Signals(-rc).name}"
    return f"exit:{rc}"


def run_shard(exe, r, flavor, seed, start, stride, cases, thorough, budget, workdir, tag):
    out = os.path.join(workdir, f"{tag}.jsonl")
    errf = os.path.join(workdir, f"{tag}.err")
    cmd = [exe, "--scenario", r["sc"], "--seed", str(seed), "--cases", str(cases), "--start", str(start),
           "--stride", str(stride), "--perturb", r.get("perturb", "mix"), "--budget", str(budget), "--out", out]
    if thorough:
        cmd.append("--thorough")
    env = dict(os.environ)
    env.update(ENVS[flavor])
    env.update(r.get("env", {}))
    sdir = os.path.join(workdir, tag + ".d")
    os.makedirs(sdir, exist_ok=True)
    env["MON_SCRATCH"] = sdir
    hard = budget + r.get("case_timeout", 45) + 60
    t0 = time.time()
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=sdir, start_new_session=True)
        timed_out = False
        try:
            rc = p.wait(hard)
        except subprocess.TimeoutExpired:
            timed_out = True
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    err = open(errf, errors="replace").read()
    m = re.search(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|runtime error:|Assertion )", err)
    if m:
        err = err[max(0, m.start() - 200):]
    err = re.sub(r" \(BuildId: \w+\)|\(x_\w+\+0x\w+\)", "", err)
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    shutil.rmtree(sdir, ignore_errors=True)
    summ = next((x for x in recs if x["type"] == "summary"), None)
    fails = [x for x in recs if x["type"] == "fail"]
    res = {"cmd": cmd, "summary": summ, "rc": rc, "wall": time.time() - t0, "violations": [], "inconclusive": None}
    for f in fails:
        res["violations"].append({"key": f"{r['sc']}:{f['key']}", "msg": f["msg"], "case": f["case"]})
    if not fails:
        if timed_out:
            res["violations"].append({"key": f"{r['sc']}:hang", "msg": "workload process did not end", "case": -1})
        elif rc == 99:
            res["inconclusive"] = "unknown scenario " + r["sc"]
        elif rc == 98:
            res["inconclusive"] = "environment: " + err[-300:]
        elif rc != 0:
            k = classify(rc, err)
            if rc == -9:
                res["inconclusive"] = "killed (out of memory?)"
            else:
                res["violations"].append({"key": f"{r['sc']}:{k}", "msg": err[:5000], "case": -1})
        elif summ is None:
            res["inconclusive"] = "no summary written"
    res["err"] = err[:12000]
    return res


def load_known():
    k = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                k.append(m.groups())
    return k


def check(pid, tier):
    spec = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"mafv_{pid}_")
    violations, notes, inconc = [], [], []
    per = []
    try:
        need = []
        for r in spec["runs"]:
            for fl in r.get("flavors", ["asan", "tsan"]):
                if (r["h"], fl) not in need:
                    need.append((r["h"], fl))
        exes = {}
        for h, fl in need:
            exes[(h, fl)] = B.build(h, fl)
        tb = time.time() - t0
        # all shards of all runs, in parallel
        tasks = []
        for ri, r in enumerate(spec["runs"]):
            for fl in r.get("flavors", ["asan", "tsan"]):
                n = r["thorough"] if thorough else r["quick"]
                if fl == "tsan":
                    n = r.get("tsan_" + tier, max(1, n // 2))
                budget = r.get("budget_thorough", 600) if thorough else r.get("budget", 60)
                sh = r.get("shards", 3)
                if n < sh:
                    sh = max(1, n)
                for s in range(sh):
                    cases = n // sh + (1 if s < n % sh else 0)
                    tasks.append((ri, r, fl, s, sh, cases, budget))
        tasks.sort(key=lambda t: -t[6])
        workers = int(os.environ.get("VERIF_WORKERS", spec.get("workers", 6)))
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = {ex.submit(run_shard, exes[(r["h"], fl)], r, fl, seed, s, sh, cases, thorough, budget, work,
                              f"r{ri}_{fl}_{s}"): (ri, r, fl) for ri, r, fl, s, sh, cases, budget in tasks}
            for f in cf.as_completed(futs):
                ri, r, fl = futs[f]
                res = f.result()
                per.append((ri, r, fl, res))
        for ri, r, fl, res in per:
            if res["inconclusive"]:
                inconc.append(f"{r['sc']}/{fl}: {res['inconclusive']}")
            for v in res["violations"]:
                v.update({"flavor": fl, "h": r["h"], "cmd": res["cmd"], "err": res["err"], "perturb": r.get("perturb", "mix")})
                violations.append(v)
    except B.BuildError as e:
        print(f"NO VERDICT: cannot build the code under test: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = [k for k in load_known() if k[0] == pid]
    hit_known, fresh = set(), []
    for v in violations:
        m = next((k for k in known if fnmatch.fnmatchcase(v["key"], k[1])), None)
        if m:
            hit_known.add(m)
        else:
            fresh.append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k[2]}" + ("" if k in hit_known else " (not reproduced in this run)"))
    # evidence
    agg, sigs, samples = {}, set(), []
    scen = {}
    tot = dict(cases=0, nontrivial=0, checks=0, events=0, delays=0)
    edges = 0
    for ri, r, fl, res in per:
        s = res["summary"]
        if not s:
            continue
        for k in tot:
            tot[k] += s.get(k, 0)
        edges = max(edges, s["edges"])
        for k, n in s["obs"].items():
            agg[k] = agg.get(k, 0) + n
        for x in s["sigs"]:
            sigs.add(r["sc"] + x)
        d = scen.setdefault(f"{r['sc']}/{fl}", {"cases": 0, "nontrivial": 0, "checks": 0, "events": 0})
        for k in d:
            d[k] += s[k]
        for x in s["samples"]:
            if len(samples) < 12 and not any(y["value"] == x for y in samples):
                samples.append({"scenario": r["sc"], "value": x})
    # monitors that saw nothing are not evidence
    for name, minimum in spec.get("require", {}).items():
        if agg.get(name, 0) < minimum and not fresh:
            inconc.append(f"monitor starved: observed {name}={agg.get(name, 0)} < {minimum}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": max(1, tot["cases"]),
            "distinct_nontrivial": len(sigs) if sigs else tot["nontrivial"],
            "rule": spec.get("rule", "distinct signatures (hash of the recorded event order across threads, or of the "
                                     "generated input/state) over all executed cases"),
            "samples": samples or [{"scenario": "none", "value": "no sample"}],
            "oracle_checks": tot["checks"], "trace_events": tot["events"],
            "injected_delays": tot["delays"], "library_edges_hit_max_per_process": edges,
            "observations": agg, "scenarios": scen,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": spec.get("assumptions", []),
        "violations": len(fresh),
    }
    ev["coverage"]["build_s"] = round(tb, 1)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    if fresh:
        os.makedirs(f"{V}/replay", exist_ok=True)
        seen = set()
        for v in fresh:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            rp = f"{V}/replay/{pid}-{len(seen)}.json"
            with open(rp, "w") as f:
                json.dump({k: v[k] for k in ("key", "msg", "case", "flavor", "h", "cmd", "err", "perturb")}, f, indent=1)
            print(f"  {v['flavor']} {v['key']} case={v['case']}: {v['msg'][:600]}")
            print(f"VIOLATION property={pid} replay={rp}")
        rc = 1
    elif inconc:
        for i in inconc:
            print("NO VERDICT:", i, file=sys.stderr)
        rc = 2
    print(f"{pid} {tier}: cases={tot['cases']} checks={tot['checks']} events={tot['events']} distinct={len(sigs)} "
          f"edges={edges} delays={tot['delays']} build={tb:.0f}s wall={time.time()-t0:.0f}s -> {'ok' if rc == 0 else rc}")
    B.prune()
    return rc


def replay(path):
    d = json.load(open(path))
    exe = B.build(d["h"], d["flavor"])
    cmd = [exe] + d["cmd"][1:]
    i = cmd.index("--out")
    del cmd[i:i + 2]
    if d["case"] >= 0:
        cmd[cmd.index("--start") + 1] = str(d["case"])
        cmd[cmd.index("--cases") + 1] = "1"
    env = dict(os.environ)
    env.update(ENVS[d["flavor"]])
    print(" ".join(cmd))
    return subprocess.call(cmd, env=env)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.exit(replay(a.replay) if a.replay else check(a.property, a.tier))
