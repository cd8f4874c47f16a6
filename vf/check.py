"""Decide one property: every obligation of its contracts, generated from /repo's current source, must be discharged.

check.py <property> [--tier quick|thorough] [--seed N]     exit 0 / 1
check.py --replay <file>                                   run a recorded failing input again against the real code
"""
import sys
import os
import json
import time
import subprocess
import concurrent.futures as cf
import ast
import signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
PYVT = "python3-vt"
PYREAL = "/opt/venv/bin/python"
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")

TRUSTED = [
    "the obligation generator /verif/vf (loader, symbolic values, loop rules, term simplifier)",
    "z3 (python API of python3-vt), the only back end that discharges obligations",
    "vf/npm.py: contracts assumed for numpy / time / scipy functions used by the code (cross-checked against real numpy on every run by the concrete half of each contract)",
    "elementary lemmas about finite sums and products of any length (monotonicity, congruence, positivity, extensionality), exp/log/sqrt/det axioms",
    "real arithmetic in place of IEEE doubles; NaN and infinities are tracked as separate flags, rounding and overflow are not",
]


def harnesses(mod):
    src = open(os.path.join(VERIF, "contracts", mod + ".py")).read()
    t = ast.parse(src)
    names = [n.name for n in t.body if isinstance(n, ast.FunctionDef)]
    # harnesses generated by each(...) are found by importing the module in the concrete interpreter
    r = subprocess.run([PYREAL, os.path.join(VERIF, "vf", "conc.py")], input=json.dumps({"module": mod, "list": True}), capture_output=True, text=True, env=ENV, cwd="/tmp", timeout=120)
    try:
        j = json.loads(r.stdout)
    except ValueError:
        return None, (r.stderr or r.stdout)[-2000:]
    if "_import" in j:
        return None, j["_import"]
    return j["harnesses"], None


def run(cmd, inp, timeout):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, cwd="/tmp", start_new_session=True)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout"


def symbolic(mod, name, secs):
    rc, o, e = run([PYVT, os.path.join(VERIF, "vf", "symrun.py"), mod, name, str(secs)], "", secs + 60)
    try:
        return json.loads(o)
    except ValueError:
        return {"error": "no result from the obligation generator (%s) %s" % (rc, (e or "")[-500:]), "secs": secs}


def concrete(mod, name, seed, trials, budget, models=(), limit=20):
    req = {"module": mod, "seed": seed, "harnesses": {name: {"trials": trials, "budget": budget, "models": list(models), "limit": limit}}}
    rc, o, e = run([PYREAL, os.path.join(VERIF, "vf", "conc.py")], json.dumps(req), budget + 3 * limit + 60)
    try:
        j = json.loads(o)
        return j.get(name) or {"error": j.get("_import", "no result")}
    except ValueError:
        return {"error": "no result from the concrete run (%s) %s" % (rc, (e or "")[-800:])}


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid and f["status"] == "known"]


def level(pid):
    try:
        return [c["level"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"] if c["property"] == pid][0]
    except (OSError, IndexError, KeyError, ValueError):
        return "proof"


def decide(pid, tier, seed):
    t0 = time.time()
    mod = pid.lower()
    hs, err = harnesses(mod)
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof"}
    if hs is None:
        path = replay_file(pid, {"property": pid, "failed": "the code under contract cannot be imported", "output": err})
        print("the code under contract cannot be imported:\n%s" % err)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        ev.update(coverage={"obligations": 1, "discharged": 0, "checker_cmd": "check " + pid, "trusted_base": TRUSTED}, wall_s=time.time() - t0, violations=1)
        write_ev(pid, ev)
        return 1
    deep = tier == "thorough"
    symsecs = 900 if deep else 200
    trials, cbudget = (2000, 120) if deep else (120, 12)
    sym = {}
    con = {}
    with cf.ThreadPoolExecutor(int(os.environ.get("VF_JOBS", "8"))) as ex:
        fs = {}
        for h in hs:
            if h[0] == "h":
                fs[ex.submit(symbolic, mod, h, symsecs)] = ("s", h)
        for h in hs:
            if h[0] in "hbk":
                fs[ex.submit(concrete, mod, h, seed, 1 if h[0] == "k" else trials, cbudget * (3 if h[0] == "b" else 1))] = ("c", h)
        for f in cf.as_completed(fs):
            k, h = fs[f]
            (sym if k == "s" else con)[h] = f.result()

    # obligations
    tot = dis = 0
    open_, unsup, tables, funcs, missing, umod = [], [], {}, {}, [], []
    stats = {"queries": 0, "solver_s": 0.0, "unknown": 0, "max_query_s": 0.0}
    for h, r in sorted(sym.items()):
        if "error" in r:
            unsup.append((h, "error", r["error"]))
            tables[h] = {"error": r["error"][-300:]}
            continue
        obs = r["obs"]
        nb = [o for o in obs if o["status"] in ("refuted", "unknown")]
        nu = [o for o in obs if o["status"] == "unsupported"]
        real = [o for o in obs if o["status"] != "unsupported"]
        tot += len(real)
        dis += len(real) - len(nb)
        tables[h] = {"obligations": len(real), "discharged": len(real) - len(nb), "paths": r["paths"], "secs": r["secs"], "solver_s": round(r["stats"]["solver_s"], 2),
                     "reached": r["covers"], "labels": sorted(set(o["label"] for o in obs))}
        for k in ("queries", "solver_s", "unknown"):
            stats[k] += r["stats"][k]
        stats["max_query_s"] = max(stats["max_query_s"], r["stats"]["max_query_s"])
        for o in nb:
            open_.append((h, o))
        umod += [(h, o) for o in nu]
        for o in nu:
            unsup.append((h, o["label"], o["detail"]))
        funcs.update(r["called"])
        if not nu and not nb and (not real or not r["covers"] or not all(r["covers"].values())):
            missing.append(h)

    # failing inputs on the real code
    fails = []
    lost = []
    for h, r in sorted(con.items()):
        if "error" in r:
            lost.append((h, r["error"]))
            continue
        for f in r["failures"]:
            fails.append((h, f))
    kf = known(pid)
    hits = [(h, f, k) for h, f in fails for k in kf if k["harness"] == h and f["label"].startswith(k["label"])]
    kf_lines = []
    for h, f, k in hits:
        ln = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
        if ln not in kf_lines:
            kf_lines.append(ln)
    fails = [(h, f) for h, f in fails if not any(h is a and f is b for a, b, _ in hits)]
    suspicious = sorted(set([h for h, _ in open_] + [h for h, _, _ in unsup] + missing))
    extra = {}
    if suspicious and not fails:
        with cf.ThreadPoolExecutor(8) as ex:
            fs = {}
            for h in suspicious:
                models = [o["model"] for g, o in open_ + [(a, b) for a, b in umod] if g == h and o.get("model")][:12]
                fs[ex.submit(concrete, mod, h, seed + 1, 6000 if deep else 1500, 200 if deep else 60, models)] = h
            for f in cf.as_completed(fs):
                r = f.result()
                extra[fs[f]] = r
                for x in r.get("failures", []):
                    fails.append((fs[f], x))

    # report
    nviol = 0
    for h in hs:
        t = tables.get(h)
        if t and "obligations" in t:
            print("%-45s %d/%d obligations discharged, %d paths, %.1f s" % (h, t["discharged"], t["obligations"], t["paths"], t["secs"]))
        elif t:
            print("%-45s outside the generator's reach" % h)
    for h, o in open_[:20]:
        print("obligation not discharged: %s: %s (%s)" % (h, o["label"], o["status"]))
    for h, l, d in unsup[:10]:
        print("outside the generator's reach, decided by the bounded stand-in only: %s: %s" % (h, (d or l).strip().splitlines()[-1][:200]))
    for h in missing:
        print("vacuous: %s does not reach its obligations" % h)
    for h, e in lost:
        print("concrete run failed: %s: %s" % (h, e.strip().splitlines()[-1][:300]))
    for l in kf_lines:
        print(l)
    code = 0
    if fails:
        seen = set()
        for h, f in fails:
            if (h, f["label"]) in seen:
                continue
            seen.add((h, f["label"]))
            nviol += 1
            if nviol == 1:
                path = replay_file(pid, {"property": pid, "module": mod, "harness": h, "failed": f["label"], "inputs": f["inputs"], "seed": f["seed"],
                                         "from_model": f["from_model"], "trace": f["trace"],
                                         "obligations": [[g, o["label"], o["status"]] for g, o in open_][:20],
                                         "rerun": "%s vf/check.py --replay <this file>" % PYVT})
            print("failing input: %s: %s\n    %s" % (h, f["label"], json.dumps(f["inputs"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    elif open_ or (missing and not unsup):
        nviol = len(open_) or 1
        path = replay_file(pid, {"property": pid, "module": mod, "failed": [[h, o["label"], o["status"], o["detail"], o["model"]] for h, o in open_][:20],
                                 "vacuous": missing, "note": "the back end does not accept these obligations; no failing input was found by replaying its models and sampling"})
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        code = 1
    elif lost:
        nviol = 1
        path = replay_file(pid, {"property": pid, "module": mod, "failed": [list(x) for x in lost]})
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        code = 1
    bounded = {}
    for h in hs:
        why = None
        if h[0] == "b":
            why = "bounded by design"
        elif any(g == h for g, _, _ in unsup):
            why = "outside the generator's reach on this tree"
        if why:
            r = con.get(h, {})
            x = extra.get(h, {})
            bounded[h] = {"why": why, "inputs_tried": r.get("trials", 0) - r.get("discarded", 0) + x.get("trials", 0) - x.get("discarded", 0),
                          "checks": r.get("ensures", 0) + x.get("ensures", 0)}
    cross = {"inputs": sum(r.get("trials", 0) - r.get("discarded", 0) for r in con.values()), "checks": sum(r.get("ensures", 0) for r in con.values()),
             "too_close_to_call": sum(r.get("undecided", 0) for r in con.values()), "models_replayed": sum(r.get("replayed", 0) for r in extra.values())}
    cov = {"obligations": tot, "discharged": dis, "checker_cmd": "/verif/check %s (vf/symrun.py per contract, z3 back end)" % pid, "trusted_base": TRUSTED,
           "functions_under_contract": {q: ("%s:%d-%d" % tuple(f) if f else None) for q, f in sorted(funcs.items())},
           "contracts": tables, "back_end": "z3", "solver": {k: round(x, 2) if isinstance(x, float) else x for k, x in stats.items()},
           "bounded_stand_ins": bounded, "cross_check_against_real_numpy": cross,
           "not_discharged": [[h, o["label"], o["status"]] for h, o in open_][:40],
           "outside_reach": [[h, (d or l).strip().splitlines()[-1][:200]] for h, l, d in unsup][:40]}
    if tot == 0 or level(pid) == "exploration":
        ev["level"] = "exploration"
        cov.update(evaluations=cross["inputs"], distinct_nontrivial=cross["checks"], rule="random inputs drawn by the contract, an input is non-trivial when the contract's assumptions accept it; checks counted", samples=[])
    ev.update(coverage=cov, wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=["see DESIGN.md, 'assumptions'"] + ["bounded, not proved: %s (%s)" % (h, b["why"]) for h, b in bounded.items()] +
              ["known finding: " + k["what"] for k in kf])
    write_ev(pid, ev)
    print("%s %s: %d/%d obligations discharged, %d functions under contract, %d real-code inputs cross-checked, %.1f s" % (
        pid, "VIOLATED" if code else "holds", dis, tot, len(funcs), cross["inputs"], time.time() - t0))
    return code


def replay_file(pid, d):
    p = os.path.join(EVID, "replay_%s.json" % pid)
    json.dump(d, open(p, "w"), indent=1, default=repr)
    return p


def write_ev(pid, ev):
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=repr)


def replay(path):
    d = json.load(open(path))
    if "harness" not in d:
        print(json.dumps(d, indent=1))
        return 1
    s = d["seed"]
    req = {"module": d["module"], "seed": s[0], "harnesses": {}, "one": {"harness": d["harness"], "seed": s, "fixed": d["inputs"] if d.get("from_model") else None}}
    rc, o, e = run([PYREAL, os.path.join(VERIF, "vf", "conc.py")], json.dumps(req), 300)
    print(o or e)
    return 1 if '"violation"' in o else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--replay":
        sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    sys.exit(decide(a[0], tier, seed))
