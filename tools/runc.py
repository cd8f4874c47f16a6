"""developer tool: run the harnesses of one contract module, symbolically (in parallel) and concretely: runc.py cNN [harness...]"""
import sys, os
sys.path.insert(0, "/verif")
import importlib, time, subprocess, json
import concurrent.futures as cf
mod = sys.argv[1]
only = [a for a in sys.argv[2:] if not a.startswith("-")]
conly = "-c" in sys.argv
symonly = "-s" in sys.argv


def one(n):
    from vf.spec import run_symbolic
    m = importlib.import_module("contracts." + mod)
    t = time.time()
    try:
        r = run_symbolic(getattr(m, n))
    except Exception:
        import traceback
        return n, None, traceback.format_exc()[-1500:], 0
    r["obs"] = [(o.label, o.status, o.secs, o.detail, o.model) for o in r["obs"]]
    return n, r, None, time.time() - t


if __name__ == "__main__":
    m = importlib.import_module("contracts." + mod)
    hs = [n for n in dir(m) if n[:2] in ("h_", "b_") and (not only or any(o in n for o in only))]
    models = {}
    if not conly:
        with cf.ProcessPoolExecutor(8) as ex:
            for n, r, err, dt in ex.map(one, [h for h in hs if h[0] == "h"]):
                if err:
                    print("==", n, err)
                    continue
                bad = [o for o in r['obs'] if o[1] != 'proved']
                print("== %s  paths=%d obs=%d bad=%d covers=%s %.1fs %s" % (n, r['paths'], len(r['obs']), len(bad), all(r['covers'].values()), dt, r['status'] if r['status'] != 'ok' else ''))
                seen = set()
                for o in bad:
                    if (o[0], o[1]) in seen:
                        continue
                    seen.add((o[0], o[1]))
                    print("   -", o[0], o[1], round(o[2], 2), (o[3] or '')[-700:] if o[1] != 'unsupported' else (o[3] or '')[-1100:], 'MODEL', str(o[4])[:300])
                    if o[4]:
                        models.setdefault(n, []).append(o[4])
    if not symonly:
        req = {"module": mod, "seed": 1, "harnesses": {n: {"trials": 200, "budget": 20, "models": models.get(n, [])} for n in hs}}
        p = subprocess.run(["/opt/venv/bin/python", "/verif/vf/conc.py"], input=json.dumps(req), capture_output=True, text=True, cwd="/tmp", env=dict(os.environ, OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
        print(p.stderr[-500:])
        for k, r in json.loads(p.stdout).items():
            if k.startswith("_"):
                print(r)
                continue
            if r['failures'] or r['discarded'] > 100 or r['undecided'] * 2 > r['ensures'] or r['secs'] > 5:
                print("conc", k, {a: b for a, b in r.items() if a != 'failures'})
            for f in r['failures'][:4]:
                print("    FAIL", f['label'], str(f['inputs'])[:400], f['trace'][-400:])
