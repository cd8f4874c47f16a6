"""Generate and discharge the obligations of one contract harness: symrun.py <module> <harness> <deadline s> -> JSON on stdout"""
import sys
import os
import json
import time
import traceback


def main():
    mod, name, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    t0 = time.time()
    try:
        import importlib
        from vf.spec import run_symbolic
        from vf import ctx, load
        m = importlib.import_module("contracts." + mod)
        r = run_symbolic(getattr(m, name), deadline=time.time() + secs)
        r["obs"] = [{"label": o.label, "status": o.status, "secs": round(o.secs, 3), "detail": o.detail, "model": o.model} for o in r["obs"]]
        r["stats"] = dict(ctx.STATS)
        fs = {}
        for q in r["called"]:
            f = load.FUNCS.get(q)
            fs[q] = [f[0].replace(".", "/") + ".py", f[1], f[2]] if f else None
        r["called"] = fs
    except BaseException:
        r = {"error": traceback.format_exc()[-3000:]}
    r["secs"] = round(time.time() - t0, 2)
    out.write(json.dumps(r, default=repr))
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    main()
