"""developer tool: many random inputs through the concrete half of the contracts; soak.py trials seed cNN..."""
import sys; sys.path.insert(0, "/verif/vf")
import check as C, concurrent.futures as cf
trials, seed = int(sys.argv[1]), int(sys.argv[2])
jobs = []
with cf.ThreadPoolExecutor(8) as ex:
    for m in sys.argv[3:]:
        hs, err = C.harnesses(m)
        if err: print(m, err); continue
        for h in hs:
            jobs.append((m, h, ex.submit(C.concrete, m, h, seed, trials, 120)))
    for m, h, f in jobs:
        r = f.result()
        if "error" in r or r["failures"]:
            print(m, h, r.get("error", "")[:300])
            for x in r.get("failures", [])[:3]:
                print("    ", x["label"][:200], str(x["inputs"])[:300], x["trace"][-200:], x["seed"])
