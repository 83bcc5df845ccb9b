import sys, json
sys.path.insert(0, "/verif/lib")
import checks, pbt
from pyprop import Src
from concurrent.futures import ThreadPoolExecutor
pid, n = sys.argv[1], int(sys.argv[2])
for p in checks.CHECKS[pid]["make"]():
    if len(sys.argv) > 3 and (p.part or p.pid) != sys.argv[3]: continue
    if not hasattr(p, "one"): continue
    p.start()
    g = {}
    def f(i):
        return i, p.one(Src(pbt.SEED, i))
    with ThreadPoolExecutor(8) as ex:
        for i, (w, t, tags, nt) in ex.map(f, range(n)):
            if w: g.setdefault(w[:60], []).append((i, w))
    for k, l in sorted(g.items(), key=lambda x: -len(x[1])):
        print(len(l), [x[0] for x in l[:6]], l[0][1][:400])
    p.finish()
