"""triage ID [part] [n]: groups all differing cases by the first differing line (development aid)"""
import os, re, sys
import checks, pbt

def main(argv):
    pid = argv[0]; n = int(argv[1]) if len(argv) > 1 else None
    only = argv[2] if len(argv) > 2 else None
    for p in checks.CHECKS[pid]["make"]():
        if only and (p.part or p.pid) != only: continue
        if not isinstance(p, pbt.JavaProp):
            continue
        if os.environ.get('CONFIGS'): p.configs = tuple(os.environ['CONFIGS'].split(','))
        p.setup()
        nn = n or p.quick
        step = (nn + 3) // 4
        groups = {}
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            fs = []
            for a in range(0, nn, step):
                job = ["r %d %d %d" % (pbt.SEED, a, min(nn, a + step))]
                fs.append((a, ex.submit(p.run_jobs, p.refvm, job, 300), [(v, ex.submit(p.run_jobs, v, job, 300)) for v in p.vms]))
            for a, rf, vs in fs:
                ref = rf.result()
                if not ref.complete: print("REF incomplete", ref.rc, ref.err)
                for v, f in vs:
                    r = f.result()
                    for i, c in enumerate(ref.cases):
                        mf = [l for l in c.text if l.startswith("MODEL-FAIL")]
                        if mf: groups.setdefault(("REFERENCE", mf[0][:60]), []).append((len(c.text), a + i, mf[0], "", c.text[:8]))
                        w = p.why(r, i, c)
                        if not w: continue
                        if w.startswith("differs"):
                            at = r.cases[i].text
                            k = 0
                            while k < len(at) and k < len(c.text) and at[k] == c.text[k]: k += 1
                            e = c.text[k] if k < len(c.text) else "<end>"; x = at[k] if k < len(at) else "<end>"
                            m = re.match(r'[A-Za-z!_.<>]* ?[0-9]*', e); m2 = re.match(r'[A-Za-z!_.<>]* ?[0-9]*', x)
                            key = (v[0], m.group(0) + "/" + m2.group(0))
                            groups.setdefault(key, []).append((k * 1000 + len(e), a + i, e, x, c.text[max(0, k - 6):k]))
                        else:
                            groups.setdefault((v[0], w), []).append((0, a + i, w, r.err[-600:], []))
                            if w == "hang" or w.startswith("died"): break
        for key, l in sorted(groups.items(), key=lambda kv: -len(kv[1])):
            l.sort()
            print("==== %s: %d cases" % (key, len(l)))
            for _, idx, e, x, ctx in l[:3]:
                print("  case %d" % idx)
                for t in ctx: print("     ", t[:300])
                print("    exp:", e[:500]); print("    act:", x[:500])


if __name__ == "__main__":
    main(sys.argv[1:])
