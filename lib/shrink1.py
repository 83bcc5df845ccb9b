"""shrink1.py ID INDEX [part] [config]: shrinks one case and shows it (development aid)"""
import sys, os, shutil, subprocess
import checks, pbt, build as B
def main(a):
    ps = checks.CHECKS[a[0]]["make"]()
    p = [x for x in ps if len(a) < 3 or (x.part or x.pid) == a[2]][0]
    if len(a) > 3: p.configs = (a[3],)
    p.setup()
    vm = p.vms[0]
    idx = int(a[1])
    r = p.run_jobs(p.refvm, ["R %d %d %d" % (pbt.SEED, idx, idx + 1)], 60)
    best = p.shrink(vm, r.cases[0].choices, budget=int(os.environ.get("BUDGET", "90")))
    job = "c " + " ".join(map(str, best))
    r = p.run_jobs(vm, [job], 60); ref = p.run_jobs(p.refvm, [job], 60)
    print(job)
    print("--ref"); print("\n".join(ref.cases[0].text)[:3000])
    print("tags", r.cases[0].tags if r.cases else 0)
    print("--act", r.rc, r.err[-800:]); print("\n".join(r.cases[0].text)[:3000] if r.cases else "")
    if isinstance(p, pbt.GenProp):
        d = p.generate([job])[1][0]
        out = "/tmp/g/s%d" % idx
        os.makedirs("/tmp/g", exist_ok=True)
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + "/jobs", "w").write(job + "\n")
        name, cmd, e = vm
        cmd, e = p.prepare(vm, out, cmd, e)
        open(out + "/cmd", "w").write("LD_LIBRARY_PATH=%s %s vp.Main %s %s/jobs %s/out\n" % (e.get("LD_LIBRARY_PATH"), " ".join(cmd), p.cls, out, out))
        for c in sorted(os.listdir(out)):
            if c.endswith(".class"):
                t = subprocess.run([B.JDK8 + "/bin/javap", "-p", "-c", out + "/" + c], capture_output=True, text=True).stdout
                print(t[:7000])
    shutil.rmtree(p.tmp, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
