"""gencase.py ID CONFIG JOB [out]: generates classes of one job, keeps them in out (development aid)"""
import sys, os, shutil
import checks, pbt, build as B
def main(a):
    p = checks.CHECKS[a[0]]["make"]()[0]
    p.configs = (a[1],)
    p.setup()
    ent = p.generate([a[2]])
    out = a[3] if len(a) > 3 else "/tmp/g/o"
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(ent[1][0], out)
    open(out + "/jobs", "w").write(a[2] + "\n")
    name, cmd, e = p.vms[0]
    cmd, e = p.prepare(p.vms[0], out, cmd, e)
    line = "LD_LIBRARY_PATH=%s %s vp.Main %s %s/jobs %s/out" % (e.get("LD_LIBRARY_PATH"), " ".join(cmd), p.cls, out, out)
    open(out + "/cmd", "w").write(line + "\n")
    print(line)
    rc, err = pbt.run_proc(["bash", "-c", line], 60)
    print(rc, err[-1500:])
    shutil.rmtree(p.tmp, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
