"""runcase ID PART JOB [config]: runs one job on Avian and prints transcript, stderr (development aid)"""
import sys
sys.path.insert(0, "/verif/lib")
import checks, pbt
for p in checks.CHECKS[sys.argv[1]]["make"]():
    if (p.part or p.pid) == sys.argv[2]:
        p.setup()
        for i in range(int(sys.argv[4]) if len(sys.argv) > 4 else 1):
            r = p.run_jobs(p.vms[0], [sys.argv[3]], 30)
            print(r.rc, r.complete, len(r.cases), r.cases and r.cases[-1].done, r.cases and r.cases[-1].text[:30], r.err[-800:])
        if p.ref:
            r = p.run_jobs(p.refvm, [sys.argv[3]], 60); print("REF", r.cases[-1].text[:30])
