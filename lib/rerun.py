import sys, checks, pbt
p=[x for x in checks.CHECKS[sys.argv[1]]["make"]()][0]
if len(sys.argv)>3: p.configs=tuple(sys.argv[3].split(","))
p.setup()
i=int(sys.argv[2])
job=["r %d %d %d"%(pbt.SEED,i,i+1)]
ref=p.run_jobs(p.refvm,job,60)
for vm in p.vms:
    print(vm[0],[p.why(p.run_jobs(vm,job,60),0,ref.cases[0]) for _ in range(10)])
print("ref self", [p.why(p.run_jobs(p.refvm,job,60),0,ref.cases[0]) for _ in range(5)])
import shutil; shutil.rmtree(p.tmp)
