import sys
sys.path.insert(0, "/verif/lib")
import checks, pbt
from pyprop import Src
p = [p for p in checks.CHECKS[sys.argv[1]]["make"]() if hasattr(p, "gen") and (len(sys.argv) < 4 or p.part == sys.argv[3])][0]
import pprint
p.start(); pprint.pprint(p.gen(Src(pbt.SEED, int(sys.argv[2]))), width=180)
