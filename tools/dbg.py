import sys; sys.path.insert(0,'/verif')
import run, checks, re
pid, jn = sys.argv[1:3]
vse=run.engine(); run.bitcode()
j=[j for j in checks.CHECKS[pid]["jobs"]("quick") if j["name"]==jn][0]
r=run.run_job(vse,j)
for v in r["violations"][:int(sys.argv[3]) if len(sys.argv)>3 else 2]:
    print(v["kind"], v["msg"], v["loc"], {n:run.show(h) for n,h in v["vals"]}); print(v["stack"][:600]); print("\n".join(v["log"])[:3000]); print(run.confirm(j,v)[1][:1500])
