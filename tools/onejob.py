import sys,json; sys.path.insert(0,'/verif')
import run, checks
def go(pid, pat=".", tier="quick"):
    import re, concurrent.futures as cf
    vse=run.engine(); jobs=[j for j in checks.CHECKS[pid]["jobs"](tier) if re.search(pat,j["name"])]
    run.bitcode()
    for h in sorted({(j["h"], tuple(j.get("defs", ()))) for j in jobs}): run.harness_bc(*h)
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: run.run_job(vse,j), jobs):
            if "error" in r: print(r["job"]["name"], r["error"]); continue
            print(r["job"]["name"], "paths",r["paths"],"ret",r["paths_returned"],"pend",r["pending"],"inc",r["incomplete_events"],"q",r["queries"],"solver",round(r["solver_s"],1),"wall",r.get("wall_s"), r["reach"], r["unsupported"][:2], "AUDITFAIL" if r["audit_failures"] else "", flush=True)
            for v in r["violations"][:4]:
                print("   V", v["kind"], v["msg"], v["loc"], v["log"][:6], {n:run.show(h) for n,h in v["vals"]}, run.confirm(r["job"],v)[0])
go(*sys.argv[1:])
