import random, json, sys
import gensim, simcheck
from sim import Case, lit
from vplib import *
def br(c,k,mx=50000,demand=10000):
    out=[]
    for _ in range(k):
        a=c.node("in",mx=lit(mx)); x=c.node("link"); o=c.node("out",mx=lit(demand),cost=lit(-5000)); c.edge(a,x); c.edge(x,o); out.append(x)
    return out
def setmx(c,m,mx):
    c.nodes[m-1]["mx"]=mx; next(j for j in c.jn if j["meta"]["name"]==c.nodes[m-1]["name"])["max_flow"]=c.mj(mx)
cs=[]
c=Case("dynexcl",nt=3); ms=br(c,2); setmx(c,ms[0],c.arr([5000,6000,7000])); setmx(c,ms[1],lit(8000)); c.agg(ms,rel={"k":"excl","mina":0,"maxa":1}); cs.append(c)
c=Case("dynexcl2",nt=3); ms=br(c,2); [setmx(c,m,c.arr([5000,6000,7000])) for m in ms]; c.agg(ms,rel={"k":"excl","mina":0,"maxa":1}); cs.append(c)
c=Case("dynrhs",nt=3); ms=br(c,2); c.agg(ms,rel={"k":"coef","f":[lit(1000),lit(1000)],"rhs":c.arr([5000,6000,7000])}); cs.append(c)
c=Case("two-rel",nt=3); ms=br(c,2); c.agg(ms,rel={"k":"ratio","f":[lit(1000),c.arr([1000,2000,3000])]}); c.agg(ms,rel={"k":"ratio","f":[lit(1000),c.arr([4000,4000,3000])]}); cs.append(c)
c=Case("prop>1",nt=3); ms=br(c,2); c.agg(ms,rel={"k":"prop","f":[lit(1500)]}); cs.append(c)
c=Case("ratio0",nt=3); ms=br(c,2); c.agg(ms,rel={"k":"ratio","f":[lit(0),lit(1000)]}); cs.append(c)
c=Case("ratio0b",nt=3); ms=br(c,2); c.agg(ms,rel={"k":"ratio","f":[lit(1000),lit(0)]}); cs.append(c)
c=Case("dynratio0",nt=3); ms=br(c,2); c.agg(ms,rel={"k":"ratio","f":[lit(1000),c.arr([1000,0,1000])]}); cs.append(c)
c=Case("dynratio0a",nt=3); ms=br(c,2); c.agg(ms,rel={"k":"ratio","f":[c.arr([1000,0,1000]),lit(1000)]}); cs.append(c)
c=Case("rationeg",nt=3); ms=br(c,2); c.agg(ms,rel={"k":"ratio","f":[lit(1000),lit(-1000)]}); cs.append(c)
# storage as a member of a relationship with constant / dynamic factors
for dyn in (0,1):
    c=Case("storel%d"%dyn,nt=3); a=c.node("in",mx=lit(9000)); s=c.node("sto",maxv=lit(100000),iv=("abs",50000),cost=lit(-1000)); o=c.node("out",mx=lit(4000),cost=lit(-9000)); c.edge(a,s); c.edge(s,o)
    ms=br(c,1); c.agg([s]+ms,rel={"k":"ratio","f":[lit(1000),c.arr([1000,2000,1000]) if dyn else lit(2000)]}); cs.append(c)
c=Case("dynrationeg",nt=3); ms=br(c,2); c.agg(ms,rel={"k":"ratio","f":[lit(1000),c.arr([1000,-1000,2000])]}); cs.append(c)
c=Case("dynpropneg",nt=3); ms=br(c,3); c.agg(ms,rel={"k":"prop","f":[lit(300),c.arr([300,-300,600])]}); cs.append(c)
sel=sys.argv[1:]
cs=[c for c in cs if not sel or c.id in sel]
os.makedirs("/verif/work/dbg",exist_ok=True)
tr=run_driver([c.driver() for c in cs],"/verif/work/dbg")
sp=[]
for c in cs:
    t=tr[c.id]; 
    if t["status"]!="ok": print(c.id,t["status"],str(t["error"])[-300:]); continue
    r=t["runs"][0]; print(c.id, r["status"], str(r.get("error"))[-250:])
    o=c.observed(r)
    if o: 
        s=c.spec(o, simcheck.witnesses(c,o)); sp.append(s); print("   ",[[x["a"]["nout"][1::3] for x in so] for so in o])
r=tlc_cases("TraceSim",sp,"/verif/work/dbg",4)
for p,d in r.rejects: print(p,d)
