"""Random test of the sign domain (engine/poly.py): signs() must include the sign under every assignment that satisfies the facts."""
import sys, random; import os; sys.path[:0]=[os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine")]
from poly import *
from fractions import Fraction as Fr
def ev(p,env):
    t=Fr(0)
    for m,c in p.t.items():
        x=Fr(c)
        for s,e in m:
            if env[s]==0 and e<0: return None
            x*=env[s]**e
        t+=x
    return t
rnd=random.Random(int((sys.argv + ["1"])[1])); bad=0
syms=list("abcxy")
def rp():
    p=Poly.const(0)
    for _ in range(rnd.choice((1,1,2,2,3))):
        t=Poly.const(rnd.choice((1,-1,2,-1,1)))
        for s in rnd.sample(syms,rnd.choice((0,1,1,2,2))):
            t=t*Poly.sym(s) if rnd.random()<.85 else t*Poly({((s,-1),):1})
        p=p+t
    return p
for it in range(20000):
    env={s:Fr(rnd.choice((0,0,1,-1,2,-2,3)),rnd.choice((1,1,2))) for s in syms}
    f=Facts(); bad_=False
    L=[]
    for _ in range(rnd.randint(1,4)):
        p=rp(); v=ev(p,env)
        if v is None: continue
        for s in p.symbols():   # division only by things known to be nonzero
            if any(dict(m).get(s,0)<0 for m in p.t): f.assume(Poly.sym(s),"!="); L.append((s,"!="))
        r=rnd.choice({1:(">",">=","!="),0:("=",">=","="),-1:("<","<=","!=")}[(v>0)-(v<0)])
        f.assume(p,r); L.append((str(p),r))
    for _ in range(3):
        p=rp(); v=ev(p,env)
        if v is None: continue
        ss=f.signs(p)
        if (v>0)-(v<0) not in ss:
            bad+=1; print(L,"|",p,v,ss,env); break
    try:
        if not f.satisfiable(): bad+=1; print("UNSAT",L,env)
    except Exception as e: print("EXC",e)
    if bad>10: break
print(bad)
