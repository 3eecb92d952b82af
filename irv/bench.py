import z3,core,time
def ack(fs):
    apps={}; 
    memo={}
    cons=[]
    def go(e):
        i=e.get_id()
        if i in memo: return memo[i]
        ch=[go(c) for c in e.children()]
        if e.num_args()==0: r=e
        elif e.decl().kind()==z3.Z3_OP_UNINTERPRETED:
            r=z3.FreshConst(e.sort(),'ack')
            l=apps.setdefault(e.decl().name(),[])
            for ar,v in l:
                eq=z3.simplify(z3.And(*[a==b for a,b in zip(ar,ch)]))
                if z3.is_false(eq): continue
                cons.append(z3.Implies(eq,r==v))
            l.append((ch,r))
        else:
            k=e.decl().kind()
            r=z3.And(*ch) if k==z3.Z3_OP_AND else z3.Or(*ch) if k==z3.Z3_OP_OR else (e if all(a.eq(b) for a,b in zip(ch,e.children())) else e.decl()(*ch))
        memo[i]=r; return r
    out=[go(f) for f in fs]
    return out+cons
n=[0]
def chk(fs,timeout):
    n[0]+=1
    if True:
        t0=time.time(); s=z3.Solver(); s.set('timeout',timeout); [s.add(f) for f in fs]; r=s.check(); t1=time.time()
        if t1-t0>0.5:
            a=ack(fs); t2=time.time(); s2=z3.SolverFor('QF_BV'); s2.set('timeout',timeout); [s2.add(f) for f in a]; r2=s2.check(); t3=time.time()
            s3=z3.Then('simplify','propagate-values','solve-eqs','elim-uncnstr','simplify','max-bv-sharing','bit-blast','sat').solver(); [s3.add(f) for f in a]; r3=s3.check(); t4=time.time()
            print(r,'%.2f'%(t1-t0),'ack %.2f'%(t2-t1),r2,'%.2f'%(t3-t2),r3,'%.2f'%(t4-t3),len(a))
            open('/tmp/q%d.smt2'%n[0],'w').write(s.to_smt2())
    return r,s
core._check=chk
import t1,sys
t1.test(int(sys.argv[2]),int(sys.argv[3]),sys.argv[1])
