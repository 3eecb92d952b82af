import sys,time,glob
sys.path.insert(0,'/verif/irv')
import ir
from core import *; import core; from engine import *; from world import *
def mods(d='/tmp/ir'):
    return [ir.Module(open(f).read()) for f in sorted(glob.glob(d+'/*.2.ll'))]
M=mods()
def test(w,q,fname='mzed_add_row',al=0):
    e=Engine(M); e.trace=True; e.mod=M[0]
    ff=Field(w=w); W=World(e,ff)
    n=64//w
    lg=n.bit_length()-1
    wv=z3.BitVec('Wm1',20); wm=z3.Concat(C(0,12-lg),wv)
    wm32=z3.ZeroExt(lg,wm)
    if al: ncols=z3.Concat(wm,C(0,lg)); width=wm32; W.pc+=[wv!=0]; VAR_RANGE['Wm1']=(1,2**20-1)
    else:
        rl=z3.BitVec('rl',lg); RESIDUE.add('rl'); VAR_RANGE['rl']=(1,n-1); ncols=z3.Concat(wm,rl); W.pc+=[rl!=0]; width=wm32+1
    W.width=width
    ra=W.int('ra',1); rb=W.int('rb',1)
    A,ma=W.mzed('A',ra,ncols,window=True); B,mb=W.mzed('B',rb,ncols,window=True)
    ar=W.int('ar'); br=W.int('br'); W.pc+=[z3.ULT(ar,ra),z3.ULT(br,rb)]
    qv=z3.Concat(C(0,12-lg),z3.BitVec('q',20))
    sc=z3.Concat(qv,C(q,n.bit_length()-1)); W.pc+=[z3.ULT(sc,ncols)]
    st=W.state()
    t0=time.time()
    x=z3.BitVec('x',64); st.pc=st.pc+((x&~ff.em)==0,)
    if fname=='mzed_add_row': args=[A,ar,B,br,sc]; f=lambda o,b: o^b
    elif fname=='mzed_add_multiple_of_row': args=[A,ar,B,br,x,sc]; f=lambda o,b: o^z3.Extract(w-1,0,ff.mul(x,z3.ZeroExt(64-w,b)))
    elif fname=='mzed_rescale_row': args=[A,ar,sc,x]; f=lambda o,b: z3.Extract(w-1,0,ff.mul(x,z3.ZeroExt(64-w,o)))
    res=e.call_function(fname,args,st)
    print(fname,w,q,'paths',len(res),'%.2f'%(time.time()-t0), len(e.obs), [o for o in e.obs if o[2]!='proved'][:5])
    R0,K0=z3.BitVec('R0',32),z3.BitVec('K0',32)
    bad=0
    for ret,s in res:
        pc=list(s.pc)+[z3.ULT(R0,ra),z3.ULT(K0,ma.width)]
        new=bv(s.mem[ma.id].read(R0,K0),64); old=ma.fn(R0,K0); b=mb.fn(br,K0)
        for l in range(n):
            col=K0*n+l
            L=lambda t: z3.Extract(l*w+w-1,l*w,t)
            spec=z3.If(z3.And(R0==ar,z3.ULE(sc,col),z3.ULT(col,ncols)),f(L(old),L(b)),L(old))
            r=prove(pc,L(new)==spec)
            if r!='proved': bad+=1; print('  lane',l,r, LASTMODEL[0] if r=='refuted' else '')
            if bad>2: return
    print('  total %.2f'%(time.time()-t0), 'queries',Stats.q,'%.2f'%Stats.t)
if __name__=='__main__':
    test(int(sys.argv[2]),int(sys.argv[3]),sys.argv[1])
