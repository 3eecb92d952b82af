#include "h.h"
#include <math.h>
void set_budget(double s); void install(void); void print_samples(void); void set_part(long k,long n);
static int SZ[]={1,2,3,4,5,7,8,9,15,16,17,21,31,32,33,47,48,49,63,64,65,66,95,96,97,127,128,129,130,191,192,193,200};
#define NSZ ((int)(sizeof SZ/sizeof*SZ))
static int rsz(int max){ int s; do{ s= rn(2)? SZ[rn(NSZ)] : 1+(int)rn(max);}while(s>max); return s; }
static int kind(void){ return rn(8); }
static int wof(int e){ return e<=2?2:e<=4?4:e<=8?8:16; }
static int pmult=1; /* per property, set in main */
#define REP(n) ((tier?5:1)*pmult*(n))

/* ---------------- C01 ---------------- */
static void C01(void){ int e,k; u64 i,j;
  for(e=2;e<=16;e++){ int np= e<=5? nirr[e] : (tier?12:4); for(k=0;k<np;k++){
    u64 p;
    if(!CASE("field e=%d poly#%d",e,k)) continue;
    p = e<=5? irr[e][k] : pick_poly(e,k); gf2e*ff=gf2e_init(p); snprintf(case_desc,200,"field e=%d minpoly=%lx",e,(long)p);
    if(ff->degree!=e||ff->minpoly!=p) fail("gf2e_init degree/minpoly");
    if((int)gf2e_degree_to_w(ff)!=wof(e)) fail("element width");
    u64 q=1ull<<e; 
    for(i=0;i<q;i++){ u64 v=ff->inv(ff,i), v2=gf2e_inv(ff,i); if(v!=rinv(i,p)||v2!=v) fail("inv(%lx)=%lx expected %lx",(long)i,(long)v,(long)rinv(i,p)); }
    long n= e<=6? 0: (tier?400000:60000);
    if(!n){ for(i=0;i<q;i++)for(j=0;j<q;j++){ u64 x=ff->mul(ff,i,j); if(x!=rmul(i,j,p)) fail("mul(%lx,%lx)=%lx expected %lx",(long)i,(long)j,(long)x,(long)rmul(i,j,p)); x=gf2e_mul(ff,i,j); if(x!=rmul(i,j,p)) fail("gf2e_mul(%lx,%lx)=%lx",(long)i,(long)j,(long)x);} }
    else { for(i=0;i<(u64)e;i++)for(j=0;j<q;j++) { u64 x=ff->mul(ff,1ull<<i,j); if(x!=rmul(1ull<<i,j,p)) fail("mul(%lx,%lx)=%lx expected %lx",1l<<i,(long)j,(long)x,(long)rmul(1ull<<i,j,p)); x=ff->mul(ff,j,1ull<<i); if(x!=rmul(1ull<<i,j,p)) fail("mul(%lx,%lx)=%lx",(long)j,1l<<i,(long)x); }
      while(n--){ u64 a=rn(q),b=rn(q); u64 x=ff->mul(ff,a,b),y=gf2e_mul(ff,a,b); if(x!=rmul(a,b,p)||y!=x) fail("mul(%lx,%lx)=%lx expected %lx",(long)a,(long)b,(long)x,(long)rmul(a,b,p)); } }
    for(i=0;(int)i<2*e-1;i++) if(ff->pow_gen[i]!=rmod(1ull<<i,p)) fail("pow_gen[%d]",(int)i);
    for(i=0;i<q;i++){ u64 r=ff->red[i]; if((r>>e)!=i || rmod(r,p)) fail("red[%lx]=%lx",(long)i,(long)r);}
    gf2e_free(ff); } }
  for(k=1;k<=32;k++) if(CASE("gf2x mul d=%d",k)){ int n=2000; while(n--){ u64 a=rnd()&((k==64?0:1ull<<k)-1),b=rnd()&((1ull<<k)-1); if(n<64){a=n<k?1ull<<n:a;} if(n>=64&&n<128){ b=(n-64)<k?1ull<<(n-64):b; a=(1ull<<k)-1;} u64 x=gf2x_mul(a,b,k); if(x!=rclmul(a,b)) fail("gf2x_mul(%lx,%lx,%d)=%lx",(long)a,(long)b,k,(long)x);} }
  if(CASE("gf2x deg")){ int n; for(n=0;n<64;n++){ int t=20; while(t--){ u64 a=(1ull<<n)|(rnd()&((1ull<<n)-1)); if(gf2x_deg(a)!=n) fail("gf2x_deg(%lx)=%d",(long)a,gf2x_deg(a)); } } if(gf2x_deg(0)!=0) fail("gf2x_deg(0)"); }
  for(k=0;k<(tier?60:12);k++) if(CASE("gf2x divmod batch %d",k)){ int n=2000; while(n--){ u64 a=rnd()>>rn(64),b=rnd()>>rn(64),rem=77; if(!b) b=1; u64 q=gf2x_divmod(a,b,&rem); u64 er=rmod(a,b);
      if(rem!=er||(rclmul(q,b)^rem)!=a) fail("gf2x_divmod(%lx,%lx)",(long)a,(long)b); if(gf2x_div(a,b)!=q) fail("gf2x_div(%lx,%lx)",(long)a,(long)b); if(gf2x_mod(a,b)!=er) fail("gf2x_mod(%lx,%lx)",(long)a,(long)b);} }
  for(e=2;e<=16;e++) if(CASE("gf2x_invmod e=%d",e)){ int n=3000; while(n--){ u64 p=pick_poly(e,2),a=1+rn((1u<<e)-1); u64 v=gf2x_invmod(a,p,e); if(v!=rinv(a,p)) fail("gf2x_invmod(%lx,%lx,%d)=%lx",(long)a,(long)p,e,(long)v);} }
}
/* ---------------- C02 ---------------- */
static void C02(void){ wcol64=0; walign=0; int e,t; for(e=2;e<=16;e++) for(t=0;t<REP(14);t++){ if(!CASE("element access e=%d it=%d",e,t)) continue;
   u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int r=1+rn(5),c=rsz(140); R*A=rrand(e,p,r,c,t%4==3?1:0); int sl=t&1; snprintf(case_desc,200,"%s e=%d minpoly=%lx %dx%d",sl?"sliced":"packed",e,(long)p,r,c); int n=60;
   if(!sl){ WM w=mkw(ff,A,1); mzed_t*M=w.W; int win=rn(2); mzed_t*Z=NULL; if(!win){ Z=mk(ff,A); M=Z; }
     while(n--){ int i=rn(r),j=n<4?(n&1?0:c-1):(int)rn(c); u64 v=rn(1u<<e); if(n<2) v=(1u<<e)-1; switch(rn(3)){ case 0: mzed_write_elem(M,i,j,v); RA(A,i,j)=v; break; case 1: mzed_add_elem(M,i,j,v); RA(A,i,j)^=v; break; default:{ u64 x=mzed_read_elem(M,i,j); if(x!=RA(A,i,j)) fail("read (%d,%d)=%lx expected %x",i,j,(long)x,RA(A,i,j)); } }
       if(n%8==0){ if(win) chk_w(&w,A,"element access"); else chk_m(Z,A,"element access"); int a,b; for(a=0;a<r;a++)for(b=0;b<c;b++) if(mzed_read_elem(M,a,b)!=RA(A,a,b)) fail("read (%d,%d)=%lx expected %x",a,b,(long)mzed_read_elem(M,a,b),RA(A,a,b)); } }
     if(win) chk_w(&w,A,"element access"); else chk_m(Z,A,"element access"); freew(&w); if(Z) mzed_free(Z);
   } else { WS w=mkws(ff,A,1); mzd_slice_t*M=w.W; int win=rn(2); mzd_slice_t*Z=NULL; if(!win){ Z=mks(ff,A); M=Z; }
     while(n--){ int i=rn(r),j=n<4?(n&1?0:c-1):(int)rn(c); u64 v=rn(1u<<e); if(n<2) v=(1u<<e)-1; switch(rn(3)){ case 0: mzd_slice_write_elem(M,i,j,v); RA(A,i,j)=v; break; case 1: mzd_slice_add_elem(M,i,j,v); RA(A,i,j)^=v; break; default:{ u64 x=mzd_slice_read_elem(M,i,j); if(x!=RA(A,i,j)) fail("read (%d,%d)=%lx expected %x",i,j,(long)x,RA(A,i,j)); } }
       if(n%8==0){ if(win) chk_ws(&w,A,"element access"); else chk_s(Z,A,"element access"); int a,b; for(a=0;a<r;a++)for(b=0;b<c;b++) if(mzd_slice_read_elem(M,a,b)!=RA(A,a,b)) fail("read (%d,%d)",a,b); } }
     if(win) chk_ws(&w,A,"element access"); else chk_s(Z,A,"element access"); freews(&w); if(Z) mzd_slice_free(Z); }
   rfree(A);} }
/* ---------------- C03 ---------------- */
static void C03(void){ wcol64=0; walign=0; int e,t; for(e=2;e<=16;e++) for(t=0;t<REP(90);t++){ if(!CASE("row ops e=%d it=%d",e,t)) continue;
   u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int per=64/wof(e); int r=2+rn(4); int c= t%3==0? 1+(int)rn(2*per+2): t%3==1? rsz(200) : per*(1+(int)rn(9))+(int)rn(3)-1; if(c<1)c=1; R*A=rrand(e,p,r,c,rn(4)?0:kind()); int op=rn(6); int i=rn(r),k=rn(r),j,sc= rn(3)==0?0: (rn(3)==0? c-1 : (int)rn(c)); u64 x= rn(6)==0? rn(2) : rn(1u<<e); 
   snprintf(case_desc,250,"op=%d e=%d minpoly=%lx %dx%d row %d from row %d startcol %d scalar %lx",op,e,(long)p,r,c,i,k,sc,(long)x);
   if(op<4){ WM w=mkw(ff,A,1); int win=rn(2); mzed_t*M=win?w.W:mk(ff,A);
     if(op==0){ mzed_add_multiple_of_row(M,i,M,k,x,sc); R*O=rcopy(A); for(j=sc;j<c;j++) RA(A,i,j)^=rmul(RA(O,k,j),x,p); rfree(O);} 
     else if(op==1){ mzed_add_row(M,i,M,k,sc); R*O=rcopy(A); for(j=sc;j<c;j++) RA(A,i,j)^=RA(O,k,j); rfree(O);} 
     else if(op==2){ mzed_rescale_row(M,i,sc,x); for(j=sc;j<c;j++) RA(A,i,j)=rmul(RA(A,i,j),x,p); }
     else { R*Bm=rrand(e,p,r,c,0); mzed_t*N=mk(ff,Bm); int o2=rn(4); if(o2==0){ mzed_add_multiple_of_row(M,i,N,k,x,sc); for(j=sc;j<c;j++) RA(A,i,j)^=rmul(RA(Bm,k,j),x,p);} else if(o2==1){ mzed_add_row(M,i,N,k,sc); for(j=sc;j<c;j++) RA(A,i,j)^=RA(Bm,k,j);} else if(o2==2){ mzed_copy_row(M,i,N,k); for(j=0;j<c;j++) RA(A,i,j)=RA(Bm,k,j);} else if(i!=k) { mzed_row_add(M,k,i); R*O=rcopy(A); for(j=0;j<c;j++) RA(A,i,j)^=RA(O,k,j); rfree(O);} chk_m(N,Bm,"source"); mzed_free(N); rfree(Bm);} 
     if(win) chk_w(&w,A,"row op"); else { chk_m(M,A,"row op"); mzed_free(M);} freew(&w);
   } else { WS w=mkws(ff,A,1); int win=rn(2); mzd_slice_t*M=win?w.W:mks(ff,A);
     if(op==4){ mzd_slice_rescale_row(M,i,sc,x); for(j=sc;j<c;j++) RA(A,i,j)=rmul(RA(A,i,j),x,p);} 
     else { if(i!=k&&rn(2)){ mzd_slice_row_add(M,k,i); R*O=rcopy(A); for(j=0;j<c;j++) RA(A,i,j)^=RA(O,k,j); rfree(O);} else { R*Bm=rrand(e,p,r,c,0); mzd_slice_t*N=mks(ff,Bm); mzd_slice_copy_row(M,i,N,k); for(j=0;j<c;j++) RA(A,i,j)=RA(Bm,k,j); chk_s(N,Bm,"source"); mzd_slice_free(N); rfree(Bm);} }
     if(win) chk_ws(&w,A,"row op"); else { chk_s(M,A,"row op"); mzd_slice_free(M);} freews(&w); }
   rfree(A);} }
/* ---------------- C04 ---------------- */
static void C04(void){ wcol64=0; walign=0;  int e,t; for(e=2;e<=16;e++) for(t=0;t<REP(3)*NSZ+40;t++){ if(!CASE("conversion e=%d it=%d",e,t)) continue;
   u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int r=1+rn(4), c= t<NSZ? SZ[t] : 1+(int)rn(t%5==0?300:150); R*A=rrand(e,p,r,c,rn(3)?0:kind()); int dirty=rn(3); snprintf(case_desc,250,"e=%d minpoly=%lx %dx%d dest=%d",e,(long)p,r,c,dirty);
   WM w=mkw(ff,A,1); int win=rn(2); mzed_t*M=win?w.W:mk(ff,A); mzd_slice_t*S; WS ws; R*D=rrand(e,p,r,c,0);
   if(dirty==0) S=mzed_slice(NULL,M); else if(dirty==1) { S=mks(ff,D); if(mzed_slice(S,M)!=S) fail("returned pointer"); } else { ws=mkws(ff,D,1); S=ws.W; mzed_slice(S,M);} 
   if(dirty==2) chk_ws(&ws,A,"mzed_slice"); else chk_s(S,A,"mzed_slice"); 
   if(win) chk_w(&w,A,"source of mzed_slice"); else chk_m(M,A,"source of mzed_slice");
   /* back */
   int d2=rn(3); mzed_t*N; WM wn; if(d2==0) N=mzed_cling(NULL,S); else if(d2==1){ N=mk(ff,D); mzed_cling(N,S);} else { wn=mkw(ff,D,1); N=wn.W; mzed_cling(N,S);} 
   if(d2==2){ chk_w(&wn,A,"mzed_cling"); freew(&wn);} else { chk_m(N,A,"mzed_cling"); mzed_free(N);} 
   if(dirty==2){ chk_ws(&ws,A,"source of mzed_cling"); freews(&ws);} else { chk_s(S,A,"source of mzed_cling"); mzd_slice_free(S);} 
   if(!win) mzed_free(M); freew(&w); rfree(A); rfree(D);} }
/* ---------------- products ---------------- */
typedef mzed_t*(*mulf)(mzed_t*,const mzed_t*,const mzed_t*);
static int cut_; static mzed_t* f_str(mzed_t*C,const mzed_t*A,const mzed_t*B){ return mzed_mul_strassen(C,A,B,cut_);} static mzed_t* f_astr(mzed_t*C,const mzed_t*A,const mzed_t*B){ return mzed_addmul_strassen(C,A,B,cut_);} 
/* run one packed multiplication: acc 0/1; destination 0 NULL (only if allowed) 1 dirty 2 dirty window; operands maybe windows */
static void mulcase(const char*nm,mulf f,int acc,int allownull,int e,u64 p,int m,int k,int n,int kA,int kB,int sq){
   gf2e*ff=field(p); R*A=rrand(e,p,m,k,kA),*Bm= sq? NULL: rrand(e,p,k,n,kB),*D=rrand(e,p,m,n,0); const R*Br=sq?A:Bm; R*P=rmm(A,Br); if(sq&&(m!=k||k!=n)) abort(); int dest=rn(3); if(dest==0&&!allownull) dest=1;
   snprintf(case_desc,300,"%s e=%d minpoly=%lx %dx%dx%d dest=%s acc=%d sq=%d cutoff=%d kinds %d,%d",nm,e,(long)p,m,k,n,dest==0?"NULL":dest==1?"dirty":"dirty window",acc,sq,cut_,kA,kB);
   int wa=rn(3)==0,wb=rn(3)==0; WM wA,wB,wC; mzed_t*MA,*MB,*MC=NULL; if(wa){wA=mkw(ff,A,1);MA=wA.W;} else MA=mk(ff,A); if(sq){ MB=MA; wb=0;} else if(wb){wB=mkw(ff,Bm,1);MB=wB.W;} else MB=mk(ff,Bm);
   if(dest==1) MC=mk(ff,D); else if(dest==2){ wC=mkw(ff,D,1); MC=wC.W; }
   mzed_t*Rt=f(MC,MA,MB); if(MC&&Rt!=MC) fail("%s: result pointer",nm); if(!Rt) fail("%s: NULL result",nm);
   if(acc&&dest) raddto(P,D);
   if(dest==2) chk_w(&wC,P,nm); else chk_m(Rt,P,nm);
   if(wa) chk_w(&wA,A,"operand A"); else chk_m(MA,A,"operand A"); if(!sq){ if(wb) chk_w(&wB,Bm,"operand B"); else chk_m(MB,Bm,"operand B"); }
   if(dest==2) freew(&wC); else mzed_free(Rt); if(wa) freew(&wA); else mzed_free(MA); if(!sq){ if(wb) freew(&wB); else mzed_free(MB);} rfree(A); if(Bm) rfree(Bm); rfree(D); rfree(P); }
typedef mzd_slice_t*(*smulf)(mzd_slice_t*,const mzd_slice_t*,const mzd_slice_t*);
static mzd_slice_t* s_blm(mzd_slice_t*C,const mzd_slice_t*A,const mzd_slice_t*B){ return mzd_slice_mul_blm(C,A,B,NULL);} static mzd_slice_t* s_ablm(mzd_slice_t*C,const mzd_slice_t*A,const mzd_slice_t*B){ return mzd_slice_addmul_blm(C,A,B,NULL);} 
static void smulcase(const char*nm,smulf f,int acc,int allownull,int e,u64 p,int m,int k,int n,int kA,int kB,int sq){
   gf2e*ff=field(p); R*A=rrand(e,p,m,k,kA),*Bm= sq? NULL: rrand(e,p,k,n,kB),*D=rrand(e,p,m,n,0); const R*Br=sq?A:Bm; R*P=rmm(A,Br); int dest=rn(3); if(dest==0&&!allownull) dest=1;
   snprintf(case_desc,300,"%s e=%d minpoly=%lx %dx%dx%d dest=%s acc=%d sq=%d kinds %d,%d",nm,e,(long)p,m,k,n,dest==0?"NULL":dest==1?"dirty":"dirty window",acc,sq,kA,kB);
   int wa=rn(3)==0,wb=rn(3)==0; WS wA,wB,wC; mzd_slice_t*MA,*MB,*MC=NULL; if(wa){wA=mkws(ff,A,1);MA=wA.W;} else MA=mks(ff,A); if(sq){ MB=MA; wb=0;} else if(wb){wB=mkws(ff,Bm,1);MB=wB.W;} else MB=mks(ff,Bm);
   if(dest==1) MC=mks(ff,D); else if(dest==2){ wC=mkws(ff,D,1); MC=wC.W; }
   mzd_slice_t*Rt=f(MC,MA,MB); if(MC&&Rt!=MC) fail("%s: result pointer",nm);
   if(acc&&dest) raddto(P,D);
   if(dest==2) chk_ws(&wC,P,nm); else chk_s(Rt,P,nm);
   if(wa) chk_ws(&wA,A,"operand A"); else chk_s(MA,A,"operand A"); if(!sq){ if(wb) chk_ws(&wB,Bm,"operand B"); else chk_s(MB,Bm,"operand B"); }
   if(dest==2) freews(&wC); else mzd_slice_free(Rt); if(wa) freews(&wA); else mzd_slice_free(MA); if(!sq){ if(wb) freews(&wB); else mzd_slice_free(MB);} rfree(A); if(Bm) rfree(Bm); rfree(D); rfree(P); }
static const char*kname(int d){ static char b[32]; sprintf(b,"karatsuba%d",d); return b; }
static void kcall(int d,const gf2e*ff,mzd_t**X,const mzd_t**A,const mzd_t**Bv){ switch(d){
#define K(n) case n: _mzd_ptr_addmul_karatsuba##n(ff,X,A,Bv); break;
K(2)K(3)K(4)K(5)K(6)K(7)K(8)K(9)K(10)K(11)K(12)K(13)K(14)K(15)K(16)} }
static void C05(void){ wcol64=1; walign=0; int e,t;
  for(e=2;e<=16;e++) for(t=0;t<REP(6);t++){ 
    if(CASE("slice mul e=%d it=%d",e,t)){ u64 p=pick_poly(e,t%3); smulcase("mzd_slice_mul_karatsuba",mzd_slice_mul_karatsuba,0,1,e,p,1+rn(9),1+rn(70),rsz(70),0,kind(),0); }
    if(CASE("slice addmul e=%d it=%d",e,t)){ u64 p=pick_poly(e,t%3); smulcase("mzd_slice_addmul_karatsuba",mzd_slice_addmul_karatsuba,1,0,e,p,1+rn(9),1+rn(20),rsz(70),0,0,0); }
    if(CASE("slice addmul2 e=%d it=%d",e,t)){ u64 p=pick_poly(e,2); smulcase("_mzd_slice_addmul_naive",_mzd_slice_addmul_naive,1,1,e,p,1+rn(9),1+rn(20),rsz(70),0,kind(),0); }
    if(CASE("packed karatsuba e=%d it=%d",e,t)){ u64 p=pick_poly(e,2); mulcase("mzed_mul_karatsuba",mzed_mul_karatsuba,0,1,e,p,1+rn(9),1+rn(20),rsz(70),0,0,0); }
    if(CASE("packed addmul karatsuba e=%d it=%d",e,t)){ u64 p=pick_poly(e,2); mulcase("mzed_addmul_karatsuba",mzed_addmul_karatsuba,1,0,e,p,1+rn(9),1+rn(20),rsz(70),0,0,0); }
    if(CASE("slice square e=%d it=%d",e,t)){ u64 p=pick_poly(e,2); int m=1+rn(12); smulcase("mzd_slice_mul_karatsuba",mzd_slice_mul_karatsuba,0,1,e,p,m,m,m,0,0,1); } }
  /* every pair of slices separately: identifies any wrong term of the formula */
  for(e=2;e<=16;e++){ int i,j,w; for(w=0;w<(tier?4:2);w++) for(i=0;i<e;i++) for(j=0;j<e;j++){ if(!CASE("term e=%d x^%d*x^%d w=%d",e,i,j,w)) continue; u64 p=pick_poly(e,w); gf2e*ff=field(p); snprintf(case_desc,200,"karatsuba%d minpoly=%lx term x^%d*x^%d",e,(long)p,i,j);
      mzd_slice_t*A=mzd_slice_init(ff,2,2),*Bs=mzd_slice_init(ff,2,2),*C=mzd_slice_init(ff,2,2); int a,b; for(a=0;a<2;a++)for(b=0;b<2;b++){ A->x[i]->rows[a][0]|=(u64)(a==b||a<b)<<b; Bs->x[j]->rows[a][0]|=(u64)(a==b)<<b; C->x[0]->rows[a][0]|=1ull<<b; }
      kcall(e,ff,C->x,(const mzd_t**)A->x,(const mzd_t**)Bs->x); u64 v=rmul(1ull<<i,1ull<<j,p); for(a=0;a<2;a++)for(b=0;b<2;b++){ u64 ex=(a<=b?v:0)^1; if(mzd_slice_read_elem(C,a,b)!=ex) fail("entry (%d,%d)=%lx expected %lx",a,b,(long)mzd_slice_read_elem(C,a,b),(long)ex);} mzd_slice_free(A);mzd_slice_free(Bs);mzd_slice_free(C);} }
  /* the same formulas without reduction (polynomial product) */
  for(e=2;e<=16;e++) for(t=0;t<REP(3);t++){ if(!CASE("polynomial %s it=%d",kname(e),t)) continue; int m=1+rn(6),k=1+rn(6),n=1+rn(66),i,j; B*A[16],*Bb[16],*X[31]; mzd_t*a[16],*b[16],*x[31]; for(i=0;i<e;i++){A[i]=brand(m,k);Bb[i]=brand(k,n);a[i]=mkb(A[i]);b[i]=mkb(Bb[i]);} for(i=0;i<2*e-1;i++){X[i]=brand(m,n);x[i]=mkb(X[i]);}
     kcall(e,NULL,x,(const mzd_t**)a,(const mzd_t**)b); for(i=0;i<e;i++)for(j=0;j<e;j++){B*q=bmm(A[i],Bb[j]);badd(X[i+j],q);bfree(q);} for(i=0;i<2*e-1;i++){char s[40];sprintf(s,"coefficient %d",i);chk_b(x[i],X[i],s);bfree(X[i]);mzd_free(x[i]);} for(i=0;i<e;i++){ chk_b(a[i],A[i],"operand"); chk_b(b[i],Bb[i],"operand"); bfree(A[i]);bfree(Bb[i]);mzd_free(a[i]);mzd_free(b[i]);} }
}
/* ---------------- C06 ---------------- */
static void chk_tab(njt_mzed_t*T,gf2e*ff,const R*A,int r,int c){ int e=ff->degree,v,j; u64 p=ff->minpoly; for(v=0;v<1<<e;v++){ int row=T->L[v]; if(row<0||row>=1<<e) fail("L[%x]=%d",v,row); for(j=c;j<A->c;j++){ u64 x= T->T->x->rows[row][(j*wof(e))/64]>>((j*wof(e))%64)&((1u<<wof(e))-1); if(x!=rmul(v,RA(A,r,j),p)) fail("table row for scalar %x, column %d: %lx expected %lx",v,j,(long)x,(long)rmul(v,RA(A,r,j),p)); } } chk_clean(T->T,"table"); }
static void C06(void){ wcol64=1; walign=0; int e,t;
  for(e=2;e<=16;e++) for(t=0;t<REP(e<=8?10:3);t++){ if(!CASE("table e=%d it=%d",e,t)) continue; u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int c=1+rn(e<=8?180:40),r=1+rn(4); R*A=rrand(e,p,r,c,0); mzed_t*M=mk(ff,A); njt_mzed_t*T=NULL; int q=3,i; snprintf(case_desc,200,"mzed_make_table e=%d minpoly=%lx %dx%d",e,(long)p,r,c); int c0=0; while(q--){ i=rn(r); T=mzed_make_table(T,M,i,c0); chk_tab(T,ff,A,i,c0); c0= rn(c); } njt_mzed_free(T); chk_m(M,A,"source"); mzed_free(M); rfree(A);} 
  for(e=2;e<=16;e++) for(t=0;t<REP(e<=8?12:4);t++){ u64 p; int mx=e<=8?150:24;
    if(CASE("nj mul e=%d it=%d",e,t)){ p=pick_poly(e,t%3); mulcase("mzed_mul_newton_john",mzed_mul_newton_john,0,1,e,p,rn(4)?e+rn(8):rsz(mx),t<20?1+t:1+(int)rn(40),rsz(mx),kind(),0,0);} 
    if(CASE("nj addmul e=%d it=%d",e,t)){ p=pick_poly(e,t%3); mulcase("mzed_addmul_newton_john",mzed_addmul_newton_john,1,0,e,p,rn(4)?e+rn(8):rsz(mx),t<20?20-t:1+(int)rn(40),rsz(mx),0,0,0);} 
    if(CASE("nj mul0 e=%d it=%d",e,t)){ p=pick_poly(e,t%3); cut_=0; mulcase("_mzed_mul_newton_john0",_mzed_mul_newton_john0,1,0,e,p,1+rn(20),1+rn(20),rsz(mx),0,0,0);} }
  /* many rows: block sizes of the outer loops */
  for(t=0;t<(tier?24:8);t++) if(CASE("nj tall it=%d",t)){ static int es[]={2,4,8,2,3,16,2,7}; e=es[t%8]; u64 p=pick_poly(e,2); int r=2048*wof(e)+(t%3==0?0:t%3==1?1+(int)rn(70):2048/wof(e)*(1+(int)rn(3))+(int)rn(5)); mulcase(t&1?"mzed_addmul_newton_john":"mzed_mul_newton_john",t&1?mzed_addmul_newton_john:mzed_mul_newton_john,t&1,0,e,p,r,8+rn(t%3?10:3),1+rn(9),0,0,0); }
  for(t=0;t<(tier?24:8);t++) if(CASE("nj wide it=%d",t)){ static int es[]={2,4,8,16}; e=es[t%4]; u64 p=pick_poly(e,2); mulcase(t&1?"mzed_addmul_newton_john":"mzed_mul_newton_john",t&1?mzed_addmul_newton_john:mzed_mul_newton_john,t&1,0,e,p,e+rn(3),1+rn(15),64*(64/wof(e))+rn(300),0,0,0); }
  for(e=2;e<=16;e++) for(t=0;t<REP(e<=8?6:2);t++){ if(!CASE("process rows e=%d it=%d",e,t)) continue; 
     u64 p=pick_poly(e,2); gf2e*ff=field(p); int nt=1+rn(e<=8?6:e<=10?6:2); if(nt*wof(e)>64) nt=64/wof(e); int c=nt+rn(60),r=nt+1+rn(10),c0=rn(c-nt+1),i,j,k; R*A=rrand(e,p,r,c,0); 
     /* rows 0..nt-1: identity block at column c0 (as the elimination routine leaves them) */
     for(i=0;i<nt;i++){ for(j=0;j<c0+nt;j++) RA(A,i,j)=(j==c0+i); }
     mzed_t*M=mk(ff,A); njt_mzed_t*T[6]; for(i=0;i<nt;i++) T[i]=mzed_make_table(NULL,M,i,c0+i);
     int s=nt,en=nt+rn(r-nt+1); snprintf(case_desc,250,"mzed_process_rows%d e=%d minpoly=%lx %dx%d startcol=%d rows %d..%d",nt,e,(long)p,r,c,c0,s,en);
     switch(nt){case 1:mzed_process_rows(M,s,en,c0,T[0]);break;case 2:mzed_process_rows2(M,s,en,c0,T[0],T[1]);break;case 3:mzed_process_rows3(M,s,en,c0,T[0],T[1],T[2]);break;case 4:mzed_process_rows4(M,s,en,c0,T[0],T[1],T[2],T[3]);break;case 5:mzed_process_rows5(M,s,en,c0,T[0],T[1],T[2],T[3],T[4]);break;default:mzed_process_rows6(M,s,en,c0,T[0],T[1],T[2],T[3],T[4],T[5]);}
     for(i=s;i<en;i++){ u16 f[6]; for(k=0;k<nt;k++) f[k]=RA(A,i,c0+k); for(k=0;k<nt;k++)for(j=c0;j<c;j++) RA(A,i,j)^=rmul(f[k],RA(A,k,j),p); }
     chk_m(M,A,"mzed_process_rows"); for(i=0;i<nt;i++) njt_mzed_free(T[i]); mzed_free(M); rfree(A);} 
}
/* ---------------- C07 ---------------- */
static void C07(void){ wcol64=1; walign=0; int t,e; static int es[]={2,3,4,5,8,7,9,10}; for(t=0;t<REP(60);t++){ e=es[t%8]; u64 p; int per=64/wof(e); int base= per<=8? 2*per:per; int lim=e<=2?140:e<=8?90:40; (void)base;
   if(CASE("strassen mul it=%d",t)){ p=pick_poly(e,t%3); int c=1+rn(3); cut_=c*per/2+rn(per); if(cut_<2)cut_=2; int m=2*per+rn(lim),k=2*per+rn(lim),n=2*per+rn(lim); if(rn(4)==0)m=2*per; if(rn(4)==0)k=2*per*(1+rn(2)); if(rn(4)==0)n=2*per; mulcase("mzed_mul_strassen",f_str,0,1,e,p,m,k,n,0,kind(),0);} 
   if(CASE("strassen addmul it=%d",t)){ p=pick_poly(e,t%3); int c=1+rn(3); cut_=c*per/2+rn(per); if(cut_<2)cut_=2; int m=2*per+rn(lim),k=2*per+rn(lim),n=2*per+rn(lim); if(rn(4)==0)m=2*per; if(rn(4)==0)k=2*per*(1+rn(2)); if(rn(4)==0)n=2*per; mulcase("mzed_addmul_strassen",f_astr,1,0,e,p,m,k,n,0,0,0);} 
   if(CASE("strassen any cutoff it=%d",t)){ p=pick_poly(e,t%3); static int cs[]={0,0,1,2,3,5,7,8,15,31,33,64,100,1000,1<<20}; cut_=cs[rn(15)]; int d=3*per<lim?3*per:lim; mulcase(t&1?"mzed_addmul_strassen":"mzed_mul_strassen",t&1?f_astr:f_str,t&1,t&1?0:1,e,p,1+rn(d),1+rn(d),1+rn(d),kind(),kind(),0);} 
   if(t%3==0&&CASE("strassen square it=%d",t)){ p=pick_poly(e,2); cut_=per/2+1+rn(per); int m=2*per+rn(lim); mulcase("mzed_mul_strassen",f_str,0,1,e,p,m,m,m,0,0,1);} 
   if(t%3==1&&CASE("strassen addmul square it=%d",t)){ p=pick_poly(e,2); cut_=per/2+1+rn(per); int m=2*per+rn(lim); mulcase("mzed_addmul_strassen",f_astr,1,0,e,p,m,m,m,0,0,1);} }
   for(e=2;e<=16;e++) if(CASE("strassen cutoff e=%d",e)){ gf2e*ff=field(pick_poly(e,2)); mzed_t*A=mzed_init(ff,3,3); if(_mzed_strassen_cutoff(A,A,A)<=0) fail("cutoff not positive"); mzed_free(A);} 
}
/* ---------------- C08 ---------------- */
static struct{mulf f;int which;gf2e*f1,*f2;int d[6];}dm;
static void bad_mul(void*x){ (void)x; mzed_t*A=mzed_init(dm.f1,dm.d[0],dm.d[1]),*Bm=mzed_init(dm.f2,dm.d[2],dm.d[3]),*C=dm.d[4]?mzed_init(dm.f1,dm.d[4],dm.d[5]):NULL; dm.f(C,A,Bm);} 
static smulf dsf; static void bad_smul(void*x){ (void)x; mzd_slice_t*A=mzd_slice_init(dm.f1,dm.d[0],dm.d[1]),*Bm=mzd_slice_init(dm.f2,dm.d[2],dm.d[3]),*C=dm.d[4]?mzd_slice_init(dm.f1,dm.d[4],dm.d[5]):NULL; dsf(C,A,Bm);} 
static void C08(void){ wcol64=1; walign=0; int e,t,i; struct{const char*n;mulf f;int acc,nul;}F[]={{"mzed_mul",mzed_mul,0,1},{"mzed_addmul",mzed_addmul,1,1},{"mzed_mul_naive",mzed_mul_naive,0,1},{"mzed_addmul_naive",mzed_addmul_naive,1,1},{"mzed_mul_karatsuba",mzed_mul_karatsuba,0,1},{"mzed_addmul_karatsuba",mzed_addmul_karatsuba,1,0},{"mzed_mul_newton_john",mzed_mul_newton_john,0,1},{"mzed_addmul_newton_john",mzed_addmul_newton_john,1,1},{"mzed_mul_strassen",f_str,0,1},{"mzed_addmul_strassen",f_astr,1,1},{"mzed_mul_blm",mzed_mul_blm,0,1},{"mzed_addmul_blm",mzed_addmul_blm,1,0},{"_mzed_mul_naive",_mzed_mul_naive,1,0},{"_mzed_addmul",_mzed_addmul,1,0}};
  struct{const char*n;smulf f;int acc,nul;}G[]={{"mzd_slice_mul",mzd_slice_mul,0,1},{"mzd_slice_addmul",mzd_slice_addmul,1,0},{"mzd_slice_mul_blm",s_blm,0,1},{"mzd_slice_addmul_blm",s_ablm,1,0},{"mzd_slice_mul_karatsuba",mzd_slice_mul_karatsuba,0,1},{"mzd_slice_addmul_karatsuba",mzd_slice_addmul_karatsuba,1,0}};
  for(t=0;t<REP(3);t++) for(e=2;e<=16;e++){ for(i=0;i<14;i++) if(CASE("%s e=%d it=%d",F[i].n,e,t)){ u64 p=pick_poly(e,2); cut_=32+rn(64); int mx=e<=8?70:20; mulcase(F[i].n,F[i].f,F[i].acc,F[i].nul,e,p,rsz(mx),rsz(mx),rsz(mx),0,kind(),0);} 
    for(i=0;i<6;i++) if(CASE("%s e=%d it=%d",G[i].n,e,t)){ u64 p=pick_poly(e,2); int mx=40; smulcase(G[i].n,G[i].f,G[i].acc,G[i].nul,e,p,rsz(mx),rsz(mx),rsz(mx),0,kind(),0);} }
  for(t=0;t<(tier?8:3);t++) for(e=2;e<=16;e+= (tier||e<4)?1:3) for(i=0;i<2;i++) if(CASE("%s large e=%d it=%d",F[i].n,e,t)){ u64 p=pick_poly(e,2); static int ka[]={0,1,2,6,5,2,1,0},kb[]={2,2,1,2,2,5,1,2}; mulcase(F[i].n,F[i].f,F[i].acc,F[i].nul,e,p,512+rn(2),512+rn(3),512+rn(2),ka[t],kb[t],0);}
  for(t=0;t<(tier?6:3);t++) for(i=0;i<2;i++) if(CASE("%s around the threshold it=%d",F[i].n,t)){ e=2+t%3; u64 p=pick_poly(e,2); int d[3]={512,512,512}; d[t%3]=511-(int)rn(2)*rn(64); mulcase(F[i].n,F[i].f,F[i].acc,F[i].nul,e,p,d[0],d[1],d[2],rn(3),2,0);}
  for(t=0;t<4;t++) if(CASE("%s large square it=%d",F[t&1].n,t)){ u64 p=pick_poly(2+t,2); int d=512+rn(3); mulcase(F[t&1].n,F[t&1].f,F[t&1].acc,F[t&1].nul,2+t,p,d,d,d,2,2,1);} 
  if(CASE("_mzed_mul into a dirty large destination")){ mulcase("_mzed_mul",_mzed_mul,0,0,2,7,512,512,512,0,2,0);} 
  if(CASE("_mzed_mul into a dirty small destination")){ mulcase("_mzed_mul",_mzed_mul,0,0,3,11,40,40,40,0,0,0);} 
  /* refusal of incompatible operands */
  for(i=0;i<12;i++) for(t=0;t<5;t++) if(CASE("%s refuses mismatch %d",F[i].n,t)){ cut_=64; int D[5][6]={{3,4,5,3,0,0},{3,4,4,3,4,3},{3,4,4,3,3,4},{3,4,3,3,3,3},{3,4,4,3,3,3}}; gf2e*f1=field(7*0+0x13),*f2=field(0x19); dm.f=F[i].f; dm.f1=f1; dm.f2=t==4?f2:f1; memcpy(dm.d,D[t],sizeof D[t]); if(!F[i].nul&&t==0){dm.d[4]=3;dm.d[5]=3;} if(!dies(bad_mul,NULL)) fail("incompatible operands accepted"); }
  for(i=0;i<6;i++) for(t=0;t<5;t++) if(CASE("%s refuses mismatch %d",G[i].n,t)){ int D[5][6]={{3,4,5,3,0,0},{3,4,4,3,4,3},{3,4,4,3,3,4},{3,4,3,3,3,3},{3,4,4,3,3,3}}; gf2e*f1=field(0x13),*f2=field(0x19); dsf=G[i].f; dm.f1=f1; dm.f2=t==4?f2:f1; memcpy(dm.d,D[t],sizeof D[t]); if(!G[i].nul&&t==0){dm.d[4]=3;dm.d[5]=3;} if(!dies(bad_smul,NULL)) fail("incompatible operands accepted"); }
}
/* ---------------- C09 ---------------- */
static void C09(void){ wcol64=1; walign=0; int e,t,alg; static const char*nm[]={"naive","newton_john","recursive64","default","slice naive","slice newton_john","slice recursive64","slice default"};
  for(t=0;t<REP(9);t++) for(alg=0;alg<8;alg++) for(e=2;e<=16;e++){ int up=rn(2); if(!CASE("trsm alg=%d e=%d it=%d",alg,e,t)) continue; up=rn(2);
    u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int sl=alg>=4,a=alg&3; int n= a==2? 65+rn(140) : (a==1&&e<=6)? (1<<e)+1+rn(40): rsz(e<=8?70:40); int c= a==2? 65+rn(10): rsz(80); if(a==3&&t==0&&e==2){ n=513+rn(70); c=513+rn(3);} u32 q=1u<<e; int i,j;
    snprintf(case_desc,250,"trsm %s %s e=%d minpoly=%lx n=%d rhs=%d",up?"upper":"lower",nm[alg],e,(long)p,n,c);
    R*T=rrand(e,p,n,n,rn(4)?0:2),*Bm=rrand(e,p,n,c,kind()); for(i=0;i<n;i++) RA(T,i,i)= 1+rn(q-1); /* unused side stays noise */
    R*Tu=rcopy(T); for(i=0;i<n;i++)for(j=0;j<n;j++) if(up? j<i : j>i) RA(Tu,i,j)=0;
    if(rn(5)==0) { for(i=0;i<n;i++) for(j=0;j<n;j++) if(up? j<i : j>i) RA(T,i,j)=q-1; }
    R*X=NULL;
    if(!sl){ WM wT=mkw(ff,T,1),wB=mkw(ff,Bm,1); int w1=rn(2),w2=rn(2); mzed_t*MT=w1?wT.W:mk(ff,T),*MB=w2?wB.W:mk(ff,Bm);
      if(a==0) (up?mzed_trsm_upper_left_naive:mzed_trsm_lower_left_naive)(MT,MB); else if(a==1)(up?mzed_trsm_upper_left_newton_john:mzed_trsm_lower_left_newton_john)(MT,MB); else if(a==2)(up?_mzed_trsm_upper_left:_mzed_trsm_lower_left)(MT,MB,64); else (up?mzed_trsm_upper_left:mzed_trsm_lower_left)(MT,MB);
      X=rd(MB,ff); R*Y=rmm(Tu,X); if(!req(Y,Bm)) fail("triangular matrix times result differs from the right-hand side"); if(w2) chk_w(&wB,X,"rhs"); else { chk_clean(MB,"rhs"); mzed_free(MB);} if(w1) chk_w(&wT,T,"triangular matrix"); else { chk_m(MT,T,"triangular matrix"); mzed_free(MT);} rfree(Y); freew(&wT); freew(&wB);
    } else { WS wT=mkws(ff,T,1),wB=mkws(ff,Bm,1); int w1=rn(2),w2=rn(2); mzd_slice_t*MT=w1?wT.W:mks(ff,T),*MB=w2?wB.W:mks(ff,Bm);
      if(a==0)(up?mzd_slice_trsm_upper_left_naive:mzd_slice_trsm_lower_left_naive)(MT,MB); else if(a==1)(up?mzd_slice_trsm_upper_left_newton_john:mzd_slice_trsm_lower_left_newton_john)(MT,MB); else if(a==2)(up?_mzd_slice_trsm_upper_left:_mzd_slice_trsm_lower_left)(MT,MB,64); else (up?mzd_slice_trsm_upper_left:mzd_slice_trsm_lower_left)(MT,MB);
      X=rds(MB,ff); R*Y=rmm(Tu,X); if(!req(Y,Bm)) fail("triangular matrix times result differs from the right-hand side"); if(w2) chk_ws(&wB,X,"rhs"); else { chk_clean_s(MB,"rhs"); mzd_slice_free(MB);} if(w1) chk_ws(&wT,T,"triangular matrix"); else { chk_s(MT,T,"triangular matrix"); mzd_slice_free(MT);} rfree(Y); freews(&wT); freews(&wB); }
    rfree(X); rfree(T); rfree(Tu); rfree(Bm);} }
/* ---------------- C10 ---------------- */
/* PLE convention: P: rows swapped i<->P[i] in order i=0..r-1 (applied to A from the left).
   After the call the first r rows/columns hold L (lower, pivots on the diagonal, compressed to the left by
   column swaps Q in rows >= i) and E strictly right of the pivot columns with unit leading entries. */
static void chk_ple(const char*nm,const R*A0,const R*X,mzp_t*P,mzp_t*Q,int r){ int m=A0->r,n=A0->c,i,j,k; u64 p=A0->m; int e=A0->e;
  int rk=rrank(A0); if(r!=rk) fail("%s: rank %d expected %d",nm,r,rk);
  for(i=0;i<m;i++) if(P->values[i]<i||P->values[i]>=m) fail("%s: P[%d]=%d",nm,i,P->values[i]);
  for(i=0;i<r;i++) if(Q->values[i]<i||Q->values[i]>=n||(i&&Q->values[i]<=Q->values[i-1])) fail("%s: pivot column Q[%d]=%d",nm,i,Q->values[i]);
  for(i=0;i<r;i++) if(RA(X,i,i)==0) fail("%s: zero pivot at %d",nm,i);
  R*L=rnew(e,p,m,r),*E=rnew(e,p,r,n); for(i=0;i<m;i++)for(j=0;j<r&&j<=i;j++) RA(L,i,j)=RA(X,i,j);
  for(i=0;i<r;i++){ RA(E,i,Q->values[i])=1; for(j=Q->values[i]+1;j<n;j++) RA(E,i,j)=RA(X,i,j);} 
  R*LE=rmm(L,E); R*PA=rcopy(A0); for(i=0;i<m;i++){ int t=P->values[i]; if(t!=i) for(j=0;j<n;j++){u16 x=RA(PA,i,j);RA(PA,i,j)=RA(PA,t,j);RA(PA,t,j)=x;} }
  if(!req(LE,PA)) fail("%s: L*E differs from P*A",nm);
  for(i=0;i<m;i++)for(j=r;j<n;j++){ if(i<r&&j>Q->values[i]) continue; if(RA(X,i,j)) fail("%s: entry (%d,%d) outside L and E is %x",nm,i,j,RA(X,i,j)); }
  for(i=0;i<r;i++)for(j=i+1;j<r&&j<=Q->values[i];j++) if(RA(X,i,j)) fail("%s: entry (%d,%d) between L and E is %x",nm,i,j,RA(X,i,j));
  (void)k; rfree(L);rfree(E);rfree(LE);rfree(PA);} 
/* recursion compresses L: column swaps are only applied to L part; both forms agree with the above reading */
static void chk_pluq(const char*nm,const R*A0,const R*X,mzp_t*P,mzp_t*Q,int r){ int m=A0->r,n=A0->c,i,j; u64 p=A0->m; int e=A0->e; int rk=rrank(A0); if(r!=rk) fail("%s: rank %d expected %d",nm,r,rk);
  R*L=rnew(e,p,m,r),*U=rnew(e,p,r,n); for(i=0;i<m;i++)for(j=0;j<r&&j<=i;j++) RA(L,i,j)=RA(X,i,j); for(i=0;i<r;i++){ if(RA(X,i,i)==0) fail("%s: zero pivot %d",nm,i); RA(U,i,i)=1; for(j=i+1;j<n;j++) RA(U,i,j)=RA(X,i,j);} R*LU=rmm(L,U);
  R*PA=rcopy(A0); for(i=0;i<m;i++){ int t=P->values[i]; if(t<i||t>=m) fail("%s: P[%d]=%d",nm,i,t); if(t!=i) for(j=0;j<n;j++){u16 x=RA(PA,i,j);RA(PA,i,j)=RA(PA,t,j);RA(PA,t,j)=x;} }
  for(i=0;i<n;i++){ int t=Q->values[i]; if(t<i||t>=n) fail("%s: Q[%d]=%d",nm,i,t); if(t!=i) for(j=0;j<m;j++){u16 x=RA(PA,j,i);RA(PA,j,i)=RA(PA,j,t);RA(PA,j,t)=x;} }
  for(i=r;i<n;i++) if(Q->values[i]<i||Q->values[i]>=n) fail("%s: Q[%d]=%d",nm,i,Q->values[i]);
  if(!req(LU,PA)) fail("%s: L*U differs from P*A*Q",nm); for(i=r;i<m;i++)for(j=r;j<n;j++) if(RA(X,i,j)) fail("%s: entry (%d,%d) below and right of the factors is %x",nm,i,j,RA(X,i,j)); rfree(L);rfree(U);rfree(LU);rfree(PA);} 
static void C10(void){ wcol64=1; walign=0; int e,t,alg; static const char*nm[]={"mzed_ple_naive","mzed_ple_newton_john","_mzed_ple","_mzd_slice_ple","_mzd_slice_pluq","mzed_ple"};
  for(t=0;t<REP(7);t++) for(alg=0;alg<6;alg++) for(e=2;e<=16;e++){ if(!CASE("ple alg=%d e=%d it=%d",alg,e,t)) continue; u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int big=alg>=2&&alg<5; int m,n; if(big){ m=e<=8? 1+(int)rn(100): 1+(int)rn(50); n=65+rn(140); if(rn(5)==0) n=1+rn(64);} else { m=rsz(e<=8?50:24); n=rsz(60);} int kd=t==0?0:1+(t%7); if(kd==4)kd=6; int cut=big?1+(int)rn(3000):0; if(big&&rn(2)) cut=1; 
    snprintf(case_desc,250,"%s e=%d minpoly=%lx %dx%d kind=%d cutoff=%d",nm[alg],e,(long)p,m,n,kd,cut);
    R*A=rrand(e,p,m,n,kd); mzp_t*P=mzp_init(m),*Q=mzp_init(n); int i,r; for(i=0;i<m;i++)P->values[i]=rn(2)?i:0; for(i=0;i<n;i++)Q->values[i]=rn(2)?i:0; if(big){ for(i=0;i<m;i++)P->values[i]=i; for(i=0;i<n;i++)Q->values[i]=i; } R*X;
    if(alg<3||alg==5){ WM w=mkw(ff,A,1); int win=rn(2); mzed_t*M=win?w.W:mk(ff,A); r= alg==0?mzed_ple_naive(M,P,Q):alg==1?mzed_ple_newton_john(M,P,Q):alg==2?_mzed_ple(M,P,Q,cut):mzed_ple(M,P,Q); X=rd(M,ff); if(win) chk_w(&w,X,nm[alg]); else { chk_clean(M,nm[alg]); mzed_free(M);} freew(&w); }
    else { walign=1; WS w=mkws(ff,A,1); walign=0; int win=rn(2); mzd_slice_t*M=win?w.W:mks(ff,A); r= alg==3?_mzd_slice_ple(M,P,Q,cut):_mzd_slice_pluq(M,P,Q,cut); X=rds(M,ff); if(win) chk_ws(&w,X,nm[alg]); else { chk_clean_s(M,nm[alg]); mzd_slice_free(M);} freews(&w); }
    if(alg==4) chk_pluq(nm[alg],A,X,P,Q,r); else chk_ple(nm[alg],A,X,P,Q,r); mzp_free(P);mzp_free(Q);rfree(A);rfree(X);} }
/* ---------------- C11 ---------------- */
static void chk_ech(const char*nm,const R*A0,const R*X,int r,int full){ int rk,i,j,last=-1; R*F=rrref(A0,&rk); if(r!=rk) fail("%s: rank %d expected %d",nm,r,rk);
  for(i=0;i<X->r;i++){ for(j=0;j<X->c;j++) if(RA(X,i,j)) break; if(i<r){ if(j==X->c) fail("%s: row %d is zero",nm,i); if(j<=last) fail("%s: leading column of row %d not to the right of the previous one",nm,i); if(RA(X,i,j)!=1) fail("%s: leading entry of row %d is %x",nm,i,RA(X,i,j)); last=j; if(full){ int k; for(k=0;k<i;k++) if(RA(X,k,j)) fail("%s: entry above pivot (%d,%d)",nm,k,j);} } else if(j<X->c) fail("%s: row %d beyond the rank is not zero",nm,i);} 
  R*G=rrref(X,NULL); if(!req(G,F)) fail("%s: row space changed",nm); if(full&&!req(F,X)) fail("%s: not the reduced echelon form",nm); rfree(F);rfree(G);} 
static void C11(void){ wcol64=1; walign=0; int e,t,alg; static const char*nm[]={"mzed_echelonize_naive","mzed_echelonize_newton_john","mzed_echelonize_ple","mzed_echelonize","mzd_slice_echelonize_ple"};
  for(t=0;t<REP(8);t++) for(alg=0;alg<5;alg++) for(e=2;e<=16;e++){ if(!CASE("echelon alg=%d e=%d it=%d",alg,e,t)) continue; if(e>12&&alg==1&&t%4) continue; u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int full=rn(2); int m=rsz(e<=8?90:20),n=rsz(e<=8?140:70); if(rn(4)==0){ n=64+rn(3); m=60+rn(10);} if(e>8&&m>24) m=24; int kd=t==0?0:1+(t%7); if(kd==4)kd=6; snprintf(case_desc,250,"%s e=%d minpoly=%lx %dx%d kind=%d full=%d",nm[alg],e,(long)p,m,n,kd,full);
    R*A=rrand(e,p,m,n,kd),*X; int r; 
    if(alg<4){ WM w=mkw(ff,A,1); int win=rn(2); mzed_t*M=win?w.W:mk(ff,A); r=alg==0?mzed_echelonize_naive(M,full):alg==1?mzed_echelonize_newton_john(M,full):alg==2?mzed_echelonize_ple(M,full):mzed_echelonize(M,full); X=rd(M,ff); if(win) chk_w(&w,X,nm[alg]); else { chk_clean(M,nm[alg]); mzed_free(M);} freew(&w);} 
    else { walign=1; WS w=mkws(ff,A,1); walign=0; int win=rn(2); mzd_slice_t*M=win?w.W:mks(ff,A); r=mzd_slice_echelonize_ple(M,full); X=rds(M,ff); if(win) chk_ws(&w,X,nm[alg]); else { chk_clean_s(M,nm[alg]); mzd_slice_free(M);} freews(&w);} 
    chk_ech(nm[alg],A,X,r,full); rfree(A); rfree(X);} 
  /* sizes beyond the PLE switch-over: 2^23 bits */
  for(t=0;t<(tier?4:2);t++) if(CASE("echelon large it=%d",t)){ e=16; u64 p=pick_poly(16,2); gf2e*ff=field(p); int n=520,m=510; int full=t&1; snprintf(case_desc,200,"mzed_echelonize large e=16 minpoly=%lx %dx%d full=%d",(long)p,m,n,full); R*A=rrand(e,p,m,n,t==1?5:3); /* low rank keeps it quick */ mzed_t*M=mk(ff,A); int r=mzed_echelonize(M,full); R*X=rd(M,ff); chk_clean(M,"large"); chk_ech("mzed_echelonize",A,X,r,full); mzed_free(M); rfree(A); rfree(X);} 
}
/* ---------------- C12 ---------------- */
static void blmcheck(const gf2e*ff,int fl,int gl,const int*p,int viadjb,int m,int k,int n){ int i,j; int ol=ff?ff->degree:fl+gl-1; blm_t*f=blm_init_crt(ff,fl,gl,p,1); if(f->F->ncols!=fl||f->G->ncols!=gl) fail("map shape");
  B*A[32],*Bb[32],*X[64]; mzd_t*a[32],*b[32],*x[64]; int full=fl+gl-1; for(i=0;i<fl;i++){A[i]=brand(m,k);a[i]=mkb(A[i]);} for(i=0;i<gl;i++){Bb[i]=brand(k,n);b[i]=mkb(Bb[i]);} for(i=0;i<full;i++) X[i]=bnew(m,n); for(i=0;i<ol;i++) x[i]=mzd_init(m,n);
  for(i=0;i<fl;i++)for(j=0;j<gl;j++){B*q=bmm(A[i],Bb[j]);badd(X[i+j],q);bfree(q);} if(ff) for(i=full-1;i>=ff->degree;i--) for(j=0;j<ff->degree;j++) if(ff->minpoly>>j&1) badd(X[i-ff->degree+j],X[i]);
  if(viadjb==0) _mzd_ptr_apply_blm_mzd(x,(const mzd_t**)a,(const mzd_t**)b,f); else if(viadjb==1) _mzd_ptr_apply_blm_djb(x,(const mzd_t**)a,(const mzd_t**)b,f); else _mzd_ptr_apply_blm(x,(const mzd_t**)a,(const mzd_t**)b,f);
  for(i=0;i<ol;i++){ char s[64]; sprintf(s,"coefficient %d of the product",i); if(i<full) chk_b(x[i],X[i],s); mzd_free(x[i]); } for(i=0;i<full;i++) bfree(X[i]); for(i=0;i<fl;i++){ chk_b(a[i],A[i],"operand"); bfree(A[i]); mzd_free(a[i]);} for(i=0;i<gl;i++){ chk_b(b[i],Bb[i],"operand"); bfree(Bb[i]); mzd_free(b[i]);} blm_free(f);} 
static void C12(void){ int fl,gl,t,e; 
  for(fl=1;fl<=16;fl++)for(gl=1;gl<=16;gl++) for(t=0;t<REP(1);t++) if(CASE("crt_init lengths %d,%d it=%d",fl,gl,t)){ int*p=crt_init(fl,gl); int d,s=p[0]; for(d=1;d<=16;d++) s+=d*p[d]; if(s<fl+gl-1) fail("crt_init: degrees sum to %d < %d",s,fl+gl-1); blmcheck(NULL,fl,gl,p,rn(3),1+rn(3),1+rn(3),1+rn(66)); m4ri_mm_free(p);} 
  for(e=2;e<=16;e++) for(t=0;t<REP(3);t++){ if(CASE("crt with reduction e=%d it=%d",e,t)){ int*p=crt_init(e,e); gf2e*ff=field(pick_poly(e,t)); blmcheck(ff,e,e,p,rn(3),1+rn(3),1+rn(3),1+rn(66)); m4ri_mm_free(p);} 
    if(CASE("single prime e=%d it=%d",e,t)){ int p[17]; memset(p,0,sizeof p); p[e]=1; gf2e*ff=field(pick_poly(e,t)); blmcheck(ff,e,e,p,rn(3),1+rn(3),1+rn(3),1+rn(66)); } }
  for(t=0;t<REP(60);t++) if(CASE("random prime list it=%d",t)){ int p[17],d,s; fl=1+rn(16);gl=1+rn(16); memset(p,0,sizeof p); p[0]=rn(2)?rn((fl<gl?fl:gl)<7?(fl<gl?fl:gl)+1:8):0; s=p[0]; int g=0; while(s<fl+gl-1&&g++<1000){ d=1+rn(8); if(p[d]<nirr[d]){p[d]++;s+=d;} } snprintf(case_desc,250,"blm lengths %d,%d primes w=%d d1=%d d2=%d d3=%d d4=%d d5=%d d6=%d d7=%d d8=%d",fl,gl,p[0],p[1],p[2],p[3],p[4],p[5],p[6],p[7],p[8]); blmcheck(NULL,fl,gl,p,rn(3),1+rn(2),1+rn(2),1+rn(66)); }
  for(e=2;e<=16;e++) for(t=0;t<REP(2);t++){ if(CASE("slice blm e=%d it=%d",e,t)){ smulcase("mzd_slice_mul_blm",s_blm,0,1,e,pick_poly(e,2),1+rn(8),1+rn(8),1+rn(70),0,0,0);} if(CASE("slice addmul blm e=%d it=%d",e,t)){ smulcase("mzd_slice_addmul_blm",s_ablm,1,0,e,pick_poly(e,2),1+rn(8),1+rn(8),1+rn(70),0,0,0);} }
  if(CASE("blm without compiled maps can be freed")){ int*p=crt_init(3,4); blm_t*f=blm_init_crt(NULL,3,4,p,0); B*A[3],*Bb[4],*X[6]; mzd_t*a[3],*b[4],*x[6]; int i,j; for(i=0;i<3;i++){A[i]=brand(2,2);a[i]=mkb(A[i]);} for(i=0;i<4;i++){Bb[i]=brand(2,2);b[i]=mkb(Bb[i]);} for(i=0;i<6;i++){X[i]=bnew(2,2);x[i]=mzd_init(2,2);} for(i=0;i<3;i++)for(j=0;j<4;j++){B*q=bmm(A[i],Bb[j]);badd(X[i+j],q);bfree(q);} _mzd_ptr_apply_blm(x,(const mzd_t**)a,(const mzd_t**)b,f); for(i=0;i<6;i++) chk_b(x[i],X[i],"product"); blm_free(f); m4ri_mm_free(p);} 
}
/* ---------------- C13 ---------------- */
static void C13(void){ wcol64=0; walign=0; int e,t,op; static const char*nm[]={"copy","add","concat","stack","submatrix","window","set_ui","row_swap","col_swap","col_swap_in_rows","copy_row","add in place","init"};
  for(t=0;t<REP(5);t++) for(op=0;op<13;op++) for(e=2;e<=16;e++){ if(!CASE("structure %s e=%d it=%d",nm[op],e,t)) continue; u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int sl=rn(2),ww=sl?1:wof(e),per=64/ww; int r=1+rn(6),c=rsz(sl?150:100); int i,j; R*A=rrand(e,p,r,c,rn(2)?0:kind()); snprintf(case_desc,250,"%s %s e=%d minpoly=%lx %dx%d",sl?"sliced":"packed",nm[op],e,(long)p,r,c);
    walign=(op==2||op==3); WM wm; WS ws; int win=rn(2); mzed_t*M=NULL; mzd_slice_t*S=NULL; if(sl){ ws=mkws(ff,A,1); S=win?ws.W:mks(ff,A);} else { wm=mkw(ff,A,1); M=win?wm.W:mk(ff,A);} 
    R*X=NULL; mzed_t*N=NULL,*O=NULL; mzd_slice_t*NS=NULL,*OS=NULL; int nul=rn(2); R*Bm=NULL; int changed=0;
    switch(op){
    case 0: { X=rcopy(A); if(!nul){ R*D=rrand(e,p,r,c,0); if(sl)NS=mks(ff,D); else N=mk(ff,D); rfree(D);} if(sl) NS=mzd_slice_copy(NS,S); else N=mzed_copy(N,M); if(!sl){ mzed_t*Z=mzed_copy(M,M); if(Z!=M) fail("self copy"); } break; }
    case 1: { Bm=rrand(e,p,r,c,0); X=rcopy(A); raddto(X,Bm); if(!nul){ R*D=rrand(e,p,r,c,0); if(sl)NS=mks(ff,D); else N=mk(ff,D); rfree(D);} if(sl){ OS=mks(ff,Bm); NS=mzd_slice_add(NS,S,OS);} else { O=mk(ff,Bm); N=mzed_add(N,M,O);} break; }
    case 2: { int c2=rsz(100); Bm=rrand(e,p,r,c2,0); X=rnew(e,p,r,c+c2); for(i=0;i<r;i++){ for(j=0;j<c;j++)RA(X,i,j)=RA(A,i,j); for(j=0;j<c2;j++)RA(X,i,c+j)=RA(Bm,i,j);} if(!nul){ R*D=rrand(e,p,r,c+c2,0); if(sl)NS=mks(ff,D); else N=mk(ff,D); rfree(D);} if(sl){OS=mks(ff,Bm);NS=mzd_slice_concat(NS,S,OS);} else {O=mk(ff,Bm);N=mzed_concat(N,M,O);} break; }
    case 3: { int r2=1+rn(5); Bm=rrand(e,p,r2,c,0); X=rnew(e,p,r+r2,c); for(i=0;i<r;i++)for(j=0;j<c;j++)RA(X,i,j)=RA(A,i,j); for(i=0;i<r2;i++)for(j=0;j<c;j++)RA(X,r+i,j)=RA(Bm,i,j); if(!nul){ R*D=rrand(e,p,r+r2,c,0); if(sl)NS=mks(ff,D); else N=mk(ff,D); rfree(D);} if(sl){OS=mks(ff,Bm);NS=mzd_slice_stack(NS,S,OS);} else {O=mk(ff,Bm);N=mzed_stack(N,M,O);} break; }
    case 4: { int r0=rn(r),r1=r0+1+rn(r-r0),c0=rn(c),c1=c0+1+rn(c-c0); X=rnew(e,p,r1-r0,c1-c0); for(i=r0;i<r1;i++)for(j=c0;j<c1;j++)RA(X,i-r0,j-c0)=RA(A,i,j); if(!nul){ R*D=rrand(e,p,r1-r0,c1-c0,0); if(sl)NS=mks(ff,D); else N=mk(ff,D); rfree(D);} if(sl)NS=mzd_slice_submatrix(NS,S,r0,c0,r1,c1); else N=mzed_submatrix(N,M,r0,c0,r1,c1); break; }
    case 5: { int r0=rn(r),r1=r0+1+rn(r-r0),c0=per*rn((c-1)/per+1),c1=c0+1+rn(c-c0); if(sl){ mzd_slice_t*W=mzd_slice_init_window(S,r0,c0,r1,c1); if(W->nrows!=r1-r0||W->ncols!=c1-c0||W->finite_field!=ff) fail("window header"); for(i=r0;i<r1;i++)for(j=c0;j<c1;j++) if(mzd_slice_read_elem(W,i-r0,j-c0)!=RA(A,i,j)) fail("window read"); int a=rn(r1-r0),b=rn(c1-c0); u64 v=rn(1u<<e); mzd_slice_write_elem(W,a,b,v); RA(A,a+r0,b+c0)=v; mzd_slice_free_window(W);} else { mzed_t*W=mzed_init_window(M,r0,c0,r1,c1); if(W->nrows!=r1-r0||W->ncols!=c1-c0||W->finite_field!=ff||W->w!=wof(e)) fail("window header"); for(i=r0;i<r1;i++)for(j=c0;j<c1;j++) if(mzed_read_elem(W,i-r0,j-c0)!=RA(A,i,j)) fail("window read"); int a=rn(r1-r0),b=rn(c1-c0); u64 v=rn(1u<<e); mzed_write_elem(W,a,b,v); RA(A,a+r0,b+c0)=v; mzed_free_window(W);} break; }
    case 6: { u64 v=rn(3)?rn(1u<<e):rn(2); if(sl) mzd_slice_set_ui(S,v); else mzed_set_ui(M,v); for(i=0;i<r;i++)for(j=0;j<c;j++)RA(A,i,j)=i==j?v:0; break; }
    case 7: { int a=rn(r),b=rn(r); if(sl) mzd_slice_row_swap(S,a,b); else mzed_row_swap(M,a,b); for(j=0;j<c;j++){u16 x=RA(A,a,j);RA(A,a,j)=RA(A,b,j);RA(A,b,j)=x;} break; }
    case 8: { int a=rn(c),b=rn(c); if(sl) mzd_slice_col_swap(S,a,b); else mzed_col_swap(M,a,b); for(j=0;j<r;j++){u16 x=RA(A,j,a);RA(A,j,a)=RA(A,j,b);RA(A,j,b)=x;} break; }
    case 9: { int a=rn(c),b=rn(c),s=rn(r),q=s+rn(r-s+1); if(sl) mzd_slice_col_swap_in_rows(S,a,b,s,q); else mzed_col_swap_in_rows(M,a,b,s,q); for(j=s;j<q;j++){u16 x=RA(A,j,a);RA(A,j,a)=RA(A,j,b);RA(A,j,b)=x;} break; }
    case 10:{ Bm=rrand(e,p,r,c,0); int a=rn(r),b=rn(r); if(sl){OS=mks(ff,Bm);mzd_slice_copy_row(S,a,OS,b);} else {O=mk(ff,Bm);mzed_copy_row(M,a,O,b);} for(j=0;j<c;j++)RA(A,a,j)=RA(Bm,b,j); break; }
    case 11:{ Bm=rrand(e,p,r,c,0); if(sl){OS=mks(ff,Bm); if(rn(2)) mzd_slice_add(S,S,OS); else _mzd_slice_add(S,OS,S);} else {O=mk(ff,Bm); if(rn(2)) mzed_add(M,M,O); else _mzed_add(M,O,M);} raddto(A,Bm); break; }
    case 12:{ R*Z=rnew(e,p,r,c); if(sl){ NS=mzd_slice_init(ff,r,c);} else N=mzed_init(ff,r,c); X=Z; break; }
    } (void)changed;
    if(X){ if(sl){ chk_s(NS,X,nm[op]); mzd_slice_free(NS);} else { chk_m(N,X,nm[op]); mzed_free(N);} rfree(X);} if(Bm){ if(sl){chk_s(OS,Bm,"second source");mzd_slice_free(OS);} else if(O){chk_m(O,Bm,"second source");mzed_free(O);} rfree(Bm);} 
    if(sl){ if(win) chk_ws(&ws,A,nm[op]); else { chk_s(S,A,nm[op]); mzd_slice_free(S);} freews(&ws);} else { if(win) chk_w(&wm,A,nm[op]); else { chk_m(M,A,nm[op]); mzed_free(M);} freew(&wm);} rfree(A);} }
/* ---------------- C15 ---------------- */
static void C15(void){ wcol64=0; walign=0; int e,t; for(t=0;t<REP(12);t++) for(e=2;e<=16;e++){ 
   if(CASE("packed scalar e=%d it=%d",e,t)){ u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int r=1+rn(6),c=rsz(150),i,j; if(t==0){ r=363+rn(3); c=364+rn(20); } R*A=rrand(e,p,r,c,rn(3)?0:kind()); u64 a=rn(4)==0?rn(2):rn(1u<<e); snprintf(case_desc,200,"mzed_mul_scalar e=%d minpoly=%lx %dx%d scalar %lx",e,(long)p,r,c,(long)a); R*X=rcopy(A); for(i=0;i<r;i++)for(j=0;j<c;j++)RA(X,i,j)=rmul(RA(A,i,j),a,p); WM wA=mkw(ff,A,1); int w1=rn(2); mzed_t*M=w1?wA.W:mk(ff,A); R*D=rrand(e,p,r,c,0); int dst=rn(3); WM wC; mzed_t*C=NULL; if(dst==1) C=mk(ff,D); else if(dst==2){wC=mkw(ff,D,1);C=wC.W;} mzed_t*N=mzed_mul_scalar(C,a,M); if(C&&N!=C) fail("result pointer"); if(dst==2){chk_w(&wC,X,"mzed_mul_scalar");freew(&wC);} else {chk_m(N,X,"mzed_mul_scalar");mzed_free(N);} if(w1) chk_w(&wA,A,"source"); else {chk_m(M,A,"source");mzed_free(M);} freew(&wA); rfree(A);rfree(X);rfree(D);} 
   if(CASE("slice scalar e=%d it=%d",e,t)){ u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int r=1+rn(6),c=rsz(150),i,j; R*A=rrand(e,p,r,c,rn(3)?0:kind()); u64 a=rn(4)==0?rn(2):rn(1u<<e); if(t<4) a=1u<<(e-1-t%2); int acc=rn(2); snprintf(case_desc,200,"mzd_slice_%smul_scalar e=%d minpoly=%lx %dx%d scalar %lx",acc?"add":"",e,(long)p,r,c,(long)a); R*X=rcopy(A); for(i=0;i<r;i++)for(j=0;j<c;j++)RA(X,i,j)=rmul(RA(A,i,j),a,p); WS wA=mkws(ff,A,1); int w1=rn(2); mzd_slice_t*M=w1?wA.W:mks(ff,A); R*D=rrand(e,p,r,c,0); int dst=acc?1+rn(2):rn(3); WS wC; mzd_slice_t*C=NULL; if(dst==1) C=mks(ff,D); else if(dst==2){wC=mkws(ff,D,1);C=wC.W;} mzd_slice_t*N=acc?mzd_slice_addmul_scalar(C,a,M):mzd_slice_mul_scalar(C,a,M); if(acc) raddto(X,D); if(dst==2){chk_ws(&wC,X,"mzd_slice_mul_scalar");freews(&wC);} else {chk_s(N,X,"mzd_slice_mul_scalar");mzd_slice_free(N);} if(w1) chk_ws(&wA,A,"source"); else {chk_s(M,A,"source");mzd_slice_free(M);} freews(&wA); rfree(A);rfree(X);rfree(D);} 
   if(t<2&&CASE("t16 table e=%d it=%d",e,t)){ u64 p=pick_poly(e,2); gf2e*ff=field(p); u64 a=rn(1u<<e); word*T=gf2e_t16_init(ff,a); u64 i; int w=wof(e),k; for(i=0;i<65536;i++){ u64 x=0; int ok=1; for(k=0;k<16;k+=w){ u64 v=i>>k&((1u<<w)-1); if(v>>e){ok=0;break;} x|=rmul(a,v,p)<<k; } if(ok&&T[i]!=x) fail("t16[%lx]=%lx expected %lx",(long)i,(long)T[i],(long)x);} gf2e_t16_free(T);} } }
/* ---------------- C16 ---------------- */
static void C16(void){ wcol64=1; walign=0; int e,t; for(t=0;t<REP(8);t++) for(e=2;e<=16;e++){ if(!CASE("inverse e=%d it=%d",e,t)) continue; if(e>12&&t%4) continue; u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int n=rsz(e<=8?80:e<=12?24:9),i,j; R*A; int k=0; do{ A=rrand(e,p,n,n,(t%4==1)?7:(t%4==2)?2:0); if(t%4==3||k>4){ /* permuted triangular */ for(i=0;i<n;i++)for(j=0;j<n;j++) if(j<i) RA(A,i,j)=0; else if(i==j) RA(A,i,j)=1+rn((1u<<e)-1); for(i=n-1;i>0;i--){int s=rn(i+1);for(j=0;j<n;j++){u16 x=RA(A,i,j);RA(A,i,j)=RA(A,s,j);RA(A,s,j)=x;}} } if(rrank(A)==n) break; rfree(A); k++; }while(1);
   snprintf(case_desc,200,"inverse e=%d minpoly=%lx n=%d",e,(long)p,n); WM w=mkw(ff,A,1); int win=rn(2); mzed_t*M=win?w.W:mk(ff,A); R*D=rrand(e,p,n,n,0); mzed_t*C=rn(2)?mk(ff,D):NULL; mzed_t*V=mzed_invert_newton_john(C,M); if(C&&V!=C) fail("result pointer"); chk_clean(V,"inverse"); R*X=rd(V,ff); R*I=rmm(A,X); for(i=0;i<n;i++)for(j=0;j<n;j++) if(RA(I,i,j)!=(i==j)) fail("A*inv(A) at (%d,%d) is %x",i,j,RA(I,i,j)); if(win) chk_w(&w,A,"input"); else {chk_m(M,A,"input");mzed_free(M);} freew(&w); mzed_free(V); rfree(X);rfree(I);rfree(A);rfree(D);} }
/* ---------------- C17 ---------------- */
static void C17(void){ wcol64=0; walign=0; int e,t; for(t=0;t<REP(14);t++) for(e=2;e<=16;e++){ if(!CASE("compare e=%d it=%d",e,t)) continue; u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int r=1+rn(6),c=rsz(140); R*A=rrand(e,p,r,c,rn(2)?0:1); R*Bm=rcopy(A); int diff=rn(3)!=0; if(diff){ int i=rn(r),j=rn(3)?(int)rn(c):(rn(2)?c-1:0); RA(Bm,i,j)^= rn(2)? 1u<<rn(e) : 1+rn((1u<<e)-1); } snprintf(case_desc,200,"compare e=%d minpoly=%lx %dx%d differ=%d",e,(long)p,r,c,diff);
    if(t&1){ WM a=mkw(ff,A,1),b=mkw(ff,Bm,1); mzed_t*x=rn(2)?a.W:mk(ff,A),*y=rn(2)?b.W:mk(ff,Bm); int v=mzed_cmp(x,y),u=mzed_cmp(y,x); if((v!=0)!=diff||(u!=0)!=diff) fail("mzed_cmp=%d/%d differ=%d",v,u,diff); if(v!=-u) fail("mzed_cmp not antisymmetric: %d and %d",v,u); if(mzed_cmp(x,x)) fail("cmp(x,x)"); R*Z=rnew(e,p,r,c); int za=req(A,Z),zb=req(Bm,Z); if((mzed_is_zero(x)!=0)!=za||(mzed_is_zero(y)!=0)!=zb) fail("mzed_is_zero"); rfree(Z); if(x!=a.W)mzed_free(x); if(y!=b.W)mzed_free(y); freew(&a);freew(&b);} 
    else { WS a=mkws(ff,A,1),b=mkws(ff,Bm,1); mzd_slice_t*x=rn(2)?a.W:mks(ff,A),*y=rn(2)?b.W:mks(ff,Bm); int v=mzd_slice_cmp(x,y),u=mzd_slice_cmp(y,x); if((v!=0)!=diff||(u!=0)!=diff) fail("mzd_slice_cmp=%d/%d differ=%d",v,u,diff); if(mzd_slice_cmp(x,x)) fail("cmp(x,x)"); R*Z=rnew(e,p,r,c); int za=req(A,Z),zb=req(Bm,Z); if((mzd_slice_is_zero(x)!=0)!=za||(mzd_slice_is_zero(y)!=0)!=zb) fail("mzd_slice_is_zero"); rfree(Z); if(x!=a.W)mzd_slice_free(x); if(y!=b.W)mzd_slice_free(y); freews(&a);freews(&b);} rfree(A);rfree(Bm);} 
   /* single-bit differences everywhere */
   for(e=2;e<=16;e++) if(CASE("single bit compare e=%d",e)){ u64 p=pick_poly(e,2); gf2e*ff=field(p); int c=64/wof(e)*2+3,i,j,b; R*Z=rnew(e,p,2,c); mzed_t*O=mk(ff,Z),*M=mk(ff,Z); mzd_slice_t*OS=mks(ff,Z),*S=mks(ff,Z); for(i=0;i<2;i++)for(j=0;j<c;j++)for(b=0;b<e;b++){ M->x->rows[i][j*wof(e)/64]^=1ull<<(j*wof(e)%64+b); S->x[b]->rows[i][j/64]^=1ull<<(j%64); if(!mzed_cmp(M,O)||mzed_is_zero(M)||!mzd_slice_cmp(S,OS)||mzd_slice_is_zero(S)) fail("difference in bit %d of (%d,%d) overlooked",b,i,j); M->x->rows[i][j*wof(e)/64]^=1ull<<(j*wof(e)%64+b); S->x[b]->rows[i][j/64]^=1ull<<(j%64);} if(mzed_cmp(M,O)||!mzed_is_zero(M)||mzd_slice_cmp(S,OS)||!mzd_slice_is_zero(S)) fail("equal matrices"); mzed_free(O);mzed_free(M);mzd_slice_free(S);mzd_slice_free(OS);rfree(Z);} }
/* ---------------- C18 ---------------- */
static int cmpu(const void*a,const void*b){ u64 x=*(u64*)a,y=*(u64*)b; return x<y?-1:x>y; }
static void C18(void){ int d; for(d=1;d<=16;d++) if(CASE("irreducible polynomials of degree %d",d)){ const word*T=irreducible_polynomials[d]; if(T[0]!=(word)nirr[d]) fail("count %ld expected %d",(long)T[0],nirr[d]); u64*s=malloc(8*nirr[d]); int i; for(i=0;i<nirr[d];i++) s[i]=T[1+i]; qsort(s,nirr[d],8,cmpu); for(i=0;i<nirr[d];i++) if(s[i]!=irr[d][i]) fail("sorted entry %d is %lx expected %lx",i,(long)s[i],(long)irr[d][i]); free(s);} }
/* ---------------- C19 ---------------- */
static void C19(void){ wcol64=0; walign=0; int e,t,op; for(t=0;t<REP(6);t++) for(op=0;op<8;op++) for(e=2;e<=16;e++){ if(!CASE("permutation op=%d e=%d it=%d",op,e,t)) continue; u64 p=pick_poly(e,t%3); gf2e*ff=field(p); int sl=op>=4,o=op&3; int r=rsz(70),c=rsz(140); if(r*c>4000) r=1+4000/c; R*A=rrand(e,p,r,c,0); int len=o<2?r:c,i,j; mzp_t*P=mzp_init(len); for(i=0;i<len;i++) P->values[i]= rn(3)? i : i+(int)rn(len-i); snprintf(case_desc,200,"%s permutation op=%d e=%d %dx%d",sl?"sliced":"packed",o,e,r,c);
    WM wm; WS ws; int win=rn(2); mzed_t*M=NULL; mzd_slice_t*S=NULL; if(sl){ws=mkws(ff,A,1);S=win?ws.W:mks(ff,A);} else {wm=mkw(ff,A,1);M=win?wm.W:mk(ff,A);} 
    if(sl){ if(o==0)mzd_slice_apply_p_left(S,P); else if(o==1)mzd_slice_apply_p_left_trans(S,P); else if(o==2)mzd_slice_apply_p_right(S,P); else mzd_slice_apply_p_right_trans(S,P);} else { if(o==0)mzed_apply_p_left(M,P); else if(o==1)mzed_apply_p_left_trans(M,P); else if(o==2)mzed_apply_p_right(M,P); else mzed_apply_p_right_trans(M,P);} 
    int fwd=(o==0||o==3); for(i=fwd?0:len-1; fwd?i<len:i>=0; i+=fwd?1:-1){ int q=P->values[i]; if(o<2) for(j=0;j<c;j++){u16 x=RA(A,i,j);RA(A,i,j)=RA(A,q,j);RA(A,q,j)=x;} else for(j=0;j<r;j++){u16 x=RA(A,j,i);RA(A,j,i)=RA(A,j,q);RA(A,j,q)=x;} }
    if(sl){ if(win)chk_ws(&ws,A,"permutation"); else {chk_s(S,A,"permutation");mzd_slice_free(S);} freews(&ws);} else { if(win)chk_w(&wm,A,"permutation"); else {chk_m(M,A,"permutation");mzed_free(M);} freew(&wm);} mzp_free(P); rfree(A);} }
/* ---------------- C20 ---------------- */
static mzd_poly_t*mkp(B**A,int n,int r,int c){ mzd_poly_t*P=mzd_poly_init(n-1,r,c); int i; for(i=0;i<n;i++){ mzd_free(P->x[i]); P->x[i]=mkb(A[i]); } return P; }
static void C20(void){ int t,fl,gl; 
  for(t=0;t<REP(300);t++){ if(!CASE("poly mul it=%d",t)) continue; int alg=t%4; fl=1+rn(alg==3?6:12); gl=alg==1?fl:1+(int)rn(alg==3?6:12); if(alg==1){ fl=gl=1+rn(16);} if(alg==3&&t<40&&fl+gl>6){fl=1+rn(3);gl=1+rn(3);} int m=1+rn(5),k=1+rn(5),n=1+rn(70),i,j; int extra=alg==0?rn(3):0; snprintf(case_desc,200,"mzd_poly addmul alg=%s lengths %d,%d of %dx%dx%d",alg==0?"naive":alg==1?"karatsuba":alg==2?"crt":"ext1",fl,gl,m,k,n);
    B*A[20],*Bb[20],*C[64]; int ol=fl+gl-1; for(i=0;i<fl;i++)A[i]=brand(m,k); for(i=0;i<gl;i++)Bb[i]=brand(k,n); for(i=0;i<ol+extra;i++)C[i]=rn(6)?brand(m,n):bnew(m,n); mzd_poly_t*a=mkp(A,fl,m,k),*b=mkp(Bb,gl,k,n),*c=mkp(C,ol+extra,m,n);
    mzd_poly_t*x; if(alg==0)x=_mzd_poly_addmul_naive(c,a,b); else if(alg==1)x=_mzd_poly_addmul_karatsubs_balanced(c,a,b); else if(alg==2) { _mzd_poly_addmul_crt(c,a,b); x=c; } else { x=_mzd_poly_addmul_ext1(c,a,b); }
    if(x!=c) fail("result pointer"); for(i=0;i<fl;i++)for(j=0;j<gl;j++){B*q=bmm(A[i],Bb[j]);badd(C[i+j],q);bfree(q);} for(i=0;i<ol+extra;i++){char s[60];sprintf(s,"coefficient %d of C + A*B",i);chk_b(c->x[i],C[i],s);} for(i=0;i<fl;i++)chk_b(a->x[i],A[i],"A"); for(i=0;i<gl;i++)chk_b(b->x[i],Bb[i],"B"); for(i=0;i<fl;i++)bfree(A[i]); for(i=0;i<gl;i++)bfree(Bb[i]); for(i=0;i<ol+extra;i++)bfree(C[i]); mzd_poly_free(a);mzd_poly_free(b);mzd_poly_free(c);} 
  for(t=0;t<REP(60);t++) if(CASE("poly fresh destination it=%d",t)){ int alg=t%3; fl=1+rn(8); gl=alg==1?fl:1+(int)rn(8); int m=1+rn(4),k=1+rn(4),n=1+rn(70),i,j; B*A[20],*Bb[20],*C[64]; int ol=fl+gl-1; for(i=0;i<fl;i++)A[i]=brand(m,k); for(i=0;i<gl;i++)Bb[i]=brand(k,n); for(i=0;i<ol;i++)C[i]=bnew(m,n); mzd_poly_t*a=mkp(A,fl,m,k),*b=mkp(Bb,gl,k,n); snprintf(case_desc,200,"mzd_poly addmul into NULL alg=%d lengths %d,%d",alg,fl,gl); mzd_poly_t*x=alg==1?_mzd_poly_addmul_karatsubs_balanced(NULL,a,b):alg==2?_mzd_poly_addmul_crt(NULL,a,b):_mzd_poly_addmul_naive(NULL,a,b); for(i=0;i<fl;i++)for(j=0;j<gl;j++){B*q=bmm(A[i],Bb[j]);badd(C[i+j],q);bfree(q);} if(x->depth<ol) fail("depth"); for(i=0;i<x->depth;i++){ if(i<ol) chk_b(x->x[i],C[i],"coefficient"); else { B*z=bnew(m,n); chk_b(x->x[i],z,"leading coefficient"); bfree(z);} } for(i=0;i<fl;i++)bfree(A[i]); for(i=0;i<gl;i++)bfree(Bb[i]); for(i=0;i<ol;i++)bfree(C[i]); mzd_poly_free(a);mzd_poly_free(b);mzd_poly_free(x);} 
  for(t=0;t<REP(150);t++) if(CASE("poly add it=%d",t)){ int n=1+rn(36),off=rn(4),ex=rn(3),m=1+rn(4),c=1+rn(70),i; B*A[40],*Bb[40],*C[80]; for(i=0;i<n;i++){A[i]=brand(m,c);Bb[i]=brand(m,c);} for(i=0;i<n+off+ex;i++)C[i]=brand(m,c); mzd_poly_t*a=mkp(A,n,m,c),*b=mkp(Bb,n,m,c),*x=mkp(C,n+off+ex,m,c); snprintf(case_desc,200,"mzd_poly_add n=%d off=%d extra=%d",n,off,ex); if(off==0&&rn(2)) mzd_poly_add(x,a,b); else _mzd_poly_add(x,a,b,off); for(i=0;i<n;i++){ memset(C[i+off]->a,0,m*c); badd(C[i+off],A[i]); badd(C[i+off],Bb[i]); } for(i=0;i<n+off+ex;i++)chk_b(x->x[i],C[i],"sum"); if(mzd_poly_cmp(x,x)) fail("cmp"); mzd_poly_free(a);mzd_poly_free(b);mzd_poly_free(x); for(i=0;i<n;i++){bfree(A[i]);bfree(Bb[i]);} for(i=0;i<n+off+ex;i++)bfree(C[i]);} 
  for(t=0;t<REP(40);t++) if(CASE("poly resize history it=%d",t)){ int n=1+rn(6),m=1+rn(3),c=1+rn(70),i,q; B*C[64]; for(i=0;i<n;i++)C[i]=brand(m,c); mzd_poly_t*x=mkp(C,n,m,c); for(q=0;q<6;q++){ int nn=1+rn(20); _mzd_poly_adapt_depth(x,nn); if(x->depth!=nn) fail("depth"); for(i=n;i<nn;i++)C[i]=bnew(m,c); for(i=nn;i<n;i++)bfree(C[i]); n=nn; for(i=0;i<n;i++)chk_b(x->x[i],C[i],"coefficient after resize"); } mzd_poly_free(x); for(i=0;i<n;i++)bfree(C[i]);} }
/* ---------------- C14: everything, with emphasis on shapes at word boundaries ---------------- */
/* ---------------- known findings: the recorded inputs, see known_findings.txt ---------------- */
static u64 hashw(const mzed_t*P){ (void)P; return 0; }
static void KF1(void){ (void)hashw; wcol64=0; walign=0; int op; for(op=0;op<4;op++){ int sl=op&1,st=op>=2; if(!CASE("KF1 %s %s with a window whose right edge is not word aligned",sl?"sliced":"packed",st?"stack":"concat")) continue; gf2e*ff=field(7); int i,j; R*P=rnew(2,7,2,40),*X;  for(i=0;i<2;i++)for(j=0;j<40;j++) RA(P,i,j)=1+rn(3); X=st?rnew(2,7,4,5):rnew(2,7,2,10); for(i=0;i<X->r;i++)for(j=0;j<X->c;j++) RA(X,i,j)=RA(P,i%2,j%5);
   if(sl){ mzd_slice_t*M=mks(ff,P),*W=mzd_slice_init_window(M,0,0,2,5),*N=st?mzd_slice_stack(NULL,W,W):mzd_slice_concat(NULL,W,W); chk_s(N,X,"result"); } else { mzed_t*M=mk(ff,P),*W=mzed_init_window(M,0,0,2,5),*N=st?mzed_stack(NULL,W,W):mzed_concat(NULL,W,W); chk_m(N,X,"result"); } } }
static void KF2(void){ int alg; for(alg=0;alg<2;alg++){ if(!CASE("KF2 %s on a sliced window whose right edge is not word aligned",alg?"_mzd_slice_pluq":"_mzd_slice_ple")) continue; gf2e*ff=field(7); int i,j; R*P=rrand(2,7,100,200,0),*LU=rrand(2,7,100,74,6); for(i=0;i<100;i++)for(j=0;j<74;j++) RA(P,i,j)=RA(LU,i,j); mzd_slice_t*M=mks(ff,P),*W=mzd_slice_init_window(M,0,0,100,74); mzp_t*p=mzp_init(100),*q=mzp_init(74); if(alg) _mzd_slice_pluq(W,p,q,1); else _mzd_slice_ple(W,p,q,1); R*X=rds(M,ff); for(i=0;i<100;i++)for(j=74;j<200;j++) if(RA(X,i,j)!=RA(P,i,j)) fail("element (%d,%d) of the parent, right of the window, changed",i,j); } }
static void KF3(void){ if(!CASE("KF3 mzed_echelonize_newton_john on a packed window which starts at an odd word")) return; gf2e*ff=field(0x11b); int i,j; R*P=rnew(8,0x11b,40,8+60); for(i=0;i<P->r;i++)for(j=0;j<P->c;j++) RA(P,i,j)=rn(256); R*A=rnew(8,0x11b,40,60); for(i=0;i<40;i++)for(j=0;j<60;j++) RA(A,i,j)=RA(P,i,j+8); mzed_t*M=mk(ff,P),*W=mzed_init_window(M,0,8,40,68); int r=mzed_echelonize_newton_john(W,1); chk_ech("newton_john",A,rd(W,ff),r,1); }
static void (*cur14)(void);
static void C14(void){ long n; (void)n; C02();C03();C04();C13();C15();C17();C19(); C06(); C09(); C11(); C16(); C07(); C10(); C12(); C20(); (void)cur14; }
int main(int argc,char**argv){ struct{const char*n;void(*f)(void);}T[]={{"C01",C01},{"C02",C02},{"C03",C03},{"C04",C04},{"C05",C05},{"C06",C06},{"C07",C07},{"C08",C08},{"C09",C09},{"C10",C10},{"C11",C11},{"C12",C12},{"C13",C13},{"C14",C14},{"C15",C15},{"C16",C16},{"C17",C17},{"C18",C18},{"C19",C19},{"C20",C20},{"KF1",KF1},{"KF2",KF2},{"KF3",KF3}}; unsigned i; long pk=0,pn=1; double budget=0;
  if(argc<2) return 2; prop=argv[1]; for(i=2;(int)i<argc;i++){ if(!strcmp(argv[i],"--isolate")) isolate=1; else if(!strcmp(argv[i],"--seed")) seed0=strtoull(argv[++i],0,10)+1; else if(!strcmp(argv[i],"--tier")) tier=!strcmp(argv[++i],"thorough"); else if(!strcmp(argv[i],"--only")) case_only=atol(argv[++i]); else if(!strcmp(argv[i],"--part")){ pk=atol(argv[++i]); pn=atol(argv[++i]); } else if(!strcmp(argv[i],"--alarm")) alarm(atoi(argv[++i])); else if(!strcmp(argv[i],"--budget")) budget=atof(argv[++i]); }
  { static const struct{const char*n;int m;} Q[]={{"C02",60},{"C03",60},{"C04",40},{"C05",30},{"C06",25},{"C07",12},{"C08",5},{"C09",8},{"C10",25},{"C11",8},{"C12",40},{"C13",60},{"C14",4},{"C15",30},{"C16",30},{"C17",60},{"C19",60},{"C20",40}}; size_t q; for(q=0;q<sizeof Q/sizeof*Q;q++) if(!strcmp(prop,Q[q].n)) pmult=Q[q].m; }
  install(); set_part(pk,pn); if(budget>0) set_budget(budget); setvbuf(stdout,NULL,_IOLBF,0); irr_init();
  for(i=0;i<sizeof T/sizeof*T;i++) if(!strcmp(T[i].n,prop)){ T[i].f(); case_end(); printf("DONE prop=%s cases=%ld total=%ld\n",prop,cases_run,case_no); print_samples(); return 0; }
  return 2; }
