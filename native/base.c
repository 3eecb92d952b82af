#include "h.h"
u64 rs; long case_no=0,case_only=-1,cases_run=0,cases_nontrivial=0; int tier=0; u64 seed0=1; char case_desc[512]; const char*prop="?";
static double t_end=1e18;
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
void set_budget(double s){ t_end=now()+s; }
int out_of_time(void){ return case_only<0 && now()>t_end; }
static char samples[8][512]; static int nsamples=0;
static long part_k=0, part_n=1;
void set_part(long k,long n){part_k=k;part_n=n;}
int isolate=0; static int ischild=0; long nfailed=0;
void case_end(void){ if(ischild) _exit(0); }
int case_begin(const char*fmt,...){
  if(ischild) _exit(0);
  case_no++;
  if(case_only>=0 && case_no!=case_only) return 0;
  if(case_only<0 && (case_no%part_n)!=part_k) return 0;
  va_list ap; va_start(ap,fmt); vsnprintf(case_desc,sizeof case_desc,fmt,ap); va_end(ap);
  rs=seed0*0x9E3779B97F4A7C15ULL ^ ((u64)case_no*0xBF58476D1CE4E5B9ULL); if(!rs) rs=88172645463325252ULL; rnd();rnd();rnd();
  cases_run++;
  if(isolate){ int st; fflush(stdout); pid_t c=fork(); if(c==0){ ischild=1; alarm(60); return 1; } waitpid(c,&st,0); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) nfailed++; return 0; }
  if(nsamples<8 && (cases_run==1 || cases_run%97==0)) snprintf(samples[nsamples++],512,"#%ld %s",case_no,case_desc);
  return 1;
}
void print_samples(void){ int i; for(i=0;i<nsamples;i++) printf("SAMPLE %s\n",samples[i]); }
void fail(const char*fmt,...){
  va_list ap; printf("FAIL prop=%s case=%ld desc=[%s] what=[",prop,case_no,case_desc); va_start(ap,fmt); vprintf(fmt,ap); va_end(ap); printf("]\n"); fflush(stdout); _exit(3);
}
void __asan_on_error(void);
void __asan_on_error(void){ char b[700]; int n=snprintf(b,sizeof b,"FAIL prop=%s case=%ld desc=[%s] what=[memory error reported by AddressSanitizer]\n",prop,case_no,case_desc); if(write(1,b,n)){} }
static void onsig(int s){ char b[700]; int n=snprintf(b,sizeof b,"FAIL prop=%s case=%ld desc=[%s] what=[signal %d]\n",prop,case_no,case_desc,s); if(write(1,b,n)){} _exit(3); }
void install(void){ signal(SIGABRT,onsig); signal(SIGSEGV,onsig); signal(SIGFPE,onsig); signal(SIGBUS,onsig); signal(SIGALRM,onsig);}
/* m4ri_die ends in abort(): see signal handler */
int rirr(u64 p){ int d=rdeg(p),i; u64 x=2,y; if(d<1) return 0; if(d==1) return 1;
  /* trial division by everything of degree <= d/2 */
  for(y=2;rdeg(y)<=d/2;y++){ u64 t=p; int dy=rdeg(y); for(i=d;i>=dy;i--) if(t>>i&1) t^=y<<(i-dy); if(!t) return 0; } (void)x; return 1; }
u64*irr[17]; int nirr[17];
void irr_init(void){ int d; for(d=1;d<=16;d++){ u64 p; irr[d]=malloc(sizeof(u64)*5000); nirr[d]=0; for(p=1ull<<d;p<2ull<<d;p++) if(rirr(p)) irr[d][nirr[d]++]=p; } }
u64 pick_poly(int e,int which){ if(which==0) return irr[e][0]; if(which==1) return irr[e][nirr[e]-1]; return irr[e][rn(nirr[e])]; }
static struct{u64 p;gf2e*f;} fc[64]; static int nfc=0;
gf2e*field(u64 p){ int i; for(i=0;i<nfc;i++) if(fc[i].p==p) return fc[i].f; if(nfc==64){ for(i=0;i<64;i++) gf2e_free(fc[i].f); nfc=0;} fc[nfc].p=p; fc[nfc].f=gf2e_init(p); return fc[nfc++].f; }
R*rnew(int e,u64 m,int r,int c){ R*M=malloc(sizeof(R)); M->r=r;M->c=c;M->e=e;M->m=m; M->a=calloc((size_t)r*c+1,2); return M; }
void rfree(R*M){ if(M){free(M->a);free(M);} }
R*rcopy(const R*A){ R*M=rnew(A->e,A->m,A->r,A->c); memcpy(M->a,A->a,(size_t)A->r*A->c*2); return M; }
R*rmm(const R*A,const R*Bm){ R*C=rnew(A->e,A->m,A->r,Bm->c); int i,j,k; u64 m=A->m; int e=A->e;
  /* multiples of each B row by x^t, combined per entry */
  static u16 *lg=NULL,*ex=NULL; static u64 cur=0;
  if(cur!=m){ u64 g,x; u32 q=1u<<e,n; free(lg);free(ex); lg=calloc(q,2); ex=calloc(2*q,2); for(g=1;g<q;g++){ n=0;x=1; do{ x=rmul(x,g,m); n++; }while(x!=1&&n<q); if(n==q-1) break; } x=1; for(n=0;n<q-1;n++){ ex[n]=x; ex[n+q-1]=x; lg[x]=n; x=rmul(x,g,m);} cur=m; }
  for(i=0;i<A->r;i++) for(k=0;k<A->c;k++){ u16 a=RA(A,i,k); if(!a) continue; u32 la=lg[a]; u16*c=C->a+(size_t)i*C->c; u16*b=Bm->a+(size_t)k*Bm->c; for(j=0;j<Bm->c;j++) if(b[j]) c[j]^=ex[la+lg[b[j]]]; }
  return C; }
void raddto(R*A,const R*Bm){ size_t i; for(i=0;i<(size_t)A->r*A->c;i++) A->a[i]^=Bm->a[i]; }
int req(const R*A,const R*Bm){ return A->r==Bm->r&&A->c==Bm->c&&!memcmp(A->a,Bm->a,(size_t)A->r*A->c*2); }
R*rrref(const R*A,int*rk){ R*M=rcopy(A); int r=0,c,i,j; for(c=0;c<M->c&&r<M->r;c++){ for(i=r;i<M->r;i++) if(RA(M,i,c)) break; if(i==M->r) continue;
   for(j=0;j<M->c;j++){u16 t=RA(M,i,j);RA(M,i,j)=RA(M,r,j);RA(M,r,j)=t;} u64 v=rinv(RA(M,r,c),M->m); for(j=c;j<M->c;j++) if(RA(M,r,j)) RA(M,r,j)=rmul(RA(M,r,j),v,M->m);
   for(i=0;i<M->r;i++) if(i!=r&&RA(M,i,c)){ u64 f=RA(M,i,c); for(j=c;j<M->c;j++) if(RA(M,r,j)) RA(M,i,j)^=rmul(f,RA(M,r,j),M->m);} r++; }
  if(rk)*rk=r; return M; }
int rrank(const R*A){ int k; R*M=rrref(A,&k); rfree(M); return k; }
R*rrand(int e,u64 m,int r,int c,int kind){ R*M=rnew(e,m,r,c); int i,j; u32 q=1u<<e;
  switch(kind){
  case 1: break; /* zero */
  case 2: for(i=0;i<r;i++)for(j=0;j<c;j++) if(rn(8)==0) RA(M,i,j)=rn(q); break; /* sparse */
  case 3: { int k=1+rn((r<c?r:c)>1?(r<c?r:c)-1:1); R*A=rrand(e,m,r,k,0),*Bm=rrand(e,m,k,c,0); rfree(M); M=rmm(A,Bm); rfree(A);rfree(Bm); break; } /* low rank */
  case 4: for(i=0;i<r;i++)for(j=0;j<c;j++) RA(M,i,j)=q-1; break; /* all ones */
  case 5: /* random with zero rows, zero columns, repeated rows */
    for(i=0;i<r;i++)for(j=0;j<c;j++) RA(M,i,j)=rn(q);
    for(j=0;j<c;j++) if(rn(3)==0) for(i=0;i<r;i++) RA(M,i,j)=0;
    for(i=0;i<r;i++){ int t=rn(5); if(t==0) for(j=0;j<c;j++) RA(M,i,j)=0; else if(t==1&&i) for(j=0;j<c;j++) RA(M,i,j)=RA(M,i-1,j);} break;
  case 6: { /* staircase with rank profile gaps, rows shuffled */
    int p=0; for(i=0;i<r&&p<c;i++){ p+=rn(4); if(p>=c)break; RA(M,i,p)=1+rn(q-1); for(j=p+1;j<c;j++) RA(M,i,j)=rn(q); p++; }
    for(i=r-1;i>0;i--){ int t=rn(i+1); for(j=0;j<c;j++){u16 x=RA(M,i,j);RA(M,i,j)=RA(M,t,j);RA(M,t,j)=x;} }
    for(i=1;i<r;i++) if(rn(2)) for(j=0;j<c;j++) RA(M,i,j)^=RA(M,i-1,j);
    break; }
  case 7: for(i=0;i<r;i++)for(j=0;j<c;j++) RA(M,i,j)=rn(2); break;
  default: for(i=0;i<r;i++)for(j=0;j<c;j++) RA(M,i,j)=rn(q);
  } return M; }
static int wof(int e){ return e<=2?2:e<=4?4:e<=8?8:16; }
mzed_t*mk(gf2e*ff,const R*A){ mzed_t*M=mzed_init(ff,A->r,A->c); int i,j,w=wof(A->e); if(M->nrows!=A->r||M->ncols!=A->c||M->w!=w) fail("mzed_init shape");
  for(i=0;i<A->r;i++)for(j=0;j<A->c;j++) M->x->rows[i][(j*w)/64]|=(u64)RA(A,i,j)<<((j*w)%64); return M; }
R*rd(const mzed_t*M,const gf2e*ff){ R*A=rnew(ff->degree,ff->minpoly,M->nrows,M->ncols); int i,j,w=wof(A->e); for(i=0;i<A->r;i++)for(j=0;j<A->c;j++) RA(A,i,j)=M->x->rows[i][(j*w)/64]>>((j*w)%64)&((1u<<w)-1); return A; }
mzd_slice_t*mks(gf2e*ff,const R*A){ mzd_slice_t*M=mzd_slice_init(ff,A->r,A->c); int i,j,t; for(t=0;t<A->e;t++)for(i=0;i<A->r;i++)for(j=0;j<A->c;j++) M->x[t]->rows[i][j/64]|=(u64)(RA(A,i,j)>>t&1)<<(j%64); return M; }
R*rds(const mzd_slice_t*M,const gf2e*ff){ R*A=rnew(ff->degree,ff->minpoly,M->nrows,M->ncols); int i,j,t; if(M->depth!=A->e) fail("slice depth %d",(int)M->depth); for(t=0;t<A->e;t++)for(i=0;i<A->r;i++)for(j=0;j<A->c;j++) RA(A,i,j)|=(M->x[t]->rows[i][j/64]>>(j%64)&1)<<t; return A; }
static void clean_mzd(const mzd_t*x,const char*w){ int i; if(x->ncols==0||x->ncols%64==0||mzd_is_windowed(x)) return; u64 m=(~0ull)<<(x->ncols%64); for(i=0;i<x->nrows;i++) if(x->rows[i][x->width-1]&m) fail("%s: bits beyond the last column in row %d",w,i); }
void chk_clean(const mzed_t*M,const char*w){ int i,j,e=M->finite_field->degree,ww=wof(e); clean_mzd(M->x,w); for(i=0;i<M->nrows;i++)for(j=0;j<M->ncols;j++) if((M->x->rows[i][(j*ww)/64]>>((j*ww)%64)&((1u<<ww)-1))>>e) fail("%s: unused high bits of element (%d,%d) set",w,i,j); }
void chk_clean_s(const mzd_slice_t*M,const char*w){ int t; for(t=0;t<(int)M->depth;t++) clean_mzd(M->x[t],w); }
static void cmpR(R*X,const R*A,const char*w){ int i,j; if(X->r!=A->r||X->c!=A->c) fail("%s: shape %dx%d instead of %dx%d",w,X->r,X->c,A->r,A->c); for(i=0;i<A->r;i++)for(j=0;j<A->c;j++) if(RA(X,i,j)!=RA(A,i,j)) fail("%s: entry (%d,%d) is %x, expected %x",w,i,j,RA(X,i,j),RA(A,i,j)); rfree(X); }
void chk_m(const mzed_t*M,const R*A,const char*w){ cmpR(rd(M,M->finite_field),A,w); chk_clean(M,w); }
void chk_s(const mzd_slice_t*M,const R*A,const char*w){ cmpR(rds(M,M->finite_field),A,w); chk_clean_s(M,w); }
/* windows: column offset multiple of 64 bits. asym: extra rows/cols after */
int walign=0; /* 1: windows whose right edge is not word aligned reach the parent's last column (see known_findings.txt) */
int wcol64=0; /* 1: windows start at multiples of 64 columns (needed by the word-parallel kernels) */
WM mkw(gf2e*ff,const R*A,int asym){ WM w; int ww=wof(A->e),per=64/ww; w.r0=rn(3); w.c0=(wcol64?64:per)*rn(3); int er=rn(3),ec=asym?(rn(2)?rn(2*per+1):0):0; int i,j; if(walign&&(A->c*ww)%64) ec=0;
  w.pref=rrand(A->e,A->m,A->r+w.r0+er,A->c+w.c0+ec,0); for(i=0;i<A->r;i++)for(j=0;j<A->c;j++) RA(w.pref,i+w.r0,j+w.c0)=RA(A,i,j);
  w.P=mk(ff,w.pref); w.W=mzed_init_window(w.P,w.r0,w.c0,w.r0+A->r,w.c0+A->c); return w; }
void chk_w(WM*w,const R*A,const char*s){ int i,j; char b[200]; R*X=rcopy(w->pref); snprintf(b,200,"%s (window at %d,%d, checked on the parent)",s,w->r0,w->c0); for(i=0;i<A->r;i++)for(j=0;j<A->c;j++) RA(X,i+w->r0,j+w->c0)=RA(A,i,j); chk_m(w->P,X,b); rfree(X); if(w->W->nrows!=A->r||w->W->ncols!=A->c) fail("%s: window shape",s); }
void freew(WM*w){ mzed_free_window(w->W); mzed_free(w->P); rfree(w->pref); }
WS mkws(gf2e*ff,const R*A,int asym){ WS w; w.r0=rn(3); w.c0=64*rn(3); int er=rn(3),ec=asym?(rn(2)?rn(130):0):0; int i,j; if(walign&&A->c%64) ec=0;
  w.pref=rrand(A->e,A->m,A->r+w.r0+er,A->c+w.c0+ec,0); for(i=0;i<A->r;i++)for(j=0;j<A->c;j++) RA(w.pref,i+w.r0,j+w.c0)=RA(A,i,j);
  w.P=mks(ff,w.pref); w.W=mzd_slice_init_window(w.P,w.r0,w.c0,w.r0+A->r,w.c0+A->c); return w; }
void chk_ws(WS*w,const R*A,const char*s){ int i,j; char b[200]; R*X=rcopy(w->pref); snprintf(b,200,"%s (window at %d,%d, checked on the parent)",s,w->r0,w->c0); for(i=0;i<A->r;i++)for(j=0;j<A->c;j++) RA(X,i+w->r0,j+w->c0)=RA(A,i,j); chk_s(w->P,X,b); rfree(X); }
void freews(WS*w){ mzd_slice_free_window(w->W); mzd_slice_free(w->P); rfree(w->pref); }
B*bnew(int r,int c){ B*b=malloc(sizeof(B)); b->r=r;b->c=c;b->a=calloc((size_t)r*c+1,1); return b; }
void bfree(B*b){ free(b->a);free(b); }
B*brand(int r,int c){ B*b=bnew(r,c); size_t i; for(i=0;i<(size_t)r*c;i++) b->a[i]=rn(2); return b; }
B*bmm(const B*x,const B*y){ B*z=bnew(x->r,y->c); int i,j,k; for(i=0;i<x->r;i++)for(k=0;k<x->c;k++) if(BA(x,i,k)) for(j=0;j<y->c;j++) BA(z,i,j)^=BA(y,k,j); return z; }
void badd(B*x,const B*y){ size_t i; for(i=0;i<(size_t)x->r*x->c;i++) x->a[i]^=y->a[i]; }
mzd_t*mkb(const B*b){ mzd_t*M=mzd_init(b->r,b->c); int i,j; for(i=0;i<b->r;i++)for(j=0;j<b->c;j++) M->rows[i][j/64]|=(u64)BA(b,i,j)<<(j%64); return M; }
void chk_b(const mzd_t*M,const B*b,const char*s){ int i,j; if(M->nrows!=b->r||M->ncols!=b->c) fail("%s: shape",s); for(i=0;i<b->r;i++)for(j=0;j<b->c;j++) if((M->rows[i][j/64]>>(j%64)&1)!=BA(b,i,j)) fail("%s: bit (%d,%d)",s,i,j); clean_mzd(M,s); }
int dies(void(*f)(void*),void*p){ fflush(stdout); pid_t c=fork(); if(c==0){ signal(SIGABRT,SIG_DFL); signal(SIGSEGV,SIG_DFL); if(!freopen("/dev/null","w",stdout)||!freopen("/dev/null","w",stderr)){} f(p); _exit(77); } int st; waitpid(c,&st,0); return !(WIFEXITED(st)&&WEXITSTATUS(st)==77); }
