/* Native bounded harness for m4rie: reference model + helpers.
   Everything here is independent of the code under test: elements are read
   straight from the packed/sliced words, products are computed by shift/xor
   modulo the minimal polynomial. */
#ifndef NH_H
#define NH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <m4rie/m4rie.h>

typedef uint64_t u64; typedef uint16_t u16; typedef uint32_t u32;
/* ---- rng ---- */
extern u64 rs;
static inline u64 rnd(void){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs*0x2545F4914F6CDD1DULL; }
static inline u32 rn(u32 n){ return n? (u32)((rnd()>>20)%n):0; }
/* ---- cases ---- */
extern long case_no, case_only, cases_run, cases_nontrivial; extern int tier; extern u64 seed0;
extern char case_desc[512]; extern const char* prop;
extern int wcol64, walign, isolate; extern long nfailed; void case_end(void);
int case_begin(const char*fmt,...);
void fail(const char*fmt,...);
int out_of_time(void);
#define CASE(...) (case_begin(__VA_ARGS__))
/* ---- reference field ---- */
static inline int rdeg(u64 a){ int d=-1; while(a){d++;a>>=1;} return d; }
static inline u64 rclmul(u64 a,u64 b){ u64 r=0; int i; for(i=0;i<64;i++) if(a>>i&1) r^=b<<i; return r; }
static inline u64 rmod(u64 a,u64 m){ int d=rdeg(m),i; for(i=63;i>=d;i--) if(a>>i&1) a^=m<<(i-d); return a; }
static inline u64 rmul(u64 a,u64 b,u64 m){ u64 r=0; int d=rdeg(m); while(b){ if(b&1) r^=a; b>>=1; a<<=1; if(a>>d&1) a^=m; } return r; }
static inline u64 rinv(u64 a,u64 m){ int d=rdeg(m),i; u64 r=1; for(i=1;i<d;i++){ a=rmul(a,a,m); r=rmul(r,a,m);} return rmul(1,r,m);} /* a^(2^d-2) */
int rirr(u64 p);
extern u64 *irr[17]; extern int nirr[17]; void irr_init(void);
u64 pick_poly(int e,int which);  /* which 0: first, 1: last, else random */
gf2e* field(u64 poly);           /* cached */
/* ---- reference matrices ---- */
typedef struct { int r,c,e; u64 m; u16*a; } R;
#define RA(M,i,j) ((M)->a[(size_t)(i)*(M)->c+(j)])
R* rnew(int e,u64 m,int r,int c); void rfree(R*);
R* rcopy(const R*); R* rrand(int e,u64 m,int r,int c,int kind);
R* rmm(const R*,const R*); void raddto(R*,const R*); int rrank(const R*); int req(const R*,const R*);
R* rrref(const R*,int*rank);
/* ---- bridging ---- */
typedef struct { mzed_t*M; mzed_t*P; int r0,c0; R* ref; u64*snap; size_t nsnap;} PM; /* matrix maybe a window */
mzed_t* mk(gf2e*ff,const R*); R* rd(const mzed_t*,const gf2e*);
mzd_slice_t* mks(gf2e*ff,const R*); R* rds(const mzd_slice_t*,const gf2e*);
void chk_clean(const mzed_t*,const char*); void chk_clean_s(const mzd_slice_t*,const char*);
void chk_m(const mzed_t*,const R*,const char*); void chk_s(const mzd_slice_t*,const R*,const char*);
/* windows: parent bigger than the window, filled with noise */
typedef struct { mzed_t*P,*W; R*pref; int r0,c0; } WM;
WM mkw(gf2e*ff,const R*content,int asym); void chk_w(WM*,const R*content,const char*); void freew(WM*);
typedef struct { mzd_slice_t*P,*W; R*pref; int r0,c0; } WS;
WS mkws(gf2e*ff,const R*content,int asym); void chk_ws(WS*,const R*content,const char*); void freews(WS*);
/* plain bit matrices */
typedef struct { int r,c; unsigned char*a; } B;
#define BA(M,i,j) ((M)->a[(size_t)(i)*(M)->c+(j)])
B* bnew(int r,int c); void bfree(B*); B* brand(int r,int c); B* bmm(const B*,const B*); void badd(B*,const B*);
mzd_t* mkb(const B*); void chk_b(const mzd_t*,const B*,const char*);
int dies(void (*f)(void*),void*); /* runs f in a child; 1 if the child did not return normally */
#endif
