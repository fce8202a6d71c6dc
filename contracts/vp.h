/* Common layer of all contract harnesses.
 *
 * One harness text serves three purposes:
 *  - under goto-cc (VP_CPROVER defined) every IN[k] is an unconstrained symbol: full-domain proof;
 *  - natively with a replay file, IN[k] are the values of a CBMC counterexample;
 *  - natively with a seed, IN[k] are random (used to search for a failing input, and as the
 *    labelled bounded stand-in when a proof does not come back).
 * The code under verification is NOT in the harness: it is compiled from the unmodified file in /repo
 * as its own translation unit and linked.
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include "bsdconv.h"

#ifndef _BSDCONV_INTERNAL
#error flags of the real build expected
#endif

typedef unsigned long long u64;
#define VP_NIN 96
extern u64 IN[VP_NIN];

void harness(void);

#ifdef VP_CPROVER
#define VP_NATIVE 0
u64 nondet_u64(void);
u64 IN[VP_NIN];
static void vp_begin(void){ for(int k=0;k<VP_NIN;k++) IN[k]=nondet_u64(); }
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(name,c) __CPROVER_assert((c),name)
#define VP_COVER(name,c) __CPROVER_assert(!(c),"cover:" name)
/* clauses of a contract */
#define VP_E(name,c) __CPROVER_ensures(c)
#define VP_R(name,c) __CPROVER_requires(c)
#define VP_CONTRACT_CALL(PRES,CALL,POSTS) do{ CALL; }while(0)
static inline u64 vp_range(int k,u64 lo,u64 hi){ __CPROVER_assume(IN[k]>=lo && IN[k]<=hi); return IN[k]; }
#define VP_IS_OBJ_BASE(p) (__CPROVER_POINTER_OFFSET(p)==0)
#define VP_OBJ_SIZE(p) __CPROVER_OBJECT_SIZE(p)
static void *vp_alloc(size_t n){ return malloc(n); }
#define VP_LIVE(p,n) __CPROVER_r_ok((p),(n))
#else
#define VP_NATIVE 1
#include <stdio.h>
#include <malloc.h>
#include <setjmp.h>
u64 IN[VP_NIN];
static int vp_random_mode; static long vp_skipped; static jmp_buf vp_skip_jb; static u64 vp_seed;
static u64 vp_rng(void){ u64 z=(vp_seed+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static void vp_dump(void){ int k,l=VP_NIN; while(l>1&&!IN[l-1])l--; printf("VP-INPUT"); for(k=0;k<l;k++) printf(" %llu",IN[k]); printf("\n"); fflush(stdout);}
static void vp_fail(const char *name){ printf("VP-OBLIGATION-FAILED %s\n",name); vp_dump(); exit(42); }
static void vp_begin(void){}
#define VP_ASSUME(c) do{ if(!(c)) longjmp(vp_skip_jb,1); }while(0)
#define VP_ASSERT(name,c) do{ if(!(c) && strncmp(name,"inductive:",10)) vp_fail(name); }while(0) /* representation obligations are for the verifier only */
#define VP_COVER(name,c) do{}while(0)
#define VP_E(name,c) if(!(c)) vp_fail(name);
#define VP_R(name,c) if(!(c)) longjmp(vp_skip_jb,1);
#define VP_CONTRACT_CALL(PRES,CALL,POSTS) do{ PRES CALL; POSTS }while(0)
static inline u64 vp_range(int k,u64 lo,u64 hi){
	if(vp_random_mode && (IN[k]<lo || IN[k]>hi)) IN[k]=lo+(hi-lo==~0ull?IN[k]:IN[k]%(hi-lo+1));
	VP_ASSUME(IN[k]>=lo&&IN[k]<=hi); return IN[k]; }
#define VP_IS_OBJ_BASE(p) 1
#define VP_OBJ_SIZE(p) malloc_usable_size(p)
#define VP_LIVE(p,n) 1
#define __CPROVER_assigns(...)
#define __CPROVER_object_whole(p) p
static void *vp_alloc(size_t n){ return malloc(n); }
/* allocation ledger (linker --wrap): leaks are detected per case, a skipped case is cleaned up */
void *__real_malloc(size_t); void __real_free(void*); void *__real_realloc(void*,size_t); void *__real_calloc(size_t,size_t); char *__real_strdup(const char*);
static void *vp_live[8192]; static int vp_nlive, vp_overflow;
static void vp_reg(void *p){ if(!p) return; if(vp_nlive<8192) vp_live[vp_nlive++]=p; else vp_overflow=1; }
static void vp_unreg(void *p){ int k; for(k=vp_nlive-1;k>=0;k--) if(vp_live[k]==p){ vp_live[k]=vp_live[--vp_nlive]; return; } }
void *__wrap_malloc(size_t n){ void *p=__real_malloc(n); vp_reg(p); return p; }
void *__wrap_calloc(size_t a,size_t b){ void *p=__real_calloc(a,b); vp_reg(p); return p; }
char *__wrap_strdup(const char *s){ char *p=__real_strdup(s); vp_reg(p); return p; }
void *__wrap_realloc(void *o,size_t n){ void *p=__real_realloc(o,n); if(p){ vp_unreg(o); vp_reg(p);} return p; }
void __wrap_free(void *p){ vp_unreg(p); __real_free(p); }
static void vp_leak_check(void){
	int leak=vp_nlive && !vp_overflow;
	while(vp_nlive) __real_free(vp_live[--vp_nlive]);
	vp_overflow=0;
#ifndef VP_NO_LEAK
	if(leak) vp_fail("memory-leak: every block allocated is released exactly once");
#endif
}
static void vp_cleanup(void){ while(vp_nlive) __real_free(vp_live[--vp_nlive]); vp_overflow=0; }
#ifndef VP_SPECIALS
#define VP_SPECIALS 0
#endif
static const unsigned char vp_sp[]={VP_SPECIALS};
static u64 vp_gen(void){
	u64 r=vp_rng();
	switch(r&7){
		case 0: return (r>>8)&1;
		case 1: return (r>>8)&7;
		case 2: case 3: return (r>>8)&255;
		case 4: return vp_sp[(r>>8)%sizeof(vp_sp)];
		case 5: return 0x80|((r>>8)&0x3f);
		case 6: return (r>>8)&0xffff;
		default: return r>>3;
	}
}
int main(int argc,char **argv){
	volatile int k;
	if(argc>=3 && !strcmp(argv[1],"replay")){
		for(k=0;k<VP_NIN && k+2<argc;k++) IN[k]=strtoull(argv[k+2],0,0);
		if(setjmp(vp_skip_jb)){ printf("VP-SKIPPED\n"); return 3; }
		harness(); vp_leak_check(); printf("VP-PASSED\n"); return 0;
	}
	if(argc>=4 && !strcmp(argv[1],"random")){
		volatile long n=atol(argv[3]), i, done=0; vp_seed=strtoull(argv[2],0,0); vp_random_mode=1;
		for(i=0;i<n;i++){
			for(k=0;k<VP_NIN;k++) IN[k]=vp_gen();
			if(setjmp(vp_skip_jb)){ vp_cleanup(); continue; }
			harness(); vp_leak_check(); done=done+1;
		}
		printf("VP-RANDOM-PASSED %ld of %ld\n",done,(long)n); return 0;
	}
#ifdef VP_ENUM /* every point of a stated finite domain: {index,lowest,highest} */
	if(argc>=2 && !strcmp(argv[1],"exhaust")){
		static const struct { int i; u64 lo,hi; } D[]={VP_ENUM}; volatile int nd=sizeof D/sizeof *D; volatile long done=0,tot=0;
		for(k=0;k<nd;k++) IN[D[k].i]=D[k].lo;
		for(;;){
			tot=tot+1;
			if(setjmp(vp_skip_jb)) vp_cleanup(); else { harness(); vp_leak_check(); done=done+1; }
			for(k=nd-1;k>=0;k--){ if(IN[D[k].i]<D[k].hi){ IN[D[k].i]++; break; } IN[D[k].i]=D[k].lo; }
			if(k<0) break;
		}
		printf("VP-RANDOM-PASSED %ld of %ld\n",done-vp_skipped,tot); return 0;
	}
#endif
	return 9;
}
/* on a sanitizer report, print the input as well */
void __asan_on_error(void);
void __asan_on_error(void){ vp_dump(); }
#endif

/* ---- a one-phase instance around one codec ------------------------------------------------ */
#define VP_NPOOL 4
static struct bsdconv_instance I;
static struct bsdconv_phase P[3];
static struct bsdconv_codec CDC[2];
static struct data_rt *H0,*H1;          /* list heads of the input side and of the output side */

static struct data_rt *vp_node(void *data,size_t len,unsigned char flags){
	struct data_rt *n=malloc(sizeof *n);
	n->data=data; n->len=len; n->next=NULL; n->flags=flags; return n;
}
/* a pool of recycled nodes: empty, or with at least as many nodes as one call can take */
static void vp_pool(u64 sel){
#ifdef NOPOOL
	sel=0;
#endif
	I.pool=NULL;
	if(sel&1) for(int k=0;k<VP_NPOOL;k++){
		struct data_rt *n=malloc(sizeof *n);
		n->next=I.pool; n->flags=0xff; n->len=77; I.pool=n;
	}
}
static void vp_free_list(struct data_rt *n){
	while(n){ struct data_rt *t=n->next; if(n->flags&F_FREE) free(n->data); free(n); n=t; }
}
static void vp_free_nodes(struct data_rt *n){
	while(n){ struct data_rt *t=n->next; free(n); n=t; }
}
static struct bsdconv_instance *vp_instance(int type,u64 poolsel){
	struct bsdconv_instance *ins=&I;
	memset(&I,0,sizeof I); memset(P,0,sizeof P); memset(CDC,0,sizeof CDC);
	I.phase=P; I.phasen=1; I.phase_index=1;
	P[0].type=_INPUT; P[1].type=type; P[1].codec=CDC; P[1].index=0; P[1].codecn=IN[95]&1; /* possibly the first of two alternatives */
	H0=vp_node(NULL,0,0); H1=vp_node(NULL,0,0);
	P[0].data_head=P[0].data_tail=H0; P[1].data_head=P[1].data_tail=H1;
	P[1].curr=H0; P[1].bak=H0;
	vp_pool(poolsel);
	return ins;
}
static void vp_release(void){
	vp_free_list(P[0].data_head); vp_free_list(P[1].data_head); vp_free_nodes(I.pool);
	P[0].data_head=P[1].data_head=NULL; I.pool=NULL;
}
/* true: the node d carries exactly bytes b[0..n) */
static bool vp_bytes_eq(const struct data_rt *d,const unsigned char *b,size_t n){
	if(d==NULL||d->len!=n) return false;
	for(size_t k=0;k<n;k++) if(((const unsigned char*)d->data)[k]!=b[k]) return false;
	return true;
}
/* ENUM values used by codecs (same order as src/bsdconv.h) come from bsdconv.h itself */
#endif
