/* Contract of a callback that handles one datum (encoders, mapping steps, filters on the datum level).
 * The including file defines
 *   PHASE                     INTER or TO
 *   spec(d,len,&o)            verdict SP_DEAD / SP_DONE / SP_SUB / SP_FREE (nothing promised but memory safety and
 *                             frame: the datum is outside the contract), and the data emitted
 *   vp_create(ins)            creates codec state (options)
 *   HAS_INIT, HAS_DESTROY, HAS_CREATE
 *   NCALLS                    data of history (every datum is checked)
 *   MAXD                      longest datum in the run; NB bytes of it are symbolic inputs, the rest is unconstrained
 */
#include "vp.h"
#ifndef NCALLS
#define NCALLS 1
#endif
#ifndef NB
#define NB 6
#endif
#ifndef MAXD
#define MAXD (1u<<20)
#endif
#ifndef MIND
#define MIND 1
#endif
#ifndef NOUT
#define NOUT 3
#endif
#ifndef OUTB
#define OUTB 12
#endif
enum { SP_DEAD, SP_DONE, SP_SUB, SP_FREE, SP_CONT };
struct sp_out { int n; struct { int same; int len; uint8_t d[OUTB]; } e[NOUT]; };
static int spec(const uint8_t *d,size_t len,struct sp_out *o);
static struct sp_out g_o; static int g_v;
static struct data_rt *g_in,*g_next,*g_tail; static uint8_t g_b[NB]; static size_t g_len; static unsigned char *g_buf; static unsigned char g_flags;
static void *g_priv; static struct data_rt *g_held; /* data of the same attempt before this one, still in the queue */
static void sp_same(struct sp_out *o){ int k=o->n++; o->e[k].same=1; }
static void sp_lit(struct sp_out *o,const uint8_t *d,int n){ int k=o->n++,j; o->e[k].same=0; o->e[k].len=n; for(j=0;j<OUTB;j++) if(j<n) o->e[k].d[j]=d[j]; }
/* 1: canonical Unicode datum (01, no leading zero byte except 0100) of at most 32 bits */
static int sp_ucs(const uint8_t *d,size_t len,uint32_t *u){
	size_t k; *u=0;
	if(len<2||len>5||d[0]!=1||(len>2&&d[1]==0)) return 0;
	for(k=1;k<5;k++) if(k<len) *u=(*u<<8)|d[k];
	return 1;
}
static int sp_ucs_dat(uint8_t *d,uint32_t u){ int l=0; d[l++]=1; if(u>>24) d[l++]=u>>24; if(u>>16) d[l++]=u>>16; if(u>>8) d[l++]=u>>8; d[l++]=u; return l; }

static bool p_verdict(void){ int s=P[1].state.status; return g_v==SP_DEAD?s==DEADEND:g_v==SP_DONE?s==NEXTPHASE:g_v==SP_SUB?s==SUBMATCH:g_v==SP_CONT?s==CONTINUE:true; }
static bool p_emitted(void){
	struct data_rt *n=g_tail; int k;
	if(g_v==SP_FREE) return true;
	if(g_v!=SP_DEAD) for(k=0;k<NOUT;k++) if(k<g_o.n){
		n=n->next; if(n==NULL) return false;
		if(g_o.e[k].same){
			if(n->len!=g_len) return false;
			if(n->data!=g_buf && !vp_bytes_eq(n,g_b,g_len<NB?g_len:NB)) return false;
		}else if(!vp_bytes_eq(n,g_o.e[k].d,g_o.e[k].len)) return false;
	}
	return n==P[1].data_tail && n->next==NULL;
}
#ifndef VP_STATIC_OUT
#define VP_STATIC_OUT 0
#endif
#ifndef OUTFLAGS
#define OUTFLAGS g_flags
#endif
/* every block has exactly one owner afterwards */
static bool p_owned(void){
	struct data_rt *n; int k, owners=(g_in->flags&F_FREE)?1:0, c=0;
	if(g_in->data!=g_buf) return false;
	for(n=g_tail->next;n&&c<NOUT+1;n=n->next,c++){
		if(n->data==g_buf){ if(n->flags&F_FREE) owners++; }
		else if(n->len>0 && !(n->flags&F_FREE) && g_v!=SP_FREE && !VP_STATIC_OUT) return false;
		if(n->flags & ~(OUTFLAGS|F_FREE)) return false;
	}
	return owners==((g_flags&F_FREE)?1:0);
}
static bool p_input(void){ int k; for(k=0;k<NB;k++) if(k<g_len && g_buf[k]!=g_b[k]) return false; return g_in->len==g_len; }
#ifndef EXTRA_FRAME
#define EXTRA_FRAME 1
#endif
static bool p_frame(void){
	return P[0].data_head==H0 && P[1].data_head==H1 && (g_held?H0->next==g_held&&g_held->next==g_in:H0->next==g_in) && g_in->next==g_next && P[1].curr==g_in
		&& I.phase==P && I.phase_index==1 && I.phasen==1 && P[1].index==0 && P[1].codec==CDC && P[1].codecn==(int)(IN[95]&1) && CDC[0].priv==g_priv && (EXTRA_FRAME);
}
static struct data_rt vp_held_node; static unsigned char vp_held_byte[1]={1};
static void vp_create(struct bsdconv_instance *);
#ifndef FLAGMASK
#define FLAGMASK F_FREE
#endif
#ifndef BEFORE_STEP
#define BEFORE_STEP
#endif
#ifndef EXTRA_POSTS
#define EXTRA_POSTS
#endif
#ifndef SPEC_STEP
#define SPEC_STEP
#endif
#ifndef COVERS
#define COVERS VP_COVER("call-returns",1);
#endif
#ifndef NATIVE_GEN
#define NATIVE_GEN
#endif
#ifndef VP_OWN_HARNESS
static void vp_datum(int base){ /* IN[base]: length, IN[base+1]: flags, IN[base+2..] bytes */
	int k;
	g_len=MIND==MAXD?MIND:vp_range(base,MIND,MAXD); g_flags=IN[base+1]&(FLAGMASK);
	g_buf=vp_alloc(g_len);
	for(k=0;k<NB;k++){ g_b[k]=IN[base+2+k]; if(k<g_len) g_buf[k]=g_b[k]; }
	g_in=vp_node(g_buf,g_len,g_flags); g_in->next=g_next;
	H0->next=g_in; P[0].data_tail=g_next?g_next:g_in;
	P[1].curr=g_in; P[1].i=g_len; P[1].state.status=SUBROUTINE; g_tail=P[1].data_tail;
}
void harness(void){
	int c; vp_begin();
	struct bsdconv_instance *ins=vp_instance(PHASE,IN[0]);
	vp_create(ins); g_priv=CDC[0].priv;
#ifdef HAS_INIT
	cbinit(ins);
#endif
	g_next=(IN[1]&1)?vp_node(NULL,0,0):NULL;
	for(c=0;c<NCALLS;c++){
#ifndef VP_CPROVER
		if(vp_random_mode){ int base=4+c*(NB+2); IN[base]=MIND+(IN[base]%9)%(MAXD-MIND+1); NATIVE_GEN }
#endif
		vp_datum(4+c*(NB+2));
#ifdef HELD
		g_held=HELD?&vp_held_node:NULL; if(g_held){ H0->next=g_held; g_held->next=g_in; g_held->len=1; g_held->data=vp_held_byte; g_held->flags=0; }
#endif
		g_o.n=0; g_v=spec(g_b,g_len,&g_o);
		BEFORE_STEP
#ifdef REACH
		if(c<NCALLS-1) VP_ASSUME(REACH); /* history to one particular state; its steps are checked by the unit of the state before */
#endif
		cbconv(ins);
#ifdef REACH
		if(c==NCALLS-1)
#endif
		{
		VP_ASSERT("step-verdict",p_verdict());
		VP_ASSERT("step-emits-exactly",p_emitted());
		VP_ASSERT("step-data-owned-exactly-once",p_owned());
		VP_ASSERT("step-input-unchanged",p_input());
		VP_ASSERT("step-frame",p_frame());
		EXTRA_POSTS
		COVERS
		}
		{ /* the engine's bookkeeping afterwards */
			int owner=(g_in->flags&F_FREE); struct data_rt *n;
			for(n=g_tail->next;n;n=n->next) if(n->data==g_buf&&(n->flags&F_FREE)) owner=0;
			if(!(g_flags&F_FREE)){ /* not heap-owned: free it here, after checking nobody claims it */
				vp_free_list(g_tail->next); g_tail->next=NULL; P[1].data_tail=g_tail;
				free(g_buf);
			}
			else if(owner){ vp_free_list(g_tail->next); g_tail->next=NULL; P[1].data_tail=g_tail; free(g_buf); }
			else { vp_free_list(g_tail->next); g_tail->next=NULL; P[1].data_tail=g_tail; }
			free(g_in); H0->next=g_next; P[0].data_tail=g_next?g_next:H0; P[1].curr=H0;
		}
	}
#ifdef FINAL
	FINAL
#endif
#ifdef HAS_DESTROY
	cbdestroy(ins);
#endif
	vp_release();
}
#endif
