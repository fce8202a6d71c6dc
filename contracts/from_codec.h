/* Contract of a decoder callback cbconv() over one character, any cuts, any position in a chunk.
 * The including file defines:
 *   MAXC                      longest byte sequence until a verdict
 *   static int spec(const uint8_t *b,int n,struct sp_out *o)   verdict on the first n bytes
 *   static void vp_create(struct bsdconv_instance*)  creates codec state (options)
 *   optional HAS_INIT 1 / HAS_DESTROY 1, NCHARS (characters of history, default 1)
 */
#include "vp.h"
/* SP_DOOMED: no continuation is legal; the decoder may reject now or keep waiting (not observable) */
enum { SP_PENDING, SP_DEAD, SP_DONE, SP_DOOMED };
struct sp_out { int n; struct { int len; uint8_t d[8]; } e[2]; };
static int spec(const uint8_t *b,int n,struct sp_out *o);
static void sp_ucs(struct sp_out *o,uint32_t u){ /* datum 01 + big-endian value without leading zero bytes; 0 is 0100 */
	int k=o->n++, l=0; o->e[k].d[l++]=1;
	if(u>>24) o->e[k].d[l++]=u>>24;
	if(u>>16) o->e[k].d[l++]=u>>16;
	if(u>>8) o->e[k].d[l++]=u>>8;
	o->e[k].d[l++]=u; o->e[k].len=l;
}
static void sp_byte(struct sp_out *o,uint8_t u){ int k=o->n++; o->e[k].d[0]=3; o->e[k].d[1]=u; o->e[k].len=2; }

/* ghost state of one call */
static uint8_t g_b[MAXC];      /* bytes of the current character */
static int g_pos;              /* how many were consumed by earlier calls */
static size_t g_off,g_len;     /* chunk length, start index of this call */
static struct data_rt *g_curr,*g_tail; static void *g_priv;
static struct sp_out g_o; static int g_v,g_m,g_doom; /* expected verdict, bytes of this call used, doomed before the end */
static void g_expect(void){
	int k; g_v=SP_PENDING; g_m=0; g_o.n=0; /* g_doom persists over the calls of one character */
	for(k=1;k<=MAXC-g_pos && (size_t)k<=g_len-g_off;k++){
		g_o.n=0; g_v=spec(g_b,g_pos+k,&g_o); g_m=k;
		if(g_v==SP_DOOMED){ g_doom=1; g_v=SP_PENDING; }
		if(g_v!=SP_PENDING) break;
	}
}
static bool pre_cbconv(struct bsdconv_instance *ins){
	return ins==&I && P[1].curr==g_curr && g_off<g_len && P[1].i==g_off && P[1].data_tail==g_tail && g_tail->next==NULL;
}
static bool post_verdict(struct bsdconv_instance *ins){
	if(g_doom && P[1].state.status==DEADEND) return true;
	return P[1].state.status==(g_v==SP_DEAD?DEADEND:g_v==SP_DONE?NEXTPHASE:CONTINUE);
}
static bool post_consumed(struct bsdconv_instance *ins){
	if(g_v==SP_DONE) return P[1].i==g_off+g_m-1;
	if(P[1].state.status==CONTINUE) return P[1].i>=g_len-1;
	return true;
}
static bool post_emitted(struct bsdconv_instance *ins){
	struct data_rt *n=g_tail; int k;
	if(g_v==SP_DONE) for(k=0;k<g_o.n;k++){
		n=n->next;
		if(n==NULL || !vp_bytes_eq(n,g_o.e[k].d,g_o.e[k].len)) return false;
	}
	return n==P[1].data_tail && n->next==NULL;
}
static bool post_owned(struct bsdconv_instance *ins){ /* what was emitted is heap memory marked for release, nothing else set */
	struct data_rt *n=g_tail; int k;
	if(g_v==SP_DONE) for(k=0;k<g_o.n;k++){
		n=n->next; if(n==NULL) return false;
		if(n->flags!=F_FREE || !VP_IS_OBJ_BASE(n->data)) return false;
	}
	return true;
}
static bool post_frame(struct bsdconv_instance *ins){
	return P[1].curr==g_curr && g_curr->len==g_len && P[0].data_head==H0 && P[1].data_head==H1
		&& I.phase==P && I.phase_index==1 && P[1].index==0 && P[1].codec==CDC;
}
#define ASSERT_POSTS(I_) do{ \
	VP_ASSERT("decode-verdict",post_verdict(I_)); \
	VP_ASSERT("decode-consumes-exactly-the-character",post_consumed(I_)); \
	VP_ASSERT("decode-emits-exactly-the-value",post_emitted(I_)); \
	VP_ASSERT("decode-emitted-data-owned",post_owned(I_)); \
	VP_ASSERT("decode-frame",post_frame(I_)); }while(0)
static void vp_create(struct bsdconv_instance *);
#ifndef OPEN_ENDED
#define OPEN_ENDED 0
#endif
#ifndef NATIVE_GEN
#define NATIVE_GEN
#endif
#ifndef NCHARS
#define NCHARS 1
#endif
#ifndef CHUNK_MAX
#define CHUNK_MAX (1u<<30)
#endif
#ifndef BEFORE_CALL
#define BEFORE_CALL()
#endif

/* ---- driver -------------------------------------------------------------------------------
 * canonical(k): codec state after the first k bytes of a character, given in k one-byte chunks.
 * Unit A (K): from canonical(K), one call at any position of a chunk of any length satisfies the contract,
 *             and after a verdict the state is the fresh one.
 * Unit B (K,M): from canonical(K), a chunk of M bytes that is still pending leaves canonical(K+M).
 * A and B for all K,M<MAXC give, by induction over calls, every cut of every character after every history.
 */
#ifndef K
#define K 0
#endif
static void vp_chunk(size_t len,size_t off){
	unsigned char *buf=vp_alloc(len); int k;
	g_len=len; g_off=off; P[1].state.status=SUBROUTINE;
	for(k=0;k<MAXC-g_pos;k++) if(off+k<len) buf[off+k]=g_b[g_pos+k];
	struct data_rt *n=vp_node(buf,len,F_FREE);
	P[0].data_tail->next=n; P[0].data_tail=n;
	P[1].curr=g_curr=n; P[1].i=off; g_tail=P[1].data_tail;
	g_expect();
	BEFORE_CALL();
}
/* what the engine does with one chunk: call the codec, and while it asks for more input that the chunk still holds,
 * step to the next byte and call it again. Most codecs take what they can in one call (CALLS). */
#ifndef CALLS
#define CALLS 1
#endif
static void vp_nothing_emitted(void){
	/* the assignments change nothing, they tell the verifier that no block allocated on a path that is not
	   CONTINUE is reachable */
	VP_ASSERT("pending-emits-nothing",P[1].data_tail==g_tail && g_tail->next==NULL && CDC[0].priv==g_priv && P[1].codec==CDC && P[1].data_head==H1 && P[1].curr==g_curr);
	P[1].data_tail=P[1].data_head=g_tail=H1; H1->next=NULL; CDC[0].priv=g_priv; P[1].codec=CDC; P[1].curr=g_curr;
}
static void vp_run_chunk(struct bsdconv_instance *ins){
	int c=0;
	for(;;){
		VP_ASSERT("inductive:calls-per-chunk",c<CALLS || VP_NATIVE);
#ifdef VP_CPROVER
		if(c==CALLS){ VP_ASSUME(0); }
#endif
		cbconv(ins); c++; P[1].flags|=F_LOOPBACK; /* as the engine does */
		if(P[1].state.status!=CONTINUE || P[1].i+1>=g_len) return;
		vp_nothing_emitted();
		P[1].i+=1;
	}
}
static void vp_drop_input(void){ vp_free_list(H0->next); H0->next=NULL; P[0].data_tail=H0; }
static void vp_prefix(int n){
	int c;
	for(c=0;c<n;c++){
		vp_chunk(1,0);
		cbconv(&I); P[1].flags|=F_LOOPBACK;
		VP_ASSUME(P[1].state.status==CONTINUE);
		vp_nothing_emitted();
		g_pos++;
		vp_drop_input();
	}
}
/* characters decoded before (bounded complement of the inductive freshness obligation): byte by byte until a verdict */
#ifndef HIST
#define HIST (VP_NATIVE?2:0)
#endif
static void vp_history(int inbase){
	int k;
	for(k=0;k<MAXC;k++){
		unsigned char *buf=vp_alloc(1); struct data_rt *n=vp_node(buf,1,F_FREE);
		buf[0]=IN[inbase+k]; P[0].data_tail->next=n; P[0].data_tail=n; P[1].curr=n; P[1].i=0; P[1].state.status=SUBROUTINE;
		cbconv(&I); P[1].flags|=F_LOOPBACK;
		vp_free_list(H1->next); H1->next=NULL; P[1].data_tail=H1;
		vp_free_list(H0->next); H0->next=NULL; P[0].data_tail=H0;
		if(P[1].state.status!=CONTINUE) break;
	}
	VP_ASSUME(k<MAXC);
	P[1].flags=0;
}
static void vp_new_char(int inbase){
	int k; for(k=0;k<MAXC;k++) g_b[k]=IN[inbase+k];
	g_pos=0; g_doom=0;
}
#ifndef VP_OWN_HARNESS
void harness(void){
	vp_begin();
	struct bsdconv_instance *ins=vp_instance(FROM,IN[0]);
	vp_create(ins); g_priv=CDC[0].priv;
#ifdef HAS_INIT
	cbinit(ins);
#endif
	size_t k,sz=VP_OBJ_SIZE(CDC[0].priv); unsigned char snap[64];
	VP_ASSERT("inductive:state-size-supported",sz<=64);
#ifndef VP_CPROVER
	if(vp_random_mode){
		int q,h; IN[7]&=3;
		for(h=0;h<2;h++){ NATIVE_GEN for(q=0;q<MAXC;q++){ IN[8+(h+1)*MAXC+q]=IN[8+q]; IN[8+q]=vp_gen(); } }
		NATIVE_GEN
	}
#endif
#ifndef M
	if(HIST==0) VP_ASSUME(IN[7]==0);
#ifndef BEFORE_CALL_HISTORY
#define BEFORE_CALL_HISTORY
#endif
	for(int h=0;h<HIST;h++) if(IN[7]>>h&1){ BEFORE_CALL_HISTORY; vp_history(8+(h+1)*MAXC); }
#endif
#ifdef M /* unit B */
	vp_new_char(8);
	vp_prefix(K+M);
	for(k=0;k<sz;k++) snap[k]=((unsigned char*)CDC[0].priv)[k];
	cbinit(ins); P[1].flags=0;
	vp_new_char(8);
	vp_prefix(K);
	vp_chunk(M,0);
	vp_run_chunk(ins);
	VP_ASSERT("pending-is-cut-independent",P[1].state.status==CONTINUE);
	for(k=0;k<sz;k++) VP_ASSERT("inductive:pending-state-is-canonical",snap[k]==((unsigned char*)CDC[0].priv)[k]);
	VP_COVER("reached",1);
#else
#ifdef ABANDON /* an attempt of ABANDON bytes that another entry of the table completed */
	vp_new_char(60);
	vp_prefix(ABANDON);
	P[1].flags=0;
#endif
	vp_new_char(8);
	vp_prefix(K);
#ifndef VP_CPROVER
	if(vp_random_mode){ IN[3]%=5; IN[2]=IN[3]+1+IN[2]%(OPEN_ENDED?MAXC-K:MAXC+1); }
#endif
	size_t len=vp_range(2,1,CHUNK_MAX), off=vp_range(3,0,len-1);
	if(OPEN_ENDED) VP_ASSUME(len-off<=MAXC-K); /* no verdict is promised within MAXC bytes: look at no more */
	vp_chunk(len,off);
	if(!OPEN_ENDED && g_v==SP_PENDING) VP_ASSUME(len-off<=MAXC-K); /* still no verdict after MAXC bytes: no more of them are looked at */
	vp_run_chunk(ins); ASSERT_POSTS(ins);
	int v=P[1].state.status;
	COVERS
	if(v!=CONTINUE){ /* the state is one that initialization can leave, so the next character starts like the first */
		for(k=0;k<sz;k++) snap[k]=((unsigned char*)CDC[0].priv)[k];
		P[1].flags=0; cbinit(ins);
		for(k=0;k<sz;k++) VP_ASSERT("inductive:state-fresh-after-character",snap[k]==((unsigned char*)CDC[0].priv)[k]);
	}
#endif
#ifdef HAS_DESTROY
	cbdestroy(ins);
#endif
	vp_release();
}
#endif
