/* C26: any datum met by the composition step behind the history HIST (A: the starter U+0041, 2: the mark U+0316, 3: the mark
 * U+0300; small letters: composed with what is before). The nested look-up is represented by its contract, see nfc.c. */
#define VP_SPECIALS 1,3,0,2
#include "vp.h"
#define GOLD_CCC
#include "golden.h"
#define NG ((int)(sizeof g_ccc/sizeof *g_ccc))
#define NB 6
static int cls(uint32_t u,int w){
#ifdef VP_CPROVER
	int q=(int)vp_range(w,0,2*NG);
	if(q&1){ VP_ASSUME(u>=g_ccc[q>>1][0]&&u<=g_ccc[q>>1][1]); return g_ccc[q>>1][2]; }
	VP_ASSUME((q==0||u>g_ccc[(q>>1)-1][1])&&(q==2*NG||u<g_ccc[q>>1][0])); return 0;
#else
	int k; for(k=0;k<NG;k++) if(u>=g_ccc[k][0]&&u<=g_ccc[k][1]) return g_ccc[k][2]; return 0;
#endif
}
static struct bsdconv_instance M; static struct bsdconv_phase MP[2]; static bsdconv_counter_t err; static int m_made,m_init,m_reset,asked,answer; static struct data_rt *MH;
static void *q_l,*q_r; static size_t q_ll,q_rl; static unsigned char comp_b[3][3];
static void m_drop(void){ struct data_rt *t=MH->next,*u; MH->next=NULL; if(t){ u=t->next; free(t); if(u) free(u); } }
struct bsdconv_instance *bsdconv_create(const char *c){ VP_ASSERT("looks-pairs-up-in-the-composition-table",!strcmp(c,"_NFC-MAP,COUNT#ERR")); M.phase=MP; M.phasen=1; MP[1].data_head=MP[1].data_tail=MH=vp_node(NULL,0,0); m_made++; err=0; return &M; }
void bsdconv_destroy(struct bsdconv_instance *i){ m_made--; m_drop(); free(MH); MP[1].data_head=NULL; }
void bsdconv_init(struct bsdconv_instance *i){ m_init=1; m_drop(); }
bsdconv_counter_t *bsdconv_counter(struct bsdconv_instance *i,const char *n){ VP_ASSERT("counts-refusals",i==&M&&!strcmp(n,"ERR")); return &err; }
void bsdconv_counter_reset(struct bsdconv_instance *i,const char *n){ m_reset=1; err=0; }
void bsdconv(struct bsdconv_instance *i){
	struct data_rt *n=M.input.next;
	VP_ASSERT("nested-lookup-is-fresh",i==&M&&m_init&&M.flush&&n!=NULL&&n->next==NULL&&!(M.input.flags&F_FREE)&&!(n->flags&F_FREE)&&MH->next==NULL); m_init=m_reset=0;
	q_l=M.input.data; q_ll=M.input.len; q_r=n->data; q_rl=n->len; asked++;
	VP_ASSERT("looked-up-at-most-once",asked<=3);
	if(answer){ MH->next=vp_node(comp_b[asked-1],3,0); } else { err+=2; MH->next=vp_node(q_l,q_ll,0); MH->next->next=vp_node(q_r,q_rl,0); }
	free(n);
}
static unsigned char *buf[4]; static int len[4],cl[4]; static unsigned char fl[4],by[4][NB];
static struct data_rt *last;
static void *w_data[4]; static int w_len[4],nw; static int lastc; /* what waits: the starter first */
static void expect(void *d,int l){ struct data_rt *n=last->next; VP_ASSERT("every-datum-once-and-in-order",n!=NULL&&n->data==d&&n->len==(size_t)l); last=n; }
static void drain(void){ int k; for(k=0;k<4;k++) if(k<nw) expect(w_data[k],w_len[k]); nw=0; }
/* one datum: code point or not, of class cl; yes: the table lists it with the starter */
static void datum(int c,int uni,int yes,int any){
	struct data_rt *in=vp_node(buf[c],len[c],fl[c]),*oldtail=P[0].data_tail; int try_,before=asked;
	oldtail->next=in; P[0].data_tail=in; P[1].curr=in; P[1].state.status=SUBROUTINE; answer=yes;
	try_=uni&&nw>0&&((cl[c]==0&&nw==1)||(cl[c]!=0&&(lastc<cl[c])));
	cbconv(&I);
	VP_ASSERT("inductive:looked-up-exactly-when-not-blocked",asked==before+try_);
	if(try_) VP_ASSERT("the-pair-looked-up-is-the-starter-and-this-datum",q_l==w_data[0]&&q_ll==(size_t)w_len[0]&&q_r==buf[c]&&q_rl==(size_t)len[c]);
	if(any){ VP_COVER("tried",sizeof HIST==1||(try_&&yes)); VP_COVER("refused",sizeof HIST==1||(try_&&!yes)); VP_COVER("end",1); }
	if(!uni){ VP_ASSERT("step-done",P[1].state.status==NEXTPHASE); drain(); expect(buf[c],len[c]); }
	else if(nw==0&&cl[c]){ VP_ASSERT("a-mark-without-a-starter-is-left-alone",P[1].state.status==DEADEND); }
	else {
		VP_ASSERT("waits",P[1].state.status==SUBMATCH);
		if(try_&&yes){ w_data[0]=comp_b[asked-1]; w_len[0]=3; lastc=0;
			if(nw>1){ VP_ASSERT("what-was-skipped-is-offered-again",in->next!=NULL&&in->next->data==w_data[1]&&P[0].data_tail->next==NULL); nw=1; } }
		else if(cl[c]==0){ if(nw) drain(); w_data[0]=buf[c]; w_len[0]=len[c]; nw=1; lastc=0; }
		else { w_data[nw]=buf[c]; w_len[nw]=len[c]; nw++; lastc=cl[c]; }
	}
	VP_ASSERT("nothing-else-emitted",last->next==NULL&&P[1].data_tail==last&&P[1].curr==in);
}
void harness(void){
	int c,k,n; uint32_t u; vp_begin(); static const char h[]=HIST; n=sizeof h-1;
	vp_instance(INTER,0); memset(MP,0,sizeof MP); memset(&M,0,sizeof M); last=H1; nw=0; asked=m_made=m_init=m_reset=0; lastc=0;
	VP_ASSERT("create-succeeds",cbcreate(&I,NULL)==0); cbinit(&I);
	for(c=0;c<n;c++){ static const unsigned char m[3][3]={{1,0x41,0},{1,3,0x16},{1,3,0}}; int q=h[c]=='A'?0:h[c]=='2'||h[c]=='b'?1:2; len[c]=q?3:2; cl[c]=q==0?0:q==1?220:230; fl[c]=F_FREE; buf[c]=vp_alloc(NB-1); for(k=0;k<3;k++) buf[c][k]=by[c][k]=m[q][k];
		datum(c,1,h[c]=='b'||h[c]=='c',0); }
	c=n;
#ifndef VP_CPROVER
	if(vp_random_mode&&(vp_rng()&7)){ int g=vp_rng()%NG; u=g_ccc[g][vp_rng()&1]; k=vp_rng()%8; if(k==0) u--; if(k==1) u++; if(k==2) u=0x41; IN[4]=u>0xffff?4:u>0xff?3:2; IN[6]=1; for(k=0;k<(int)IN[4]-1;k++) IN[7+k]=u>>(8*(IN[4]-2-k)); }
#endif
	len[c]=(int)vp_range(4,1,NB-1); fl[c]=IN[5]&F_FREE; buf[c]=vp_alloc(NB-1);
	for(k=0;k<NB-1;k++) if(k<len[c]) buf[c][k]=by[c][k]=IN[6+k];
	cl[c]=0; if(by[c][0]==1){ for(u=0,k=1;k<NB-1;k++) if(k<len[c]) u=u<<8|by[c][k]; cl[c]=cls(u,80); }
	datum(c,by[c][0]==1,IN[1]&1,1);
	for(k=0;k<NB-1;k++) if(k<len[c]) VP_ASSERT("datum-unchanged",(IN[1]&1&&asked)||buf[c][k]==by[c][k]);
	{ struct data_rt *t=H0->next,*x; H0->next=NULL; P[0].data_tail=H0; P[1].curr=H0; for(k=0;k<6&&t;k++){ x=t->next; if(t->flags&F_FREE) free(t->data); free(t); t=x; } }
	if(IN[1]&2){ cbflush(&I); VP_ASSERT("step-done",P[1].state.status==NEXTPHASE); drain(); VP_ASSERT("nothing-else-emitted",last->next==NULL&&P[1].data_tail==last); }
	if(IN[1]&4){ cbinit(&I); VP_ASSERT("nothing-else-emitted",last->next==NULL&&P[1].data_tail==last); }
	cbdestroy(&I); VP_ASSERT("one-nested-instance",m_made==0);
	if(!(fl[c]&F_FREE)) free(buf[c]);
	vp_release();
}
