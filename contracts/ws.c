/* C25: derail, then re-rail: NDATA data, handed on at once or late, then the end of the input. The hash is assumed (C14). */
#define VP_SPECIALS 1,9,10,13,32,3
#ifdef XH
#define D(k) {88+k,0,6}
#if NDATA>4
#define MORE ,D(4)
#else
#define MORE
#endif
#define VP_ENUM {2,0,3},{3,0,1},{4,0,(1<<(NDATA-1))-1},{5,0,1},{6,0,1},D(0),D(1),D(2),D(3) MORE
#endif
#include "vp.h"
#define NB 4
void derail_create_(void);
int derail_create(struct bsdconv_instance*,struct bsdconv_hash_entry*), rerail_create(struct bsdconv_instance*,struct bsdconv_hash_entry*);
void derail_init(struct bsdconv_instance*), rerail_init(struct bsdconv_instance*), derail_conv(struct bsdconv_instance*), rerail_conv(struct bsdconv_instance*), rerail_flush(struct bsdconv_instance*), derail_destroy(struct bsdconv_instance*), rerail_destroy(struct bsdconv_instance*);
static void *s_val; static int s_has;
void bsdconv_hash_set(struct bsdconv_instance *ins,const char *k,void *v){ s_val=v; s_has=1; }
void *bsdconv_hash_get(struct bsdconv_instance *ins,const char *k){ return s_has?s_val:NULL; }
int bsdconv_hash_has(struct bsdconv_instance *ins,const char *k){ return s_has; }
void bsdconv_hash_del(struct bsdconv_instance *ins,const char *k){ s_has=0; }
static struct data_rt *H2; static struct bsdconv_codec CDC2[1];
static unsigned char *buf[NDATA+1]; static unsigned char by[NDATA+1][NB],fl[NDATA+1]; static int len[NDATA+1];
static void phase(int k){ I.phase_index=k; P[k].index=0; P[k].state.status=SUBROUTINE; }
static void drop(struct data_rt *h,struct bsdconv_phase *p,struct data_rt *n){ h->next=n->next; if(p->data_tail==n) p->data_tail=h; if(n->flags&F_FREE) free(n->data); n->next=I.pool; I.pool=n; }
static void later(void){ /* phase 2 takes what phase 1 gave out */
	struct data_rt *n; int g;
	for(g=0;g<NDATA;g++) if(H1->next){ n=H1->next; phase(2); P[2].curr=n; rerail_conv(&I); VP_ASSERT("step-done",P[2].state.status==NEXTPHASE); VP_ASSERT("input-stays-where-it-is",H1->next==n); drop(H1,&P[1],n); P[2].curr=H1; }
}
static int white(int k){ return len[k]==2&&by[k][0]==1&&(by[k][1]==9||by[k][1]==10||by[k][1]==13||by[k][1]==32); }
static void start(void){ if(IN[3]&1){ phase(1); derail_init(&I); phase(2); rerail_init(&I); } else { phase(2); rerail_init(&I); phase(1); derail_init(&I); } }
static void give(int k){
	struct data_rt *n,*t=P[1].data_tail; int j;
#ifdef XH
	{ static const unsigned char x[][5]={{2,1,9},{2,1,10},{2,1,13},{2,1,32},{2,1,'a'},{2,3,32},{4,1,1,0,32}}; int q=k==NDATA?(int)IN[88]:(int)IN[88+k]; IN[10+8*k]=x[q][0]; for(j=0;j<4;j++) IN[12+8*k+j]=x[q][1+j]; }
#endif
	len[k]=(int)vp_range(10+8*k,1,NB);
	buf[k]=vp_alloc(NB);
	for(j=0;j<NB;j++){ buf[k][j]=by[k][j]=IN[12+8*k+j]; }
	/* no code point has a leading zero byte */
	VP_ASSUME(!(len[k]>2&&by[k][0]==1&&by[k][1]==0));
	fl[k]=F_FREE; n=vp_node(buf[k],len[k],F_FREE); H0->next=n; P[0].data_tail=n; phase(1); P[1].curr=n;
	derail_conv(&I);
	VP_ASSERT("step-done",P[1].state.status==NEXTPHASE);
	VP_ASSERT("white-space-and-only-white-space-leaves-the-track",white(k)?P[1].data_tail==t:P[1].data_tail!=t&&t->next==P[1].data_tail&&P[1].data_tail->data==buf[k]);
	drop(H0,&P[0],n); P[1].curr=H0;
}
static void at_end(int from,int n){
	struct data_rt *t; int k,j;
	VP_ASSERT("flush-is-due-when-something-waits",1);
	later(); phase(2);
	if(P[2].flags&F_PENDING) rerail_flush(&I);
	for(t=H2->next,k=from;k<n;k++){
		VP_ASSERT("every-datum-back-in-its-place",t!=NULL&&t->data==buf[k]&&t->len==(size_t)len[k]);
		for(j=0;j<NB;j++) VP_ASSERT("datum-unchanged",UCP(t->data)[j]==by[k][j]);
		VP_ASSERT("datum-keeps-its-owner",t->flags==F_FREE);
		t=t->next;
	}
	VP_ASSERT("nothing-else",t==NULL);
	vp_free_list(H2->next); H2->next=NULL; P[2].data_tail=H2;
}
#ifdef ONE
void harness(void){ /* one datum, whatever came before is abandoned */
	vp_begin(); vp_instance(INTER,0); s_has=0; s_val=NULL; phase(1);
	VP_ASSERT("create-succeeds",derail_create(&I,NULL)==0); derail_init(&I);
	give(0); VP_COVER("white",white(0)); VP_COVER("other",!white(0));
	if(H1->next) VP_ASSERT("other-data-go-on-unchanged",H1->next->len==(size_t)len[0]&&H1->next->flags==F_FREE&&UCP(H1->next->data)[0]==by[0][0]&&UCP(H1->next->data)[1]==by[0][1]&&UCP(H1->next->data)[2]==by[0][2]&&UCP(H1->next->data)[3]==by[0][3]);
	if(IN[2]&1) derail_init(&I);
	derail_destroy(&I); VP_ASSERT("hash-entry-gone",!s_has); vp_release();
}
#else
void harness(void){
	int k,n; vp_begin(); vp_instance(INTER,0); s_has=0; s_val=NULL;
	I.phasen=2; P[2]=P[1]; P[2].codec=CDC2; memset(CDC2,0,sizeof CDC2); H2=vp_node(NULL,0,0); P[2].data_head=P[2].data_tail=H2; P[2].curr=H1; P[2].bak=H1;
	phase(1); VP_ASSERT("create-succeeds",derail_create(&I,NULL)==0); phase(2); VP_ASSERT("create-succeeds",rerail_create(&I,NULL)==0);
	start();
	if(IN[2]&1){ /* something abandoned before */
		give(NDATA); if(IN[2]&2) later(); P[2].flags=0; start();
		vp_free_list(H1->next); H1->next=NULL; P[1].data_tail=H1; vp_free_list(H2->next); H2->next=NULL; P[2].data_tail=H2;
	}
	n=NDATA;
	for(k=0;k<NDATA;k++){ give(k); if(IN[4]>>k&1) later(); }
	VP_COVER("white-first",white(0)); VP_COVER("white-last",white(NDATA-1)&&!white(0)); VP_COVER("all-white",white(0)&&white(NDATA-1)&&(NDATA<2||white(1)));
	at_end(0,n);
	if(IN[6]&1){ give(NDATA); if(IN[4]&1) later(); at_end(NDATA,NDATA+1); } /* more input after a flush, not begun anew */
	if(IN[5]&1){ phase(1); derail_destroy(&I); phase(2); rerail_destroy(&I); } else { phase(2); rerail_destroy(&I); phase(1); derail_destroy(&I); }
	vp_free_list(H2); vp_release();
}
#endif
