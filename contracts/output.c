/* The output modes of the real bsdconv(): an instance whose last queue holds NN data of any content; only delivery is left to do.
 * MODE: BSDCONV_* */
#include "vp.h"
#include <stdio.h>
#ifndef NN
#define NN 3
#endif
#ifndef DL
#define DL 3
#endif
static struct data_rt *nd[NN]; static unsigned char *buf[NN]; static u64 ln[NN]; static unsigned char by[NN][DL]; static int n, hp[NN];
static unsigned char got[NN*DL+8]; static u64 gn; static int badarg; static int seen;
static FILE *theF; static int theFD;
static void rec(const void *p,u64 m){ const unsigned char *b=p; for(int k=0;k<DL;k++) if(k<m){ if(gn<sizeof got) got[gn]=b[k]; gn++; } if(m>DL) badarg=1; }
size_t fwrite(const void *p,size_t a,size_t b,FILE *f){ if(f!=theF) badarg=1; rec(p,a*b); return b; }
#ifndef VP_WRITE
#define VP_WRITE write
#endif
ssize_t VP_WRITE(int fd,const void *p,size_t m){ if(fd!=theFD) badarg=1; rec(p,m); return m; }
static u64 total(int a,int b){ u64 s=0; for(int k=0;k<NN;k++) if(k>=a&&k<b) s+=ln[k]; return s; }
/* byte j of the concatenation of data 0..n */
static int is_concat(const unsigned char *p,u64 m,int upto){
	u64 o=0; for(int k=0;k<NN;k++) if(k<upto) for(int j=0;j<DL;j++) if(j<ln[k]){ if(o>=m||p[o]!=by[k][j]) return 0; o++; }
	return o==m;
}
static int rest_is(struct data_rt *h,struct data_rt *tail,int from){
	struct data_rt *p=h; for(int k=0;k<NN;k++) if(k>=from&&k<n){ p=p->next; if(p==NULL||p->len!=ln[k]||p->data!=buf[k]||!!(p->flags&F_FREE)!=hp[k]) return 0; }
	return p->next==NULL && tail==p;
}
void harness(void){
	int k,j; vp_begin(); gn=0; badarg=0; seen=0;
	struct bsdconv_instance *ins=vp_instance(FROM,IN[0]); struct bsdconv_instance J; memset(&J,0,sizeof J);
	vp_free_list(H1); P[1].data_head=P[1].data_tail=NULL; I.phasen=0; struct data_rt *t=H0;
	n=vp_range(1,0,NN);
	for(k=0;k<NN;k++){ ln[k]=0; if(k<n){
		ln[k]=vp_range(4+k*(DL+2),0,DL); hp[k]=IN[5+k*(DL+2)]&1; buf[k]=vp_alloc(ln[k]+!ln[k]);
		for(j=0;j<DL;j++){ by[k][j]=IN[6+k*(DL+2)+j]; if(j<ln[k]) buf[k][j]=by[k][j]; }
		nd[k]=vp_node(buf[k],ln[k],hp[k]?F_FREE:0); t->next=nd[k]; t=nd[k]; } }
	P[0].data_tail=t; H0->len=IN[3]&1; /* the head counts consumed bytes of another queue: no part of the output */
	I.input.data=NULL; I.flush=IN[2]&1; I.output_mode=MODE;
	int del=n; /* data delivered */
	unsigned char *room=NULL;
#if MODE==1 /* AUTOMALLOC: len on entry is the room asked for in addition */
	u64 extra=vp_range(40,0,3); I.output.data=NULL; I.output.len=extra;
	bsdconv(ins);
	VP_ASSERT("automalloc-delivers-everything-in-order",I.output.len==total(0,n)&&is_concat(I.output.data,I.output.len,n));
	VP_ASSERT("automalloc-room",VP_OBJ_SIZE(I.output.data)>=total(0,n)+extra);
	free(I.output.data);
#elif MODE==2
	u64 cap=vp_range(40,0,NN*DL+1); int query=(IN[41]&1)||cap==0;
	for(del=0;!query&&del<NN&&del<n&&total(0,del+1)<=cap;del++);
	room=vp_alloc(cap+1); room[cap]=0x5a; if(!query||(IN[42]&1)) I.output.data=room; else I.output.data=NULL;
	if(IN[42]&1) query=cap==0; 
	if(query) del=0; else for(del=0;del<NN&&del<n&&total(0,del+1)<=cap;del++);
	I.output.len=cap;
	bsdconv(ins);
	if(query) VP_ASSERT("size-query-is-the-total",I.output.len==total(0,n));
	else VP_ASSERT("premalloced-delivers-the-longest-prefix-that-fits",I.output.len==total(0,del)&&is_concat(room,I.output.len,del));
	VP_ASSERT("never-beyond-the-buffer",room[cap]==0x5a);
	VP_COVER("some-left",!query&&del<n&&del>0);
#elif MODE==3
	theF=(FILE*)&seen; I.output.data=theF; bsdconv(ins);
	VP_ASSERT("file-delivers-everything-in-order",!badarg&&is_concat(got,gn,n));
#elif MODE==4
	theFD=(int)(IN[40]&0xffff); I.output.data=(void*)(intptr_t)theFD; bsdconv(ins);
	VP_ASSERT("fd-delivers-everything-in-order",!badarg&&is_concat(got,gn,n));
#elif MODE==5
	bsdconv(ins);
#elif MODE==6
	J.input.data=NULL; I.output.data=&J; bsdconv(ins);
	{ struct data_rt *p=&J.input; int ok=1; for(k=0;k<NN;k++) if(k<n){ if(p==NULL||p->data!=buf[k]||p->len!=ln[k]||!!(p->flags&F_FREE)!=hp[k]) ok=0; p=p?p->next:p; }
	  VP_ASSERT("pass-hands-over-the-same-data-once",ok&&(n>0?p==NULL:J.input.data==NULL)); if(n>0){ vp_free_nodes(J.input.next); for(k=0;k<NN;k++) if(k<n&&hp[k]) free(buf[k]); } }
#elif MODE==0
	bsdconv(ins); del=0;
	VP_ASSERT("hold-delivers-nothing",I.output.len==0);
#endif
	VP_ASSERT("what-is-not-delivered-stays-in-order",rest_is(H0,P[0].data_tail,del)&&P[0].data_head==H0);
	VP_COVER("all-data",n==NN);
	for(k=0;k<NN;k++) if(k<n&&!hp[k]) free(buf[k]);
	free(room); vp_free_nodes(J.pool);
	vp_free_list(P[0].data_head); vp_free_nodes(I.pool);
}
