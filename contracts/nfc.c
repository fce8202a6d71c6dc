/* C26: the composition step, on a sequence of the shape SH: A B starters, 2 3 4 marks of class 220, 230, 230, x no code point.
 * The nested instance that looks a pair up in the composition table is represented by its contract: a pair is listed or not
 * (IN, arbitrary), listed pairs give a new starter. Assumed of the table: a starter composed with a later mark takes no earlier
 * mark that the starter alone did not take (checked of the real table by the end-to-end part). */
#define VP_SPECIALS 1,3,255
#ifdef XH
#define VP_ENUM {1,0,7},{2,0,3},{3,0,63},{6,0,5},{7,0,5},{8,0,6},{9,0,6},{10,0,XH}
#endif
#include "vp.h"
#define NMAX 8
#define NID 12
static const unsigned char kind_b[6][4]={{1,0x41},{1,0x11,0x02},{1,3,0x23},{1,3,0x00},{1,3,0x01},{3,0x41}};
static const int kind_l[6]={2,3,3,3,3,2}, kind_c[6]={0,0,220,230,230,-1};
static int nid; static unsigned char id_b[NID][3]; static int comp[NID][5]; /* result of a listed pair, once it was asked for */
static unsigned char bit[NID]; static unsigned char one[NMAX*2+2][4]; static int owned;
static int listed(int l,int r){ return r<5&&l<NID&&(bit[l]>>r&1); }
static int compose(int l,int r){ if(!comp[l][r]){ VP_ASSUME(nid<NID); id_b[nid][0]=1; id_b[nid][1]=0x1e; id_b[nid][2]=nid; comp[l][r]=nid++; } return comp[l][r]; }
static int id_of(const struct data_rt *d){ const unsigned char *p=d->data; if(d->len==3&&p[0]==1&&p[1]==0x1e) return p[2]; if(d->len==2&&p[0]==1) return 0; if(d->len==3&&p[0]==1&&p[1]==0x11) return 1; return -1; }
static int kind_of(const struct data_rt *d){ int k,j,same; for(k=0;k<6;k++){ same=d->len==(size_t)kind_l[k]; for(j=0;j<3;j++) if(j<kind_l[k]&&same&&UCP(d->data)[j]!=kind_b[k][j]) same=0; if(same) return k; } return -1; }

/* ---- the nested instance, by contract */
static struct bsdconv_instance M; static struct bsdconv_phase MP[2]; static bsdconv_counter_t err; static int m_made,m_init,m_reset;
static void m_drop(void){ struct data_rt *h=MP[1].data_head; if(h){ vp_free_list(h->next); h->next=NULL; MP[1].data_tail=h; } }
struct bsdconv_instance *bsdconv_create(const char *c){ VP_ASSERT("looks-pairs-up-in-the-composition-table",!strcmp(c,"_NFC-MAP,COUNT#ERR")); M.phase=MP; M.phasen=1; MP[1].data_head=MP[1].data_tail=vp_node(NULL,0,0); m_made++; err=0; return &M; }
void bsdconv_destroy(struct bsdconv_instance *i){ m_made--; m_drop(); free(MP[1].data_head); MP[1].data_head=NULL; }
void bsdconv_init(struct bsdconv_instance *i){ m_init=1; m_drop(); }
bsdconv_counter_t *bsdconv_counter(struct bsdconv_instance *i,const char *n){ VP_ASSERT("counts-refusals",i==&M&&!strcmp(n,"ERR")); return &err; }
void bsdconv_counter_reset(struct bsdconv_instance *i,const char *n){ m_reset=1; err=0; }
void bsdconv(struct bsdconv_instance *i){
	int l,r; struct data_rt *n=M.input.next;
	VP_ASSERT("nested-lookup-is-fresh",i==&M&&m_init&&M.flush&&n!=NULL&&n->next==NULL&&!(M.input.flags&F_FREE)&&!(n->flags&F_FREE)); m_init=m_reset=0;
	l=id_of(&M.input); r=kind_of(n); VP_ASSERT("asks-for-a-starter-and-what-follows-it",l>=0&&r>=0&&r<5);
	if(listed(l,r)){ int m=compose(l,r); unsigned char *b=id_b[m]; if(IN[1]&4){ b=vp_alloc(3); memcpy(b,id_b[m],3); } MP[1].data_head->next=vp_node(b,3,(IN[1]&4)?F_FREE:0); }
	else { err+=2; MP[1].data_head->next=vp_node(M.input.data,M.input.len,0); MP[1].data_head->next->next=vp_node(n->data,n->len,0); }
	free(n);
}

/* ---- what must come out */
struct item { int is_id,v; };  /* an id, or a kind */
static struct item out[NMAX]; static int nout; static struct data_rt *last;
static int seg0,sp,lastc,shape[NMAX],n;
static void ref(void){ int k,j,c; struct item it; nout=0; sp=-1; lastc=0;
	for(k=0;k<n;k++){ int d=shape[k]; c=kind_c[d];
		it.is_id=0; it.v=d;
		if(c<0){ out[nout++]=it; sp=-1; continue; }
		if(sp>=0&&((lastc==0&&nout==sp+1)||lastc<c)&&out[sp].is_id&&listed(out[sp].v,d)){
			int m=compose(out[sp].v,d); for(j=sp+1;j<nout;j++) VP_ASSUME(!listed(m,out[j].v)); out[sp].v=m; continue; }
		if(c==0){ it.is_id=1; it.v=d; sp=nout; lastc=0; } else lastc=c;
		out[nout++]=it;
	}
}
static void feed(int len,int base){
	int k; struct data_rt *in,*nx; P[1].flags=0;
	for(k=0;k<len;k++){
		int d=shape[k]; unsigned char *b=owned?vp_alloc(4):one[base+k]; memcpy(b,kind_b[d],4);
		in=vp_node(b,kind_l[d],owned?F_FREE:0); P[0].data_tail->next=in; P[0].data_tail=in;
		while(P[1].curr->next){ /* the engine */
			P[1].curr=P[1].curr->next; in=P[1].curr; P[1].state.status=SUBROUTINE;
			cbconv(&I);
			for(nx=H0;nx->next;nx=nx->next); VP_ASSERT("input-list-stays-sound",P[0].data_tail==nx);
			if(P[1].state.status==SUBMATCH) P[1].flags|=F_MATCH;
			else if(P[1].state.status==DEADEND){
				VP_ASSERT("only-a-mark-without-a-starter-is-left-alone",!(P[1].flags&F_MATCH)&&H0->next==in&&kind_c[kind_of(in)]>0);
				H0->next=in->next; P[1].curr=H0; in->next=NULL; P[1].data_tail->next=in; P[1].data_tail=in; if(P[0].data_tail==in) P[0].data_tail=H0;
			} else {
				VP_ASSERT("step-done",P[1].state.status==NEXTPHASE); nx=in->next; in->next=NULL; vp_free_list(H0->next); H0->next=nx; P[1].curr=H0; if(!nx) P[0].data_tail=H0; P[1].flags=0;
			}
		}
	}
}
static void drop(void){ vp_free_list(H0->next); H0->next=NULL; P[0].data_tail=H0; P[1].curr=H0; P[1].flags=0; }
void harness(void){
	int k,j; vp_begin(); vp_instance(INTER,IN[2]); last=H1; nid=2; memset(comp,0,sizeof comp); memset(MP,0,sizeof MP); memset(&M,0,sizeof M); m_made=m_init=m_reset=0;
	owned=IN[1]>>1&1;
	for(k=0;k<NID;k++) bit[k]=IN[30+k];
#ifdef XH
	{ u64 s=IN[3]*0x9E3779B97F4A7C15ull+1; for(k=0;k<NID;k++){ s^=s<<13; s^=s>>7; s^=s<<17; bit[k]=s>>(IN[3]&1?8:20); if(IN[3]==0) bit[k]=0; if(IN[3]==1) bit[k]=255; } bit[0]|=IN[3]&31; }
#endif
	VP_ASSERT("create-succeeds",cbcreate(&I,NULL)==0); VP_ASSERT("one-nested-instance",m_made==1); cbinit(&I);
	if(IN[1]&1){ shape[0]=0; shape[1]=2; feed(2,NMAX); drop(); cbinit(&I); VP_ASSERT("nothing-else-emitted",H1->next==NULL); } /* abandoned input */
#ifdef SH
	{ static const char h[]=SH; static const char *const kk="AB234x"; n=sizeof h-1; for(k=0;k<n;k++){ for(j=0;j<6;j++) if(kk[j]==h[k]) shape[k]=j; } }
#elif defined(XH)
	n=0; for(k=0;k<5;k++) if(IN[6+k]<6) shape[n++]=IN[6+k];
#else
	n=1+IN[5]%7; for(k=0;k<n;k++) shape[k]=IN[6+k]%6;
#endif
	ref();
	feed(n,0);
	if(P[1].flags&F_MATCH){ P[1].flags=0; cbflush(&I); VP_ASSERT("step-done",P[1].state.status==NEXTPHASE); drop(); } /* the end of the input */
	for(k=0;k<nout;k++){
		struct data_rt *t=last->next; const unsigned char *b=out[k].is_id&&out[k].v>1?id_b[out[k].v]:kind_b[out[k].v]; int L=out[k].is_id&&out[k].v>1?3:kind_l[out[k].v];
		VP_ASSERT("composes-exactly-the-unblocked-listed-pairs",t!=NULL&&t->len==(size_t)L); for(j=0;j<3;j++) if(j<L) VP_ASSERT("composes-exactly-the-unblocked-listed-pairs",UCP(t->data)[j]==b[j]); last=t;
	}
	VP_ASSERT("nothing-else-emitted",last->next==NULL&&P[1].data_tail==last);
	VP_COVER("end",1); 
	drop(); if(IN[2]&2) cbinit(&I);
	cbdestroy(&I); VP_ASSERT("one-nested-instance",m_made==0); vp_release();
}
