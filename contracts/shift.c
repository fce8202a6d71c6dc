/* C24: shift states. KIND 1: from/EBCDIC, 2: to/EBCDIC, 3: from/_JIS. The table lookup itself is C17; here the table is crafted. */
#define VP_SPECIALS 0x1b,0x24,0x28,0x42,0x4a,0x49,0x40,0x44,0x30,0x21,0x5c,1,0x0e,0x0f
#if KIND==3 && defined(XH)
#ifndef MODE
#define MODE 0
#endif
#define VP_ENUM {1,0,1},{2,0,4},{10,0,11},{11,0,11},{12,0,11},{13,0,11},{14,0,11},{15,0,XH}
#endif
#include "vp.h"
static unsigned char Z[96];
static void put(unsigned char *p,u64 v,int n){ int k; for(k=0;k<n;k++) p[k]=v>>(8*k); }
static void datum(int at,int data,int len){ struct data_st *d=(struct data_st*)(Z+at); put((unsigned char*)&d->data,data,sizeof d->data); put((unsigned char*)&d->len,len,sizeof d->len); put((unsigned char*)&d->next,0,sizeof d->next); }
#if KIND==1
static int st,first;
static void step(int q){ /* the engine looked a byte up and found this entry */
	int len=(int)vp_range(q,1,4),k,want,loop=IN[q+1]&1,none=IN[q+2]&1; struct data_rt *n;
	for(k=0;k<4;k++) Z[40+k]=IN[q+3+k];
	datum(8,40,len); P[1].state.status=SUBROUTINE; P[1].flags=loop?F_LOOPBACK|F_PENDING:0;
	want=loop?DEADEND:none?(st?CONTINUE:DEADEND):len==2&&Z[40]==1&&(Z[41]==0x0e||Z[41]==0x0f)?NEXTPHASE:st?SUBMATCH:MATCH;
	/* two calls, so that the pointer is a constant in each */
	if(none){ P[1].state.data=NULL; cbconv(&I); } else { P[1].state.data=(void*)(uintptr_t)8; cbconv(&I); }
	VP_ASSERT("verdict-by-mode",P[1].state.status==want);
	VP_ASSERT("nothing-emitted-and-frame",H1->next==NULL&&P[1].data_tail==H1&&(none?P[1].state.data==NULL:P[1].state.data==(void*)8)&&P[1].curr==H0);
	if(want==NEXTPHASE) st=Z[41]==0x0e;
	VP_COVER("so",want==NEXTPHASE&&st); VP_COVER("si",want==NEXTPHASE&&!st); VP_COVER("single",want==MATCH); VP_COVER("dead",want==DEADEND);
}
void harness(void){
	vp_begin(); vp_instance(FROM,0); CDC[0].z=CDC[0].data_z=(char*)Z;
	VP_ASSERT("create-succeeds",cbcreate(&I,NULL)==0); cbinit(&I); st=0;
	step(10); if(IN[1]&1){ cbinit(&I); st=0; }
	step(20); step(30);
	cbdestroy(&I); vp_release();
}
#elif KIND==2
static int st; static struct data_rt *last;
static void out(const unsigned char *b,int n,int owned){
	struct data_rt *t=last->next; int k;
	VP_ASSERT("emits-exactly",t!=NULL&&t->len==(size_t)n); for(k=0;k<n;k++) VP_ASSERT("emits-exactly",UCP(t->data)[k]==b[k]);
	VP_ASSERT("datum-ownership",t->flags==(owned?F_FREE:0)); last=t;
}
static const unsigned char SO[]={0x0e},SI[]={0x0f};
static void step(int q){
	int len=(int)vp_range(q,1,2),k,part=IN[q+1]&1,more=IN[q+2]&1,st0=st; struct data_rt *n=vp_node(vp_alloc(3),3,F_FREE),*m=more?vp_node(vp_alloc(1),1,F_FREE):NULL;
	for(k=0;k<4;k++) Z[40+k]=IN[q+3+k];
	datum(8,40,len); n->next=m; H0->next=n; P[0].data_tail=m?m:n; P[1].curr=n; P[1].i=part?(int)vp_range(q+7,0,2):3;
	P[1].state.data=(void*)(uintptr_t)8; P[1].state.status=SUBROUTINE; P[1].flags&=~F_LOOPBACK; I.phase_index=1;
	cbconv(&I);
	if(part){
		VP_ASSERT("only-whole-data-are-encoded",P[1].state.status==DEADEND&&last->next==NULL&&P[1].data_tail==last&&H0->next==n&&P[1].curr==n);
		H0->next=m; free(n->data); free(n); if(!m) P[0].data_tail=H0;
		/* the engine then lets it return to single-byte mode if a match was on */
		if(P[1].flags&F_MATCH){ P[1].flags&=~F_MATCH; cbflush(&I); if(st){ out(SI,1,1); } st=0; VP_ASSERT("emits-exactly",last->next==NULL&&P[1].data_tail==last); }
	} else {
		if(len==2&&!st){ out(SO,1,1); st=1; } else if(len==1&&st){ out(SI,1,1); st=0; }
		out(Z+40,len,0);
		VP_ASSERT("nothing-else-emitted",last->next==NULL&&P[1].data_tail==last);
		if(P[1].state.status==NEXTPHASE){ VP_ASSERT("match-is-finished-in-single-byte-mode",!st&&H0->next==n&&P[1].curr==n); P[1].flags&=~(F_MATCH|F_PENDING); H0->next=m; free(n->data); free(n); if(!m) P[0].data_tail=H0; }
		else { VP_ASSERT("double-byte-mode-stays-open",st&&P[1].state.status==NOOP&&(P[1].flags&F_MATCH)&&(P[1].flags&F_PENDING)&&P[1].match_data==NULL);
			VP_ASSERT("datum-is-consumed",H0->next==m&&P[1].curr==H0&&P[0].data_tail==(m?m:H0)&&I.phase_index==2); }
	}
	VP_COVER("one",len==1&&!part); VP_COVER("two",len==2&&!part); VP_COVER("part",part);
	if(m){ H0->next=NULL; P[0].data_tail=H0; free(m->data); free(m); }
	P[1].curr=H0;
}
void harness(void){
	vp_begin(); vp_instance(TO,0); CDC[0].z=CDC[0].data_z=(char*)Z; last=H1; st=0;
	VP_ASSERT("create-succeeds",cbcreate(&I,NULL)==0); cbinit(&I);
#if NSTEP>1
	step(10); I.phase_index=1; if(IN[1]&1){ cbinit(&I); P[1].flags=0; st=0; }
#endif
	step(20);
	I.phase_index=1;
	if(IN[1]&2){ cbflush(&I); if(st) out(SI,1,1); VP_ASSERT("end-of-input-returns-to-single-byte-mode",last->next==NULL&&P[1].data_tail==last&&P[1].state.status==NEXTPHASE); }
	cbdestroy(&I); vp_release();
}
#else
#include <errno.h>
static int mode,loaded; static unsigned char T[3][160];
static void state(unsigned char *z,int at,int status,int data,int b,int e,int base){ struct state_st *s=(struct state_st*)(z+at); memset(s,0,sizeof *s); s->status=status; put((unsigned char*)&s->data,data,4); put((unsigned char*)&s->beg,b,2); put((unsigned char*)&s->end,e,2); put((unsigned char*)&s->base,base,4); }
/* every table lists the single byte 5C and the pair 30 21, with data of its own */
#define SZ ((int)sizeof(struct state_st))
static const unsigned char *one_[3],*two_[3];
static void table(int k){
	unsigned char *z=T[k],*d; int row=4*SZ,row2,dat,i;
	row2=row+2*4; dat=row2+4; memset(z,0,160);
	state(z,0,DEADEND,0,0x30,0x32,row);           /* 30 continues, 31 is the single one */
	put(z+row,2*SZ,4); put(z+row+4,SZ,4); put(z+row2,3*SZ,4);
	state(z,SZ,MATCH,dat,0,0,0); state(z,2*SZ,CONTINUE,0,0x21,0x22,row2); state(z,3*SZ,MATCH,dat+sizeof(struct data_st),0,0,0);
	d=z+dat; put(d,dat+2*sizeof(struct data_st),4); put(d+4,2,4); put(d+8,0,4); d+=sizeof(struct data_st); put(d,dat+2*sizeof(struct data_st)+2,4); put(d+4,2,4); put(d+8,0,4);
	d+=sizeof(struct data_st); d[0]=1; d[1]=0x41+k; d[2]=1; d[3]=0x61+k; one_[k]=d; two_[k]=d+2;
}
int loadcodec(struct bsdconv_codec *c,int type){ int k=c->desc[0]!='_'?-1:c->desc[5]=='0'&&c->desc[6]=='1'?0:c->desc[6]=='0'?1:2;
	k=!strcmp(c->desc,"_JIS0201")?0:!strcmp(c->desc,"_JIS0208")?1:!strcmp(c->desc,"_JIS0212")?2:-1; VP_ASSERT("loads-its-own-tables",k>=0&&type==FROM); table(k); c->z=c->data_z=(char*)T[k]; loaded++; return 1; }
void unloadcodec(struct bsdconv_codec *c){ loaded--; }
static const struct { unsigned char s[5]; int mode; } ESCS[]={{"\033(B",0},{"\033(J",1},{"\033(I",1},{"\033$@",2},{"\033$B",2},{"\033$(D",3}};
static int slen(const unsigned char *s){ int k; for(k=0;s[k];k++); return k; }
static struct data_rt *last;
static unsigned char X[32]; static int give; /* the first attempt is given up after so many bytes */
static void attempt(int q){
	unsigned char x[4]; int n,k,j,want,newmode; const unsigned char *d; struct data_rt *t;
	static unsigned char byte[1];
	P[1].flags=0; H0->next=vp_node(byte,1,0); P[0].data_tail=H0->next; P[1].curr=H0->next; P[1].i=0;
	for(n=1;n<=4;n++){
		x[n-1]=X[q+n-1]; d=NULL; newmode=mode;
		if(x[0]==0x1b){
			want=DEADEND;
			for(k=0;k<6;k++){ int L=slen(ESCS[k].s),same=1; for(j=0;j<4;j++) if(j<n&&(j>=L||ESCS[k].s[j]!=x[j])) same=0; if(same){ if(n==L){ want=NEXTPHASE; newmode=ESCS[k].mode; } else if(want==DEADEND) want=CONTINUE; } }
		} else if(mode==0) want=DEADEND;
		else if(n==1){ want=x[0]==0x31?NEXTPHASE:x[0]==0x30?CONTINUE:DEADEND; if(x[0]==0x31) d=one_[mode-1]; }
		else { want=x[1]==0x21?NEXTPHASE:DEADEND; if(x[1]==0x21) d=two_[mode-1]; }
		byte[0]=x[n-1]; P[1].state.status=SUBROUTINE;
		cbconv(&I);
		VP_ASSERT("verdict-by-mode",P[1].state.status==want);
		t=last->next;
		if(d){ VP_ASSERT("character-of-the-selected-set",t!=NULL&&t->next==NULL&&t->len==2&&UCP(t->data)[0]==d[0]&&UCP(t->data)[1]==d[1]&&P[1].data_tail==t); last=t; }
		else VP_ASSERT("nothing-emitted",t==NULL&&P[1].data_tail==last);
		mode=newmode; P[1].flags|=F_LOOPBACK|F_PENDING;
		if(want!=CONTINUE) break;
#if defined(B0)
		if(q==10&&n==(B0==0x1b?4:B0==0x30?2:1)){ VP_ASSERT("attempt-is-over",0); break; }
#endif
		if(q==10&&give==n) break; /* given up here: another codec, or the end of the input */
	}
#if defined(B1)
	VP_COVER("character",B1==256||d!=NULL);
#elif !defined(B0)&&defined(MODE)
	VP_COVER("character",d!=NULL);
#endif
#if !defined(B0)||B0==0x1b
	VP_COVER("escape",x[0]==0x1b&&want==NEXTPHASE);
#endif
#if !defined(B0)||B0==0x1b||(defined(B1)&&B1==256)
	VP_COVER("dead",want==DEADEND&&n==2);
#else
	VP_COVER("done",want!=CONTINUE);
#endif
	free(H0->next); H0->next=NULL; P[0].data_tail=H0; P[1].curr=H0;
}
void harness(void){
	int k; vp_begin(); vp_instance(FROM,0); last=H1; loaded=0; mode=0;
	give=IN[2]%8;
#if defined(XH)&&!defined(VP_CPROVER)
	{ static const unsigned char v[]={0x30,0x21,0x31,0x1b,0x24,0x28,0x42,0x44,0x4a,0x49,0x40,0x5c}; for(k=10;k<18;k++) X[k]=k<14+(XH?2:1)?v[IN[k]%12]:0x21; }
#elif !defined(VP_CPROVER)
	if(vp_random_mode){ static const unsigned char v[]={0x30,0x21,0x31,0x1b,0x24,0x28,0x42,0x44,0x4a}; for(k=10;k<30;k++) if(IN[k]%8) IN[k]=v[IN[k]%9]; }
#endif
#ifndef XH
	for(k=10;k<20;k++) X[k]=IN[k];
#endif
	VP_ASSERT("create-succeeds",cbcreate(&I,NULL)==0); VP_ASSERT("loads-its-own-tables",loaded==3); cbinit(&I);
#ifdef MODE /* the history: the escape sequence that selects this mode */
	for(k=0;k<4;k++) X[20+k]=ESCS[MODE].s[k];
	attempt(20); VP_ASSERT("mode-as-selected",mode==ESCS[MODE].mode);
#endif
#ifdef B1
#if B1<256
	X[11]=B1;
#else
	VP_ASSUME(X[11]!=0x21);
#endif
#endif
#ifdef B0
#if B0<256
	X[10]=B0;
#else
	VP_ASSUME(X[10]!=0x1b&&X[10]!=0x30&&X[10]!=0x31);
#endif
#endif
	attempt(10);   /* anything, possibly given up in the middle */
#ifndef ONE
	if(IN[1]&1){ cbinit(&I); mode=0; }
	attempt(14);
#endif
	cbdestroy(&I); VP_ASSERT("tables-released",loaded==0); vp_release();
}
#endif
