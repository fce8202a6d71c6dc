/* The matching engine: the real bsdconv() over one phase (TYPE = 1 FROM, 2 INTER or 3 TO) of NC codecs whose tables list ANY set of
 * sequences of at most DEP symbols (bytes for FROM, data for INTER/TO) over {a,b}, each with its own output; any input of at
 * most NI symbols over {a,b,c}, given in two pieces cut anywhere and then flushed.
 * Contract: the output is that of the longest-match specification below, and as many errors as it counts. */
#ifndef DEP
#define DEP 2
#endif
#ifndef NC
#define NC 1
#endif
#ifndef NI
#define NI 3
#endif
#define NNODE ((1<<(DEP+1))-2)
#define VP_ENUM {1,0,(1<<NNODE)-1},{2,0,NC>1?(1<<NNODE)-1:0},{3,0,NC>2?(1<<NNODE)-1:0},{4,0,NI},{5,0,CUTMAX},{6,0,CUTMAX?1:0},{8,0,2},{9,0,NI>1?2:0},{10,0,NI>2?2:0},{11,0,NI>3?2:0},{12,0,NI>4?2:0},{13,0,NI>5?2:0}
#ifdef CUTS
#define CUTMAX NI
#else
#define CUTMAX 0
#endif
#include "vp.h"
#define NN ((1<<(DEP+1))-1)          /* trie nodes in heap order: 0 root, 2k+1 a-child, 2k+2 b-child */
#define SZ 16
static struct __attribute__((aligned(8))) { unsigned char z[NN*64+64]; } T[NC];
static unsigned char listed[NC][NN], below[NC][NN];
static struct bsdconv_codec CC[3]; static bsdconv_counter_t ie,oe;
static void w32(unsigned char *p,uint32_t v){ p[0]=v; p[1]=v>>8; p[2]=v>>16; p[3]=v>>24; }
static void w16(unsigned char *p,uint32_t v){ p[0]=v; p[1]=v>>8; }
/* node k: at 64k: state (16), row (8); at 64k+24: the state after the end-of-datum mark (16), its row (8); at 64k+48: data record (12), byte at +60 */
static uint32_t child(int c,int k,int s){ int n=2*k+1+s; return n<NN&&(listed[c][n]||below[c][n])?64*n:0; }
static void state(unsigned char *p,int st,uint32_t data,int beg,int end,uint32_t base){ p[0]=st; w32(p+4,data); w16(p+8,beg); w16(p+10,end); w32(p+12,base); }
static void table(int c,u64 sel){
	int k,n=NN; unsigned char *z=T[c].z;
	for(k=1;k<NN;k++) listed[c][k]=sel>>(k-1)&1;
	listed[c][0]=0;
	for(k=NN-1;k>=0;k--) below[c][k]= 2*k+2<NN && (listed[c][2*k+1]||below[c][2*k+1]||listed[c][2*k+2]||below[c][2*k+2]);
	for(k=0;k<NN;k++){
		unsigned char *p=z+64*k; int st=k==0?DEADEND:listed[c][k]?(below[c][k]?SUBMATCH:MATCH):below[c][k]?CONTINUE:DEADEND;
#if TYPE==1
		state(p,st,listed[c][k]?64*k+48:0,'a','c',64*k+16); w32(p+16,child(c,k,0)); w32(p+20,child(c,k,1));
#else
		if(k==0){ state(p,st,0,'a','c',16); w32(p+16,child(c,0,0)); w32(p+20,child(c,0,1)); }
		else { state(p,st,listed[c][k]?64*k+48:0,256,257,64*k+16); w32(p+16,below[c][k]?64*k+24:0); w32(p+20,0); }
		if(k){ state(p+24,CONTINUE,0,'a','c',64*k+40); w32(p+40,child(c,k,0)); w32(p+44,child(c,k,1)); }
#endif
		w32(p+48,64*k+60); w32(p+52,1); w32(p+56,0); p[60]=0x80+c*NN+k;
	}
}
/* longest listed sequence at x[0..m): its node, 0 if none */
static int longest(int c,const unsigned char *x,int m,int *len){
	int k=0,j,best=0; *len=0;
	for(j=0;j<DEP;j++){ if(j>=m||(x[j]!='a'&&x[j]!='b')) break; k=2*k+1+(x[j]-'a'); if(listed[c][k]){ best=k; *len=j+1; } }
	return best;
}
static unsigned char x[NI], want[2*NI+1]; static int wn, werr;
static void specify(int n){
	int p=0,c,l,k,r; wn=0; werr=0;
	for(r=0;r<NI;r++){ if(p>=n) break;
		for(c=0;c<NC;c++){ k=longest(c,x+p,n-p,&l); if(k) break; }
		if(c<NC){ want[wn++]=0x80+c*NN+k; p+=l; }
		else {
#if TYPE==2
			want[wn++]=x[p];
#else
			werr++;
#endif
			p++; }
	}
}
static unsigned char dat[NI][1];
static struct bsdconv_instance *E;
static void feed(int from,int to,int flush){
	int k; E->flush=flush; E->output_mode=BSDCONV_HOLD;
	if(to>from){
#if TYPE==1
		unsigned char *b=vp_alloc(to-from); for(k=0;k<NI;k++) if(k>=from&&k<to) b[k-from]=x[k];
		E->input.data=b; E->input.len=to-from; E->input.flags=F_FREE; E->input.next=NULL;
#else
		struct data_rt *h=NULL;
		for(k=NI-1;k>=0;k--) if(k>=from&&k<to){ unsigned char *b=vp_alloc(1); *b=x[k];
			if(k==from){ E->input.data=b; E->input.len=1; E->input.flags=F_FREE; E->input.next=h; }
			else { struct data_rt *d=vp_node(b,1,F_FREE); d->next=h; h=d; } }
#endif
	}else { E->input.data=NULL; E->input.len=0; E->input.next=NULL; }
	bsdconv(E);
}
void harness(void){
	int k,n,cut; vp_begin();
#ifndef VP_CPROVER
	if(!vp_random_mode) for(k=0;k<NI;k++) if(IN[4]>NI||(k>=(int)IN[4]&&IN[8+k])||IN[5]>IN[4]||IN[6]>1){ vp_skipped++; return; }
#endif
	E=vp_instance(TYPE,0); memset(CC,0,sizeof CC);
	P[1].codec=CC; P[1].codecn=NC-1; ie=oe=0; I.ierr=&ie; I.oerr=&oe;
	for(k=0;k<NC;k++){ table(k,IN[1+k]); CC[k].z=CC[k].data_z=(char*)T[k].z; }
	bsdconv_init(E);
	n=(int)vp_range(4,0,NI); cut=(int)vp_range(5,0,CUTMAX<n?CUTMAX:n);
	for(k=0;k<NI;k++) x[k]='a'+(int)vp_range(8+k,0,2);
	specify(n);
#ifdef CUTS
	feed(0,cut,0); feed(cut,n,(int)(IN[6]&1)); feed(n,n,1);
#else
	feed(0,n,1);
#endif
	{ struct data_rt *p=H1; int ok=1,j=0;
	  for(k=0;k<=NI;k++){ struct data_rt *q=p->next; if(q==NULL) break; p=q; if(p->len==0) continue; /* empty data carry nothing */
	     if(j>=wn||p->len!=1||((unsigned char*)p->data)[0]!=want[j]) ok=0; j++; }
	  VP_ASSERT("output-is-the-longest-match-output",ok&&j==wn);
	  VP_ASSERT("one-error-per-unmatched-symbol",TYPE==FROM?ie==werr&&oe==0:TYPE==TO?oe==werr&&ie==0:ie==0&&oe==0);
	  VP_ASSERT("nothing-left-unread",P[1].data_tail==p&&p->next==NULL&&(P[1].flags&(F_MATCH|F_PENDING|F_LOOPBACK))==0);
	  VP_COVER("error",werr>0||wn>0); VP_COVER("two",wn>=2);
	}
	bsdconv_init(E);
	vp_release();
}
