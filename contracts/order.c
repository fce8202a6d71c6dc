/* C11: the canonical-ordering step, NCALLS data and then the end of the input (or re-initialisation) */
#define VP_SPECIALS 1,3,0,2
#include "vp.h"
#define GOLD_CCC
#include "golden.h"
#define NG ((int)(sizeof g_ccc/sizeof *g_ccc))
#define NB 6
/* class of u in the reference table; for the verifier the position is a witness (one exists for every u) */
static int cls(uint32_t u,int w){
#ifdef VP_CPROVER
	int q=(int)vp_range(w,0,2*NG);
	if(q&1){ VP_ASSUME(u>=g_ccc[q>>1][0]&&u<=g_ccc[q>>1][1]); return g_ccc[q>>1][2]; }
	VP_ASSUME((q==0||u>g_ccc[(q>>1)-1][1])&&(q==2*NG||u<g_ccc[q>>1][0])); return 0;
#else
	int k; for(k=0;k<NG;k++) if(u>=g_ccc[k][0]&&u<=g_ccc[k][1]) return g_ccc[k][2]; return 0;
#endif
}
static unsigned char *buf[NCALLS]; static int len[NCALLS],cl[NCALLS]; static unsigned char fl[NCALLS]; static unsigned char by[NCALLS][NB];
static int pend[NCALLS],np;              /* waiting data, in output order */
static struct data_rt *last;             /* the output so far ends here */
static void expect(int k){ /* the next output datum is datum k */
	struct data_rt *n=last->next; int j;
	VP_ASSERT("every-datum-exactly-once-and-in-order",n!=NULL&&n->data==buf[k]&&n->len==(size_t)len[k]);
	VP_ASSERT("datum-keeps-its-owner",(n->flags&F_FREE)==(fl[k]&F_FREE));
	for(j=0;j<NB;j++) if(j<len[k]) VP_ASSERT("datum-unchanged",UCP(n->data)[j]==by[k][j]);
	last=n;
}
static void drain(void){ int k; for(k=0;k<NCALLS;k++) if(k<np) expect(pend[k]); np=0; }
void harness(void){
	struct bsdconv_instance *ins; int c,k,j,b; uint32_t u; struct data_rt *in; vp_begin();
	ins=vp_instance(INTER,0); last=H1; np=0;
	VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0); cbinit(ins);
	for(c=0;c<NCALLS;c++){
		b=4+c*8;
#ifndef VP_CPROVER
		if(vp_random_mode&&(vp_rng()&7)){ int g=vp_rng()%NG; u=g_ccc[g][vp_rng()&1]; k=vp_rng()%8; if(k==0) u--; if(k==1) u++; if(k==2) u=0x41;
			IN[b]=u>0xffff?4:u>0xff?3:2; IN[b+2]=1; for(k=0;k<(int)IN[b]-1;k++) IN[b+3+k]=u>>(8*(IN[b]-2-k)); }
#endif
#ifdef HIST /* the data before the last one: marks of these classes (U+0316, U+0300, U+0345), so that the last one meets every order of classes */
		if(c<NCALLS-1){ static const uint16_t m[]={0,0x316,0x300,0x345}; static const char h[]=HIST; IN[b]=3; IN[b+1]=F_FREE; IN[b+2]=1; IN[b+3]=m[h[c]-'0']>>8; IN[b+4]=m[h[c]-'0']&255; IN[b+5]=IN[b+6]=0; }
#endif
		len[c]=(int)vp_range(b,1,NB-1); fl[c]=IN[b+1]&F_FREE; buf[c]=vp_alloc(NB-1);
		for(k=0;k<NB-1;k++) if(k<len[c]) buf[c][k]=by[c][k]=IN[b+2+k];
		cl[c]=0; if(by[c][0]==1){ for(u=0,k=1;k<NB-1;k++) if(k<len[c]) u=u<<8|by[c][k]; 
#ifdef HIST
			if(c<NCALLS-1){ static const int k_[]={0,220,230,240}; static const char h[]=HIST; cl[c]=k_[h[c]-'0']; } else
#endif
			cl[c]=cls(u,80+c); }
		in=vp_node(buf[c],len[c],fl[c]); H0->next=in; P[0].data_tail=in; P[1].curr=in; P[1].state.status=SUBROUTINE;
		/* stable insertion: behind everything of the same or a lower class */
		if(cl[c]){ for(j=np;j>0&&cl[pend[j-1]]>cl[c];j--) pend[j]=pend[j-1]; pend[j]=c; np++; }
		cbconv(ins);
		VP_ASSERT("input-stays-where-it-is",H0->next==in&&in->next==NULL&&P[1].curr==in);
		if(cl[c]){ VP_ASSERT("marks-wait",P[1].state.status==SUBMATCH); if(c==NCALLS-1) VP_COVER("mark",1); }
		else { VP_ASSERT("step-done",P[1].state.status==NEXTPHASE); drain(); expect(c); if(c==NCALLS-1) VP_COVER("other",1); }
		VP_ASSERT("nothing-else-emitted",last->next==NULL&&P[1].data_tail==last);
		if(in->flags&F_FREE) free(in->data); free(in); H0->next=NULL; P[0].data_tail=H0; P[1].curr=H0;
	}
	VP_COVER("all-wait",np==NCALLS); 
	if(IN[1]&1){ cbflush(ins); VP_ASSERT("step-done",P[1].state.status==NEXTPHASE); drain(); VP_ASSERT("nothing-else-emitted",last->next==NULL&&P[1].data_tail==last); }
	if(IN[1]&2){ cbinit(ins); VP_ASSERT("nothing-else-emitted",last->next==NULL); np=0; }
	cbdestroy(ins);
	for(k=0;k<NCALLS;k++) if(!(fl[k]&F_FREE)) free(buf[k]);
	vp_release();
}
