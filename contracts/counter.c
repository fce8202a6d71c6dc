/* C15: bsdconv_counter() gives one cell per name, whatever its case, and the cell stays where it is; bsdconv_counter_reset() zeroes
 * exactly the named one, or all. Every history of NOPS calls on any names of at most two characters. */
#ifndef NOPS
#define NOPS 3
#endif
#ifdef XH
#define VP_ENUM {1,0,9},{2,0,9},{3,0,9},{4,0,9},{5,0,NOPS>4?9:0},{6,0,NOPS>5?9:0},{90,0,3}
static const char *const XK[4]={"a","AB","ab","A"};
#endif
#include "vp.h"
static char gk[NOPS+1][3]; static bsdconv_counter_t *gp[NOPS+1],gv[NOPS+1]; static int gon[NOPS+1]; static char kb[3];
static char up(char c){ return c>='a'&&c<='z'?c-32:c; }
static int same(const char *a,const char *b){ return up(a[0])==up(b[0])&&(!a[0]||(up(a[1])==up(b[1]))); }
static void pick(int a,int b){
#ifdef XH
	strcpy(kb,XK[b]);
#else
	kb[0]=IN[a]; kb[1]=kb[0]?IN[a+1]:0; kb[2]=0;
#ifndef VP_CPROVER
	if(vp_random_mode){ kb[0]="aAb\0"[IN[a]&3]; kb[1]=kb[0]?"aAb\0"[IN[a+1]&3]:0; }
#endif
	VP_ASSUME((kb[0]&0x80)==0&&(kb[1]&0x80)==0);
#endif
}
static int find(void){ int k; for(k=0;k<=NOPS;k++) if(gon[k]&&same(gk[k],kb)) return k; return -1; }
static void check(int c){
	int k=find(); bsdconv_counter_t *p; char k0=kb[0],k1=kb[1]; int j;
	p=bsdconv_counter(&I,kb);
	VP_ASSERT("name-left-as-it-is",kb[0]==k0&&kb[1]==k1&&kb[2]==0);
	VP_ASSERT("a-cell",p!=NULL);
	if(k>=0){ VP_ASSERT("one-cell-per-name",p==gp[k]); }
	else { for(j=0;j<=NOPS;j++) if(gon[j]) VP_ASSERT("a-cell-of-its-own",p!=gp[j]); VP_ASSERT("new-counter-is-zero",*p==0); k=c; gk[k][0]=kb[0]; gk[k][1]=kb[1]; gk[k][2]=0; gon[k]=1; gp[k]=p; gv[k]=0; }
	VP_ASSERT("value-kept",*p==gv[k]);
}
void harness(void){
	int c,op,k; vp_begin(); memset(&I,0,sizeof I); for(k=0;k<=NOPS;k++) gon[k]=0;
	for(c=0;c<NOPS;c++){
#ifdef XH
		op=IN[1+c]<4?0:IN[1+c]<8?1:2; pick(0,IN[1+c]&3); if(IN[1+c]==9) op=3;
#else
		op=IN[4*c+6]&3; pick(4*c+4,0);
#endif
		if(op==0||op==3){ check(c); k=find(); *gp[k]+=c+1; gv[k]+=c+1; }
		else if(op==1){
			k=find(); bsdconv_counter_reset(&I,kb); if(k>=0) gv[k]=0; else { gk[c][0]=kb[0]; gk[c][1]=kb[1]; gk[c][2]=0; gp[c]=bsdconv_counter(&I,kb); gon[c]=1; gv[c]=0; }
		}
		else { bsdconv_counter_reset(&I,NULL); for(k=0;k<=NOPS;k++) gv[k]=0; }
		for(k=0;k<=NOPS;k++) if(gon[k]) VP_ASSERT("values-of-all-counters",*gp[k]==gv[k]);
		kb[0]='?'; kb[1]=0;
	}
	pick(88,IN[90]); VP_COVER("new",find()<0); VP_COVER("known",find()>=0);
	check(NOPS);
	while(I.counter){ struct bsdconv_counter_entry *t=I.counter->next; free(I.counter->key); free(I.counter); I.counter=t; }
}
