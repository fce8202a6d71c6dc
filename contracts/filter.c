/* Block filters, type filters and scorers. -DG=<golden range table> or -DTY=<type byte>; -DSCORE for a scorer.
 * Contract: for a datum of any length and any content the callback returns exactly the listed verdict, and assigns nothing. Data that
 * start with 01 are Unicode data: the contract is for the ones of at most MAXU bytes (a code point needs at most 5). */
#define VP_SPECIALS 0,1,2,3,4,0x20,0x7e,0x7f,0x80,0xff,0x30,0x4e,0x9f,0xac,0xd7,0x1f
#include "vp.h"
#include "golden.h"
#ifndef MAXU
#define MAXU 8
#endif
#define NBY 8
static uint32_t g_w; /* what the specification says of the datum at hand */
#ifdef SCORE
#define VERDICT (__CPROVER_return_value==g_w)
uint32_t cbscorer(struct data_rt *data)
#define CB cbscorer
#else
#define VERDICT ((__CPROVER_return_value!=0)==(g_w!=0))
int cbfilter(struct data_rt *data)
#define CB cbfilter
#endif
#ifdef VP_CPROVER
__CPROVER_requires(data!=NULL && __CPROVER_r_ok(data,sizeof *data))
__CPROVER_requires(data->len==0 || __CPROVER_r_ok(data->data,data->len))
__CPROVER_ensures(VERDICT)
__CPROVER_assigns()
#endif
;
static uint32_t spec(const unsigned char *d,size_t len){
#ifdef TY
	return len>0 && d[0]==TY;
#else
	uint32_t u=0; size_t k;
	if(len<1||d[0]!=1) return 0;
	for(k=1;k<NBY;k++) if(k<len) u=u<<8|d[k];
	for(k=0;k<sizeof(G)/sizeof(G[0]);k++) if(u>=G[k][0]&&u<=G[k][1]) return G[k][2];
	return 0;
#endif
}
void harness(void){
	vp_begin(); int k; unsigned char s[NBY];
#ifndef VP_CPROVER
	if(vp_random_mode){ u64 v=vp_rng();
		IN[0]=v%7;
		if(v&64){ /* a code point, often next to the end of a range */
			uint32_t u=IN[20]%0x110000; IN[1]=1;
#ifndef TY
			if(v&128){ int r=(v>>8)%(sizeof(G)/sizeof(G[0])); u=G[r][v>>40&1]+(int)((v>>41)%3)-1; }
#endif
			IN[0]=u>0xffffff?5:u>0xffff?4:u>0xff?3:2; for(k=0;k<(int)IN[0]-1;k++) IN[2+k]=u>>(8*(IN[0]-2-k));
		} }
#endif
	size_t len=vp_range(0,0,1u<<20); unsigned char *d=vp_alloc(len?len:1);
	for(k=0;k<NBY;k++) if(k<len) d[k]=IN[1+k];
	for(k=0;k<NBY;k++) s[k]=IN[1+k];
	if(len>0&&d[0]==1) VP_ASSUME(len<=MAXU);
	if(len==0){ free(d); d=NULL; }
	struct data_rt n={d,len,NULL,0};
	n.data=d; n.len=len; n.next=&n; n.flags=IN[10];
	uint32_t w=g_w=spec(s,len), r=CB(&n);
#if defined(SCORE)
	VP_ASSERT("score-is-the-listed-one",r==w);
#else
	VP_ASSERT("accepts-exactly-the-listed-data",(r!=0)==(w!=0));
#endif
	VP_ASSERT("datum-unchanged",n.data==d&&n.len==len&&n.next==&n&&n.flags==(unsigned char)IN[10]);
	for(k=0;k<NBY;k++) if(k<len) VP_ASSERT("datum-unchanged",d[k]==s[k]);
	VP_COVER("accepted",w!=0); VP_COVER("refused",w==0); VP_COVER("empty",len==0);
	free(d);
}
