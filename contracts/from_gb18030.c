/* GB18030 algorithmic four-byte sequences. The codec table routes a prefix of PL bytes to the callback and hands
 * it over as the data of the current state; the callback sees the bytes after it. */
#ifndef PL
#define PL 1
#endif
#define MAXC (4-PL)
#define HAS_INIT 1
#define HAS_DESTROY 1
#define VP_SPECIALS 0x30,0x39,0x2f,0x3a,0x80,0x81,0xfe,0xff,0x84,0x31,0xa4,0x90,0xe3,0x32,0x9a,0x35
#define BEFORE_CALL() P[1].state.data=(void*)(uintptr_t)16
#define COVERS VP_COVER("done",v==NEXTPHASE); VP_COVER("dead",v==DEADEND); VP_COVER("pending",K==MAXC-1||v==CONTINUE);
#define NATIVE_GEN { int q; if(vp_rng()&7) IN[40]=0x81+vp_rng()%(vp_rng()&1?4:0x7e); IN[41]=0x30+vp_rng()%10; IN[42]=0x81+vp_rng()%0x7e; for(q=0;q<MAXC;q++) if(vp_rng()&7) IN[8+q]=((q+PL)&1)?0x30+vp_rng()%10:0x81+vp_rng()%0x7e; }
#include "from_codec.h"
static uint8_t g_pfx[3]; static uint8_t z[64];
#include "gb18030_ranges.h"
static int spec(const uint8_t *b,int n,struct sp_out *o){
	uint32_t lin,u; int k; uint8_t q[4];
	for(k=0;k<4;k++) q[k]=k<PL?g_pfx[k]:k-PL<n?b[k-PL]:0;
	for(k=PL;k<4;k++) if(k-PL<n){
		if(k&1){ if(q[k]<0x30||q[k]>0x39) return SP_DEAD; }
		else if(q[k]<0x81||q[k]>0xfe) return SP_DEAD;
	}
	if(n<4-PL) return SP_PENDING;
	lin=gb_linear(q);
	if(!gb_to_ucs(lin,&u)) return SP_DEAD;
	sp_ucs(o,u); return SP_DONE;
}
static void vp_create(struct bsdconv_instance *ins){
	int k; struct data_st st;
	VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0);
	for(k=0;k<3;k++) g_pfx[k]=IN[40+k];
	/* the prefixes listed in the codec table are well formed (all of them are tried end to end) */
	VP_ASSUME(g_pfx[0]>=0x81&&g_pfx[0]<=0xfe);
	if(PL>1) VP_ASSUME(g_pfx[1]>=0x30&&g_pfx[1]<=0x39);
	if(PL>2) VP_ASSUME(g_pfx[2]>=0x81&&g_pfx[2]<=0xfe);
	st.data=32; st.len=PL; st.next=0; memcpy(z+16,&st,sizeof st);
	for(k=0;k<PL;k++) z[32+k]=g_pfx[k];
	CDC[0].data_z=(char*)z; CDC[0].z=(char*)z;
}
