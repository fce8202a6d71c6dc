#define MAXC 4
#define HAS_INIT 1
#define HAS_DESTROY 1
#define VP_SPECIALS 0xd7,0xd8,0xdb,0xdc,0xdf,0xe0,0
#define COVERS VP_COVER("done",v==NEXTPHASE); VP_COVER("dead",v==DEADEND); VP_COVER("pending",K==MAXC-1||v==CONTINUE);
#define NATIVE_GEN if(vp_rng()&1){ IN[8]=0xd8+vp_rng()%8; IN[9]=vp_rng()&255; IN[10]=0xdc; IN[11]=vp_rng()&3; \
	if(vp_rng()&1){ u64 z=IN[8]; IN[8]=IN[9]; IN[9]=z; z=IN[10]; IN[10]=IN[11]; IN[11]=z; } else { IN[10]=0xdc|(vp_rng()&3); IN[11]=vp_rng()&255; } }
#include "from_codec.h"
static uint32_t unit(const uint8_t *b){
#ifdef LE
	return b[0]|b[1]<<8;
#else
	return b[0]<<8|b[1];
#endif
}
static int spec(const uint8_t *b,int n,struct sp_out *o){
	uint32_t u,w;
	if(n<2) return SP_PENDING;
	u=unit(b);
	if(u<0xd800||u>0xdbff){ sp_ucs(o,u); return SP_DONE; }
	if(n<4){
#ifndef LE
		if(n==3 && (b[2]&0xfc)!=0xdc) return SP_DOOMED;
#endif
		return SP_PENDING;
	}
	w=unit(b+2);
	if(w<0xdc00||w>0xdfff) return SP_DEAD;
	sp_ucs(o,0x10000+((u-0xd800)<<10)+(w-0xdc00)); return SP_DONE;
}
static void vp_create(struct bsdconv_instance *ins){ VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0); }
