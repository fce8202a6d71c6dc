#define PHASE TO
#define VP_SPECIALS 1,4,0x52,0x53,0x20,0x0f,0x10,0xd7,0xff,0xe8,0x65,0x2f,0xfe
#define NATIVE_GEN if(vp_rng()&7) IN[base+2]=1; if(vp_rng()&1) IN[base]=2+vp_rng()%4;
#define COVERS VP_COVER("encoded",g_v==SP_DONE); VP_COVER("refused",g_v==SP_DEAD);
#include "to_codec.h"
#include "gb18030_ranges.h"
static void vp_create(struct bsdconv_instance *ins){}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	uint32_t u; uint8_t q[OUTB];
	VP_ASSUME(d[0]==1);
	if(len<2||(len>2&&d[1]==0)) return SP_FREE;
	if(!sp_ucs(d,len,&u)) return SP_DEAD;
	if(!gb_from_ucs(u,q)) return SP_DEAD;
	sp_lit(o,q,4); return SP_DONE;
}
#ifdef LEMMA /* the two published directions are inverse to each other (lemma over the specification) */
#endif
