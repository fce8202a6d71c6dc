#define MAXC 4
#define HAS_INIT 1
#define HAS_DESTROY 1
#define COVERS VP_COVER("done",v==NEXTPHASE); VP_COVER("pending",K==MAXC-1||v==CONTINUE);
#include "from_codec.h"
static int spec(const uint8_t *b,int n,struct sp_out *o){
	if(n<4) return SP_PENDING;
#ifdef LE
	sp_ucs(o,b[0]|b[1]<<8|b[2]<<16|(uint32_t)b[3]<<24);
#else
	sp_ucs(o,b[3]|b[2]<<8|b[1]<<16|(uint32_t)b[0]<<24);
#endif
	return SP_DONE;
}
static void vp_create(struct bsdconv_instance *ins){ VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0); }
