#define MAXC 2
#define HAS_INIT 1
#define HAS_DESTROY 1
#define VP_SPECIALS 0xfa,0xfe,0x8e,0xa0,0x81,0x8d,0xc6,0xc8,0xa1,0x7e,0x40,0x7f,0x3f,0xff
#define COVERS VP_COVER("done",v==NEXTPHASE); VP_COVER("dead",v==DEADEND); VP_COVER("pending",K==MAXC-1||v==CONTINUE);
#include "from_codec.h"
static int spec(const uint8_t *b,int n,struct sp_out *o){
	uint32_t base,first; int t;
	if(b[0]>=0xfa&&b[0]<=0xfe){ base=0xe000; first=0xfa; }
	else if(b[0]>=0x8e&&b[0]<=0xa0){ base=0xe311; first=0x8e; }
	else if(b[0]>=0x81&&b[0]<=0x8d){ base=0xeeb8; first=0x81; }
	else if(b[0]>=0xc6&&b[0]<=0xc8){ base=0xf6b1-63; first=0xc6; } /* C6A1 is U+F6B1 */
	else return SP_DEAD;
	if(n==1) return SP_PENDING;
	if(b[1]>=0x40&&b[1]<=0x7e) t=b[1]-0x40; else if(b[1]>=0xa1&&b[1]<=0xfe) t=63+b[1]-0xa1; else return SP_DEAD;
	if(b[0]==0xc6&&b[1]<0xa1) return SP_DEAD;
	sp_ucs(o,base+157*(b[0]-first)+t); return SP_DONE;
}
static void vp_create(struct bsdconv_instance *ins){ VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0); }
