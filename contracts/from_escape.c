#define MAXC 6
#define HAS_INIT 1
#define HAS_DESTROY 1
#define VP_SPECIALS '%','\\','u','x','U','X','0','1','3','4','7','8','9','a','f','g','A','F','G',0xff,'/',':','@','`'
#define COVERS VP_COVER("done",K<2||v==NEXTPHASE); VP_COVER("dead",v==DEADEND); VP_COVER("pending",K==MAXC-1||v==CONTINUE);
#define NATIVE_GEN { static const char h[]="0123456789abcdefABCDEF"; int q; if(vp_rng()&7){ IN[8]=(vp_rng()&1)?'%':'\\'; for(q=9;q<8+MAXC;q++) IN[q]=(vp_rng()&15)?h[vp_rng()%((vp_rng()&1)?8:22)]:IN[q]; if(vp_rng()&1) IN[9]=(vp_rng()&1)?'u':'x'; } }
#include "from_codec.h"
static int hexv(uint8_t c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
static int spec(const uint8_t *b,int n,struct sp_out *o){
	int k,need,at,v=0; bool pct;
	if(b[0]!='%'&&b[0]!='\\') return SP_DEAD;
	pct=b[0]=='%';
	if(n==1) return SP_PENDING;
	if(b[1]=='u'){ need=4; at=2; }
	else if(pct){ need=2; at=1; }
	else if(b[1]=='x'){ need=2; at=2; }
	else { /* \OOO */
		for(k=1;k<4;k++) if(k<n){ if(b[k]<'0'||b[k]>'7') return SP_DEAD; v=v*8+(b[k]-'0'); }
		if(b[1]>'3') return n<4?SP_DOOMED:SP_DEAD;
		if(n<4) return SP_PENDING;
		sp_byte(o,v); return SP_DONE;
	}
	for(k=1;k<6;k++) if(k>=at&&k<at+need&&k<n){ if(hexv(b[k])<0) return SP_DEAD; v=v*16+hexv(b[k]); }
	if(n<at+need) return SP_PENDING;
	if(need==4) sp_ucs(o,v); else sp_byte(o,v);
	return SP_DONE;
}
static void vp_create(struct bsdconv_instance *ins){ VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0); }
