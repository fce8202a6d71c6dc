/* what follows "&#"; K bytes of it were taken in earlier chunks, up to MAXC-K more are looked at */
#ifndef MAXC
#define MAXC 12
#endif
#define OPEN_ENDED 1
#define HAS_INIT 1
#define HAS_DESTROY 1
#define VP_SPECIALS ';','x','X','0','1','9','a','f','A','F','g',':','/','4','2'
#define COVERS VP_COVER("done",K<1||v==NEXTPHASE); VP_COVER("dead",v==DEADEND); VP_COVER("pending",v==CONTINUE);
#define NATIVE_GEN { static const char h[]="0123456789abcdefABCDEF"; int q,x=vp_rng()&1,l=1+vp_rng()%MAXC; for(q=8;q<8+MAXC;q++) if(vp_rng()&15) IN[q]=h[vp_rng()%(x?22:10)]; if(x) IN[8]='x'; if((vp_rng()&3)==0) for(q=8+x;q<8+MAXC/2;q++) IN[q]='0'; if(l<MAXC) IN[8+l]=';'; }
#include "from_codec.h"
static int hexv(uint8_t c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
static int spec(const uint8_t *b,int n,struct sp_out *o){
	int k,x=0,dig=0; uint64_t v=0;
	for(k=0;k<MAXC;k++) if(k<n){
		if(k==0&&b[0]=='x'){ x=1; continue; }
		if(b[k]==';'){ if(!dig) return SP_DEAD; sp_ucs(o,v); return SP_DONE; }
		if(x){ if(hexv(b[k])<0) return SP_DEAD; v=v*16+hexv(b[k]); }
		else { if(b[k]<'0'||b[k]>'9') return SP_DEAD; v=v*10+(b[k]-'0'); }
		dig=1;
		if(v>0xffffffffu) return SP_DEAD;
	}
	return SP_PENDING;
}
static void vp_create(struct bsdconv_instance *ins){ VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0); }
