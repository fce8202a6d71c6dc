/* Unicode encoders: -DKIND=8 (UTF-8) 16 32 2 (UCS-2), -DLE */
#define PHASE TO
#define VP_SPECIALS 1,0,0x10,0x0f,0x11,0xd8,0xdc,0xdf,0x7f,0x80,0xff,0x1f,0x20
#define NATIVE_GEN if(vp_rng()&7) IN[base+2]=1; if(vp_rng()&1) IN[base]=2+vp_rng()%4;
#define COVERS VP_COVER("encoded",g_v==SP_DONE); VP_COVER("refused",g_v==SP_DEAD);
#include "to_codec.h"
static void vp_create(struct bsdconv_instance *ins){}
static void put(struct sp_out *o,uint32_t v,int n,uint8_t *x,int at){ int k; for(k=0;k<4;k++) if(k<n){
#ifdef LE
	x[at+k]=v>>(8*k);
#else
	x[at+k]=v>>(8*(n-1-k));
#endif
	} }
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	uint32_t u; uint8_t x[OUTB]; int k; size_t j;
	VP_ASSUME(d[0]==1); /* the codec table routes only Unicode data here (01*); checked end to end */
	if(len<2||(len>2&&d[1]==0)) return SP_FREE;
	if(len>5) return SP_DEAD;
	if(!sp_ucs(d,len,&u)) return SP_FREE;
#if KIND==8
	if(u<0x80||u>0x1fffff) return SP_DEAD;
	if(u<0x800){ x[0]=0xc0|u>>6; x[1]=0x80|(u&63); sp_lit(o,x,2); }
	else if(u<0x10000){ x[0]=0xe0|u>>12; x[1]=0x80|(u>>6&63); x[2]=0x80|(u&63); sp_lit(o,x,3); }
	else { x[0]=0xf0|u>>18; x[1]=0x80|(u>>12&63); x[2]=0x80|(u>>6&63); x[3]=0x80|(u&63); sp_lit(o,x,4); }
#elif KIND==16
	if(u>0x10ffff) return SP_DEAD;
	if(u<0x10000){ put(o,u,2,x,0); sp_lit(o,x,2); }
	else { u-=0x10000; put(o,0xd800+(u>>10),2,x,0); put(o,0xdc00+(u&0x3ff),2,x,2); sp_lit(o,x,4); }
#elif KIND==32
	put(o,u,4,x,0); sp_lit(o,x,4);
#elif KIND==2
	if(u>0xffff) return SP_DEAD;
	put(o,u,2,x,0); sp_lit(o,x,2);
#endif
	return SP_DONE;
}
