/* UTF-8 decoder: RFC 3629 plus the documented options */
#ifndef MAXC
#define MAXC 6
#endif
#define HAS_INIT 1
#define HAS_DESTROY 1
#define SNAPSHOT 1
#define VP_SPECIALS 0xc0,0xc1,0xc2,0xdf,0xe0,0xed,0xef,0xf0,0xf4,0xf5,0xf7,0xf8,0xfb,0xfc,0xfd,0xfe,0xff,0x80,0x9f,0xa0,0xbf,0x8f,0x90,0x41
static int o_nul,o_overlong,o_super,o_loose,o_cesu;
#define COVERS \
	VP_COVER("done",v==NEXTPHASE); \
	VP_COVER("dead",v==DEADEND); \
	VP_COVER("pending",K==MAXC-1||v==CONTINUE);
#define NATIVE_GEN if(vp_rng()&3){ int q=8,f; while(q<8+MAXC-1){ \
	f=vp_rng()%6; if(f==0) q++; else { uint32_t u=(vp_rng()&1)?(vp_rng()&0x7ff)+0xd800:(vp_rng()>>(33+vp_rng()%30)); int l=f+1<q+1?f+1:f+1; \
	if(vp_rng()&1){ l=u<0x80?1:u<0x800?2:u<0x10000?3:u<0x200000?4:u<0x4000000?5:6; } \
	static const unsigned char lead[7]={0,0,0xc0,0xe0,0xf0,0xf8,0xfc}; int z; \
	for(z=l-1;z>0;z--){ if(q+z<8+MAXC) IN[q+z]=0x80|(u&0x3f); u>>=6; } IN[q]=lead[l]|u; q+=l; } } }
#include "from_codec.h"
/* one encoded value, no surrogate rule */
static int spec1(const uint8_t *b,int n,uint32_t *val,int *used){
	int len,k; uint32_t u,min,hi;
	if(b[0]<0xC0) return SP_DEAD;
	if(b[0]<0xE0){ len=2; u=b[0]&0x1f; min=0x80; }
	else if(b[0]<0xF0){ len=3; u=b[0]&0x0f; min=0x800; }
	else if(b[0]<0xF8){ len=4; u=b[0]&0x07; min=0x10000; }
	else if(b[0]<0xFC){ len=5; u=b[0]&0x03; min=0x200000; }
	else if(b[0]<0xFE){ len=6; u=b[0]&0x01; min=0x4000000; }
	else return SP_DEAD;
	if(len>4 && !o_super) return SP_DEAD;
	*used=len;
	for(k=1;k<6&&k<len&&k<n;k++){ if((b[k]&0xC0)!=0x80) return SP_DEAD; u=(u<<6)|(b[k]&0x3f); }
	hi=u;
	for(k=n;k<6&&k<len;k++){ u<<=6; hi=(hi<<6)|0x3f; }
	bool bad=(!o_overlong && hi<min) || (!o_super && u>0x10FFFF) || (!o_nul && hi==0);
	*val=u;
	if(n<len) return bad?SP_DOOMED:SP_PENDING;
	return bad?SP_DEAD:SP_DONE;
}
static int spec(const uint8_t *b,int n,struct sp_out *o){
	uint32_t u,u2; int used,used2;
	int v=spec1(b,n,&u,&used);
	if(v==SP_DEAD) return v;
	if(v!=SP_DONE && n<used) return v;
	if(u<0xD800||u>0xDFFF){ sp_ucs(o,u); return SP_DONE; }
	if(o_loose){ sp_ucs(o,u); return SP_DONE; }
	if(!o_cesu || u>=0xDC00) return SP_DEAD;
	if(n==used) return SP_PENDING;
	v=spec1(b+used,n-used,&u2,&used2);
	if(v==SP_DEAD) return SP_DEAD;
	if(n-used<used2){ /* doomed unless it can still become a trailing surrogate (an overlong form may spell one too) */
		if(b[used]!=0xED) return SP_DOOMED;
		return (n-used>=2 && b[used+1]<0xB0)?SP_DOOMED:SP_PENDING;
	}
	if(v!=SP_DONE || u2<0xDC00 || u2>0xDFFF) return SP_DEAD;
	sp_ucs(o,0x10000+((u-0xD800)<<10)+(u2-0xDC00)); return SP_DONE;
}

static struct bsdconv_hash_entry opt[5];
static void vp_create(struct bsdconv_instance *ins){
	static char *names[5]={"NUL","overlong","Super","LOOSE","CESU"};
	int sel=OPTS, k; struct bsdconv_hash_entry *arg=NULL;
	VP_ASSUME((sel&24)!=24); /* CESU with LOOSE is outside the property */
	for(k=0;k<5;k++) if(sel>>k&1){ opt[k].key=names[k]; opt[k].ptr=NULL; opt[k].next=arg; arg=&opt[k]; }
	o_nul=sel&1; o_overlong=sel>>1&1; o_super=sel>>2&1; o_loose=sel>>3&1; o_cesu=sel>>4&1;
	VP_ASSERT("create-accepts-options",cbcreate(ins,arg)==0);
}
