/* C14: the hash of an instance is a map. Every history of NOPS operations (set, get, has, del) on any names of at most two
 * characters, then a look at any name, then everything deleted. The name's buffer is reused by the caller. */
#ifndef NOPS
#define NOPS 3
#endif
#ifdef XH /* run-time evaluation of the same contract over every history on the three names below */
#define VP_ENUM {1,0,11},{2,0,11},{3,0,11},{4,0,11},{5,0,NOPS>4?11:0},{6,0,NOPS>5?11:0},{7,0,0},{8,0,0},{9,0,0},{90,0,2}
static const char *const XK[3]={"a","ab","b"};
#endif
#include "vp.h"
static char gk[NOPS][3]; static void *gv[NOPS]; static int gon[NOPS]; static char kb[3];
static int same(const char *a,const char *b){ return a[0]==b[0]&&(!a[0]||(a[1]==b[1]&&(!a[1]||a[2]==b[2]))); }
static void pick(int c){
#ifdef XH
	const char *s=XK[IN[1+c]%3]; strcpy(kb,s);
#else
	kb[0]=IN[4*c+4]; kb[1]=kb[0]?IN[4*c+5]:0; kb[2]=0;
#ifndef VP_CPROVER
	if(vp_random_mode){ kb[0]="aAb\0"[IN[4*c+4]&3]; kb[1]=kb[0]?"aAb\0"[IN[4*c+5]&3]:0; }
#endif
#endif
}
static int find(void){ int k; for(k=0;k<NOPS;k++) if(gon[k]&&same(gk[k],kb)) return k; return -1; }
void harness(void){
	int c,op,k; void *v; vp_begin(); memset(&I,0,sizeof I); for(k=0;k<NOPS;k++) gon[k]=0;
	for(c=0;c<NOPS;c++){
		pick(c); k=find();
#ifdef XH
		op=IN[1+c]/3; v=(void*)(uintptr_t)(100+c);
#else
		op=IN[4*c+6]&3; v=(void*)(uintptr_t)IN[4*c+7];
#endif
		if(op==0){ bsdconv_hash_set(&I,kb,v); if(k<0){ k=c; gk[k][0]=kb[0]; gk[k][1]=kb[1]; gk[k][2]=0; gon[k]=1; } gv[k]=v; }
		else if(op==1) VP_ASSERT("get-returns-the-value-last-set",bsdconv_hash_get(&I,kb)==(k<0?NULL:gv[k]));
		else if(op==2) VP_ASSERT("has-tells-whether-it-is-set",!!bsdconv_hash_has(&I,kb)==(k>=0));
		else { bsdconv_hash_del(&I,kb); if(k>=0) gon[k]=0; }
		kb[0]='?'; kb[1]=0;
	}
#ifdef XH
	strcpy(kb,XK[IN[90]]);
#else
	kb[0]=IN[90]; kb[1]=kb[0]?IN[91]:0; kb[2]=0;
#ifndef VP_CPROVER
	if(vp_random_mode){ kb[0]="aAb\0"[IN[90]&3]; kb[1]=kb[0]?"aAb\0"[IN[91]&3]:0; }
#endif
#endif
	k=find();
	VP_COVER("present",k>=0); VP_COVER("absent",k<0);
	VP_ASSERT("other-names-untouched",!!bsdconv_hash_has(&I,kb)==(k>=0)&&bsdconv_hash_get(&I,kb)==(k<0?NULL:gv[k]));
	for(c=0;c<NOPS;c++) if(gon[c]){ bsdconv_hash_del(&I,gk[c]); gon[c]=0; VP_ASSERT("gone-after-delete",!bsdconv_hash_has(&I,gk[c])); }
	VP_ASSERT("empty-after-deleting-all",!bsdconv_hash_has(&I,kb)&&bsdconv_hash_get(&I,kb)==NULL);
}
