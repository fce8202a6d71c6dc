/* get_offset / read_state (src/bsdconv.h): for every table block of every size and every state that lies inside it. */
#include "vp.h"
static u64 le(const unsigned char *p,int n){ u64 v=0; for(int k=n-1;k>=0;k--) v=v<<8|p[k]; return v; }
void harness(void){
	vp_begin();
	u64 n=vp_range(0,sizeof(struct state_st),1u<<20), p=vp_range(1,0,n-sizeof(struct state_st));
	unsigned char *z=vp_alloc(n); int k;
#ifndef VP_CPROVER
	for(u64 j=0;j<n;j++) z[j]=IN[8+j%64]>>(8*(j/64%8));
#endif
	struct bsdconv_codec c; struct state_rt s,t; memset(&c,0,sizeof c); c.z=(char*)z; c.data_z=(char*)z;
	s=read_state(&c,p);
	VP_ASSERT("read-state-returns-the-stored-record", s.status==z[p+offsetof(struct state_st,status)]
		&& (uintptr_t)s.data==le(z+p+offsetof(struct state_st,data),4) && s.beg==le(z+p+offsetof(struct state_st,beg),2)
		&& s.end==le(z+p+offsetof(struct state_st,end),2) && s.base==le(z+p+offsetof(struct state_st,base),4));
	/* any state whose transition row lies in the block, any symbol */
	t.status=IN[2]; t.data=NULL; t.beg=vp_range(3,0,256); t.end=vp_range(4,t.beg,257); t.base=vp_range(5,0,n); k=vp_range(6,0,256);
	VP_ASSUME((u64)t.base+(u64)(t.end-t.beg)*sizeof(offset_t)<=n);
	offset_t r=get_offset(&c,&t,k), want=0;
	if(k>=t.beg&&k<t.end) want=le(z+t.base+(u64)(k-t.beg)*sizeof(offset_t),sizeof(offset_t));
	VP_ASSERT("get-offset-is-the-row-entry-or-nothing", r==want);
	VP_COVER("in-row",k>=t.beg&&k<t.end&&r!=0); VP_COVER("outside",k<t.beg||k>=t.end);
	free(z);
}
