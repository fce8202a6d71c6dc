/* C13: TRIM-WIDTH. The nested WIDTH instance that measures one datum is represented by its contract (units width, C15, C20-C22).
 * What the step remembers of the past is only how much room is left; any room is reached by the asked width alone, none by one
 * datum too wide, so two data behind any asked width are every history. */
#define VP_SPECIALS 1,2,0,3
#include "vp.h"
#ifdef VP_CPROVER
int vp_limit;
#define LIMSTR (vp_limit=(int)IN[3],"7")
#else
static char limstr[16];
#define LIMSTR (snprintf(limstr,16,"%d",(int)IN[3]),limstr)
#endif
#ifndef NCALLS
#define NCALLS 3
#endif
static struct bsdconv_instance M; static struct bsdconv_phase MP[3]; static struct data_rt *MH; static int m_made,m_init,m_reset,asked,cls;
static bsdconv_counter_t cnt[3]; static struct data_rt *cur; static void *m_data; static size_t m_len; static unsigned char m_flags;
static const char *const NAME[3]={"FULL","HALF","AMBI"};
static void m_drop(void){ struct data_rt *t=MH->next; MH->next=NULL; if(t){ if(t->flags&F_FREE) free(t->data); free(t); } MP[1].data_tail=MH; }
struct bsdconv_instance *bsdconv_create(const char *c){ VP_ASSERT("measures-with-the-width-codec",!strcmp(c,"WIDTH")); memset(&M,0,sizeof M); memset(MP,0,sizeof MP); M.phase=MP; M.phasen=1; MP[1].data_head=MP[1].data_tail=MH=vp_node(NULL,0,0); m_made++; return &M; }
void bsdconv_destroy(struct bsdconv_instance *i){ VP_ASSERT("destroyed-once",i==&M&&m_made==1); m_made--; m_drop(); free(MH); }
void bsdconv_init(struct bsdconv_instance *i){ VP_ASSERT("only-its-own-instance",i==&M&&m_made==1); m_init=1; M.flush=0; m_drop(); }
bsdconv_counter_t *bsdconv_counter(struct bsdconv_instance *i,const char *n){ int k; VP_ASSERT("only-its-own-instance",i==&M&&m_made==1); for(k=0;k<3;k++) if(!strcmp(n,NAME[k])) return &cnt[k]; VP_ASSERT("a-counter-of-the-width-codec",0); return NULL; }
void bsdconv_counter_reset(struct bsdconv_instance *i,const char *n){ int k; VP_ASSERT("only-its-own-instance",i==&M&&m_made==1); for(k=0;k<3;k++) if(n==NULL||!strcmp(n,NAME[k])) cnt[k]=0; }
void bsdconv(struct bsdconv_instance *i){
	VP_ASSERT("measures-afresh",i==&M&&m_init&&M.flush&&M.input.next==NULL&&MH->next==NULL&&M.output_mode==BSDCONV_HOLD); m_init=0;
	VP_ASSERT("measures-this-datum",M.input.data==m_data&&M.input.len==m_len);
	MH->next=vp_node(M.input.data,M.input.len,M.input.flags); MP[1].data_tail=MH->next;
	M.input.flags&=~F_FREE;
	if(cls) cnt[cls-1]+=1;
	asked++;
}
void harness(void){
	vp_begin(); struct bsdconv_hash_entry a[2]; int n=0,c,k,wide=IN[4]&1; long room; struct data_rt *last; static unsigned char *buf[NCALLS],by[NCALLS][2];
	vp_instance(INTER,0); m_made=m_init=asked=0; last=H1;
	memset(a,0,sizeof a);
#if VP_NATIVE
	if(vp_random_mode) IN[3]%=8;
#endif
	IN[3]=(u64)vp_range(3,0,0x7fffffff);
	if(wide&&(IN[4]&2)) a[n++].key=(IN[4]&4)?"AMBI-AS-WIDE":"ambiguous-as-wide";
	a[n++].key=LIMSTR;
	if(wide&&!(IN[4]&2)) a[n++].key=(IN[4]&4)?"ambi-as-wide":"AMBIGUOUS-AS-WIDE";
	for(k=0;k+1<n;k++) a[k].next=&a[k+1];
#ifdef NOWIDTH
	a[0].key="AMBI-AS-WIDE"; a[0].next=NULL;
	VP_ASSERT("refused-without-a-width",cbcreate(&I,(IN[5]&1)?a:NULL)!=0&&m_made==0); VP_COVER("end",1); vp_release();
#else
	VP_ASSERT("create-succeeds",cbcreate(&I,a)==0&&m_made==1);
	cbinit(&I); room=(long)IN[3];
	for(c=0;c<NCALLS;c++){
		int w; struct data_rt *in; unsigned char f=IN[6]>>c&1?F_FREE:0;
		cls=(int)vp_range(10+c,0,3); w=cls==1?2:cls==2?1:cls==3?(wide?2:1):0;
		buf[c]=vp_alloc(2); buf[c][0]=by[c][0]=IN[20+c]; buf[c][1]=by[c][1]=IN[30+c];
		in=vp_node(buf[c],1+(IN[40+c]&1),f); H0->next=in; P[0].data_tail=in; P[1].curr=in; P[1].state.status=SUBROUTINE;
		m_data=in->data; m_len=in->len; m_flags=f;
		cbconv(&I);
		VP_ASSERT("step-done",P[1].state.status==NEXTPHASE&&H0->next==in&&P[1].curr==in);
		if(room>=w){ room-=w;
			VP_ASSERT("what-fits-goes-on-unchanged",last->next!=NULL&&last->next->next==NULL&&P[1].data_tail==last->next&&last->next->data==buf[c]&&last->next->len==m_len&&UCP(buf[c])[0]==by[c][0]&&UCP(buf[c])[1]==by[c][1]);
			last=last->next;
			VP_ASSERT("exactly-one-owner",(in->flags&F_FREE)+(last->flags&F_FREE)==f);
		} else { room=-1;
			VP_ASSERT("nothing-goes-on-behind-what-does-not-fit",last->next==NULL&&P[1].data_tail==last);
		}
		VP_COVER("fits",last==P[1].data_tail&&room>=0); VP_COVER("too-wide",room<0);
		if(!f){ /* the data of this one are somebody else's */ }
		H0->next=NULL; P[0].data_tail=H0; P[1].curr=H0; if(in->flags&F_FREE) free(in->data); free(in);
		if(IN[7]>>c&1){ cbinit(&I); room=(long)IN[3]; VP_ASSERT("begun-anew-keeps-what-went-on",P[1].data_tail==last&&last->next==NULL); }
	}
	cbdestroy(&I); VP_ASSERT("one-nested-instance",m_made==0);
	for(c=0;c<NCALLS;c++) if(!(IN[6]>>c&1)) free(buf[c]);
	vp_release();
#endif
}
