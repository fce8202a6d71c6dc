/* bsdconv_init(): whatever was queued, pending or matched before, the instance is as fresh afterwards; every codec is initialised once. */
#include "vp.h"
#define NP 3
#define NL 2
static struct bsdconv_phase Q[NP]; static struct bsdconv_codec C[NP][2]; static int cnt[NP][2], order, badidx;
static struct data_rt *hd[NP];
static void cb(struct bsdconv_instance *ins){ int p=ins->phase_index,c=ins->phase[p].index; if(p<1||p>=NP||c<0||c>1){ badidx=1; return; } cnt[p][c]++; }
void harness(void){
	int i,k; vp_begin(); memset(&I,0,sizeof I); memset(Q,0,sizeof Q); memset(C,0,sizeof C); memset(cnt,0,sizeof cnt); badidx=0;
	static unsigned char z[64]; memset(z,0,sizeof z); z[0]=IN[1]; /* state 0 of every codec */
	I.phase=Q; I.phasen=(int)vp_range(0,0,NP-1); I.phase_index=IN[2]%NP;
	for(i=0;i<NP;i++) if(i<=I.phasen){
		u64 b=4+i*16; struct data_rt *t; int m=(int)vp_range(b,0,NL);
		hd[i]=t=vp_node(NULL,IN[b+1],0); Q[i].data_head=t;
		for(k=0;k<NL;k++) if(k<m){ int hp=IN[b+2+k]&1; t->next=vp_node(hp?vp_alloc(3):(void*)z,3,hp?F_FREE:0); t=t->next; }
		Q[i].data_tail=t; Q[i].flags=IN[b+5]; Q[i].offset=(IN[b+6]&1)*16; Q[i].index=IN[b+7]&1; Q[i].i=IN[b+8]; Q[i].match_data=(IN[b+9]&1)?z:NULL;
		Q[i].codec=C[i]; Q[i].codecn=i?(int)vp_range(b+10,0,1):0; Q[i].curr=t; Q[i].type=i?(IN[b+11]&1?FROM:TO):_INPUT;
		for(k=0;k<2;k++){ C[i][k].z=C[i][k].data_z=(char*)z; C[i][k].cbinit=(IN[b+12]>>k&1)?cb:NULL; }
	}
	I.flush=IN[60]; I.output_mode=IN[61]%7; I.output.len=IN[62]; I.input.len=IN[63];
	bsdconv_init(&I);
	VP_ASSERT("no-input-or-output-left",I.flush==0&&I.input.data==NULL&&I.input.len==0&&I.input.flags==0&&I.output.data==NULL&&I.output.len==0);
	VP_ASSERT("callbacks-see-their-own-codec",!badidx);
	for(i=0;i<NP;i++) if(i<=I.phasen){
		VP_ASSERT("queues-empty",Q[i].data_head==hd[i]&&hd[i]->next==NULL&&Q[i].data_tail==hd[i]&&hd[i]->len==0);
		VP_ASSERT("no-match-pending",Q[i].flags==0&&Q[i].match_data==NULL&&Q[i].offset==0);
		if(i){
			VP_ASSERT("at-the-start-of-the-queue-and-the-first-codec",Q[i].curr==hd[i-1]&&Q[i].index==0&&Q[i].state.status==z[0]);
			for(k=0;k<2;k++) VP_ASSERT("every-codec-initialised-once",cnt[i][k]==(k<=Q[i].codecn&&C[i][k].cbinit?1:0));
		}
		VP_COVER("deep",i==NP-1);
		free(hd[i]);
	}
	vp_free_nodes(I.pool);
}
