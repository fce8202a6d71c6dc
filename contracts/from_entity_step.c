/* Inductive step of the numeric entity decoder, for numbers of any length: data-structure invariant of its state
 * and one byte. The real source file is included here, so that its state type is visible. */
#include VP_SRC
#include "vp.h"
#define VP_SPECIALS ';','x','0','9','a','f','A','F','g',0x19,0x99,0xff
static int hexv(uint8_t c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
/* the state after a number prefix with value v in base 10 or 16, with at least one digit or none */
static bool inv(struct my_s *t,int x,int dig,uint32_t v){
	return (dig? (t->status!=0 && t->status!=1000 && t->status>0) : t->status==1000) && (dig||x) && t->b==(x?16:10) && t->tbl==(x?hex:dec) && t->buf.i==v && (dig||v==0);
}
void harness(void){
	vp_begin();
	struct bsdconv_instance *ins=vp_instance(FROM,IN[0]);
	VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0);
	cbinit(ins);
	struct my_s *t=CDC[0].priv; struct data_rt *out; int k;
	int x=IN[1]&1, dig=IN[2]&1; uint32_t v=IN[3]; uint8_t c=IN[4];
#ifndef VP_CPROVER
	if(!x) dig=1; if(!dig) v=0; t->status=dig?1:1000; t->b=x?16:10; t->tbl=x?hex:dec; t->buf.i=v;
	if(dig && (IN[5]&1)){ t->buf.i=v=0xffffffffu/(x?16:10)+(IN[5]>>1&1); }
#else
	t->status=IN[6]; t->b=x?16:10; t->tbl=x?hex:dec; t->buf.i=v; t->status=dig?(int)(1+(IN[6]&1)):1000;
	VP_ASSUME(inv(t,x,dig,v));
#endif
	unsigned char *buf=vp_alloc(1); buf[0]=c;
	struct data_rt *n=vp_node(buf,1,F_FREE); H0->next=n; P[0].data_tail=n; P[1].curr=n; P[1].i=0;
	cbconv(ins);
	out=H1->next;
	int d=x?hexv(c):(c>='0'&&c<='9'?c-'0':-1);
	uint64_t w=(uint64_t)v*(x?16:10)+(d<0?0:d);
	if(c==';'){
		VP_ASSERT("entity-ends-at-semicolon",P[1].state.status==(dig?NEXTPHASE:DEADEND));
		VP_ASSERT("entity-value-emitted",dig?(out!=NULL&&out->next==NULL&&P[1].data_tail==out&&out->flags==F_FREE):out==NULL);
		if(dig){ uint8_t e[5]; int l=0; e[l++]=1; if(v>>24) e[l++]=v>>24; if(v>>16) e[l++]=v>>16; if(v>>8) e[l++]=v>>8; e[l++]=v;
			VP_ASSERT("entity-value-is-the-number",vp_bytes_eq(out,e,l)); VP_ASSERT("entity-state-fresh",t->status==0); }
	}else if(d<0||w>0xffffffffu){
		VP_ASSERT("entity-rejects-other-bytes-and-overflow",P[1].state.status==DEADEND && t->status==0 && out==NULL);
	}else{
		VP_ASSERT("entity-accumulates",P[1].state.status==CONTINUE && P[1].i>=0 && out==NULL);
		VP_ASSERT("inductive:entity-state-invariant",inv(t,x,1,w));
	}
	VP_COVER("ends",c==';'&&dig); VP_COVER("digit",P[1].state.status==CONTINUE); VP_COVER("overflow",d>=0&&w>0xffffffffu);
	cbdestroy(ins); vp_release();
}
