/* C09, any length: one step of the BSDCONV decoder from any state its own invariant allows, so that - with initialisation
 * establishing the invariant - words of every length are decoded: by induction over the digits. Looks at the state record of
 * modules/from/BSDCONV.c; if that is no longer laid out like this, this unit proves nothing and reports nothing. */
#define VP_SPECIALS '0','9','a','f','A','F','.',' '
#include VP_SRC
#include "vp.h"
static int val(int c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
#define MAXS (1u<<30)
static bool inv(struct my_s *t){
	if(t->flag==F_CLEAR) return t->data.data==NULL;
	return (t->flag==F_A||t->flag==F_B)&&(t->flag==F_A||t->data.len>0)&&t->data.len<=t->size&&(t->size==0?t->data.data==NULL:t->data.data!=NULL&&VP_OBJ_SIZE(t->data.data)>=t->size);
}
void harness(void){
	struct my_s *t; size_t len,size,w; unsigned char old=0,c,in[1]; int flag,match; vp_begin(); vp_instance(FROM,IN[0]); static char z[64]; CDC[0].z=CDC[0].data_z=z;
	VP_ASSERT("create-succeeds",cbcreate(&I,NULL)==0); cbinit(&I); t=CDC[0].priv;
	VP_ASSERT("inductive:initialisation-establishes-the-invariant",inv(t)&&t->flag==F_CLEAR);
	flag=(int)vp_range(1,0,2); size=(size_t)vp_range(2,0,MAXS); len=(size_t)vp_range(3,0,size); w=(size_t)vp_range(4,0,MAXS);
	t->flag=flag==0?F_CLEAR:flag==1?F_A:F_B; t->data.data=NULL; t->size=IN[5]; t->data.len=IN[6];
	if(flag){ if(flag==2||size>0) VP_ASSUME(size>0); VP_ASSUME(flag==1||len>0); t->size=size; t->data.len=len; if(size) t->data.data=malloc(size); if(w<len) old=UCP(t->data.data)[w]; else w=len; }
	else { size=len=w=0; }
	match=IN[7]&1; VP_ASSUME(!match||(flag==1&&len>0)); /* only whole pairs have been called a match, and nothing since */
	P[1].flags=match?F_MATCH|F_PENDING:0;
	H0->next=vp_node(in,1,0); P[0].data_tail=H0->next; H0->len=0; P[1].bak=H0->next; P[1].curr=H0->next; P[1].i=0; P[1].state.status=SUBROUTINE;
	in[0]=c=IN[8];
	cbconv(&I);
	VP_COVER("digit",val(c)>=0&&flag==2); VP_COVER("grows",val(c)>=0&&flag==1&&len==size&&len>0); VP_COVER("emitted",val(c)<0&&match);
	if(val(c)>=0){
		VP_ASSERT("inductive:invariant-kept",inv(t));
		VP_ASSERT("inductive:one-digit-more",flag!=2?t->flag==F_B&&t->data.len==len+1:t->flag==F_A&&t->data.len==len);
		if(w<len&&(flag!=2||w!=len-1)) VP_ASSERT("inductive:earlier-bytes-unchanged",UCP(t->data.data)[w]==old);
		VP_ASSERT("inductive:digit-appended",flag!=2?(UCP(t->data.data)[len]&15)==val(c):w!=len-1||UCP(t->data.data)[len-1]==(unsigned char)(old<<4|val(c)));
		VP_ASSERT("inductive:verdict",P[1].state.status==(flag!=0&&len>0?SUBMATCH:CONTINUE));
		VP_ASSERT("inductive:nothing-emitted",H1->next==NULL&&P[1].data_tail==H1);
	} else if(match){
		struct data_rt *n=H1->next;
		VP_ASSERT("inductive:the-word-is-emitted",n!=NULL&&n->next==NULL&&P[1].data_tail==n&&n->len==len&&n->flags==F_FREE&&(w>=len||UCP(n->data)[w]==old));
		VP_ASSERT("inductive:invariant-kept",inv(t)&&t->flag==F_CLEAR);
	} else {
		VP_ASSERT("inductive:rejected",P[1].state.status==DEADEND&&H1->next==NULL&&inv(t)&&t->flag==F_CLEAR);
	}
	cbdestroy(&I); vp_release();
}
