/* C09: hexadecimal notation of intermediate data. KIND 1: str2datum(), 2: str2data(), 3: the BSDCONV decoder. */
#ifndef NS
#define NS 6
#endif
#ifdef XH
#define VP_ENUM {1,0,6},{2,0,6},{3,0,6},{4,0,6},{5,0,6},{6,0,6},{7,0,NS>6?6:0}
#endif
#if KIND==3
#define VP_SPECIALS 0x30,0x39,0x41,0x46,0x61,0x66,0x2c,0x2f,0x3a,0x40,0x47,0x67,0x60
#endif
#include "vp.h"
#include <errno.h>
static int val(unsigned char c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
static char s[NS+2];
#ifdef VP_CPROVER
/* libc, assumed */
#if KIND==2
char *strdup(const char *p){ char *r=malloc(NS+1); int k; for(k=0;k<=NS;k++){ r[k]=p[k]; if(!p[k]) break; } return r; }
size_t strlen(const char *p){ size_t n=0; while(n<=NS&&p[n]) n++; return n; }
#endif
char *strsep(char **sp,const char *d){ char *b=*sp,*e; if(!b) return NULL; for(e=b;*e&&*e!=*d;e++); if(*e){ *e=0; *sp=e+1; } else *sp=NULL; return b; }
#endif
static int given(void){ /* any text of at most NS characters; returns its length */
	int k,n=0;
	for(k=0;k<NS;k++){
#ifdef XH
		s[k]="\0000aF.g9"[IN[1+k]];
#else
		s[k]=IN[1+k];
#ifndef VP_CPROVER
		if(vp_random_mode&&(IN[20+k]&7)) s[k]="0123456789abcdefABCDEF./:@G`g"[IN[1+k]%29];
#endif
#endif
		if(n<k) s[k]=0;
		if(s[k]) n=k+1;
	}
#ifdef XH
	for(k=n;k<NS;k++) if(IN[1+k]) VP_ASSUME(0);
#endif
	s[NS]=0; return n;
}
#if KIND==1
void harness(void){
	struct data_rt d; int n,k,r,ok; vp_begin(); n=given(); d.data=&d; d.len=99; d.flags=77;
	ok=n%2==0; for(k=0;k<NS;k++) if(k<n&&val(s[k])<0) ok=0;
	VP_COVER("datum",ok&&n==NS); VP_COVER("refused",!ok);
	r=str2datum((IN[90]&1)?NULL:s,&d);
	if(IN[90]&1){ VP_ASSERT("no-text-is-an-error",r==EINVAL&&d.data==NULL); return; }
	VP_ASSERT("error-exactly-for-bad-text",ok?r==0:r==EINVAL);
	if(r){ VP_ASSERT("no-datum-on-error",d.data==NULL); return; }
	VP_ASSERT("length-is-half-the-text",d.len==(size_t)n/2&&d.flags==F_FREE&&d.next==NULL);
	for(k=0;k<NS/2;k++) if(k<n/2) VP_ASSERT("exactly-the-bytes-spelled",UCP(d.data)[k]==val(s[2*k])*16+val(s[2*k+1]));
	free(d.data);
}
#elif KIND==2
void harness(void){
	struct data_rt *h,*t; int n,k,r=12345,ok=1,m=0,l,b,e; static char keep[NS+2]; vp_begin(); vp_instance(INTER,IN[30]); n=given();
	for(k=0;k<=NS;k++) keep[k]=s[k];
	for(k=0,l=0;k<=NS;k++) if(k<=n){ if(k==n||s[k]=='.'){ if(l%2) ok=0; l=0; } else { if(val(s[k])<0) ok=0; l++; } }
	VP_COVER("data",ok&&n==NS); VP_COVER("refused",!ok); VP_COVER("two",ok&&s[2]=='.');
	h=str2data((IN[90]&1)?NULL:s,&r,&I);
	if(IN[90]&1){ VP_ASSERT("no-text-is-an-error",r==EINVAL&&h==NULL); vp_release(); return; }
	VP_ASSERT("error-exactly-for-bad-text",ok?r==0:r==EINVAL);
	for(k=0;k<=NS;k++) VP_ASSERT("text-unchanged",keep[k]==s[k]);
	if(!ok||n==0) VP_ASSERT("no-data",h==NULL);
	else for(b=0,t=h,m=0;m<=NS;m++) if(b<=n){
		for(e=b;e<n&&s[e]!='.';e++);
		VP_ASSERT("one-datum-per-element",t!=NULL&&t->len==(size_t)(e-b)/2&&t->flags==F_FREE);
		for(k=0;k<NS/2;k++) if(k<(e-b)/2) VP_ASSERT("exactly-the-bytes-spelled",UCP(t->data)[k]==val(s[b+2*k])*16+val(s[b+2*k+1]));
		b=e+1; t=t->next; if(b>n) VP_ASSERT("no-more-data",t==NULL);
	}
	vp_free_list(h); vp_release();
}
#else
/* one word of at most WD digit pairs, ended by a character that is not a digit or by the end of the input; before it, a word that
 * was begun and then forgotten by initialisation. The engine's part (remembering how far the match got) is emulated. */
#define WD (NS/2)
static void put(unsigned char *c){ /* one byte */
	P[1].i=0; *c=*c; P[1].curr=H0->next; CP(H0->next->data)[0]=*c; P[1].state.status=SUBROUTINE; P[1].index=0;
	cbconv(&I);
	if(P[1].state.status==SUBMATCH) P[1].flags|=F_MATCH|F_PENDING; else if(P[1].state.status==CONTINUE) P[1].flags|=F_PENDING;
}
void harness(void){
	struct bsdconv_instance *ins; int k,n,pre,end; unsigned char c; struct data_rt *t; vp_begin(); ins=vp_instance(FROM,IN[0]);
	static char z[64]; memset(z,0,sizeof z); CDC[0].z=CDC[0].data_z=z;
	VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0);
	cbinit(ins);
	H0->next=vp_node(vp_alloc(1),1,F_FREE); P[0].data_tail=H0->next; H0->len=0; P[1].bak=H0->next;
	pre=(int)vp_range(60,0,3);
	for(k=0;k<3;k++) if(k<pre){ c=IN[61+k]; VP_ASSUME(val(c)>=0); put(&c); }
	if(pre){ cbinit(ins); P[1].flags=0; }
	n=2*(int)vp_range(1,1,WD); end=IN[2]&1;
	for(k=0;k<2*WD;k++) if(k<n){
		c=IN[10+k];
#ifndef VP_CPROVER
		if(vp_random_mode) IN[10+k]=c="0123456789abcdefABCDEF"[IN[10+k]%22];
#endif
		VP_ASSUME(val(c)>=0); s[k]=c; put(&c);
		VP_ASSERT("digits-are-taken",k==0||P[1].state.status==SUBMATCH||P[1].state.status==CONTINUE);
		VP_ASSERT("complete-pairs-are-a-match",k%2==0||k==1||P[1].state.status==SUBMATCH);
		VP_ASSERT("nothing-emitted-yet",P[1].data_tail==H1&&H1->next==NULL);
	}
	VP_ASSERT("whole-pairs-can-be-emitted",P[1].flags&F_MATCH);
	VP_COVER("end",end); VP_COVER("separator",!end);
	if(end){ P[1].flags&=~F_MATCH; cbflush(ins); }
	else {
		c=IN[40]; VP_ASSUME(val(c)<0); P[1].bak=H0->next; put(&c);
		VP_ASSERT("separator-is-not-consumed",P[1].state.status==NOOP&&!(P[1].flags&(F_MATCH|F_PENDING)));
	}
	t=H1->next;
	VP_ASSERT("one-datum",t!=NULL&&t->next==NULL&&P[1].data_tail==t&&t->len==(size_t)n/2);
	VP_ASSERT("datum-owns-its-bytes",t->flags==F_FREE);
	for(k=0;k<WD;k++) if(k<n/2) VP_ASSERT("exactly-the-bytes-spelled",UCP(t->data)[k]==val(s[2*k])*16+val(s[2*k+1]));
	if(IN[41]&1) cbinit(ins);
	cbdestroy(ins); vp_release();
}
#endif
