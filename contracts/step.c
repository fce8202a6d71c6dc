/* One-datum contracts of the simple steps. -DSTEP=... selects the codec; see units.py. */
#define S_COUNT 1
#define S_PASSI 2
#define S_PASST 3
#define S_PASSF 4
#define S_NULL 5
#define S_INSERT 6
#define S_ANY 7
#define S_WIDTH 8
#define S_PAD 9
#define S_UNPAD 10
#define S_HDEC 11
#define S_BSDCONV 12
#define S_RAW 13
#define S_IMG 14
#define S_ESC 15
#define S_REPLACE 16
#define S_HCOMP 17
#if STEP==S_PASST||(STEP==S_ANY&&defined(ANYTO))||STEP==S_BSDCONV||STEP==S_RAW||STEP==S_IMG||STEP==S_ESC||defined(NULLTO)
#define PHASE TO
#elif STEP==S_PASSF||STEP==S_ANY
#define PHASE FROM
#else
#define PHASE INTER
#endif
#define VP_SPECIALS 1,3,0,0xa0,0xa1,0xac,0x11,0x61,0xa8,0xd7,0xa3,0x0f,0xff,0x20,0x4e,0x30,0x7e
#define NATIVE_GEN native_gen(base);
static void native_gen(int);
#if STEP==S_COUNT||STEP==S_ANY||STEP==S_WIDTH
#define WANT_COUNTER
#endif
#if STEP==S_COUNT||STEP==S_PASSI||STEP==S_PASST||STEP==S_PASSF
#define WANT_FILTER
#define HAS_DESTROY
#endif
#if STEP==S_INSERT||STEP==S_ANY||STEP==S_ESC||STEP==S_REPLACE
#define WANT_DATA
#define HAS_DESTROY
#define NOUT 5
#if STEP!=S_ESC
#define OUTB 4
#endif
#endif
#if STEP==S_ANY||STEP==S_INSERT||STEP==S_REPLACE||STEP==S_PAD
#define VP_STATIC_OUT 1
#endif
#if STEP==S_BSDCONV||STEP==S_RAW||STEP==S_IMG
#ifndef MAXD
#define MAXD 6
#endif
#define OUTB (STEP==S_IMG?96:16)
#endif
#if STEP==S_ESC
#define OUTB 20
#endif
#if STEP==S_WIDTH||STEP==S_PAD||STEP==S_UNPAD||STEP==S_PASSI||STEP==S_REPLACE||STEP==S_HCOMP
#if STEP==S_PASSI||STEP==S_REPLACE||STEP==S_PAD||STEP==S_UNPAD||STEP==S_HCOMP
#define HAS_INIT
#endif
#define HAS_DESTROY
#endif
#if STEP==S_HCOMP
#ifdef STATES
#define REACH h_st==c+1
static int h_st;
#endif
#define FINAL fin(ins);
struct bsdconv_instance; static void fin(struct bsdconv_instance *);
#endif
#define BEFORE_STEP before_step();
#define EXTRA_POSTS extra_posts();
static void before_step(void), extra_posts(void);
#if STEP==S_REPLACE
/* an attempt goes on behind the data it matched so far, or (the input ended meanwhile) a new one begins */
#define HELD (h_at&&(IN[92+c]&1?(h_at=0,0):1))
static int h_at;
#ifdef STATES
#define REACH h_at==c+1
#endif
#endif
#if STEP==S_PASST
#define OUTFLAGS (g_flags|(o_mark?F_MARK:0))
#define FLAGMASK (F_FREE|F_MARK)
static int o_mark;
#endif
#if STEP==S_PASSF
#define OUTFLAGS (g_flags&~(o_mark?F_MARK:0))
#define FLAGMASK (F_FREE|F_MARK)
static int o_mark;
#endif
#define COVERS VP_COVER("call-returns",1); MORE_COVERS
#define MORE_COVERS
#if STEP==S_HDEC
#undef MORE_COVERS
#define MORE_COVERS VP_COVER("two",g_o.n==2); VP_COVER("three",g_o.n==3); VP_COVER("other",g_o.n==1);
#elif STEP==S_ESC
#undef MORE_COVERS
#define MORE_COVERS
#elif STEP==S_PAD||STEP==S_UNPAD
#undef MORE_COVERS
#define MORE_COVERS VP_COVER("one",g_o.n==1); VP_COVER("not-one",g_o.n!=1||c<NCALLS-1);
#elif STEP==S_HCOMP
#undef MORE_COVERS
#define MORE_COVERS VP_COVER("held",g_v==SP_SUB); VP_COVER("two",g_o.n==2||c<1); VP_COVER("syllable",(g_o.n==1&&g_v==SP_DONE&&!g_o.e[0].same)||c<2);
#elif STEP==S_REPLACE
#undef MORE_COVERS
#define MORE_COVERS VP_COVER("done",g_v==SP_DONE); VP_COVER("cont",g_v==SP_CONT); VP_COVER("dead",g_v==SP_DEAD);
#endif
#ifdef ANYTO
#define MARKVAL
#endif
#include "to_codec.h"
#include "stubs.h"
#ifdef VP_CPROVER
unsigned vp_decv; int vp_decn; unsigned char vp_decd[10]; /* ghost: a value and its decimal digits */
#endif
#if STEP==S_WIDTH||STEP==S_PAD||STEP==S_UNPAD
#define GOLD_WIDTH
#define GOLD_AMBI
#include "golden.h"
/* class of u in a sorted, disjoint reference table; for the verifier the position is a witness (one exists for every u) */
static int rangeof(const uint32_t (*t)[3],int n,uint32_t u,int w){
#ifdef VP_CPROVER
	int q=(int)vp_range(w,0,2*n);
	if(q&1){ VP_ASSUME(u>=t[q>>1][0]&&u<=t[q>>1][1]); return t[q>>1][2]; }
	VP_ASSUME((q==0||u>t[(q>>1)-1][1])&&(q==2*n||u<t[q>>1][0])); return 0;
#else
	int k; for(k=0;k<n;k++) if(u>=t[k][0]&&u<=t[k][1]) return t[k][2]; return 0;
#endif
}
#endif
static struct bsdconv_hash_entry A[3];
static struct bsdconv_hash_entry *arg(int k,char *key,void *ptr){ A[k].key=key; A[k].ptr=ptr; A[k].next=NULL; if(k) A[k-1].next=&A[k]; return &A[0]; }
static int sp_pass_through(struct sp_out *o){ sp_same(o); return SP_DONE; }
/* code point of a Unicode datum of at most NB bytes (contract's precondition) */
static int ucp(const uint8_t *d,size_t len,uint32_t *u){ size_t k; *u=0; if(d[0]!=1) return 0; VP_ASSUME(len<=NB); for(k=1;k<NB;k++) if(k<len) *u=*u<<8|d[k]; return 1; }

#if STEP==S_COUNT
static int o_filter;
static void vp_create(struct bsdconv_instance *ins){
	int n=0; struct bsdconv_hash_entry *a=NULL; o_filter=IN[51]&1; IN[50]=0; s_counter_reset(); s_fname=NULL; s_filters=0;
	if((IN[52]&1)&&!(IN[53]&2)) a=arg(n++,"Key",NULL);
	if(o_filter) a=arg(n++,(IN[53]&1)?"FOR":"for","X");
	if((IN[52]&1)&&(IN[53]&2)) a=arg(n++,"Key",NULL);
	VP_ASSERT("create-succeeds",cbcreate(ins,a)==0);
	VP_ASSERT("counter-is-the-named-one",s_counter((IN[52]&1)?"KEY":"COUNT")==0&&s_cname[1]==NULL);
	VP_ASSERT("filter-loaded-as-asked",s_filters==o_filter);
}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){ return sp_pass_through(o); }
static void before_step(void){ g_accept=(IN[54]&1)?(int)IN[54]:0; s_asked=NULL; s_cnt0[0]=s_cnt[0]; }
static void extra_posts(void){
	VP_ASSERT("counts-exactly-the-accepted-data",s_cnt[0]==s_cnt0[0]+((!o_filter||g_accept)?1:0));
	VP_ASSERT("filter-asked-about-this-datum",!o_filter||s_asked==g_in);
	VP_ASSERT("other-counters-untouched",s_cnt[1]==s_cnt0[1]&&s_cnt[2]==s_cnt0[2]);
}
#elif STEP==S_PASSI
static int o_filter,o_limit,o_passed;
#ifdef VP_CPROVER
int vp_limit;
#define LIMSTR (vp_limit=IN[55],"7")
#else
static char limstr[16];
#define LIMSTR (snprintf(limstr,16,"%d",(int)IN[55]),limstr)
#endif
static void vp_create(struct bsdconv_instance *ins){
	int n=0; struct bsdconv_hash_entry *a=NULL; o_filter=IN[51]&1; IN[50]=0; s_fname=NULL; s_filters=0; o_limit=0; o_passed=0; IN[55]&=0xffff;
#ifndef VP_CPROVER
	IN[55]%=4;
#endif
	if(IN[52]&1){ a=arg(n++,"LIMIT",LIMSTR); o_limit=IN[55]; }
	if(o_filter) a=arg(n++,"FOR","X");
	VP_ASSERT("create-succeeds",cbcreate(ins,a)==0);
}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	int ok; g_accept=(IN[54+10*0]>>o_passed&1)||(IN[56]&1); ok=!o_filter||g_accept;
	if(ok&&o_limit!=0){ if(o_passed<o_limit) o_passed++; else ok=0; }
	if(!ok) return SP_DEAD;
	return sp_pass_through(o);
}
static void before_step(void){ s_asked=NULL; }
static void extra_posts(void){ VP_ASSERT("filter-asked-about-this-datum",!o_filter||s_asked==g_in); }
#elif STEP==S_PASST||STEP==S_PASSF
static int o_filter;
static void vp_create(struct bsdconv_instance *ins){
	int n=0; struct bsdconv_hash_entry *a=NULL; o_filter=IN[51]&1; IN[50]=0; s_fname=NULL; s_filters=0; o_mark=IN[52]&1;
	if(o_mark) a=arg(n++,STEP==S_PASST?"MARK":"UNMARK",NULL);
	if(o_filter) a=arg(n++,"FOR","X");
	VP_ASSERT("create-succeeds",cbcreate(ins,a)==0);
}
static size_t o_i;
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	g_accept=(IN[54]&1)?(int)IN[54]:0;
#if STEP==S_PASSF
	o_i=IN[56]%4; if(o_i>=len) o_i=0;
	if(o_i!=0) return SP_DEAD;
	if(o_mark&&!(g_flags&F_MARK)) return SP_DEAD;
#endif
	if(o_filter&&!g_accept) return SP_DEAD;
	return sp_pass_through(o);
}
static void before_step(void){
#if STEP==S_PASSF
	P[1].i=o_i;
#endif
	s_asked=NULL; }
static void extra_posts(void){
	VP_ASSERT("filter-asked-about-this-datum",!s_asked||s_asked==g_in);
	if(g_v==SP_DONE){ unsigned char f=P[1].data_tail->flags&F_MARK;
#if STEP==S_PASST
		VP_ASSERT("marked-as-asked",o_mark?f==F_MARK:f==(g_flags&F_MARK));
#else
		VP_ASSERT("marked-as-asked",o_mark?f==0:f==(g_flags&F_MARK));
		VP_ASSERT("whole-datum-consumed",P[1].i==g_len-1);
#endif
	}
}
#elif STEP==S_NULL
static void vp_create(struct bsdconv_instance *ins){}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){ return SP_DONE; }
static void before_step(void){} static void extra_posts(void){}
#elif STEP==S_INSERT
static int o_b,o_a;
static void vp_create(struct bsdconv_instance *ins){
	int n=0; struct bsdconv_hash_entry *a=NULL; s_lists(); l_name[0]="B"; l_name[1]="A"; o_b=IN[51]&1; o_a=IN[52]&1;
	if(o_b) a=arg(n++,"BEFORE","B");
	if(o_a) a=arg(n++,"AFTER","A");
	VP_ASSERT("create-succeeds",cbcreate(ins,a)==0);
}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){ if(o_b) sp_list(o,0); sp_same(o); if(o_a) sp_list(o,1); return SP_DONE; }
static void before_step(void){} static void extra_posts(void){}
#elif STEP==S_ANY
static int o_mode,o_err;
static void vp_create(struct bsdconv_instance *ins){
	int n=0; struct bsdconv_hash_entry *a=NULL; s_lists(); s_counter_reset();
	l_name[0]=
#ifdef ANYTO
	"3F";
#else
	"013F";
#endif
	l_name[1]="A"; o_mode=IN[51]%3; o_err=IN[52]%3;
	/* the default is the datum that its notation spells: the stub's list 0 stands for it */
	if(o_mode==1) a=arg(n++,"A",NULL);
	if(o_mode==2) a=arg(n++,"DROP",NULL);
	if(o_err==1) a=arg(n++,"ERROR",NULL);
	if(o_err==2) a=arg(n++,"ERROR","Mine");
	VP_ASSERT("create-succeeds",cbcreate(ins,a)==0);
#ifdef ANYTO
	if(o_err) VP_ASSERT("counter-is-the-named-one",s_counter(o_err==1?"OERR":"MINE")==0);
#else
	if(o_err) VP_ASSERT("counter-is-the-named-one",s_counter(o_err==1?"IERR":"MINE")==0);
#endif
}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){ if(o_mode<2) sp_list(o,o_mode); return SP_DONE; }
static void before_step(void){ s_cnt0[0]=s_cnt[0]; }
static void extra_posts(void){ VP_ASSERT("counts-once-where-asked",s_cnt[0]==s_cnt0[0]+(o_err?1:0)); }
#elif STEP==S_WIDTH
static void vp_create(struct bsdconv_instance *ins){ int k; s_counter_reset(); VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0); VP_ASSERT("three-counters",s_counter("HALF")>=0&&s_counter("FULL")>=0&&s_counter("AMBI")>=0&&s_cname[3]==NULL); }
static int g_w;
static int spec(const uint8_t *d,size_t len,struct sp_out *o){ uint32_t u; g_w=0; if(ucp(d,len,&u)) g_w=rangeof(g_width,sizeof g_width/sizeof *g_width,u,90); return sp_pass_through(o); }
static void before_step(void){ int k; for(k=0;k<NCNT;k++) s_cnt0[k]=s_cnt[k]; }
static void extra_posts(void){ int k,w=g_w==1?s_counter("HALF"):g_w==2?s_counter("FULL"):g_w==3?s_counter("AMBI"):-1; for(k=0;k<NCNT;k++) VP_ASSERT("counts-exactly-its-class",s_cnt[k]==s_cnt0[k]+(k==w)); }
#elif STEP==S_PAD||STEP==S_UNPAD
static int o_pad,h_prev; /* padding wanted; the datum before was ambiguous and padding was on */
static void vp_create(struct bsdconv_instance *ins){ VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0); o_pad=1; h_prev=0; }
static int g_call;
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	uint32_t u; int amb=0; static const uint8_t nbsp[2]={1,0xa0};
	/* the user may switch padding before any datum */
	if(IN[50+g_call]&1){ o_pad=(IN[50+g_call]>>1&1)?(int)(IN[50+g_call]>>2&0x7fff)+1:0; cbctl(&I,BSDCONV_CTL_AMBIGUOUS_PAD,NULL,o_pad); }
	g_call=(g_call+1)%NCALLS;
	if(len>1&&ucp(d,len,&u)) amb=rangeof(g_ambi,sizeof g_ambi/sizeof *g_ambi,u,90+g_call);
#if STEP==S_PAD
	sp_same(o); if(amb&&o_pad) sp_lit(o,nbsp,2);
#else
	if(h_prev&&len==2&&d[0]==1&&d[1]==0xa0){ h_prev=0; return SP_DONE; }
	sp_same(o); h_prev=amb&&o_pad;
#endif
	return SP_DONE;
}
static void before_step(void){} static void extra_posts(void){}
#elif STEP==S_HDEC
static void vp_create(struct bsdconv_instance *ins){}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	uint32_t u,s; uint8_t x[OUTB];
	if(!ucp(d,len,&u)||len<2||u<0xac00||u>0xd7a3) return sp_pass_through(o);
	s=u-0xac00;
	sp_lit(o,x,sp_ucs_dat(x,0x1100+s/588)); sp_lit(o,x,sp_ucs_dat(x,0x1161+s%588/28)); if(s%28) sp_lit(o,x,sp_ucs_dat(x,0x11a7+s%28));
	return SP_DONE;
}
static void before_step(void){} static void extra_posts(void){}
#elif STEP==S_HCOMP
static int h_st; static uint32_t h_p; /* 0 nothing held, 1 a leading consonant, 2 a syllable without final */
static void vp_create(struct bsdconv_instance *ins){ VP_ASSERT("create-succeeds",cbcreate(ins,NULL)==0); h_st=0; }
static void held(struct sp_out *o){ uint8_t x[OUTB]; if(h_st) sp_lit(o,x,sp_ucs_dat(x,h_p)); h_st=0; }
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	uint32_t u;
	if(d[0]!=1){ held(o); return sp_pass_through(o); }
	VP_ASSUME(len>=2&&len<=5&&!(len>2&&d[1]==0)); ucp(d,len,&u);
	if(h_st==1&&u>=0x1161&&u<=0x1175){ h_st=2; h_p=0xac00+((h_p-0x1100)*21+(u-0x1161))*28; return SP_SUB; }
	if(h_st==2&&u>0x11a7&&u<=0x11c2){ h_p+=u-0x11a7; held(o); return SP_DONE; }
	if(u>=0x1100&&u<=0x1112){ held(o); h_st=1; h_p=u; return SP_SUB; }
	if(h_st==0) return SP_DEAD;
	held(o); return sp_pass_through(o);
}
static void before_step(void){} static void extra_posts(void){}
static void fin(struct bsdconv_instance *ins){
	g_o.n=0; held(&g_o); g_v=SP_DONE; g_tail=P[1].data_tail; g_buf=NULL; cbflush(ins);
	VP_ASSERT("end-of-input-emits-what-is-held",P[1].state.status==NEXTPHASE&&p_emitted());
}
#elif STEP==S_BSDCONV
static void vp_create(struct bsdconv_instance *ins){}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){ uint8_t x[OUTB]; int k; for(k=0;k<MAXD;k++) if(k<len){ x[2*k]="0123456789ABCDEF"[d[k]>>4]; x[2*k+1]="0123456789ABCDEF"[d[k]&15]; } sp_lit(o,x,2*len); return SP_DONE; }
static void before_step(void){} static void extra_posts(void){}
#elif STEP==S_RAW
static void vp_create(struct bsdconv_instance *ins){}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){ sp_lit(o,d+1,len-1); return SP_DONE; }
static void before_step(void){} static void extra_posts(void){}
#elif STEP==S_IMG
static void vp_create(struct bsdconv_instance *ins){}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	static const char h[]="<img class=\"unicode_img\" src=\"http://www.unicode.org/cgi-bin/refglyph?24-"; uint8_t x[OUTB]; int n=0,k;
	if(d[0]!=1) return SP_DEAD;
	if(len<2||(len>2&&d[1]==0)) return SP_FREE;
	for(k=0;k<sizeof h-1;k++) x[n++]=h[k];
	for(k=1;k<MAXD;k++) if(k<len){ if(k>1||d[k]>15) x[n++]="0123456789ABCDEF"[d[k]>>4]; x[n++]="0123456789ABCDEF"[d[k]&15]; }
	x[n++]='"'; x[n++]=' '; x[n++]='/'; x[n++]='>'; sp_lit(o,x,n); return SP_DONE;
}
static void before_step(void){} static void extra_posts(void){}
#elif STEP==S_ESC
static int o_mode,o_for,o_pre,o_suf;
static void vp_create(struct bsdconv_instance *ins){
	int n=0; struct bsdconv_hash_entry *a=NULL; s_lists(); l_name[0]="B"; l_name[1]="A";
	o_pre=IN[51]&1; o_suf=IN[52]&1;
	static char *const modes[]={"hex","HEX","16","DEC","10","OCT","8"}; static char *const fors[]={"UNICODE","1","01","BYTE","3","03"};
	A[0].next=NULL;
#ifdef MSEL
	IN[53]=MSEL;
#endif
#ifdef PSEL
	o_pre=PSEL&1; o_suf=PSEL>>1;
#endif
#ifdef FSEL
	IN[54]=FSEL;
#endif
	int m=IN[53]%8, f=IN[54]%7; o_mode=m<4?16:m<6?10:8; o_for=f<4?1:3;
#ifdef PARTS /* at most three arguments at a time */
	if(PARTS==0){ f=o_for==1?0:6; if(m>2&&m!=4&&m!=6) m=o_mode==16?0:o_mode==10?4:6; }
#endif
	if(o_pre) a=arg(n++,"PREFIX","B");
	if(o_suf) a=arg(n++,"SUFFIX","A");
	if(m&&n<3) a=arg(n++,"MODE",modes[m-1]); else if(m) o_mode=16;
	if(f&&n<3) a=arg(n++,"FOR",fors[f-1]); else if(f) o_for=1;
	VP_ASSERT("create-succeeds",cbcreate(ins,a)==0);
}
static int fix(uint8_t *x,int n,int q,int given,const char *dflt){ int k; if(given){ for(k=0;k<3;k++) if(k<l_len[q][0]) x[n++]=l_b[q][0][k]; } else for(;*dflt;dflt++) x[n++]=*dflt; return n; }
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	uint8_t x[OUTB],t[10]; int n=0,k,m; uint32_t u=0;
	if(o_for==1){ if(len<2||d[0]!=1||o_mode==8) return SP_DEAD; VP_ASSUME(len<=5); }
	else if(len!=2||d[0]!=3) return SP_DEAD;
	n=fix(x,n,0,o_pre,"%u");
	for(k=1;k<5;k++) if(k<len) u=u<<8|d[k];
	if(o_mode==16){ for(k=1;k<5;k++) if(k<len){ x[n++]="0123456789ABCDEF"[d[k]>>4]; x[n++]="0123456789ABCDEF"[d[k]&15]; } }
	else if(o_mode==10){
#ifdef VP_CPROVER
		u64 v=0; vp_decv=u; vp_decn=vp_range(80,1,10);
		for(k=0;k<10;k++){ vp_decd[k]=vp_range(81+k,0,9); if(k<vp_decn) v=v*10+vp_decd[k]; }
		VP_ASSUME(v==u&&(vp_decn==1||vp_decd[0]));
		for(k=0;k<10;k++) if(k<vp_decn) x[n++]='0'+vp_decd[k];
#else
		m=0; for(k=0;k<10;k++) if(u||k==0){ t[m++]='0'+u%10; u/=10; } for(k=0;k<10;k++) if(k<m) x[n++]=t[m-1-k];
#endif
	}
	else { x[n++]='0'+(d[1]>>6); x[n++]='0'+(d[1]>>3&7); x[n++]='0'+(d[1]&7); }
	n=fix(x,n,1,o_suf,""); sp_lit(o,x,n); return SP_DONE;
}
static void before_step(void){} static void extra_posts(void){}
#elif STEP==S_REPLACE
static int o_to;
static void vp_create(struct bsdconv_instance *ins){
	s_lists(); l_name[0]="F"; l_name[1]="T"; VP_ASSUME(l_n[0]>0); h_at=0; o_to=IN[51]&1;
	VP_ASSERT("create-succeeds",cbcreate(ins,arg(0,"F",o_to?"T":NULL))==0);
}
static int spec(const uint8_t *d,size_t len,struct sp_out *o){
	int k,eq; eq=len==l_len[0][h_at];
	for(k=0;k<3;k++) if(eq&&k<len&&d[k]!=l_b[0][h_at][k]) eq=0;
	if(!eq){ h_at=0; return SP_DEAD; }
	if(h_at+1<l_n[0]){ h_at++; return SP_CONT; }
	h_at=0; if(o_to) sp_list(o,1); return SP_DONE;
}
static void before_step(void){} static void extra_posts(void){}
#endif
static void native_gen(int base){
#if defined(WANT_DATA)&&!defined(VP_CPROVER)
	int q; for(q=0;q<20;q++) if(q%10>2) IN[STUB_IN+q]&=3;
#if STEP==S_REPLACE
	for(q=0;q<NB;q++) IN[base+2+q]&=3;
	IN[base]=1+IN[base]%3; if(!(IN[STUB_IN]%3)) IN[STUB_IN]=1+(vp_rng()&1);
#ifdef STATES
	if((base-4)/(NB+2)<NCALLS-1){ IN[STUB_IN]=2; if(!(IN[STUB_IN+1]%4)) IN[STUB_IN+1]=1; IN[base]=IN[STUB_IN+1]%4; for(q=0;q<3;q++) IN[base+2+q]=IN[STUB_IN+3+q]; }
#endif
#endif
#endif
#if (STEP==S_WIDTH||STEP==S_PAD||STEP==S_UNPAD)&&!defined(VP_CPROVER)
	uint32_t u; int k,n=sizeof g_width/sizeof *g_width; u=g_width[vp_rng()%n][vp_rng()&1]+vp_rng()%3-1; if(vp_rng()%5==0) u=0xa0; else if(vp_rng()&1) u=g_ambi[vp_rng()%(sizeof g_ambi/sizeof *g_ambi)][vp_rng()&1];
	if(vp_rng()&7){ IN[base]=u>0xffff?4:u>0xff?3:2; IN[base+2]=1; for(k=0;k<(int)IN[base]-1;k++) IN[base+3+k]=u>>(8*(IN[base]-2-k)); }
#elif !defined(VP_CPROVER)
	if(vp_rng()&3) IN[base+2]=1+2*(vp_rng()&1);
#if STEP==S_HCOMP
	if(vp_rng()&7){ int k=vp_rng()%5; uint32_t u=k==0?0x10ff+vp_rng()%22:k<3?0x1160+vp_rng()%24:k==3?0x11a6+vp_rng()%31:0xac00+vp_rng()%60; IN[base]=3; IN[base+2]=1; IN[base+3]=u>>8; IN[base+4]=u; }
#ifdef STATES
	if((base-4)/(NB+2)<NCALLS-1){ uint32_t u=(base-4)/(NB+2)==0?0x1100+vp_rng()%19:0x1161+vp_rng()%21; IN[base]=3; IN[base+2]=1; IN[base+3]=u>>8; IN[base+4]=u; }
#endif
#endif
#if STEP==S_HDEC
	if(vp_rng()&3){ uint32_t u=0xabf0+vp_rng()%11200; IN[base]=3; IN[base+2]=1; IN[base+3]=u>>8; IN[base+4]=u; }
#endif
#endif
}
