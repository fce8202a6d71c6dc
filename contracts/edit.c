/* C16: editing conversion strings. OP: 0 positions, 1 insert_phase, 2 insert_codec, 3 replace_phase, 4 replace_codec, 5 unpack/pack.
 * For the verifier bsdconv_unpack() and bsdconv_pack() are replaced by their contracts: the one yields the phases and codecs the string
 * spells (any NP phases of NC codecs), the other turns the phases it is given into a string; what it is given must be the edited list.
 * At run time the same edits are evaluated on the real functions, strings against strings, over every point of a stated domain. */
#ifndef NP
#define NP 3
#endif
#ifndef NC
#define NC 2
#endif
#if OP==5
#define NS 8
#define VP_ENUM {1,0,6},{2,0,6},{3,0,6},{4,0,6},{5,0,6},{6,0,XL>5?6:0},{7,0,XL>6?6:0}
#else
#define VP_ENUM {1,1,4},{2,1,2},{3,1,2},{4,1,2},{5,1,2},{6,0,3},{7,0,9},{8,0,OP==2||OP==4?6:0},{9,1,OP==1||OP==3?3:1},{10,0,3}
#endif
#include "vp.h"
struct bsdconv_instance *bsdconv_unpack(const char *); char *bsdconv_pack(struct bsdconv_instance *);
int bsdconv_get_phase_index(struct bsdconv_instance *,int), bsdconv_get_codec_index(struct bsdconv_instance *,int,int);
char *bsdconv_insert_phase(const char *,const char *,int,int), *bsdconv_replace_phase(const char *,const char *,int,int), *bsdconv_insert_codec(const char *,const char *,int,int), *bsdconv_replace_codec(const char *,const char *,int,int);
#if OP==0
void harness(void){
	static struct bsdconv_instance J; int n,m,p,c,r; vp_begin(); memset(&J,0,sizeof J);
	n=(int)vp_range(1,1,1<<20); p=(int)IN[2]; VP_ASSUME(p>=-n);
#ifndef VP_CPROVER
	if(vp_random_mode){ IN[1]=n=1+IN[1]%20; IN[2]=p=(int)(IN[2]%60)-n; }
#endif
	J.phasen=n; r=bsdconv_get_phase_index(&J,p);
	VP_ASSERT("phase-from-the-front-or-the-back",r==(p>=n?n+1:p>=0?p+1:n+p+1));
	VP_COVER("back",p<0); VP_COVER("append",p>=n);
	if(p<n){ /* any number of phases: the addressed one is all that may be looked at */
		m=(int)vp_range(3,0,1<<20); c=(int)IN[4];
#ifndef VP_CPROVER
		if(vp_random_mode){ IN[3]=m=IN[3]%9; IN[4]=c=(int)(IN[4]%30)-m-1; }
#endif
		VP_ASSUME(c>=-m-1);
		J.phase=malloc(sizeof(struct bsdconv_phase)*((size_t)n+1)); J.phase[r].codecn=m;
		r=bsdconv_get_codec_index(&J,p,c);
		VP_ASSERT("codec-from-the-front-or-the-back",r==(c>=m+1?m+1:c>=0?c:m+1+c));
		free(J.phase);
	}
}
#elif OP==5
static const char A[]="a,:|#b";
void harness(void){
	static char s[NS],r[64]; int k,n=0; vp_begin();
	for(k=0;k<7;k++){ if(IN[1+k]==0) break; s[n++]=A[IN[1+k]-1]; } s[n]=0; for(;k<7;k++) if(IN[1+k]) VP_ASSUME(0);
	{ /* reference: segments at '|', phases at ':', codecs at ',', argument after the first '#'; no empty phase, no nameless codec */
		int seg=0,ph=0,co=0,bad=0,i,np[8]={0},nc[8]={0},ty[8]={0},start=1,lone=0; char name[8][8][10]; int st=0; struct bsdconv_instance *ins; char *o;
		memset(name,0,sizeof name);
		int seg0=0; ph=0; co=0; int len=0;
		for(k=0;;k++){
			char c=s[k];
			if(c==0||c==','||c==':'||c=='|'){
				if(len==0||name[ph][co][0]=='#') bad=1;
				if(c==','){ co++; len=0; continue; }
				nc[ph]=co+1; ty[ph]=INTER; ph++; co=0; len=0;
				if(c==0||c=='|'){ if(ph-seg0>1){ ty[seg0]=FROM; ty[ph-1]=TO; } else lone=1; seg0=ph; }
				if(!c) break;
				continue;
			}
			name[ph][co][len++]=c;
		}
		ins=bsdconv_unpack(s);
		VP_ASSERT("rejected-exactly-when-a-part-is-empty",(ins==NULL)==bad);
		if(!ins) return;
		VP_ASSERT("phases",ins->phasen==ph);
		for(k=0;k<ph;k++){
			VP_ASSERT("codecs-and-type",ins->phase[k+1].codecn==nc[k]-1&&ins->phase[k+1].type==ty[k]);
			for(i=0;i<nc[k];i++){
				char *h=strchr(name[k][i],'#'),*a=ins->phase[k+1].codec[i].argv; if(h) *h=0;
				VP_ASSERT("name",!strcmp(ins->phase[k+1].codec[i].desc,name[k][i]));
				VP_ASSERT("arguments",h?a&&!strcmp(a,h+1):!a);
				if(h) *h='#';
			}
		}
		o=bsdconv_pack(ins); r[0]=0;
		for(k=0;k<ph;k++) for(i=0;i<nc[k];i++){
			if(i) strcat(r,","); else if(k) strcat(r,ty[k]==FROM?"|":":");
			strcat(r,name[k][i]); n=strlen(r); if(r[n-1]=='#'&&strchr(name[k][i],'#')==name[k][i]+strlen(name[k][i])-1) r[n-1]=0; /* an empty argument list is dropped */
		}
		VP_ASSERT("packing-gives-the-same-conversion",!strcmp(o,r));
		free(o);
		for(k=1;k<=ins->phasen;k++){ for(i=0;i<=ins->phase[k].codecn;i++) free(ins->phase[k].codec[i].desc); free(ins->phase[k].codec); } free(ins->phase); free(ins);
	}
}
#else
/* ghost: the phases of the conversion; a codec is a letter, with or without an argument */
#ifdef VP_CPROVER
#define RANGE(k,lo,hi) x_shape[k]
static int x_shape[NP+2];
#else
#define RANGE vp_range
#endif
static int g_n,g_c[NP+2],g_t[NP+2]; static char g_nm[NP+2][NC+2]; static int g_ar[NP+2][NC+2];
static void gen(void){
	int i,j,q=0; g_n=(int)RANGE(1,1,NP);
	for(i=1;i<=NP;i++){ g_c[i]=(int)RANGE(1+i,1,NC); for(j=0;j<NC;j++){ g_nm[i][j]='A'+q; g_ar[i][j]=(IN[10]>>q&1); q++; } }
}
static int s_null,s_packed; static char s_token[2];
static char *const X="x";
#ifdef VP_CPROVER
static char conv[2]="c";
struct bsdconv_instance *bsdconv_unpack(const char *s){
	int i,j; VP_ASSERT("unpacks-the-given-string",s==conv);
	if(s_null) return NULL;
	struct bsdconv_instance *ins=malloc(sizeof *ins); ins->pool=NULL; ins->hash=NULL; ins->counter=NULL; ins->phasen=g_n;
	ins->phase=malloc(sizeof(struct bsdconv_phase)*(g_n+1)); ins->phase[0].type=_INPUT;
	for(i=1;i<=NP;i++) if(i<=g_n){
		ins->phase[i].type=g_t[i]; ins->phase[i].codecn=g_c[i]-1; ins->phase[i].codec=malloc(sizeof(struct bsdconv_codec)*g_c[i]);
		for(j=0;j<NC;j++) if(j<g_c[i]){ char *d=malloc(4); d[0]=g_nm[i][j]; d[1]=0; d[2]='p'; d[3]=0; ins->phase[i].codec[j].desc=d; ins->phase[i].codec[j].argv=g_ar[i][j]?d+2:NULL; }
	}
	return ins;
}
/* the edited list */
static int e_n,e_c[NP+3],e_t[NP+3]; static char e_nm[NP+3][NC+2]; static int e_ar[NP+3][NC+2];
char *bsdconv_pack(struct bsdconv_instance *ins){
	int i,j; s_packed++;
	VP_ASSERT("number-of-phases",ins->phasen==e_n);
	for(i=1;i<=NP+1;i++) if(i<=e_n){
		VP_ASSERT("type-and-number-of-codecs-of-every-phase",ins->phase[i].type==e_t[i]&&ins->phase[i].codecn==e_c[i]-1);
		for(j=0;j<=NC;j++) if(j<e_c[i]){
			char *d=ins->phase[i].codec[j].desc,*a=ins->phase[i].codec[j].argv;
			VP_ASSERT("every-codec-in-its-place",d[0]==e_nm[i][j]&&d[1]==0);
			VP_ASSERT("arguments-of-every-codec",e_ar[i][j]?a!=NULL&&a[0]=='p'&&a[1]==0:a==NULL);
		}
	}
	s_token[0]='t'; return s_token;
}
#else
static int e_n,e_c[NP+3],e_t[NP+3]; static char e_nm[NP+3][NC+2]; static int e_ar[NP+3][NC+2];
static char conv[256],want[256];
static void join(char *o,int n,int *cc,int *tt,char nm[][NC+2],int ar[][NC+2]){
	int i,j; for(i=1;i<=n;i++) for(j=0;j<cc[i];j++){ if(j) *o++=','; else if(i>1) *o++=tt[i]==FROM?'|':':'; *o++=nm[i][j]; if(ar[i][j]){ *o++='#'; *o++='p'; } } *o=0;
}
#endif
static void edit_once(int p0,int c0){
	int i,j,p,c,ty,at,ca; char *r;
	ty=(int)vp_range(9,FROM,TO); s_packed=0;
	p=p0; c=c0;
#ifdef VP_CPROVER
	for(i=1;i<=NP;i++) g_t[i]=(int)vp_range(20+i,FROM,TO);
	s_null=IN[30]&1;
#else
	{ int sp=IN[6]; /* a '|' after phase sp, if both sides have at least two phases */
	  for(i=1;i<=g_n;i++) g_t[i]=INTER;
	  if(g_n>1){ g_t[1]=FROM; g_t[g_n]=TO; }
	  if(sp>=2&&sp<=g_n-2){ g_t[sp]=TO; g_t[sp+1]=FROM; } }
#endif
	VP_ASSUME(p>=-g_n);
#if OP!=1
	VP_ASSUME(p<g_n);
#endif
	at=p>=g_n?g_n+1:p>=0?p+1:g_n+p+1; /* position 1.. */
#if OP==2||OP==4
#ifndef VP_CPROVER
	c-=g_c[at];
#endif
	VP_ASSUME(c>=-g_c[at]);
#if OP==4
	VP_ASSUME(c<g_c[at]);
#endif
	ca=c>=g_c[at]?g_c[at]:c>=0?c:g_c[at]+c;
#endif
	e_n=g_n; for(i=1;i<=NP;i++){ e_c[i]=g_c[i]; e_t[i]=g_t[i]; for(j=0;j<NC;j++){ e_nm[i][j]=g_nm[i][j]; e_ar[i][j]=g_ar[i][j]; } }
#if OP==1
	e_n=g_n+1;
	for(i=NP+1;i>1;i--) if(i>at){ e_c[i]=g_c[i-1]; e_t[i]=g_t[i-1]; for(j=0;j<NC;j++){ e_nm[i][j]=g_nm[i-1][j]; e_ar[i][j]=g_ar[i-1][j]; } }
#endif
#if OP==1||OP==3
	e_c[at]=1; e_t[at]=ty; e_nm[at][0]='x'; e_ar[at][0]=0;
#elif OP==2
	for(j=NC;j>0;j--) if(j>ca){ e_nm[at][j]=g_nm[at][j-1]; e_ar[at][j]=g_ar[at][j-1]; }
	e_c[at]=g_c[at]+1; e_nm[at][ca]='x'; e_ar[at][ca]=0;
#else
	e_nm[at][ca]='x'; e_ar[at][ca]=0;
#endif
#ifndef VP_CPROVER
	join(conv,g_n,g_c,g_t,g_nm,g_ar); join(want,e_n,e_c,e_t,e_nm,e_ar); { static char keep[256]; strcpy(keep,conv);
#endif
#if OP==1
	r=bsdconv_insert_phase(conv,X,ty,p);
#elif OP==2
	r=bsdconv_insert_codec(conv,X,p,c);
#elif OP==3
	r=bsdconv_replace_phase(conv,X,ty,p);
#else
	r=bsdconv_replace_codec(conv,X,p,c);
#endif
#ifdef VP_CPROVER
	VP_ASSERT("no-string-for-no-conversion",s_null?r==NULL&&s_packed==0:r==s_token&&s_packed==1);
	VP_COVER("edited",!s_null&&e_n==NP); VP_COVER("null",s_null);
	VP_ASSERT("given-strings-unchanged",conv[0]=='c'&&conv[1]==0&&X[0]=='x'&&X[1]==0);
#else
	VP_ASSERT("given-strings-unchanged",!strcmp(conv,keep)); }
	VP_ASSERT("exactly-the-addressed-part-changed",r&&!strcmp(r,want));
	free(r);
#endif
}
#ifdef VP_CPROVER
void harness(void){ /* every shape and position in turn, everything else unconstrained */
	int n,a,b,p,c; vp_begin();
	for(n=1;n<=NP;n++) for(a=1;a<=NC;a++) for(b=1;b<=NC;b++) for(p=-n;p<=n+1;p++) for(c=OP==2||OP==4?-NC:0;c<=(OP==2?NC+1:OP==4?NC-1:0);c++){
		int i,at=p>=n?n+1:p>=0?p+1:n+p+1;
		if((OP!=1&&p>=n)||(n==1&&b>1)) continue;
		if((OP==2||OP==4)&&(p<-1||c<-1)) continue; /* the index functions are proved for every position */
		for(i=1;i<=NP;i++) x_shape[1+i]=i==at?a:b;
		x_shape[1]=n; if((OP==2||OP==4)&&(c<-a||(OP==4&&c>=a))) continue;
		gen(); edit_once(p,c);
	}
}
#else
void harness(void){ vp_begin(); if(vp_random_mode){ IN[7]%=10; IN[8]%=7; } gen(); edit_once((int)IN[7]-g_n,(int)IN[8]); }
#endif
#endif
