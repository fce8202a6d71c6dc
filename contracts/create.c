/* Life cycle: bsdconv_create() on any conversion string of at most L characters over {a,b,x,',',':','|','#','&','=',' '}, in a world in which
 * the modules whose name has no X exist, those with an A bring a create callback and those that begin with it a destroy callback, and opening, mapping or creating may fail at any one point.
 * Contract: an instance exactly for a well-formed string of existing codecs, with the phases and codecs it spells, each opened, mapped
 * and created once with its own arguments; otherwise NULL with the reason in errno. When bsdconv_create() fails and after bsdconv_destroy()
 * everything opened, mapped, created or allocated has been given back exactly once. */
#ifndef L
#define L 5
#endif
#ifndef FIXED
#define VP_ENUM {1,0,10},{2,0,L>1?10:0},{3,0,L>2?10:0},{4,0,L>3?10:0},{5,0,L>4?10:0},{6,0,L>5?10:0},{30,0,NMODE-1}
#endif
#define NMODE 12
#include "vp.h"
#include <errno.h>
#include <stdio.h>
#include <sys/stat.h>
#ifdef FIXED
#define MF 12
#else
#define MF 40
#endif
#define NA (L+2)
enum { KNONE, KOPEN=1, KMAP=5, KCREATE=8 };
static int mode, nopen, nmap, ncreate, curdir, realdir, bad, depth;
static struct { char name[L+4]; int type, open, mapped, dl; } F[MF];
static unsigned char page[MF][64];
static char dummy;
static int has(const char *s,char c){ int k; for(k=0;k<=L+3;k++){ if(!s[k]) return 0; if(s[k]==c) return 1; } return 0; }
static int upper_eq(const char *u,const char *s){ int k; for(k=0;k<=L+3;k++){ char c=s[k]; if(c>='a'&&c<='z') c-=32; if(u[k]!=c) return 0; if(!c) return 1; } return 0; }
static int same(const char *u,const char *s){ int k; for(k=0;k<=L+3;k++){ if(u[k]!=s[k]) return 0; if(!s[k]) return 1; } return 0; }
/* ---- contracts of the outside world */
char *g_getcwd(char *b,size_t n){ char *p=malloc(3); p[0]='/'; p[1]='w'; p[2]=0; return p; }
char *g_getenv(const char *n){ return NULL; }
static int home=1;
int g_chdir(const char *p){
	home=p[0]=='/'&&p[1]=='w'&&!p[2];
	if(p[0]=='f'&&p[1]=='r'&&p[2]=='o'&&p[3]=='m'&&!p[4]) curdir=FROM; else if(p[0]=='i'&&p[1]=='n'&&p[2]=='t'&&p[3]=='e'&&p[4]=='r'&&!p[5]) curdir=INTER; else if(p[0]=='t'&&p[1]=='o'&&!p[2]) curdir=TO; else curdir=0;
	return 0; }
static int exists(const char *n){ int k; if(!curdir) return 0; for(k=0;k<L+2;k++){ if(!n[k]) return k>0; if(n[k]!='A'&&n[k]!='B'&&n[k]!='='&&n[k]!='&') return 0; } return 0; }
FILE *g_fopen(const char *n){ if(!exists(n)) return NULL; return (FILE*)&dummy; }
int g_fclose(FILE *f){ if((char*)f!=&dummy) bad=1; return 0; }
int g_access(const char *n){ return exists(n)?0:-1; }
int g_stat(const char *n,struct stat *s){ return exists(n)?0:-1; }
char *g_realpath(const char *n,char *b){ int k; realdir=curdir; for(k=0;k<L+3;k++){ b[k]=n[k]; if(!n[k]) break; } return b; }
int g_open(const char *n){ int k;
	if(mode>=KOPEN&&mode<KMAP&&nopen==mode-KOPEN){ nopen++; return -1; }
	if(nopen>=MF){ bad=1; return -1; }
	F[nopen].open=1; F[nopen].type=realdir; for(k=0;k<L+3;k++){ F[nopen].name[k]=n[k]; if(!n[k]) break; } F[nopen].name[L+3]=0;
	return 3+nopen++; }
int g_close(int f){ f-=3; if(f<0||f>=nopen||F[f].open!=1) bad=1; else F[f].open=2; return 0; }
int g_fstat(int f,struct stat *s){ s->st_size=64; return 0; }
void *g_mmap(size_t n,int f){ f-=3; if(mode>=KMAP&&mode<KCREATE&&nmap++==mode-KMAP) return (void*)-1; if(f<0||f>=nopen||F[f].open!=1||n!=64||F[f].mapped){ bad=1; return (void*)-1; } F[f].mapped=1; return page[f]; }
int g_munmap(void *p,size_t n){ int k; for(k=0;k<MF;k++) if(k<nopen&&p==(void*)page[k]){ if(F[k].mapped!=1||n!=64) bad=1; F[k].mapped=2; return 0; } bad=1; return 0; }
void *g_dlopen(const char *n){ int k,l; /* the codec opened last, with the suffix of a shared object */
	if(!nopen){ bad=1; return NULL; } k=nopen-1; for(l=0;F[k].name[l];l++) if(n[l]!=F[k].name[l]) bad=1;
	if(n[l]!='.'||n[l+1]!='s'||n[l+2]!='o'||n[l+3]) bad=1;
	if(!has(F[k].name,'A')) return NULL;
	F[k].dl=1; return &F[k]; }
int g_dlclose(void *h){ int k; for(k=0;k<MF;k++) if(h==(void*)&F[k]){ if(F[k].dl!=1) bad=1; F[k].dl=2; return 0; } bad=1; return 0; }
/* ---- what the string spells */
static char S[L+1]; static int wf, np, typ[NA], nc[NA], cnt[NA][NA], gone[NA][NA], loads, creates, missing; static char nm[NA][NA][L+1], av[NA][NA][L+1]; static int hasarg[NA][NA];
static void element(int p,int c,const char *s,int n){ int k,j=0,a=0; for(k=0;k<L;k++) if(k<n){ if(!a&&s[k]=='#'){ a=1; nm[p][c][j]=0; j=0; } else if(a) av[p][c][j++]=s[k]; else nm[p][c][j++]=s[k]; } if(a) av[p][c][j]=0; else nm[p][c][j]=0; hasarg[p][c]=a; if(!nm[p][c][0]) wf=0; }
static void specify(void){
	int k,b=0,g=0; wf=1; np=0; memset(nc,0,sizeof nc); memset(typ,0,sizeof typ); np=1; typ[1]=INTER;
	for(k=0;k<=L;k++){ char c=S[k]; if(c==','||c==':'||c=='|'||c==0){
		if(b==k&&0) wf=0;
		element(np,nc[np]++,S+b,k-b); b=k+1;
		if(c==':'||c=='|'||c==0){ g++; if(c!=':'){ if(g>1){ typ[np-g+1]=FROM; typ[np]=TO; } g=0; } if(c){ np++; typ[np]=INTER; } }
		if(!c) break; } }
	loads=creates=missing=0;
	{ int p,c; for(p=1;p<NA;p++) if(p<=np) for(c=0;c<NA;c++) if(c<nc[p]){ loads++; if(has(nm[p][c],'x')) missing=1; if(has(nm[p][c],'a')) creates++; } }
}
/* ---- the callbacks the modules bring */
static int args_ok(const char *s,struct bsdconv_hash_entry *a){
	int k=0,j,n; if(!*s) return a==NULL;
	for(n=0;n<=L;n++){ if(a==NULL) return 0;
		j=0; while(s[k]&&s[k]!='&'&&s[k]!='='){ if(a->key[j]!=s[k]) return 0; j++; k++; } if(a->key[j]) return 0;
		if(s[k]=='='){ const char *v=a->ptr; if(!v) return 0; k++; j=0; while(s[k]&&s[k]!='&'){ if(v[j]!=s[k]) return 0; j++; k++; } if(v[j]) return 0; } else if(a->ptr) return 0;
		a=a->next; if(!s[k]) return a==NULL; k++; }
	return 0; }
static int cb_create(struct bsdconv_instance *ins,struct bsdconv_hash_entry *arg){
	int p=ins->phase_index,c; if(p<1||p>np){ bad=1; return 0; } c=ins->phase[p].index; if(c<0||c>=nc[p]){ bad=1; return 0; }
	if(cnt[p][c]||!has(nm[p][c],'a')) bad=1;
	if(!args_ok(hasarg[p][c]?av[p][c]:"",arg)) bad=2;
	if(mode>=KCREATE&&ncreate++==mode-KCREATE) return ENOEXEC;
	cnt[p][c]=1; if(nm[p][c][0]=='a') ins->phase[p].codec[c].priv=malloc(1); else gone[p][c]=1; return 0; }
static void cb_destroy(struct bsdconv_instance *ins){
	int p=ins->phase_index,c; if(p<1||p>np){ bad=1; return; } c=ins->phase[p].index; if(c<0||c>=nc[p]){ bad=1; return; }
	if(!cnt[p][c]||gone[p][c]){ bad=3; return; } gone[p][c]=1; free(ins->phase[p].codec[c].priv); }
void *g_dlsym(void *h,const char *n){ if(n[0]=='c'&&n[1]=='b'){ if(n[2]=='c'&&n[3]=='r') return (void*)cb_create; if(n[2]=='d') return ((char*)h)[0]=='A'?(void*)cb_destroy:NULL; } return NULL; }
static int all_back(void){ int k,p,c; for(k=0;k<MF;k++) if(F[k].open==1||F[k].mapped==1||F[k].dl==1) return 0;
	for(p=0;p<NA;p++) for(c=0;c<NA;c++) if(cnt[p][c]!=gone[p][c]) return 0; return 1; }
void harness(void){
	int k,j,p,c,e; struct bsdconv_instance *ins; char *in; vp_begin();
	memset(F,0,sizeof F); memset(cnt,0,sizeof cnt); memset(gone,0,sizeof gone); nopen=nmap=ncreate=curdir=bad=0; home=1;
#ifdef FIXED
	static const char text[]=FIXED; const int n=sizeof text-1; in=vp_alloc(n+1); for(k=0;k<=n;k++) in[k]=text[k];
#else
	int n=0; static const char al[]="\0ab,:x|#&= ";
	for(k=0;k<L;k++){ int v=(int)vp_range(1+k,0,10); if(v&&n==k) n++;
#ifndef VP_CPROVER
		else if(v&&!vp_random_mode){ vp_skipped++; return; }
#endif
	}
	in=vp_alloc(n+1); in[n]=0;
#ifdef BIAS /* mostly well-formed */
	for(k=0;k<n;k++){ int v=IN[1+k]; char l=k?in[k-1]:0; int sep=k==0||l==','||l==':'||l=='|'; in[k]=sep||k==n-1?(v%7==0&&IN[31]%8==0?'x':"ab"[v&1]):v==0||v==10||al[v]=='x'?'a':al[v]; }
#else
	for(k=0;k<n;k++) in[k]=al[IN[1+k]];
#endif
#endif
	mode=(int)vp_range(30,0,NMODE-1);
	for(j=0,k=0;k<L;k++) if(k<n&&in[k]!=' ') S[j++]=in[k]; S[j]=0;
	specify();
	errno=0; ins=bsdconv_create(in); e=errno; 
	VP_ASSERT("working-directory-as-before",home);
	VP_ASSERT("string-left-alone",in[n]==0);
	int want=wf&&!missing&&!(mode>=KOPEN&&mode<KMAP&&mode-KOPEN<loads)&&!(mode>=KMAP&&mode<KCREATE&&mode-KMAP<loads)&&!(mode>=KCREATE&&mode-KCREATE<creates);
	VP_ASSERT("an-instance-exactly-for-a-well-formed-string-of-codecs-that-load",(ins!=NULL)==want);
	if(!ins){
		VP_ASSERT("the-reason-is-told",e==(!wf?EINVAL:missing?EOPNOTSUPP:mode<KMAP?EOPNOTSUPP:mode<KCREATE?ENOMEM:ENOEXEC));
		VP_ASSERT("failure-gives-everything-back",all_back());
	}else{
		VP_ASSERT("phases-as-spelled",ins->phasen==np);
		for(p=1;p<NA;p++) if(p<=np){
			VP_ASSERT("phase-types-by-position",ins->phase[p].type==typ[p]); VP_ASSERT("codecs-as-spelled",ins->phase[p].codecn==nc[p]-1);
			for(c=0;c<NA;c++) if(c<nc[p]){ struct bsdconv_codec *d=&ins->phase[p].codec[c]; int f=d->fd-3;
				VP_ASSERT("codec-loaded-by-its-name",f>=0&&f<nopen&&F[f].open==1&&F[f].mapped==1&&F[f].type==typ[p]&&upper_eq(F[f].name,nm[p][c])&&d->z==(char*)page[f]);
				VP_ASSERT("codec-created-once",cnt[p][c]==has(nm[p][c],'a')&&gone[p][c]==(cnt[p][c]&&nm[p][c][0]!='a')); } }
		VP_ASSERT("error-counters-at-zero",ins->ierr&&ins->oerr&&ins->ierr!=ins->oerr&&*ins->ierr==0&&*ins->oerr==0);
		
		bsdconv_init(ins); bsdconv_destroy(ins);
		VP_ASSERT("destroy-gives-everything-back",all_back());
	}
	VP_ASSERT("each-callback-with-its-own-codec-and-arguments-and-nothing-given-back-twice",!bad);
	VP_COVER("done",ins==NULL||!bad);
	free(in);
}
