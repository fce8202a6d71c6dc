/* In-place conversion: the real main() and bsdconv_file() of src/bsdconv.c over a file system of ghost state.
 *
 * What the path of each file holds is one of OLD, NEW (complete), PARTIAL, ABSENT. The system calls and stdio calls are
 * represented by their contracts, each may fail; the library by bsdconv_create/init/bsdconv/destroy (C18, C21, C22).
 * After every call - the only points where anything outside the process can change - each path must hold OLD or NEW:
 * that is what is left when the process is killed there.
 * The content of a file is abstracted to its length and to one arbitrary byte at one arbitrary offset. */
#include <stdio.h>
#include <sys/stat.h>
#define VP_NO_LEAK
#include "vp.h"
#include <setjmp.h>
#include "inplace.h"
#ifndef MAXR
#define MAXR 2
#endif
#define NFILE 2
enum { OLD, NEW, PARTIAL, ABSENT };
static int at[NFILE];                          /* what the path holds */
static char nm[NFILE][4]={"A","Bc"}; static int nf, inplace;
static size_t woff; static unsigned char wval[NFILE];    /* the witness byte of each file */
struct h { int used,wr,file,tmp,err,eof,open; size_t pos; int nread; int complete,disk,src; };
#define NH 8
static struct h h[NH]; static int nh;
static char tn[4][16]; static int th[4], tdead[4], nt;    /* temporary files and what they hold: a handle */
#ifndef NF
#define NF 2
#endif
#ifndef INPLACE
#define INPLACE 1
#endif
enum { F_OPEN=12, F_TEMP=15, F_FD=18, F_CLOSE=21, F_FLUSH=26, F_UNLINK=29, F_RENAME=34, F_MISC=38, F_CREATE=46, F_READ=48, F_CONV=56, LEN=64 }; /* which input makes which call fail */
static int cnt[64]; static bool odd;
static struct bsdconv_instance TI; static int live; static size_t fed; static int flushed, inited, cur;
#if VP_NATIVE
static jmp_buf done_jb;
#endif
char s_std[3];
static bool bad(int i){ return (IN[i]&15)==9; }
static bool fails(int f,int n){ int c=cnt[f]; cnt[f]=c+1; return c<n && bad(f+c); }
static void moment(void){
	for(int k=0;k<NFILE;k++) if(k<nf) VP_ASSERT("the-path-holds-the-old-or-the-complete-new-content",at[k]==OLD||at[k]==NEW);
}
static bool same(const char *a,const char *b){ int k; for(k=0;k<15;k++){ if(a[k]!=b[k]) return 0; if(!a[k]) return 1; } return 0; }
static int file_of(const char *p){ for(int k=0;k<NFILE;k++) if(same(p,nm[k])) return k; return -1; }
static int tmp_of(const char *p){ for(int k=0;k<4;k++) if(k<nt && !tdead[k] && same(p,tn[k])) return k; return -1; }
static struct h *hnew(void){ VP_ASSUME(nh<NH); struct h *x=&h[nh++]; x->used=x->open=1; x->wr=x->err=x->eof=x->nread=x->complete=x->disk=0; x->pos=0; x->file=x->tmp=x->src=-1; return x; }
static struct h *H(FILE *f){ for(int k=0;k<NH;k++) if(k<nh && (struct h*)f==&h[k]) return &h[k]; return 0; }
static void give_up(void){ odd=1; VP_ASSUME(0); } /* not something the contracts describe */
#ifdef VP_CPROVER
#include <stdarg.h>
/* formats of literal text, %s and %% only; anything else is not described here */
int s_snprintf(char *p,size_t n,const char *f,...){
	size_t l=0; va_list ap; va_start(ap,f);
	for(int k=0;k<14;k++){
		if(!f[k]) break;
		if(f[k]=='%'&&f[k+1]=='s'){ const char *a=va_arg(ap,char*); for(int j=0;j<9;j++){ if(!a[j]) break; if(l+1<n) p[l]=a[j]; l++; } k++; }
		else if(f[k]=='%'&&f[k+1]!='%') give_up();
		else { if(f[k]=='%') k++; if(l+1<n) p[l]=f[k]; l++; }
	}
	va_end(ap); if(n) p[l<n?l:n-1]=0;
	return (int)l;
}
#endif
int s_num(int x){ return fails(F_MISC,8)?-1:0; }
int s_stat(struct stat *b){ b->st_uid=IN[6]; b->st_gid=IN[7]; b->st_mode=IN[8]; return s_num(0); }
FILE *s_fopen(const char *p,const char *m){
	int f=file_of(p),t=tmp_of(p); struct h *x=hnew();
	if(fails(F_OPEN,3)) return 0;
	 x->file=f; x->tmp=t;
	x->wr=m[0]!='r'||m[1]=='+'||m[1]&&m[2]=='+';
	if(x->wr&&f<0&&t<0){ VP_ASSUME(nt<4); for(int k=0;k<15;k++){ tn[nt][k]=p[k]; if(!p[k]) break; } th[nt]=x-h; tdead[nt]=0; x->tmp=nt; nt++; }
	else if(m[0]=='w'&&f>=0) at[f]=PARTIAL;
	else if(f<0) give_up();
	moment(); return (FILE*)x;
}
FILE *s_freopen(const char *p,const char *m,FILE *g){ give_up(); return 0; }
int s_mkstemp(char *t){
	size_t n=strlen(t);
	VP_ASSERT("the-template-of-the-temporary-file-ends-in-six-X",n>=6&&n<15&&t[n-1]=='X'&&t[n-2]=='X'&&t[n-3]=='X'&&t[n-4]=='X'&&t[n-5]=='X'&&t[n-6]=='X');
	VP_ASSUME(nt<4); struct h *x=hnew();
	if(fails(F_TEMP,3)){ th[nt]=0; tdead[nt]=1; tn[nt][0]=0; nt++; return -1; }
	t[n-1]='0'+nt;
	for(int k=0;k<15;k++){ tn[nt][k]=t[k]; if(!t[k]) break; }
	x->tmp=nt; x->wr=1; th[nt]=x-h; tdead[nt]=0; nt++; moment();
	return 100+(int)(x-h);
}
FILE *s_fdopen(int fd,const char *m){ if(fd<100||fd>=100+nh) give_up(); if(fails(F_FD,3)) return 0; VP_ASSERT("the-temporary-file-is-opened-for-writing",m[0]!='r'||m[1]=='+'); return (FILE*)&h[fd-100]; }
int s_fileno(FILE *f){ struct h *x=H(f); return x?100+(int)(x-h):3; }
int s_ferror(FILE *f){ struct h *x=H(f); return x?x->err:0; }
int s_feof(FILE *f){ struct h *x=H(f); return x?x->eof:0; }
void s_clearerr(FILE *f){ give_up(); }
int s_fflush(FILE *f){ struct h *x=H(f); if(!x) return 0; if(fails(F_FLUSH,3)){ x->err=1; return EOF; } if(x->wr) x->disk=x->complete&&!x->err; moment(); return 0; }
int s_fclose(FILE *f){
	struct h *x=H(f); if(!x) return 0;
	VP_ASSERT("a-stream-is-closed-once",x->open); x->open=0;
	if(!x->wr||x->tmp<0) return fails(F_CLOSE,5)?EOF:0;
	bool e=fails(F_CLOSE,5); x->disk=x->complete&&!x->err&&(!e||x->disk);
	moment(); return e?EOF:0;
}
int s_close(int fd){ return s_num(fd); }
int s_open(const char *p,int fl){ give_up(); return -1; }
int s_creat(const char *p,mode_t m){ give_up(); return -1; }
int s_unlink(const char *p){ int f=file_of(p),t=tmp_of(p); if(fails(F_UNLINK,5)) return -1; if(f>=0) at[f]=ABSENT; if(t>=0) tdead[t]=1; moment(); return 0; }
int s_truncate(const char *p,off_t n){ int f=file_of(p); if(f>=0) at[f]=PARTIAL; moment(); return 0; }
int s_link(const char *a,const char *b){ give_up(); return -1; }
int s_rename(const char *a,const char *b){
	int t=tmp_of(a),f=file_of(b),g=file_of(a);
	if(fails(F_RENAME,4)) return -1;
	if(g>=0){ at[g]=ABSENT; moment(); }
	if(f>=0){ at[f]= t>=0&&h[th[t]].disk&&h[th[t]].src==f ? NEW : PARTIAL; if(t>=0) tdead[t]=1; }
	moment(); return 0;
}
size_t s_fread(void *b,size_t s,size_t n,FILE *f){
	struct h *x=H(f); if(!x||x->file<0||s!=1) give_up();
	VP_ASSERT("read-from-an-open-stream",x->open);
	cur=x-h;
	if(x->nread<3 && bad(F_READ+3*x->file+x->nread)){ x->err=1; return 0; }
	if(x->nread>=MAXR||x->eof||(IN[LEN+4*x->file+x->nread]&1)){ x->eof=1; return 0; }
	size_t r=1+(size_t)(IN[LEN+4*x->file+x->nread]>>1)%n; x->nread++;
	if(r<n) x->eof=1; /* a stream comes up short only at its end, or by an error */
	VP_ASSERT("room-for-what-is-read",VP_LIVE(b,n));
#if VP_NATIVE
	memset(b,(int)IN[5],n);
#else
	if(__CPROVER_POINTER_OFFSET(b)==0) __CPROVER_array_set((unsigned char*)b,(unsigned char)IN[5]);
#endif
	if(woff>=x->pos && woff-x->pos<r) ((unsigned char*)b)[woff-x->pos]=wval[x->file];
	x->pos+=r;
	return r;
}
struct bsdconv_instance *s_create(const char *c){ if(fails(F_CREATE,1)) return 0; live=1; memset(&TI,0,sizeof TI); return &TI; }
void s_destroy(struct bsdconv_instance *i){ VP_ASSERT("destroyed-once",live==1&&i==&TI); live=0; }
char *s_error(void){ char *e=malloc(2); e[0]='e'; e[1]=0; return e; }
char **s_list(int t){ char **l=malloc(sizeof *l); *l=0; return l; }
void s_init(struct bsdconv_instance *i){ i->flush=0; fed=0; flushed=0; inited=1; }
void s_bsdconv(struct bsdconv_instance *i){
	VP_ASSERT("a-live-initialised-instance",live==1&&i==&TI&&inited);
	if(i->output_mode!=BSDCONV_FILE||i->input.next) give_up();
	struct h *o=H((FILE*)i->output.data), *x=cur>=0?&h[cur]:0;
	if(!x) give_up();
	VP_ASSERT("nothing-follows-the-flush",!flushed);
	if(i->input.len){
		VP_ASSERT("input-bytes-in-order",fed+i->input.len<=x->pos && !(woff>=fed && woff-fed<i->input.len) || ((unsigned char*)i->input.data)[woff-fed]==wval[x->file]);
		fed+=i->input.len;
	}
	if(i->input.flags&F_FREE) free(i->input.data);
	i->input.data=0; i->input.len=0; i->input.flags=0;
	if(o){
		VP_ASSERT("output-to-an-open-stream",o->open&&o->wr);
		o->disk=0; if(x->file>=0&&x->nread<3 && bad(F_CONV+3*x->file+(i->flush?2:x->nread-1))) o->err=1;
		if(o->file>=0) at[o->file]=PARTIAL;
	}
	if(i->flush){
		flushed=1; inited=0;
		VP_ASSERT("every-byte-read-is-converted",fed==x->pos&&(x->eof||x->err));
		if(o){ o->complete=!x->err&&x->eof&&fed==x->pos; o->src=x->file; }
	}
	moment();
}
static void finish(int status){
	moment();
	for(int k=0;k<NFILE;k++) if(k<nf){
		if(!inplace) VP_ASSERT("without-i-no-file-changes",at[k]==OLD);
		else if(status==0) VP_ASSERT("success-means-every-file-is-converted",at[k]==NEW);
	}
	if(status==0) VP_COVER("everything-converted",!inplace||at[NF-1]==NEW); else VP_COVER("given-up",!inplace||at[NF-1]==OLD&&(NF==1||at[0]==NEW));
}
void s_exit(int st){ finish(st);
#if VP_NATIVE
	longjmp(done_jb,1);
#else
	__CPROVER_assume(0); for(;;);
#endif
}
void harness(void){
	vp_begin();
	static char a0[]="bsdconv",a1[]="c",a2[]="-i"; char *av[6]; int ac=0;
	nf=NF; inplace=INPLACE; woff=IN[2]&4095; wval[0]=IN[3]; wval[1]=IN[4];
	nh=nt=0; for(int k=0;k<64;k++) cnt[k]=0; live=0; inited=0; flushed=0; fed=0; cur=-1; odd=0; for(int k=0;k<NFILE;k++) at[k]=OLD;
	av[ac++]=a0; av[ac++]=a1; if(inplace) av[ac++]=a2; av[ac++]=nm[0]; if(nf>1) av[ac++]=nm[1]; av[ac]=0;
#if VP_NATIVE
	if(setjmp(done_jb)){ vp_cleanup(); return; }
#endif
	finish(tool_main(ac,av));
}
