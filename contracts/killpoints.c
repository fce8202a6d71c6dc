/* linked in front of the C library: ends the process at the KP_KILL-th point, or makes the KP_FAIL-th call fail */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
static int on,at,call,kill_at,fail_at;
static void num(void){ const char *o=getenv("KP_COUNT"); char b[64]; if(on&&o){ on=0; FILE *f=fopen(o,"w"); if(f){ fprintf(f,"%d %d\n",at,call); fclose(f); } } }
__attribute__((constructor)) static void start(void){ const char *k=getenv("KP_KILL"),*f=getenv("KP_FAIL"); kill_at=k?atoi(k):0; fail_at=f?atoi(f):0; atexit(num); on=1; }
static void point(void){ if(on && ++at==kill_at) raise(SIGKILL); }
static int bad(void){ return on && ++call==fail_at; }
#define REAL(n) ((__typeof__(&n))dlsym(RTLD_NEXT,#n))
#define W(ret,n,par,arg,failed) ret n par { ret r; point(); if(bad()){ errno=EIO; r=failed; } else r=REAL(n) arg; point(); return r; }
W(FILE*,fopen,(const char *p,const char *m),(p,m),NULL)
W(FILE*,fdopen,(int d,const char *m),(d,m),NULL)
W(FILE*,freopen,(const char *p,const char *m,FILE *f),(p,m,f),NULL)
W(int,fclose,(FILE *f),(f),(REAL(fclose)(f),EOF))
W(int,fflush,(FILE *f),(f),EOF)
W(size_t,fread,(void *b,size_t s,size_t n,FILE *f),(b,s,n,f),(f->_flags|=0x20,0))
W(size_t,fwrite,(const void *b,size_t s,size_t n,FILE *f),(b,s,n,f),(f->_flags|=0x20,0))
W(int,mkstemp,(char *t),(t),-1)
W(int,unlink,(const char *p),(p),-1)
W(int,remove,(const char *p),(p),-1)
W(int,rename,(const char *a,const char *b),(a,b),-1)
W(int,link,(const char *a,const char *b),(a,b),-1)
W(int,fchmod,(int d,mode_t m),(d,m),-1)
W(int,fchown,(int d,uid_t u,gid_t g),(d,u,g),-1)
W(int,fsync,(int d),(d),-1)
W(int,truncate,(const char *p,off_t n),(p,n),-1)
W(int,ftruncate,(int d,off_t n),(d,n),-1)
W(ssize_t,write,(int d,const void *b,size_t n),(d,b,n),-1)
