/* the unmodified src/libbsdconv.c; every call that reaches the file system or the dynamic loader goes to its contract in create.c */
#define USE_HEX_MAP
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/types.h>
#include <sys/param.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "bsdconv.h"
char *g_getcwd(char*,size_t); char *g_getenv(const char*); int g_chdir(const char*); FILE *g_fopen(const char*); int g_fclose(FILE*); int g_access(const char*);
int g_open(const char*); int g_close(int); int g_fstat(int,struct stat*); int g_stat(const char*,struct stat*); void *g_mmap(size_t,int); int g_munmap(void*,size_t); char *g_realpath(const char*,char*);
void *g_dlopen(const char*); void *g_dlsym(void*,const char*); int g_dlclose(void*);
#define getcwd g_getcwd
#define getenv g_getenv
#define secure_getenv g_getenv
#define chdir g_chdir
#define fopen(p,m) g_fopen(p)
#define fclose g_fclose
#define access(p,m) g_access(p)
#define open(p,...) g_open(p)
#define close g_close
#define fstat g_fstat
#define stat(p,b) g_stat(p,b)
#define mmap(a,l,p,f,fd,o) g_mmap(l,fd)
#define munmap g_munmap
#define realpath g_realpath
#define dlopen(p,f) g_dlopen(p)
#define dlsym g_dlsym
#define dlclose g_dlclose
#define printf(...) ((void)0)
#ifdef VP_CPROVER
static char *g_strsep(char **s,const char *d){ char *b=*s,*p; if(b==NULL) return NULL; for(p=b;*p;p++) if(*p==*d){ *p=0; *s=p+1; return b; } *s=NULL; return b; }
#define strsep g_strsep
#endif
#include "libbsdconv.c"
