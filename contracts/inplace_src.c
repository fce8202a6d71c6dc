/* the unmodified command-line tool; every call that reaches the system or the library goes to its contract in inplace.c */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include "bsdconv.h"
#include "inplace.h"
#undef stdin
#undef stdout
#undef stderr
#define stdin ((FILE*)&s_std[0])
#define stdout ((FILE*)&s_std[1])
#define stderr ((FILE*)&s_std[2])
#define main tool_main
#define fopen s_fopen
#define freopen s_freopen
#define fdopen s_fdopen
#define fclose s_fclose
#define fread s_fread
#define fflush s_fflush
#define ferror s_ferror
#define feof s_feof
#define clearerr s_clearerr
#define fileno s_fileno
#define mkstemp s_mkstemp
#define unlink s_unlink
#define remove s_unlink
#define rename s_rename
#define link s_link
#define truncate s_truncate
#define open(p,...) s_open(p,(__VA_ARGS__))
#define close s_close
#define creat s_creat
#define fsync(x) s_num(x)
#define fstat(x,y) s_stat(y)
#define fchown(x,y,z) s_num(x)
#define fchmod(x,y) s_num(x)
#define exit s_exit
#define _exit s_exit
#define fprintf(...) s_num(0)
#define printf(...) s_num(0)
#define perror(x) s_num(0)
#define fputs(x,y) s_num(0)
#define bsdconv_create s_create
#define bsdconv_destroy s_destroy
#define bsdconv_init s_init
#define bsdconv s_bsdconv
#define bsdconv_error s_error
#define bsdconv_malloc malloc
#define bsdconv_free free
#define bsdconv_modules_list s_list
#define chmod(x,y) s_num(0)
#define chown(x,y,z) s_num(0)
#define fputc(x,y) s_num(0)
#define puts(x) s_num(0)
#ifdef VP_CPROVER
#define snprintf s_snprintf
#define sprintf(p,...) s_snprintf(p,100,__VA_ARGS__)
#endif
#include "bsdconv.c"
