extern char s_std[3];
FILE *s_fopen(const char*,const char*); FILE *s_freopen(const char*,const char*,FILE*); FILE *s_fdopen(int,const char*); int s_fclose(FILE*);
size_t s_fread(void*,size_t,size_t,FILE*); int s_fflush(FILE*); int s_ferror(FILE*); int s_feof(FILE*); void s_clearerr(FILE*); int s_fileno(FILE*);
int s_mkstemp(char*); int s_unlink(const char*); int s_rename(const char*,const char*); int s_link(const char*,const char*); int s_truncate(const char*,off_t);
int s_open(const char*,int); int s_close(int); int s_creat(const char*,mode_t); int s_num(int); int s_stat(struct stat*); void s_exit(int) __attribute__((noreturn));
struct bsdconv_instance *s_create(const char*); void s_destroy(struct bsdconv_instance*); void s_init(struct bsdconv_instance*); void s_bsdconv(struct bsdconv_instance*);
char *s_error(void); char **s_list(int);
int tool_main(int,char**);
#ifdef VP_CPROVER
int s_snprintf(char*,size_t,const char*,...);
#endif
