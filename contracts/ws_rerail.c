/* the unmodified file, its entry points renamed so that both codecs link into one program */
#define cbcreate rerail_create
#define cbinit rerail_init
#define cbconv rerail_conv
#define cbflush rerail_flush
#define cbdestroy rerail_destroy
#include "../modules/inter/WHITESPACE-RERAIL.c"
