/* the unmodified file, its entry points renamed so that both codecs link into one program */
#define cbcreate derail_create
#define cbinit derail_init
#define cbconv derail_conv
#define cbdestroy derail_destroy
#include "../modules/inter/WHITESPACE-DERAIL.c"
