/* End-to-end runner: linked with the real libbsdconv built from /repo's working tree (AddressSanitizer), reads commands
 * from stdin, one per line, prints one line per command. Used for the labelled bounded complements only.
 *   C <conversion>        create (destroys the previous one); "ok" or "err"
 *   I                     bsdconv_init
 *   R <chunks>            init, counters reset, feed the chunks (hex, comma separated, "-" = empty chunk) each in its own
 *                         call, then flush; prints  <hex output> <ierr> <oerr>
 *   P <chunks>            as R but without flush (leaves the instance in the middle)
 *   L <chunks>            as R, but the chunks are the nodes of one linked list given in a single flushing call
 *   M <mode> <arg>        output mode for the following R: 1 automalloc, 2 premalloc of <arg> bytes, 3 FILE, 4 FD, 5 size query then
 *                         premalloc, 6 pass to a second instance "<arg conversion>"
 *   Z [<name>]            reset one counter, or all
 *   K <name>              value of a counter
 *   S <ctl> <v>           bsdconv_ctl(ctl,NULL,v)
 *   D <steps>             instance-free editing functions: see below
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include "bsdconv.h"
static struct bsdconv_instance *ins,*ins2;
static int mode=1; static long marg; static char conv2[65536];
static unsigned char *out; static size_t outn,outcap; static int bad;
static void put(const void *p,size_t n){ if(outn+n+1>outcap){ outcap=(outn+n)*2+64; out=realloc(out,outcap);} memcpy(out+outn,p,n); outn+=n; }
static void onalrm(int s){ static const char m[]="HANG\n"; fflush(stdout); write(1,m,5); _exit(77); }
static int hexv(int c){ return c<='9'?c-'0':(c|32)-'a'+10; }
static unsigned char *unhex(const char *s,size_t *n){ size_t l=strlen(s)/2,k; unsigned char *b; if(!strcmp(s,"-")) l=0; b=malloc(l?l:1); for(k=0;k<l;k++) b[k]=hexv(s[2*k])<<4|hexv(s[2*k+1]); *n=l; return b; }
static FILE *fp; static int fd=-1; static char tmpn[64];
static void step(int flush){
	struct bsdconv_instance *o=ins; static unsigned char big[1<<16];
	ins->flush=flush;
	switch(mode){
	case 1: ins->output_mode=BSDCONV_AUTOMALLOC; ins->output.data=NULL; ins->output.len=0; bsdconv(ins); put(ins->output.data,ins->output.len); free(ins->output.data); ins->output.data=NULL; ins->output.len=0; break;
	case 2: { size_t prev; ins->output_mode=BSDCONV_PREMALLOCED; do{ unsigned char *b=malloc(marg+1); b[marg]=0x5a; ins->output.data=b; ins->output.len=marg; bsdconv(ins); prev=ins->output.len; if(prev>(size_t)marg||b[marg]!=0x5a) bad=1; put(b,prev>(size_t)marg?marg:prev); free(b); }while(prev); ins->output.data=NULL; ins->output.len=0; break; }
	case 3: ins->output_mode=BSDCONV_FILE; ins->output.data=fp; bsdconv(ins); break;
	case 4: ins->output_mode=BSDCONV_FD; ins->output.data=(void*)(long)fd; bsdconv(ins); break;
	case 5: { size_t n; ins->output_mode=BSDCONV_PREMALLOCED; ins->output.data=NULL; ins->output.len=0; bsdconv(ins); n=ins->output.len; unsigned char *b=malloc(n?n:1);
		if(n){ ins->output.data=b; ins->output.len=n; bsdconv(ins); if(ins->output.len!=n) bad=1; put(b,ins->output.len); } free(b); ins->output.data=NULL; ins->output.len=0; break; }
	case 6: ins->output_mode=BSDCONV_PASS; ins->output.data=ins2; ins2->input.data=NULL; ins2->input.len=0; ins2->input.flags=0; ins2->input.next=NULL; bsdconv(ins);
		ins2->flush=flush; ins2->output_mode=BSDCONV_AUTOMALLOC; ins2->output.data=NULL; ins2->output.len=0; bsdconv(ins2); put(ins2->output.data,ins2->output.len); free(ins2->output.data); break;
	case 7: /* hold everything, deliver at the flush */
		if(!flush){ ins->output_mode=BSDCONV_HOLD; bsdconv(ins); } else { mode=1; step(1); mode=7; } break;
	}
	(void)o; (void)big;
}
static void feed(char *chunks,int list){
	char *c; struct data_rt *head=NULL,**tail=&head; size_t n;
	while((c=strsep(&chunks,","))){
		unsigned char *b=unhex(c,&n);
		if(!list){ ins->input.data=b; ins->input.len=n; ins->input.flags=F_FREE; ins->input.next=NULL; step(0); }
		else { struct data_rt *d=malloc(sizeof *d); d->data=b; d->len=n; d->flags=F_FREE; d->next=NULL; *tail=d; tail=&d->next; }
	}
	if(list&&head){ ins->input=*head; free(head); }
}
int main(void){
	char *line=NULL; size_t cap=0; ssize_t n; static char conv[65536];
	signal(SIGALRM,onalrm);
	while((n=getline(&line,&cap,stdin))>0){
		while(n&&(line[n-1]=='\n')) line[--n]=0;
		alarm(10);
		char *a=n>1?line+2:line+n; size_t k;
		outn=0; bad=0;
		if(!ins&&line[0]!='C'&&line[0]!='M'){ printf("noinst\n"); alarm(0); continue; }
		switch(line[0]){
		case 'C': if(ins) bsdconv_destroy(ins); ins=bsdconv_create(a); if(ins) bsdconv_init(ins); printf(ins?"ok\n":"err\n"); break;
		case 'Z': bsdconv_counter_reset(ins,*a?a:NULL); printf("ok\n"); break;
		case 'I': bsdconv_init(ins); printf("ok\n"); break;
		case 'S': { int c,v; sscanf(a,"%d %d",&c,&v); bsdconv_ctl(ins,c,NULL,v); printf("ok\n"); break; }
		case 'K': printf("%zu\n",(size_t)*bsdconv_counter(ins,a)); break;
		case 'M': mode=strtol(a,&a,10); if(*a) a++; marg=strtol(a,NULL,10);
			if(mode==6){ if(ins2) bsdconv_destroy(ins2); ins2=bsdconv_create(a); }
			printf("ok\n"); break;
		case 'P': if(!ins){ printf("noinst\n"); break; } bsdconv_init(ins); feed(a,0); printf("ok\n"); break;
		case 'R': case 'L':
			if(!ins){ printf("noinst\n"); break; }
			bsdconv_init(ins); *bsdconv_counter(ins,"IERR")=0; *bsdconv_counter(ins,"OERR")=0;
			if(mode==6) bsdconv_init(ins2);
			if(mode==3) fp=tmpfile();
			if(mode==4){ strcpy(tmpn,"./vpfdXXXXXX"); fd=mkstemp(tmpn); unlink(tmpn); }
			feed(a,line[0]=='L');
			if(line[0]=='R'){ ins->input.data=NULL; ins->input.len=0; ins->input.flags=0; ins->input.next=NULL; }
			step(1);
			if(mode==3){ int c; fflush(fp); rewind(fp); while((c=fgetc(fp))!=EOF){ char x=c; put(&x,1);} fclose(fp); }
			if(mode==4){ char x; lseek(fd,0,SEEK_SET); while(read(fd,&x,1)==1) put(&x,1); close(fd); }
			if(bad) printf("BADOUT ");
			for(k=0;k<outn;k++) printf("%02X",out[k]);
			printf(" %zu %zu\n",(size_t)*ins->ierr,(size_t)*ins->oerr);
			break;
		default: printf("?\n");
		}
		alarm(0);
	}
	if(ins) bsdconv_destroy(ins);
	if(ins2) bsdconv_destroy(ins2);
	free(out); free(line);
	fflush(stdout);
	return 0;
}
