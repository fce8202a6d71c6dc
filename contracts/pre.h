/* Included before a codec's source when it is compiled for the verifier (goto-cc -include): CBMC's model of variadic calls
 * drops the default argument promotions, so the two printf-family calls the codecs make get non-variadic models (trusted).
 * Natively nothing is replaced. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef VP_CPROVER
extern unsigned vp_decv; extern int vp_decn; extern unsigned char vp_decd[10];
static int vp_sp(char *p,const char *f,unsigned v){
	int n=0,k=0,m;
	for(;f[k];){
		if(f[k]!='%'){ p[n++]=f[k++]; continue; }
		k++;
		if(f[k]=='0'&&f[k+1]=='2'&&f[k+2]=='X'){ __CPROVER_assert(v<=255,"inductive:sprintf-model-one-byte"); p[n++]="0123456789ABCDEF"[v>>4&15]; p[n++]="0123456789ABCDEF"[v&15]; k+=3; }
		else if(f[k]=='X'){ __CPROVER_assert(v<=255,"inductive:sprintf-model-one-byte"); if(v>15) p[n++]="0123456789ABCDEF"[v>>4&15]; p[n++]="0123456789ABCDEF"[v&15]; k++; }
		else if(f[k]=='u'||f[k]=='d'){
			if(f[k]=='d') __CPROVER_assert(v<=0x7fffffff,"inductive:sprintf-model-nonnegative");
			/* decimal notation is unique: the digits of the value the contract is about are a ghost input */
			__CPROVER_assert(v==vp_decv,"inductive:sprintf-model-decimal-of-the-datum");
			for(m=0;m<10;m++) if(m<vp_decn) p[n+m]='0'+vp_decd[m];
			n+=vp_decn;
			k++;
		}
		else if(f[k]=='%'){ p[n++]='%'; k++; }
		else { __CPROVER_assert(0,"inductive:sprintf-model-covers-the-format"); return 0; }
	}
	p[n]=0; return n;
}
#define sprintf(p,...) vp_sp1(p,__VA_ARGS__,0)
#define vp_sp1(p,f,v,...) vp_sp(p,f,(unsigned)(v))
extern int vp_limit;
static int vp_scan(const char *s,const char *f,int *v){ __CPROVER_assert(f[0]=='%'&&f[1]=='d'&&!f[2],"inductive:sscanf-model-covers-the-format"); *v=vp_limit; return 1; }
#define sscanf(s,f,v) vp_scan(s,f,v)
#endif
