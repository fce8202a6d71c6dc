/* Assumed contracts of the library functions the codecs call. Each one is itself the subject of another unit:
 * str2datum/str2data: C09; bsdconv_counter: C15. load_filter (dlopen) is trusted: it gives a filter object or NULL. */
#ifndef STUBS_H
#define STUBS_H
#ifndef STUB_IN
#define STUB_IN 60 /* IN[STUB_IN..]: what the arguments spell */
#endif
#include <strings.h>
#include <errno.h>
static int same_name(const char *a,const char *b){ int k; for(k=0;k<12;k++){ char x=a[k],y=b[k]; if(x>='a'&&x<='z') x-=32; if(y>='a'&&y<='z') y-=32; if(x!=y) return 0; if(!x) return 1; } return 0; }
/* counters: one address per name, names compared without case */
#ifdef WANT_COUNTER
#define NCNT 4
static bsdconv_counter_t s_cnt[NCNT]; static const char *s_cname[NCNT]; static bsdconv_counter_t s_cnt0[NCNT];
bsdconv_counter_t *bsdconv_counter(struct bsdconv_instance *ins,const char *key){
	int k; VP_ASSERT("counter-of-this-instance",ins==&I && key!=NULL);
	for(k=0;k<NCNT;k++){ if(!s_cname[k]) s_cname[k]=key; if(same_name(s_cname[k],key)) return &s_cnt[k]; }
	VP_ASSUME(0); return NULL;
}
static int s_counter(const char *key){ int k; for(k=0;k<NCNT;k++) if(s_cname[k]&&same_name(s_cname[k],key)) return k; return -1; }
static void s_counter_reset(void){ int k; for(k=0;k<NCNT;k++){ s_cname[k]=NULL; s_cnt[k]=s_cnt0[k]=IN[40+k]; } }
#endif
#ifdef WANT_FILTER
static int g_accept, s_filters; static struct data_rt *s_asked; static const char *s_fname;
static int s_cbfilter(struct data_rt *d){ s_asked=d; return g_accept; }
struct bsdconv_filter *load_filter(const char *name){ struct bsdconv_filter *f; s_fname=name; if(IN[50]&1) return NULL; f=malloc(sizeof *f); f->so=NULL; f->cbfilter=s_cbfilter; s_filters++; return f; }
void unload_filter(struct bsdconv_filter *f){ s_filters--; free(f); }
#endif
#ifdef WANT_DATA
/* list q (0,1) has IN[STUB_IN+8q]%3 data of IN[..+1+j]%4 bytes */
#define NLIST 2
#define NEL 2
static int l_n[NLIST], l_len[NLIST][NEL]; static uint8_t l_b[NLIST][NEL][3]; static const char *l_name[NLIST]; static int l_err;
static void s_lists(void){ int q,j,k; for(q=0;q<NLIST;q++){ l_n[q]=IN[STUB_IN+10*q]%(NEL+1); for(j=0;j<NEL;j++){ l_len[q][j]=IN[STUB_IN+10*q+1+j]%4; for(k=0;k<3;k++) l_b[q][j][k]=IN[STUB_IN+10*q+3+3*j+k]; } } }
struct data_rt *str2data(const char *s,int *r,struct bsdconv_instance *ins){
	int q,j,k; struct data_rt *h=NULL,*n;
	if(!s){ *r=EINVAL; return NULL; }
	for(q=0;q<NLIST;q++) if(l_name[q]&&same_name(l_name[q],s)) break;
	if(q==NLIST){ *r=EINVAL; return NULL; }
	for(j=NEL-1;j>=0;j--) if(j<l_n[q]){
		n=malloc(sizeof *n); n->data=malloc(4); n->len=l_len[q][j]; n->flags=F_FREE; n->next=h; h=n;
		for(k=0;k<3;k++) ((uint8_t*)n->data)[k]=l_b[q][j][k];
	}
	*r=0; return h;
}
int str2datum(const char *s,struct data_rt *d){
	int q,k;
	d->data=NULL; d->len=0;
	if(!s) return EINVAL;
	for(q=0;q<NLIST;q++) if(l_name[q]&&same_name(l_name[q],s)) break;
	if(q==NLIST) return EINVAL;
	d->flags=F_FREE; d->next=NULL; d->data=malloc(4); d->len=l_len[q][0]; for(k=0;k<3;k++) ((uint8_t*)d->data)[k]=l_b[q][0][k];
	return 0;
}
static void sp_list(struct sp_out *o,int q){ int j,b,k; for(j=0;j<NEL;j++) if(j<l_n[q]){ k=o->n++; o->e[k].same=0; o->e[k].len=l_len[q][j]; for(b=0;b<3;b++) o->e[k].d[b]=l_b[q][j][b]; } }
#endif
#endif
