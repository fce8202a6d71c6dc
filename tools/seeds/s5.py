_ns={}; exec(open("/verif/tools/seeds/s3.py").read(), _ns); CAPI=_ns["CAPI"]; TBL=_ns["TBL"]
SEEDS=[
 dict(id="c09-empty-element", prop="C09", edits=[("src/libbsdconv_util.c", "while((k=strsep(&cur, \".\"))!=NULL){", "while((k=strsep(&cur, \".\"))!=NULL && (*k || k==s)){")],
   needs="a data list with an empty element in the middle", breaks="the elements after the empty one are lost and no error is reported",
   demo='capi || rc=1', extra={"demo.c": r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "bsdconv.h"
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:utf-8"); int r=99,n=0; struct data_rt *d=str2data("0141..0142",&r,ins),*p;
	for(p=d;p;p=p->next)n++;
	return !(r==0 && n==3 && d->len==2 && d->next->len==0 && d->next->next->len==2 && ((char*)d->next->next->data)[1]==0x42);
}
"""}),
 dict(id="c18-bak", prop="C18", edits=[("src/libbsdconv.c", "\t\t\t\t\t\t\t\tthis_phase->flags |= (F_MATCH | F_PENDING);\n\t\t\t\t\t\t\t\tthis_phase->match_data=this_phase->state.data;\n\n\t\t\t\t\t\t\t\tthis_phase->bak=this_phase->curr;\n", "\t\t\t\t\t\t\t\tthis_phase->match_data=this_phase->state.data;\n\n\t\t\t\t\t\t\t\tif(!(this_phase->flags & F_MATCH))\n\t\t\t\t\t\t\t\t\tthis_phase->bak=this_phase->curr;\n\t\t\t\t\t\t\t\tthis_phase->flags |= (F_MATCH | F_PENDING);\n")],
   needs="two listed sequences one a prefix of the other, both prefixes of a third, their ends in different chunks, and the third not completed", breaks="the end of the longer match is read a second time",
   demo=TBL+'printf "41\\t0131\\n4142\\t0132\\n42\\t0134\\n41424344\\t0133\\n*\\t013F\\n" > "$t/ZZFROM.txt"; mk from ZZFROM\nexport BSDCONV_PATH="$t/b"; capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("zzfrom:utf-8"); if(!ins) return 2;
	bsdconv_init(ins); feed(ins,"A",1,0); feed(ins,"B",1,0); feed(ins,"A",1,1);
	return !(got==2 && !memcmp(buf,"21",2));
}
"""}),
 dict(id="c22-flush", prop="C22", edits=[("src/libbsdconv.c", "\tins->flush=0;\n\tins->input.data=NULL;\n", "\tins->input.data=NULL;\n")],
   needs="a conversion that ended with a flush, then re-initialisation and a conversion in several calls that does not write to the flush field before the last", breaks="the first call of the second conversion flushes in the middle of a character",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:utf-8");
	bsdconv_init(ins); feed(ins,"x",1,1);
	bsdconv_init(ins); got=0;
	ins->input.data=strdup("\xe6\xb8"); ins->input.len=2; ins->input.flags=F_FREE; ins->input.next=NULL; ins->output_mode=BSDCONV_HOLD; bsdconv(ins);
	feed(ins,"\xac",1,1);
	return !(got==3 && !memcmp(buf,"\xe6\xb8\xac",3));
}
"""}),
 dict(id="c17-first", prop="C17", edits=[("src/bsdconv-mktable.c", "\t\t\t\t\t\t\ttodo_item->state->base[c]->status==MATCH\n\t\t\t\t\t\t\t||\n\t\t\t\t\t\t\ttodo_item->state->base[c]->status==SUBMATCH\n\t\t\t\t\t\t\t||\n", "\t\t\t\t\t\t\ttodo_item->state->base[c]->status==MATCH\n\t\t\t\t\t\t\t||\n")],
   needs="a table source that lists a sequence twice, a longer one beginning with it between or before", breaks="the last listing counts instead of the first",
   demo=TBL+'printf "4142\\t0131\\n414243\\t0133\\n4142\\t0132\\n" > "$t/ZZFROM.txt"; mk from ZZFROM\neq first "$(printf AB | tconv "zzfrom:utf-8")" 31\n'),
 dict(id="c21-null-tail", prop="C21", edits=[("src/libbsdconv.c", "\t\t\t\twrite(fd, data_ptr->data, data_ptr->len);\n", "\t\t\t\tif(write(fd, data_ptr->data, data_ptr->len)<1)\n\t\t\t\t\tbreak;\n")],
   needs="descriptor output and a datum without bytes among the output", breaks="the data from the empty one on are dropped",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
#include <unistd.h>
int main(){
	struct bsdconv_instance *ins=bsdconv_create("pass:raw"); int p[2]; ssize_t n; if(!ins) return 2; bsdconv_init(ins); pipe(p);
	struct data_rt *d[2]; int i; for(i=0;i<2;i++){ d[i]=malloc(sizeof *d[i]); d[i]->flags=F_FREE; d[i]->next=NULL; d[i]->data=strdup(i?"\x03" "b":"\x03"); d[i]->len=i+1; }
	d[0]->next=d[1];
	ins->input.data=strdup("\x03" "a"); ins->input.len=2; ins->input.flags=F_FREE; ins->input.next=d[0]; ins->flush=1; ins->output_mode=BSDCONV_FD; ins->output.data=(void*)(long)p[1]; bsdconv(ins);
	close(p[1]); n=read(p[0],buf,10);
	return !(n==2 && !memcmp(buf,"ab",2));
}
"""}),
 dict(id="c16-replace-phase", prop="C16", edits=[("src/libbsdconv_util.c", "\tint phasen=bsdconv_get_phase_index(ins, ophasen);\n\n\tfor(j=0;j<=ins->phase[phasen].codecn;++j){", "\tint phasen=bsdconv_get_phase_index(ins, ophasen);\n\n\tif(phasen==ins->phasen && ophasen<0)\n\t\tphasen=ins->phasen-(-1-ophasen)%2;\n\tfor(j=0;j<=ins->phase[phasen].codecn;++j){")],
   needs="replacement of a phase counted twice round from the back", breaks="the wrong phase is replaced",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){ char *s=bsdconv_replace_phase("utf-8:upper:utf-8","lower",INTER,-1); return strcmp(s,"utf-8:upper:lower")!=0; }
"""}),
]
SEEDS=SEEDS[:5]
