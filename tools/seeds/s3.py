_ns={}; exec(open("/verif/tools/seeds/s1.py").read(), _ns); CAPI=_ns["CAPI"]
TBL='''
cp -a build "$t/b"; mk(){ build/bin/bsdconv-mktable "$t/$2.txt" "$t/b/share/bsdconv/$1/$2" >/dev/null || { ls build/bin; rc=1; }; }
tconv(){ BSDCONV_PATH="$t/b" timeout 20 build/bin/bsdconv "$1" 2>/dev/null | od -An -tx1 -v | tr -d ' \\n'; }
'''
SEEDS=[
 dict(id="c06-stale-lead", prop="C06", edits=[("modules/from/CP950-UDA.c", "\t\t\tthis_phase->state.status = DEADEND;\n\t\t}\n\t\tr->h = 0;\n\t\treturn;", "\t\t\tthis_phase->state.status = DEADEND;\n\t\t\treturn;\n\t\t}\n\t\tr->h = 0;\n\t\treturn;")],
   needs="a lead byte followed by a byte that is no trail byte, then a byte that is one", breaks="the rejected lead byte is combined with a later byte",
   demo='eq stale "$(printf "\\xfa\\x20\\x40" | conv "cp950-uda,ascii:utf-16be")" 00200040\n'),
 dict(id="c18-chain", prop="C18", edits=[("src/libbsdconv.c", "\t\twhile(ins->phase[0].data_tail->next)\n\t\t\tins->phase[0].data_tail=ins->phase[0].data_tail->next;\n", "\t\tif(ins->phase[0].data_tail->next)\n\t\t\tins->phase[0].data_tail=ins->phase[0].data_tail->next;\n")],
   needs="a call whose input is a chain of three data, the last of which ends in the middle of a character, then another call", breaks="the third datum is dropped when the next call appends its input",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:utf-8"); struct data_rt *d[2]; int i;
	bsdconv_init(ins);
	for(i=0;i<2;i++){ d[i]=malloc(sizeof *d[i]); d[i]->data=strdup(i?"\xac":"\xb8"); d[i]->len=1; d[i]->flags=F_FREE; d[i]->next=NULL; }
	d[0]->next=d[1]; d[1]->data=strdup("\xac\xe8");d[1]->len=2;
	ins->input.data=strdup("\xe6"); ins->input.len=1; ins->input.flags=F_FREE; ins->input.next=d[0]; ins->flush=0;
	ins->output_mode=BSDCONV_HOLD; bsdconv(ins);
	feed(ins,"\xa9\xa6",2,1);
	return !(got==6 && !memcmp(buf,"\xe6\xb8\xac\xe8\xa9\xa6",6));
}
"""}),
 dict(id="c20-rescan", prop="C20", edits=[("src/libbsdconv.c", "\t\t\t\t\t\tif(this_phase->curr->next){\n\t\t\t\t\t\t\tthis_phase->bak=this_phase->curr->next;\n\t\t\t\t\t\t}else{\n\t\t\t\t\t\t\tDATA_MALLOC(ins, prev_phase->data_tail->next);\n\t\t\t\t\t\t\tthis_phase->bak=prev_phase->data_tail->next;\n\t\t\t\t\t\t\tprev_phase->data_tail=prev_phase->data_tail->next;\n\t\t\t\t\t\t\tprev_phase->data_tail->next=NULL;\n\t\t\t\t\t\t\tprev_phase->data_tail->len=0;\n\t\t\t\t\t\t\tprev_phase->data_tail->flags=0;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\tbreak;\n\t\t\t\t\tcase SUBROUTINE:\n\t\t\t\t\tcase SUBMATCH_SUBROUTINE:\n\t\t\t\t\t\tthis_codec->cbconv(ins);\n\t\t\t\t\t\tgoto inter_x;", "\t\t\t\t\t\tif(this_phase->curr->next){\n\t\t\t\t\t\t\tif(this_phase->curr==prev_phase->data_head->next)\n\t\t\t\t\t\t\t\tthis_phase->bak=this_phase->curr->next;\n\t\t\t\t\t\t}else{\n\t\t\t\t\t\t\tDATA_MALLOC(ins, prev_phase->data_tail->next);\n\t\t\t\t\t\t\tthis_phase->bak=prev_phase->data_tail->next;\n\t\t\t\t\t\t\tprev_phase->data_tail=prev_phase->data_tail->next;\n\t\t\t\t\t\t\tprev_phase->data_tail->next=NULL;\n\t\t\t\t\t\t\tprev_phase->data_tail->len=0;\n\t\t\t\t\t\t\tprev_phase->data_tail->flags=0;\n\t\t\t\t\t\t}\n\n\t\t\t\t\t\tbreak;\n\t\t\t\t\tcase SUBROUTINE:\n\t\t\t\t\tcase SUBMATCH_SUBROUTINE:\n\t\t\t\t\t\tthis_codec->cbconv(ins);\n\t\t\t\t\t\tgoto inter_x;")],
   needs="a failed longer match followed by a rescan that matches two data and could go on to a third", breaks="the second datum of the match is emitted again",
   demo=TBL+'printf "0141,0142,0143,0144\\t0133\\n0142\\t0131\\n0142,0143\\t0132\\n0142,0143,0145\\t0134\\n" > "$t/ZZINTER.txt"; mk inter ZZINTER\neq rescan "$(printf ABCA | tconv "utf-8:zzinter:utf-8")" 413241\n'),
 dict(id="c22-index", prop="C22", edits=[("src/libbsdconv.c", "\t\tins->phase[i].flags=0;\n\t\tins->phase[i].offset=0;\n", "\t\tins->phase[i].flags&=~(F_PENDING|F_LOOPBACK);\n\t\tins->phase[i].offset=0;\n")],
   needs="re-initialisation while a shorter match is on hold", breaks="the next conversion believes a match is on hold",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:kana-phonetic:utf-8");
	bsdconv_init(ins); feed(ins,"\xe3\x81\x8d",3,0);
	bsdconv_init(ins); got=0; feed(ins,"x",1,1);
	return !(got==1 && buf[0]==0x78);
}
"""}),
 dict(id="c22-reset", prop="C22", edits=[("src/libbsdconv.c", "\t\t\tRESET(i);\n\t\t}\n\t}\n}", "\t\t\tif(ins->phase[i].codecn) RESET(i);\n\t\t}\n\t}\n}")],
   needs="re-initialisation of a phase with one codec in the middle of a character", breaks="the next conversion starts in the middle of the table",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("big5:utf-8");
	bsdconv_init(ins); feed(ins,"\xb4",1,0);
	bsdconv_init(ins); got=0; feed(ins,"\xb4\xfa",2,1);
	return !(got==3 && !memcmp(buf,"\xe6\xb8\xac",3));
}
"""}) if False else None,
 dict(id="c24-so-kept", prop="C24", edits=[("modules/from/EBCDIC.c", "\tTHIS_CODEC(ins)->priv=r;\n\treturn 0;", "\tTHIS_CODEC(ins)->priv=r;\n\tr->status=0;\n\treturn 0;"), ("modules/from/EBCDIC.c", "\tr->status=0;\n}", "\tif(!THIS_PHASE(ins)->codecn) r->status=0;\n}")],
   needs="re-initialisation of a list of codecs while shifted out", breaks="the next conversion starts in double-byte mode",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("ibm-937,ascii:utf-8");
	bsdconv_init(ins); feed(ins,"\x0e",1,0);
	bsdconv_init(ins); got=0; feed(ins,"\x40\x40",2,1);
	return !(got==2 && !memcmp(buf,"  ",2));
}
"""}),
 dict(id="c24-jis-mode", prop="C24", edits=[("modules/from/_JIS.c", "\t\t\t\t\tcase 0x49:\n\t\t\t\t\t\tr->state = 0;\n\t\t\t\t\t\tr->mode = MODE_JIS0201;", "\t\t\t\t\tcase 0x49:\n\t\t\t\t\t\tr->state = 0;\n\t\t\t\t\t\tif(r->mode != MODE_JIS0212) r->mode = MODE_JIS0201;")],
   needs="a switch from JIS X 0212 straight to JIS X 0201", breaks="the switch is ignored",
   demo='eq kana "$(printf "\\x1b\\x24\\x28\\x44\\x1b\\x28\\x49\\xb1" | conv "_jis:utf-16be")" ff71\n'),
 dict(id="c26-adjacent", prop="C26", edits=[("modules/inter/_NFC.c", "if(r->pending_head->next==NULL){ //adjacent starters", "if(r->pending_head->next==NULL || r->pending_head->next!=r->pending_tail){ //adjacent starters")],
   needs="two starters that compose, with two marks between them", breaks="they are composed across the mark",
   demo='eq across "$(printf "\\x09\\xc7\\x03\\x01\\x03\\x01\\x09\\xbe" | conv "utf-16be:_nfc:utf-16be")" 09c70301030109be\n'),
 dict(id="c08-signed", prop="C08", edits=[("modules/to/ESCAPE.c", 'p+=sprintf(p, "%d", UCP(this_phase->curr->data)[1]);', 'p+=sprintf(p, "%d", CP(this_phase->curr->data)[1]);')],
   needs="the decimal notation of a byte of 0x80 or above", breaks="it is written as a negative number",
   demo='eq dec "$(printf "\\x80" | conv "byte:escape#prefix=5c&mode=10&for=byte")" 5c313238\n'),
 dict(id="c12-last", prop="C12", edits=[("modules/filter/unicode_range.c", "ucs > ranges[max].last", "ucs >= ranges[max].last")],
   needs="the very last code point of a filter's last range", breaks="it no longer belongs to the class",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-16be:count#for=thai:null,utf-8");
	bsdconv_init(ins); feed(ins,"\x0e\x7f\x0e\x00\x0e\x80",6,1);
	return *bsdconv_counter(ins,"COUNT")!=2;
}
"""}),
 dict(id="c13-ambi", prop="C13", edits=[("modules/inter/TRIM-WIDTH.c", "r->ambi_width=1;\n\n\twhile", "r->ambi_width=1;\n\tr->width=0;\n\n\twhile"), ("modules/inter/TRIM-WIDTH.c", "int w=*(r->full)*2 + *(r->half) + *(r->ambi) * r->ambi_width;", "int w=*(r->full)*2 + *(r->half) + (*(r->ambi) && r->ambi_width>1 && r->remain>1 ? 2 : *(r->ambi));")],
   needs="AMBI-AS-WIDE with an ambiguous character when exactly one column is left", breaks="it is let through although it is two columns wide",
   demo='eq one "$(printf "\\x00a\\x00\\xa1" | conv "utf-16be:trim-width#2&ambi-as-wide:utf-16be")" 0061\neq two "$(printf "\\x00a\\x00\\xa1" | conv "utf-16be:trim-width#3&ambi-as-wide:utf-16be")" 006100a1\n'),
 dict(id="c17-ff", prop="C17", edits=[("src/bsdconv-mktable.c", "if(c >= todo_item->state->end)\n\t\t\t\t\t\ttodo_item->state->end=c+1;\n\t\t\t\t\tnewtodo_tail", "if(c >= todo_item->state->end)\n\t\t\t\t\t\ttodo_item->state->end=case_insensitive && c==0xff ? c : c+1;\n\t\t\t\t\tnewtodo_tail")],
   needs="a case-insensitive entry with byte FF that is not its last", breaks="the entry cannot be found",
   demo=TBL+'printf "!01FF41\\t0158\\n" > "$t/ZZFF.txt"; mk inter ZZFF\neq ff "$(printf "\\xff\\x41" | tconv "utf-16be:zzff:utf-8")" 58\n'),
 dict(id="c20-flush-to", prop="C20", edits=[("src/libbsdconv.c", "for(ins->phase_index=1;ins->phase_index<=ins->phasen;++(ins->phase_index)){\n\t\t\tif(THIS_PHASE(ins)->flags & F_PENDING){", "for(ins->phase_index=1;ins->phase_index<ins->phasen;++(ins->phase_index)){\n\t\t\tif(THIS_PHASE(ins)->flags & F_PENDING){")],
   needs="a TO table whose entry spans several data, and input that ends in the middle of one", breaks="the data held back by the last phase are lost at the end of the input",
   demo=TBL+'printf "0141\\t31\\n0141,0142\\t32\\n" > "$t/ZZTO.txt"; mk to ZZTO\neq end "$(printf AAB | tconv "utf-8:zzto")" 3132\neq held "$(printf ABA | tconv "utf-8:zzto")" 3231\n'),
 dict(id="c19-three", prop="C19", edits=[("src/libbsdconv.c", "\t\t\t\t\t\t\t\tthis_phase->match_data=this_phase->state.data;\n\n\t\t\t\t\t\t\t\tthis_phase->bak=this_phase->curr;\n\t\t\t\t\t\t\t\tthis_phase->data_head->len=this_phase->i+1;\n\t\t\t\t\t\t\t\tbreak;", "\t\t\t\t\t\t\t\tif(this_phase->match_data) break;\n\t\t\t\t\t\t\t\tthis_phase->match_data=this_phase->state.data;\n\n\t\t\t\t\t\t\t\tthis_phase->bak=this_phase->curr;\n\t\t\t\t\t\t\t\tthis_phase->data_head->len=this_phase->i+1;\n\t\t\t\t\t\t\t\tbreak;")],
   needs="three entries each of which extends the one before, and input that matches the second but not the third", breaks="the shortest match is taken instead of the longest",
   demo=TBL+'printf "41\\t0131\\n4142\\t0132\\n41424344\\t0133\\n*\\t013F\\n" > "$t/ZZFROM.txt"; mk from ZZFROM\neq three "$(printf ABCA | tconv "zzfrom:utf-8")" 323f31\n'),
 dict(id="c21-prem-tail", prop="C21", edits=[("src/libbsdconv.c", "\t\t\t\t\tif(last_phase->data_tail==last_phase->data_head->next){\n\t\t\t\t\t\tlast_phase->data_tail=last_phase->data_head;\n\t\t\t\t\t}\n", "\t\t\t\t\tif(last_phase->data_tail==last_phase->data_head->next && ins->flush){\n\t\t\t\t\t\tlast_phase->data_tail=last_phase->data_head;\n\t\t\t\t\t}\n")],
   needs="PREMALLOCED output that is drained completely in a call without flush, then another call", breaks="the output of the following call is linked to freed memory",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:utf-8"); char o[16]; int i;
	bsdconv_init(ins);
	for(i=0;i<3;i++){
		ins->input.data=strdup("abc"+i); ins->input.len=1; ins->input.flags=F_FREE; ins->input.next=NULL; ins->flush=i==2;
		ins->output_mode=BSDCONV_PREMALLOCED; ins->output.data=o; ins->output.len=16; bsdconv(ins);
		memcpy(buf+got,o,ins->output.len); got+=ins->output.len;
	}
	return !(got==3 && !memcmp(buf,"abc",3));
}
"""}),
 dict(id="c22-curr", prop="C22", edits=[("src/libbsdconv.c", "\t\t\tins->phase[i].curr=ins->phase[i-1].data_head;\n\t\t\tfor(j=0;j<=ins->phase[i].codecn;++j){", "\t\t\tif(!ins->phase[i].codec[0].cbflush) ins->phase[i].curr=ins->phase[i-1].data_head;\n\t\t\telse ins->phase[i].curr=ins->phase[0].data_head==ins->phase[i-1].data_head ? ins->phase[0].data_head : ins->phase[i-1].data_tail;\n\t\t\tfor(j=0;j<=ins->phase[i].codecn;++j){")],
   needs="", breaks="", demo="") if False else None,
 dict(id="c22-offset", prop="C22", edits=[("src/libbsdconv.c", "\t\tins->phase[i].data_head->len=0;\n\t\tins->phase[i].match_data=NULL;", "\t\tif(!ins->phase[i].data_head->next) ins->phase[i].match_data=NULL;"),],
   needs="", breaks="", demo="") if False else None,
 dict(id="c22-consumed", prop="C22", edits=[("src/libbsdconv.c", "\t\tins->phase[i].data_head->len=0;\n", "\t\tif(ins->phase[i].data_head==ins->phase[i].data_tail) ins->phase[i].data_head->len=0;\n")],
   needs="", breaks="", demo="") if False else None,
 dict(id="c25-offset", prop="C25", edits=[("modules/inter/WHITESPACE-DERAIL.c", "ucs==0x09||ucs==0x0A||ucs==0x0D||ucs==0x20", "ucs==0x09||ucs==0x0A||ucs==0x0D||(ucs&0xffff)==0x20")],
   needs="a code point of a higher plane whose low half is 0020", breaks="a character that is not white space is taken off",
   demo='eq e0020 "$(printf "\\x00a\\xdb\\x40\\xdc\\x20\\x00b" | conv "utf-16be:whitespace-derail:utf-16be")" 0061db40dc200062\n'),
 dict(id="c25-last", prop="C25", edits=[("modules/inter/WHITESPACE-RERAIL.c", "\t\tthis_phase->data_tail->next=NULL;\n\t\tif(&t->queue->next==t->last){\n\t\t\tt->last=&t->queue;\n\t\t}\n\t\tq=t->queue->next;\n\t\tDATUM_FREE(ins, t->queue);\n\t\tt->queue=q;\n\t}\n}", "\t\tthis_phase->data_tail->next=NULL;\n\t\tq=t->queue->next;\n\t\tDATUM_FREE(ins, t->queue);\n\t\tt->queue=q;\n\t}\n}")],
   needs="white space put back by a flush, then more input on the same instance", breaks="the white space of the next input is linked into a freed datum",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:whitespace-derail:upper:whitespace-rerail:utf-8");
	bsdconv_init(ins); feed(ins,"a \n",3,1); feed(ins,"b \n",3,1); feed(ins," c",2,1);
	return !(got==8 && !memcmp(buf,"A \nB \n C",8));
}
"""}),
]
SEEDS=[s for s in SEEDS if s]
