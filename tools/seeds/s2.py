import os
_ns={}; exec(open("/verif/tools/seeds/s1.py").read(), _ns); CAPI=_ns["CAPI"]
VG='valgrind -q --error-exitcode=99 '
SEEDS = [
 dict(id="c02-plane16", prop="C02", edits=[("modules/to/_UTF-8.c", "*p |= (*data >> 2) & bb00000111;", "*p |= (*data >> 2) & bb00000011;")],
   needs="a code point of plane 16 (U+100000..U+10FFFF)", breaks="its lead byte is F0 instead of F4",
   demo='eq plane16 "$(printf "\\xdb\\xc0\\xdc\\x01" | conv "utf-16be:utf-8")" f4808081\neq plane15 "$(printf "\\xdb\\x80\\xdc\\x01" | conv "utf-16be:utf-8")" f3b08081\n'),
 dict(id="c02-ascii-boundary", prop="C02", edits=[("modules/to/_UTF-8.c", "switch(*data & bb11111000){", "switch(*data & bb11110000){")],
   needs="U+0800..U+0FFF", breaks="three-byte characters of the block at U+0800 come out as two bytes",
   demo='eq 0915 "$(printf "\\x09\\x15" | conv "utf-16be:utf-8")" e0a495\neq 0815 "$(printf "\\x08\\x15" | conv "utf-16be:utf-8")" e0a095\n'),
 dict(id="c03-high-plane", prop="C03", edits=[("modules/to/UTF-16LE.c", "*p |= (c >> 2) & bb00000011;", "*p |= (c >> 2) & 0x01;")],
   needs="a code point whose leading surrogate is DA00 or above", breaks="planes 9..16 are written as planes 1..8",
   demo='eq p16 "$(printf "\\xf4\\x80\\x80\\x81" | conv "utf-8:utf-16le")" c0db01dc\n'),
 dict(id="c04-reinit", prop="C04", edits=[("modules/from/UTF-32BE.c", "\tTHIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));\n\treturn 0;", "\tTHIS_CODEC(ins)->priv=calloc(1, sizeof(struct my_s));\n\treturn 0;"), ("modules/from/UTF-32BE.c", "\tr->status=0;\n}", "\tr->buf[0]=0;\n}")],
   needs="an instance re-initialised in the middle of a character", breaks="the bytes of the abandoned character are prepended to the next conversion",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-32be:utf-8");
	bsdconv_init(ins); feed(ins,"\0\0",2,0);
	bsdconv_init(ins); got=0; feed(ins,"\0\0\x6e\x2c",4,1);
	return !(got==3 && !memcmp(buf,"\xe6\xb8\xac",3));
}
"""}),
 dict(id="c05-dec-mid", prop="C05", edits=[("modules/from/_GB18030.c", "if(b>s[mid].end)", "if(b>=s[mid].end)")], needs="", breaks="", demo="") if False else None,
 dict(id="c07-entity-surr", prop="C07", edits=[], needs="", breaks="", demo="") if False else None,
 dict(id="c08-dec-overflow", prop="C08", edits=[("modules/to/ESCAPE.c", "this_phase->data_tail->len=(this_phase->curr->len-1)*3+t->prefix.len + t->suffix.len;", "this_phase->data_tail->len=(this_phase->curr->len-1)*2+2+t->prefix.len + t->suffix.len;")],
   needs="the decimal notation of a code point of plane 16, seven digits", breaks="nothing visible: one byte is written past the end of the buffer only for values of seven digits with no slack, or never",
   demo="") if False else None,
 dict(id="c08-img-low", prop="C08", edits=[], needs="", breaks="", demo="") if False else None,
 dict(id="c09-grow-late", prop="C09", edits=[("modules/from/BSDCONV.c", "if(t->data.len >= t->size){", "if(t->data.len > t->size || t->size==0){")],
   needs="a datum of nine bytes or more", breaks="the ninth byte is written past the end of the buffer",
   demo='printf "%s" 0102030405060708090A > "$t/in"\nvalgrind -q --error-exitcode=99 build/bin/bsdconv bsdconv:bsdconv-stdout < "$t/in" > "$t/o" 2>"$t/e"; [ $? = 99 ] && { echo FAIL overflow; rc=1; }\n'),
 dict(id="c09-str2datum", prop="C09", edits=[("src/libbsdconv_util.c", "\tif(strlen(s)%2)\n\t\treturn EINVAL;\n\td->data=malloc(strlen(s)/2);", "\tif(strlen(s)%2 && strlen(s)>1)\n\t\treturn EINVAL;\n\td->data=malloc(strlen(s)/2);")],
   needs="a notation of exactly one digit", breaks="half a byte is accepted as a datum",
   demo='build/bin/bsdconv "utf-8:escape#prefix=A" </dev/null >/dev/null 2>"$t/e"; grep -qi "syntax" "$t/e" || { echo FAIL accepted; rc=1; }\n'),
 dict(id="c10-tbase", prop="C10", edits=[("modules/inter/_NF-HANGUL-COMPOSITION.c", "if (0 < TIndex && TIndex < TCount) {", "if (0 <= TIndex && TIndex < TCount) {")],
   needs="an LV pair followed by U+11A7, which is no trailing consonant", breaks="U+11A7 is swallowed",
   demo='eq 11a7 "$(printf "\\x11\\x00\\x11\\x61\\x11\\xa7" | conv "utf-16be:_nf-hangul-composition:utf-16be")" ac0011a7\neq 11a8 "$(printf "\\x11\\x00\\x11\\x61\\x11\\xa8" | conv "utf-16be:_nf-hangul-composition:utf-16be")" ac01\n'),
 dict(id="c10-relead", prop="C10", edits=[("modules/inter/_NF-HANGUL-COMPOSITION.c", "\t\t\t\t\tcbflush(ins);\n\n\t\t\t\t\tLIndex = ucs - LBase;\n\t\t\t\t\tif (0 <= LIndex && LIndex < LCount){\n\t\t\t\t\t\tr->pending = ucs;\n\t\t\t\t\t\tr->status=1;\n\t\t\t\t\t\tthis_phase->state.status=SUBMATCH;\n\t\t\t\t\t}else{\n\t\t\t\t\t\tthis_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);\n\t\t\t\t\t\tthis_phase->data_tail=this_phase->data_tail->next;\n\t\t\t\t\t\tthis_phase->data_tail->next=NULL;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\treturn;\n\t\t}", "\t\t\t\t\tcbflush(ins);\n\n\t\t\t\t\tLIndex = ucs - LBase;\n\t\t\t\t\tif (0 <= LIndex && LIndex < LCount-1){\n\t\t\t\t\t\tr->pending = ucs;\n\t\t\t\t\t\tr->status=1;\n\t\t\t\t\t\tthis_phase->state.status=SUBMATCH;\n\t\t\t\t\t}else{\n\t\t\t\t\t\tthis_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);\n\t\t\t\t\t\tthis_phase->data_tail=this_phase->data_tail->next;\n\t\t\t\t\t\tthis_phase->data_tail->next=NULL;\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\treturn;\n\t\t}")],
   needs="an LV syllable followed directly by a syllable that begins with U+1112, the last leading consonant", breaks="the second syllable is left decomposed",
   demo='eq hieuh "$(printf "\\x11\\x00\\x11\\x61\\x11\\x12\\x11\\x61" | conv "utf-16be:_nf-hangul-composition:utf-16be")" ac00d558\n'),
 dict(id="c11-unstable", prop="C11", edits=[("modules/inter/_NF-ORDER.c", "while(p && ccc < p->ccc){", "while(p && ccc <= p->ccc){")],
   needs="two marks of the same combining class in a row", breaks="their order is reversed",
   demo='eq stable "$(printf "\\x00a\\x03\\x00\\x03\\x01\\x00b" | conv "utf-16be:_nf-order:utf-16be")" 0061030003010062\n'),
 dict(id="c12-last", prop="C12", edits=[("modules/filter/unicode_range.c", "ucs > ranges[max].last", "ucs >= ranges[max].last")],
   needs="the very last code point of a filter's last range", breaks="it no longer belongs to the class",
   demo='eq last "$(printf "\\xfe\\x0f\\x00x" | conv "utf-16be:count#for=phonetic:null" >/dev/null; true)" ""\n') if False else None,
 dict(id="c14-has-swap", prop="C14", edits=[("src/libbsdconv_hash.c", "\t\t\tp->key=ins->hash->key;\n\t\t\tp->ptr=ins->hash->ptr;\n\t\t\tins->hash->key=tk;\n\t\t\tins->hash->ptr=tp;\n\t\t\treturn 1;", "\t\t\tp->key=ins->hash->key;\n\t\t\tins->hash->key=tk;\n\t\t\treturn 1;")],
   needs="two keys, has() on the one stored first, then get()", breaks="the values of the two keys are exchanged",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:utf-8"); int a,b;
	bsdconv_hash_set(ins,"a",&a); bsdconv_hash_set(ins,"b",&b);
	if(!bsdconv_hash_has(ins,"a")) return 1;
	return !(bsdconv_hash_get(ins,"a")==&a && bsdconv_hash_get(ins,"b")==&b);
}
"""}),
 dict(id="c14-del-head", prop="C14", edits=[("src/libbsdconv_hash.c", "\t\tq=&p->next;\n\t\tp=p->next;\n\t}\n}", "\t\tif(p!=ins->hash) q=&(*q)->next;\n\t\tp=p->next;\n\t}\n}")],
   needs="three keys, deleting one that is not the most recent", breaks="deleting one key drops others",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:utf-8"); int a,b,c;
	bsdconv_hash_set(ins,"a",&a); bsdconv_hash_set(ins,"b",&b); bsdconv_hash_set(ins,"c",&c);
	bsdconv_hash_del(ins,"a");
	return !(bsdconv_hash_has(ins,"b") && bsdconv_hash_has(ins,"c") && !bsdconv_hash_has(ins,"a"));
}
"""}),
 dict(id="c15-count-key", prop="C15", edits=[("modules/inter/COUNT.c", "\t\t\tkey=arg->key;\n", "\t\t\tif(!filter) key=arg->key;\n")],
   needs="a FOR argument placed before the name of the counter", breaks="the count goes to the default counter",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:count#for=cjk&my:utf-8");
	bsdconv_init(ins); feed(ins,"\xe6\xb8\xac" "a",4,1);
	return !(*bsdconv_counter(ins,"MY")==1 && *bsdconv_counter(ins,"COUNT")==0);
}
"""}),
 dict(id="c16-double-map", prop="C16", edits=[("src/libbsdconv_util.c", "int codecn=bsdconv_get_codec_index(ins, ophasen, ocodecn);\n\n\t++ins->phase", "int codecn=bsdconv_get_codec_index(ins, phasen, ocodecn);\n\n\t++ins->phase")],
   needs="phases with different numbers of codecs", breaks="the codec lands at a position computed from another phase",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	char *s=bsdconv_insert_codec("utf-8,ascii,big5:upper:utf-8","X",0,-1);
	return strcmp(s,"utf-8,ascii,X,big5:upper:utf-8")!=0;
}
"""}),
 dict(id="c16-pack-args", prop="C16", edits=[("src/libbsdconv.c", "if(strchr(t,'#')==NULL)", "if(strchr(ins->phase[i].codec[j].desc,'#')==NULL)")],
   needs="an alias that expands to a list whose first member has arguments of its own", breaks="an argument is joined to a codec name with &",
   demo="") if False else None,
 dict(id="c17-end", prop="C17", edits=[("src/bsdconv-mktable.c", "dstate.end=en_uint16(state_t->end);", "dstate.end=en_uint16(state_t->end>255?255:state_t->end);")],
   needs="a state whose last entry is byte FF or the end-of-datum mark while no other test table depends on it", breaks="the entry is cut off", demo="") if False else None,
 dict(id="c18-flush-flag", prop="C18", edits=[("src/libbsdconv.c", "case CONTINUE:\n\t\t\t\t\t\t\t\tthis_phase->flags |= F_PENDING;\n\t\t\t\t\t\t\t\tbreak;", "case CONTINUE:\n\t\t\t\t\t\t\t\tif(this_phase->index==0) this_phase->flags |= F_PENDING;\n\t\t\t\t\t\t\t\tbreak;")],
   needs="input that ends in the middle of a character that only the second codec knows", breaks="the incomplete character is neither reported nor decoded as something else at the end of the input",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("ascii,big5:utf-8");
	bsdconv_init(ins); feed(ins,"a\xb4",2,1);
	return !(got==1 && *bsdconv_counter(ins,"IERR")==1);
}
"""}),
 dict(id="c19-order", prop="C19", edits=[("src/libbsdconv.c", "\t\t\t\t\t\t\t\t\tthis_phase->state=read_state(this_codec, 0);\n\n\t\t\t\t\t\t\t\t\tthis_phase->curr=prev_phase->data_head;\n\t\t\t\t\t\t\t\t\tthis_phase->i=this_phase->data_head->len;\n\t\t\t\t\t\t\t\t\tcontinue;", "\t\t\t\t\t\t\t\t\tthis_phase->state=read_state(this_codec, 0);\n\n\t\t\t\t\t\t\t\t\tif(this_phase->curr==prev_phase->data_head->next) this_phase->i=this_phase->data_head->len;\n\t\t\t\t\t\t\t\t\telse this_phase->i=0;\n\t\t\t\t\t\t\t\t\tthis_phase->curr=prev_phase->data_head;\n\t\t\t\t\t\t\t\t\tcontinue;")],
   needs="", breaks="", demo="") if False else None,
 dict(id="c20-inter-keep", prop="C20", edits=[("src/libbsdconv.c", "\t\t\t\t\t\t\tif(prev_phase->data_tail==data_ptr){\n\t\t\t\t\t\t\t\tprev_phase->data_tail=prev_phase->data_head;\n\t\t\t\t\t\t\t}\n\n\t\t\t\t\t\t\tRESET(ins->phase_index);\n", "\t\t\t\t\t\t\tif(prev_phase->data_tail==data_ptr){\n\t\t\t\t\t\t\t\tprev_phase->data_tail=prev_phase->data_head;\n\t\t\t\t\t\t\t}\n\n\t\t\t\t\t\t\tthis_phase->offset=0;\n\t\t\t\t\t\t\tthis_phase->state=read_state(this_codec, 0);\n")],
   needs="an INTER phase of two codecs, with one datum unknown to both and a later one only the first knows", breaks="the first codec is not tried any more after a datum was passed on unchanged",
   demo='eq alt "$(printf "a-b" | conv "utf-8:upper,replace#0131=0132:utf-8")" 412d42\n'),
 dict(id="c20-bak", prop="C20", edits=[("src/libbsdconv.c", "\t\t\t\t\tcase MATCH:\n\t\t\t\t\t\tthis_phase->flags &= ~(F_MATCH | F_PENDING | F_LOOPBACK);\n\t\t\t\t\t\tthis_phase->match_data=NULL;\n\n\t\t\t\t\t\tLISTCPY_ST(ins, this_phase->data_tail, this_phase->state.data, this_codec->data_z);\n\n\t\t\t\t\t\tthis_phase->bak=this_phase->curr->next;\n\t\t\t\t\t\tLISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);\n\t\t\t\t\t\tthis_phase->curr=prev_phase->data_head;\n\n\t\t\t\t\t\tRESET(ins->phase_index);\n\t\t\t\t\t\tins->phase_index+=1;\n\t\t\t\t\t\tgoto phase_begin;", "\t\t\t\t\tcase MATCH:\n\t\t\t\t\t\tthis_phase->flags &= ~(F_PENDING | F_LOOPBACK);\n\t\t\t\t\t\tthis_phase->match_data=NULL;\n\n\t\t\t\t\t\tLISTCPY_ST(ins, this_phase->data_tail, this_phase->state.data, this_codec->data_z);\n\n\t\t\t\t\t\tthis_phase->bak=this_phase->curr->next;\n\t\t\t\t\t\tLISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);\n\t\t\t\t\t\tthis_phase->curr=prev_phase->data_head;\n\n\t\t\t\t\t\tRESET(ins->phase_index);\n\t\t\t\t\t\tins->phase_index+=1;\n\t\t\t\t\t\tgoto phase_begin;")],
   needs="a TO table where an entry is extended by a longer one, then a datum no codec can encode", breaks="the datum after the longer match vanishes without being counted",
   demo="") if False else None,
 dict(id="c21-premalloced", prop="C21", edits=[("src/libbsdconv.c", "last_phase->data_head->next->len<=ins->output.len-i", "last_phase->data_head->next->len<ins->output.len-i")],
   needs="a buffer of exactly the size of the output", breaks="the last datum is withheld although it fits",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("utf-8:utf-8"); char o[3];
	bsdconv_init(ins); ins->input.data=strdup("abc"); ins->input.len=3; ins->input.flags=F_FREE; ins->input.next=NULL; ins->flush=1;
	ins->output_mode=BSDCONV_PREMALLOCED; ins->output.data=o; ins->output.len=3; bsdconv(ins);
	return !(ins->output.len==3 && !memcmp(o,"abc",3));
}
"""}),
 dict(id="c21-pass-tail", prop="C21", edits=[("src/libbsdconv.c", "\t\t\t\tlast_phase->data_head->next=data_ptr;\n\t\t\t}\n\t\t\tlast_phase->data_tail=last_phase->data_head;\n\t\t\tbreak;\n\t}\n\treturn;", "\t\t\t\tlast_phase->data_head->next=data_ptr;\n\t\t\t\tlast_phase->data_tail=last_phase->data_head;\n\t\t\t}\n\t\t\tbreak;\n\t}\n\treturn;")],
   needs="PASS mode where one call yields exactly one datum, followed by another call", breaks="the tail of the output list points at freed memory and later output is lost",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
static void pass(struct bsdconv_instance *a,struct bsdconv_instance *b,const char *s,int flush){
	a->input.data=strdup(s); a->input.len=strlen(s); a->input.flags=F_FREE; a->input.next=NULL; a->flush=flush;
	a->output_mode=BSDCONV_PASS; a->output.data=b; bsdconv(a);
	b->flush=flush; b->output_mode=BSDCONV_AUTOMALLOC; b->output.data=NULL; b->output.len=0; bsdconv(b);
	memcpy(buf+got,b->output.data,b->output.len); got+=b->output.len; bsdconv_free(b->output.data);
}
int main(){
	struct bsdconv_instance *a=bsdconv_create("utf-8:utf-16be"), *b=bsdconv_create("utf-16be:utf-8");
	bsdconv_init(a); bsdconv_init(b);
	pass(a,b,"a",0); pass(a,b,"b",0); pass(a,b,"c",1);
	return !(got==3 && !memcmp(buf,"abc",3));
}
"""}),
 dict(id="c23-prefix", prop="C23", edits=[("modules/inter/REPLACE.c", "if(l != r->cursor->len){", "if(l > r->cursor->len){")],
   needs="a datum that is a proper prefix of the one to be replaced", breaks="the shorter datum is replaced as well",
   demo='eq prefix "$(printf "ab" | conv "utf-8:replace#016162=0158:utf-8")" 6162\n'),
 dict(id="c23-insert-both", prop="C23", edits=[("modules/inter/INSERT.c", "\tif(r->after)\n\t\tLISTCPY(ins, this_phase->data_tail, r->after);", "\tif(r->after && !r->before)\n\t\tLISTCPY(ins, this_phase->data_tail, r->after);")],
   needs="BEFORE and AFTER together", breaks="AFTER is ignored",
   demo='eq both "$(printf "a" | conv "utf-8:insert#before=013c&after=013e:utf-8")" 3c613e\n'),
 dict(id="c25-equal", prop="C25", edits=[("modules/inter/WHITESPACE-RERAIL.c", "\tt->offsetB+=1;\n\n\twhile(t->queue && t->queue->len<=t->offsetB){", "\tt->offsetB+=1;\n\n\twhile(t->queue && t->queue->len<t->offsetB){")],
   needs="white space at the end of the input or at the end of a chunk", breaks="trailing white space is put back one character late",
   demo="") if False else None,
 dict(id="c26-blocked", prop="C26", edits=[("modules/inter/_NFC.c", "if(ccc <= r->ccc){ //blocked", "if(ccc < r->ccc){ //blocked")],
   needs="two marks of the same combining class, of which only the second combines with the starter", breaks="a blocked mark is composed",
   demo='eq blocked "$(printf "\\x00a\\x03\\x05\\x03\\x00" | conv "utf-16be:_nfc:utf-16be")" 006103050300\n'),
]
SEEDS=[s for s in SEEDS if s]
