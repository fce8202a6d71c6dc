CAPI = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "bsdconv.h"
static unsigned char buf[1<<20]; static size_t got;
/* feeds one chunk, appends the output to buf */
static void feed(struct bsdconv_instance *ins,const char *s,size_t n,int flush){
	ins->output_mode=BSDCONV_AUTOMALLOC; ins->output.data=NULL; ins->output.len=0;
	ins->input.data=malloc(n?n:1); memcpy(ins->input.data,s,n); ins->input.len=n; ins->input.flags=F_FREE; ins->input.next=NULL; ins->flush=flush;
	bsdconv(ins);
	memcpy(buf+got,ins->output.data,ins->output.len); got+=ins->output.len; bsdconv_free(ins->output.data);
}
"""
SEEDS = [
 dict(id="c01-cesu-reinit", prop="C01", edits=[("modules/from/_UTF-8.c", "	r->status = 0;\n	r->lead_surrogate.ucs4 = 0;\n", "	r->status = 0;\n"), ("modules/from/_UTF-8.c", "	r->super = 0;\n\n", "	r->super = 0;\n	r->lead_surrogate.ucs4 = 0;\n\n")],
   needs="the CESU option, input that stops after an encoded leading surrogate, then bsdconv_init and new input",
   breaks="the leading surrogate of the abandoned input survives re-initialisation, so the next conversion rejects well-formed text",
   demo='capi || rc=1', extra={"demo.c": CAPI + r"""
int main(){
	struct bsdconv_instance *ins=bsdconv_create("_utf-8#cesu,ascii:utf-16be");
	bsdconv_init(ins); feed(ins,"\xed\xa0\xbd",3,0);
	bsdconv_init(ins); got=0; feed(ins,"\xe6\xb8\xac",3,1);
	return !(got==2 && !memcmp(buf,"\x6e\x2c",2));
}
"""}),
 dict(id="c03-le-stale", prop="C03", edits=[("modules/from/UTF-16LE.c", "\t\t\t\tt->buf[2]=d;\n\t\t\t\tt->status=0;\n", "\t\t\t\tt->buf[2]=d;\n"), ("modules/from/UTF-16LE.c", "\t\t\t\t\tbuf[2]=t->buf[3];\n", "\t\t\t\t\tbuf[2]=t->buf[3];\n\t\t\t\t\tt->status=0;\n")],
   needs="a leading surrogate followed by a unit that is not a trailing surrogate, then more text",
   breaks="the decoder keeps its state after the rejected pair, so the characters after it are decoded wrongly",
   demo='eq after-unpaired "$(printf "\\x3d\\xd8\\x41\\x00\\x42\\x00\\x43\\x00" | conv "utf-16le:utf-16be")" 41d842004300\n'),
 dict(id="c05-last-range", prop="C05", edits=[("modules/from/_GB18030.c", "{1726612, 1726637, 0xFFE6}", "{1726612, 1726636, 0xFFE6}")],
   needs="the very last code point of the BMP range of the algorithmic part (U+FFFF)",
   breaks="84 31 A4 39 is rejected although the encoder produces it for U+FFFF",
   demo='eq FFFF "$(printf "\\xef\\xbf\\xbf" | conv utf-8:gb18030)" 8431a439\neq back "$(printf "\\x84\\x31\\xa4\\x39" | conv gb18030:utf-8)" efbfbf\n'),
 dict(id="c07-high-bit-digit", prop="C07", edits=[("modules/from/ESCAPE.c", "\t\t\tcase 20:\n\t\t\t\tif(hex[(unsigned char)d]==-1){\n\t\t\t\t\tDEADEND();\n\t\t\t\t}else{\n\t\t\t\t\tt->status=21;\n\t\t\t\t\tt->buf[0]=hex[(unsigned char)d];", "\t\t\tcase 20:\n\t\t\t\tif(hex[d & 0x7f]==-1){\n\t\t\t\t\tDEADEND();\n\t\t\t\t}else{\n\t\t\t\t\tt->status=21;\n\t\t\t\t\tt->buf[0]=hex[d & 0x7f];")],
   needs="\\x followed by a byte that is a hex digit with its top bit set",
   breaks="a byte sequence that is no escape is decoded as one",
demo='eq high "$(printf "\\\\x\\xb41." | conv "escape,ascii:raw,byte,ascii")" 5c78312e\n'),
]
