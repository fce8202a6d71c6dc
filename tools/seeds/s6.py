_ns={}; exec(open("/verif/tools/seeds/s3.py").read(), _ns); CAPI=_ns["CAPI"]; TBL=_ns["TBL"]
MOD=TBL+'''mkso(){ gcc -shared -fPIC -I src -o "$t/b/share/bsdconv/$1/$2.so" "$(dirname "$0")/mod.c" -L build/lib -lbsdconv || rc=1; }
'''
SEEDS=[
 dict(id="c29-first-phase", prop="C29", edits=[("src/libbsdconv.c", "for(i=i-1;i>=1;i-=1){", "for(i=i-1;i>1;i-=1){")],
   needs="a conversion whose last step refuses its arguments and whose first step allocated something", breaks="the codecs of the first phase are not destroyed when the creation fails",
   demo='capi || rc=1', extra={"demo.c": r"""
#include <malloc.h>
#include <stdlib.h>
#include "bsdconv.h"
int main(){
	int k; size_t a=0,b;
	for(k=0;k<3000;k++){ if(k==100) a=mallinfo2().uordblks; if(bsdconv_create("utf-8#cesu:upper:escape#zz")) return 2; }
	b=mallinfo2().uordblks;
	return b>a+4096;
}
"""}),
 dict(id="c29-fd", prop="C29", edits=[("src/libbsdconv.c", "\tif(cd->dl){\n\t\tCLOSE_SHAREOBJECT(cd->dl);\n\t}\n#ifdef WIN32\n\tUnmapViewOfFile(cd->z);", "\tif(cd->dl){\n\t\tCLOSE_SHAREOBJECT(cd->dl);\n\t\tif(cd->cbdestroy==NULL && cd->cbcreate)\n\t\t\treturn;\n\t}\n#ifdef WIN32\n\tUnmapViewOfFile(cd->z);")],
   needs="many instances with a codec that has a create but no destroy callback", breaks="a file descriptor and a mapping are left behind with each instance",
   demo=MOD+'printf "41\\t0131\\n" > "$t/ZZFROM.txt"; mk from ZZFROM; mkso from ZZFROM\nexport BSDCONV_PATH="$t/b"; capi || rc=1', extra={"mod.c": "#include \"bsdconv.h\"\nint cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){ return 0; }\n", "demo.c": r"""
#include <unistd.h>
#include "bsdconv.h"
int main(){
	int k,f,g; struct bsdconv_instance *ins;
	f=dup(0); close(f);
	for(k=0;k<20;k++){ ins=bsdconv_create("zzfrom:utf-8"); if(!ins) return 2; bsdconv_init(ins); bsdconv_destroy(ins); }
	g=dup(0); return g!=f;
}
"""}),
 dict(id="c29-value", prop="C29", edits=[("src/libbsdconv.c", "\t\t\t(*last)->ptr=strchr(k, '=');", "\t\t\t(*last)->ptr=strrchr(k, '=');")],
   needs="an argument whose value contains an equals sign", breaks="the codec gets another name and a shorter value",
   demo=MOD+'printf "41\\t0131\\n" > "$t/ZZFROM.txt"; mk from ZZFROM; mkso from ZZFROM\nexport BSDCONV_PATH="$t/b"; capi || rc=1', extra={"mod.c": "#define _BSDCONV_INTERNAL\n#include <string.h>\n#include <errno.h>\n#include \"bsdconv.h\"\nint cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){ return arg && !strcmp(arg->key,\"a\") && arg->ptr && !strcmp(arg->ptr,\"b=c\") ? 0 : EINVAL; }\n", "demo.c": r"""
#include "bsdconv.h"
int main(){
	struct bsdconv_instance *ins=bsdconv_create("zzfrom#a=b=c:utf-8"); if(!ins) return 1;
	bsdconv_init(ins); bsdconv_destroy(ins); return 0;
}
"""}),
 dict(id="c29-cwd", prop="C29", edits=[("src/libbsdconv.c", "\tREALPATH(upper, buf);\n\tchdir(cwd);\n\tfree(cwd);\n\tfree(upper);\n\tif(!_loadcodec(cd, buf))\n\t\treturn 0;\n\treturn 1;", "\tREALPATH(upper, buf);\n\tfree(upper);\n\tif(!_loadcodec(cd, buf)){\n\t\tfree(cwd);\n\t\treturn 0;\n\t}\n\tchdir(cwd);\n\tfree(cwd);\n\treturn 1;")],
   needs="a module whose file exists but cannot be mapped (it is empty)", breaks="the program finds itself in the directory of the modules",
   demo=TBL+': > "$t/b/share/bsdconv/from/ZZFROM"\nexport BSDCONV_PATH="$t/b"; capi || rc=1', extra={"demo.c": r"""
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include "bsdconv.h"
int main(){
	char *a=getcwd(NULL,0),*b; if(bsdconv_create("zzfrom:utf-8")) return 2; b=getcwd(NULL,0); return strcmp(a,b)!=0;
}
"""}),
]
