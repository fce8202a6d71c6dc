SH = r"""
/* LD_PRELOAD: the process ends at rename() or at the N-th fread() */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int rename(const char *a,const char *b){ _exit(9); }
"""
SEEDS=[
 dict(id="c27-init-once", prop="C27", edits=[("src/bsdconv.c","\tchar *ib;\n\tbsdconv_init(ins);\n\tdo{","\tchar *ib;\n\tdo{"),("src/bsdconv.c","\tif(i>=argc){\n\t\tbsdconv_file(ins, stdin","\tbsdconv_init(ins);\n\tif(i>=argc){\n\t\tbsdconv_file(ins, stdin")],
   needs="two files converted in place, the second longer than one read", breaks="the second file is replaced by the conversion of its first 1024 bytes",
   demo='head -c 3000 /dev/zero | tr "\\0" x > "$t/a"; cp "$t/a" "$t/b"\ntimeout 20 build/bin/bsdconv utf-8:utf-8 -i "$t/a" "$t/b" 2>/dev/null\neq sizes "$(stat -c %s "$t/a" "$t/b" | tr "\\n" " ")" "3000 3000 "\n'),
 dict(id="c27-fallback", prop="C27", edits=[("src/bsdconv.c","\t\t\tif((fd=mkstemp(tmp))==-1){\n","\t\t\tif((fd=mkstemp(tmp))==-1 && (fd=fileno(fopen(argv[i],\"rb+\")))==-1){\n")],
   needs="a directory in which no temporary file can be created (here: a name too long for the suffix)", breaks="the file itself is overwritten while it is read",
   demo='n="$t/$(head -c 252 /dev/zero | tr "\\0" n)"; head -c 9000 /dev/zero | tr "\\0" x > "$n"; cp "$n" "$t/old"\ntimeout 20 build/bin/bsdconv utf-8:utf-16be -i "$n" 2>/dev/null\nbuild/bin/bsdconv utf-8:utf-16be < "$t/old" > "$t/new" 2>/dev/null\ncmp -s "$n" "$t/old" || cmp -s "$n" "$t/new" || { echo "FAIL: neither old nor new, $(stat -c %s "$n") bytes"; rc=1; }\n'),
 dict(id="c27-readonly", prop="C27", edits=[("src/bsdconv.c","\t\t\tfchmod(fileno(otf), stat.st_mode);\n","\t\t\tif(fchmod(fileno(otf), stat.st_mode)==0 && !(stat.st_mode & S_IWUSR)) unlink(argv[i]);\n")],
   needs="a file without write permission, and the tool ended before the rename", breaks="the old file is gone before the new one takes its place",
   demo='echo abc > "$t/f"; chmod 444 "$t/f"; gcc -w -shared -fPIC "$here/shim.c" -o "$t/shim.so" || exit 3\nLD_PRELOAD="$t/shim.so" timeout 20 build/bin/bsdconv utf-8:utf-16be -i "$t/f" 2>/dev/null\neq kept "$(cat "$t/f" 2>/dev/null)" abc\n', extra={"shim.c": SH}),
 dict(id="c27-short-read", prop="C27", edits=[("src/bsdconv.c","if((ins->input.len=fread(ib, 1, IBUFLEN, in))==0){","if((ins->input.len=fread(ib, 1, IBUFLEN, in))==0 || (filename && ib[ins->input.len-1]==0x1a)){")],
   needs="a byte 1A at the end of a full read", breaks="the rest of the file is not converted, the file is replaced by its beginning",
   demo='{ head -c 1023 /dev/zero | tr "\\0" x; printf "\\032"; echo rest; } > "$t/f"\ntimeout 20 build/bin/bsdconv utf-8:utf-8 -i "$t/f" 2>/dev/null\neq size "$(stat -c %s "$t/f")" 1029\n'),
]
