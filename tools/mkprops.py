#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","UTF-8 decoding is exact and strict",
 "Decoding UTF-8 yields exactly one code point, with its exact value, for each well-formed multi-byte sequence, and rejects every byte sequence that is not well formed; without options overlong forms, encoded surrogates, NUL and 5/6-byte forms are rejected, and the options OVERLONG, NUL, SUPER, CESU and LOOSE each admit exactly the forms they name (CESU: a surrogate pair decodes to its supplementary code point; CESU together with LOOSE is not covered). "
 "The verdict and the value do not depend on where the byte stream is cut into chunks, nor on what was decoded before.",
 ["inputs","histories","configurations"],"all byte sequences, all cuts into chunks, all option sets except CESU+LOOSE, any number of characters decoded before",
 "The io tests decode a few dozen fixed strings fed whole; they cannot enumerate all 1..6 byte sequences times all chunk cuts times option sets.",
 ["modules/from/_UTF-8.c"],[("per-byte state machine with COMMIT/PASS/DEADEND","modules/from/_UTF-8.c cbconv"),("reset between characters","modules/from/_UTF-8.c cbinit")],
 observe=["bsdconv CLI: utf-8:bsdconv"])
p("C02","UTF-8 encoding is exact",
 "Encoding a non-ASCII Unicode code point up to U+1FFFFF as UTF-8 yields exactly its shortest-form UTF-8 byte sequence, so that decoding the result gives the code point back; ASCII code points are left to the ASCII encoder and any longer value is refused. "
 "Nothing else is emitted and the input datum is left as it was.",
 ["inputs"],"all Unicode data of every length","Tests encode a few samples; boundary code points of each length class and refused data are not enumerated.",
 ["modules/to/_UTF-8.c"],[("length-class switch","modules/to/_UTF-8.c cbconv")],observe=["bsdconv:utf-8"])
p("C03","UTF-16 decoding and encoding are exact inverses",
 "Decoding UTF-16 (BE and LE) maps every BMP unit other than a leading surrogate (U+0000 included) to that code point, and every leading+trailing surrogate pair to its supplementary code point, and rejects a leading surrogate not followed by a trailing one, however the bytes are cut into chunks and whatever came before. "
 "Encoding a code point up to U+10FFFF gives its UTF-16 code units in the stated byte order, and decoding an encoded code point gives it back.",
 ["inputs","histories"],"all 2- and 4-byte units, all chunk cuts, all code points, any history","Tests use a handful of strings, whole; U+0000, plane 16 and split surrogate pairs are not reached.",
 ["modules/from/UTF-16BE.c","modules/from/UTF-16LE.c","modules/to/UTF-16BE.c","modules/to/UTF-16LE.c"],[("byte-wise state machine","modules/from/UTF-16*.c cbconv"),("surrogate arithmetic","modules/to/UTF-16*.c cbconv")])
p("C04","UTF-32 and UCS-2 are exact",
 "Decoding UTF-32 (BE and LE) maps every 4-byte unit to the datum with exactly that value (U+0000 included), however the bytes are cut into chunks. Encoding a value of up to 4 bytes as UTF-32 gives its 4-byte form in the stated byte order, encoding a value of up to 2 bytes as UCS-2 gives its 2-byte form, and longer data is refused without touching memory it does not own.",
 ["inputs","histories"],"all 4-byte units, all chunk cuts, all data lengths","A few samples only; over-long data and zero are not tested.",
 ["modules/from/UTF-32BE.c","modules/from/UTF-32LE.c","modules/to/UTF-32BE.c","modules/to/UTF-32LE.c","modules/to/UCS-2BE.c","modules/to/UCS-2LE.c"],[("byte collection","from/UTF-32*.c"),("left padding","to/UTF-32*.c, to/UCS-2*.c")])
p("C05","GB18030 four-byte ranges are a bijection",
 "The algorithmic four-byte part of GB18030 decodes every well-formed sequence (81-FE 30-39 81-FE 30-39) that lies in one of the standard's ranges to the standard's code point and rejects the others, and encodes exactly the code points of those ranges to their four-byte sequence; the two directions are inverse to each other. "
 "Bytes outside those value ranges are rejected in those positions. (The one- and two-byte parts are tables: C17.)",
 ["inputs","histories"],"all 4-byte sequences, all Unicode data","Tests touch a few sample characters; 1.1 million code points and range ends are not enumerated.",
 ["modules/from/_GB18030.c","modules/to/_GB18030.c"],[("linear index + binary search over range table","both files, cbconv")])
p("C06","Big5 user-defined area mapping is exact",
 "Decoding the CP950 user-defined area maps exactly the byte pairs with a lead byte in 81-A0, C6-C8 (from C6A1) or FA-FE and a Big5 trail byte (40-7E, A1-FE) to private-use code points, one to one and in the published order, starting at U+E000, U+E311, U+EEB8 and U+F6B1; every other pair is rejected. "
 "The result does not depend on chunk cuts or on earlier input.",
 ["inputs","histories"],"all byte pairs, all histories","No test covers more than samples of the area; illegal trail bytes are not tested.",
 ["modules/from/CP950-UDA.c"],[("range arithmetic","modules/from/CP950-UDA.c cbconv")])
p("C07","Numeric escape decoding is exact",
 "Decoding escapes maps %HH, \\xHH and \\OOO (octal up to 377) to the named byte, %uHHHH and \\uHHHH to the named code point (zero included), and decimal and hexadecimal numeric HTML entities of any length up to 32 bits to the named code point; a sequence that is not of one of these forms is rejected. "
 "The result does not depend on chunk cuts or on earlier input, and no input makes the decoder read outside its data.",
 ["inputs","histories"],"all byte sequences, all chunk cuts","Tests use a few escapes; zero values, octal overflow and chunk cuts are not reached.",
 ["modules/from/ESCAPE.c","modules/from/ASCII-NUMERIC-HTML-ENTITY.c"],[("digit state machine","cbconv of both files"),("digit maps","src/bsdconv.h hex/dec/oct")])
p("C08","Escape and dump encoders print exactly the datum",
 "The ESCAPE encoder emits prefix, the datum's value in the chosen base (hex: two digits per byte; decimal: the value; octal: three digits) and suffix, for Unicode data or for bytes as selected, and refuses every other datum; the BSDCONV encoder emits two upper-case hex digits per byte of the datum and the RAW encoder the payload unchanged. "
 "No encoder reads or writes outside its buffers for any datum length.",
 ["inputs","configurations"],"all data, all modes, prefixes and suffixes","Tests print a few characters with the default settings.",
 ["modules/to/ESCAPE.c","modules/to/BSDCONV.c","modules/to/RAW.c","modules/to/ASCII-HTML-UNICODE-IMG.c"],[("sprintf into sized buffer","cbconv of each file")])
p("C09","Hex notation for intermediate data parses exactly",
 "A data list given as hexadecimal text (elements separated by a dot, as used by codec arguments) parses to exactly the bytes it spells, one datum per element, and text with a character that is not a hex digit or with an odd number of digits in an element is reported as an error; parsing never writes outside the memory it allocates. "
 "Decoding comma-terminated text with the BSDCONV decoder gives back exactly the bytes spelled (text with an odd number of digits is not covered), and starting it again after any history behaves like a fresh one.",
 ["inputs","histories"],"all argument strings, all byte sequences","Tests use a few well-formed arguments; odd-length and malformed text is not tested.",
 ["src/libbsdconv_util.c","modules/from/BSDCONV.c"],[("str2datum/str2data","src/libbsdconv_util.c"),("nibble accumulation","modules/from/BSDCONV.c cbconv")])
p("C10","Hangul composition and decomposition are inverse",
 "Decomposing a Hangul syllable U+AC00..U+D7A3 yields exactly its conjoining L V or L V T jamo as the Unicode standard defines; composing a sequence of jamo yields exactly the standard's precomposed syllables (L V, or L V T), and every other datum, a syllable that was already composed included, passes through unchanged and in order. "
 "Composing the decomposition of a syllable gives the syllable back, and no datum is lost or duplicated.",
 ["inputs","histories"],"all code points, all jamo sequences","Tests normalise a few strings; 11172 syllables and all interleavings with other data are not enumerated.",
 ["modules/inter/_NF-HANGUL-COMPOSITION.c","modules/inter/_NF-HANGUL-DECOMPOSITION.c"],[("index arithmetic and pending state","cbconv/cbflush")])
p("C11","Canonical ordering is a stable sort by combining class",
 "The canonical-ordering step outputs every datum it is given exactly once: data with combining class 0 keep their place, and each maximal run of data with non-zero class comes out sorted by class, equal classes in input order. "
 "The combining class used for a code point is the one in the Unicode class table.",
 ["inputs","histories"],"all data sequences","Tests normalise a few strings with at most two marks.",
 ["modules/inter/_NF-ORDER.c","modules/inter/_NF-CCC.h"],[("sorted insertion list","_NF-ORDER.c cbconv"),("interval table","_NF-CCC.h")])
p("C12","Range filters and scorers decide membership exactly",
 "Every block filter accepts a datum exactly when it is a Unicode datum whose code point lies in one of the filter's ranges, every type filter exactly the data of its type, and every scorer returns exactly the score of the range the code point lies in and 0 outside every range. "
 "The range tables are sorted and disjoint, and a filter neither changes nor keeps the datum.",
 ["inputs","configurations"],"all data, all shipped filters and scorers","Tests use two or three filters on a few characters; range ends of about sixty tables are not reached.",
 ["modules/filter/unicode_range.c","modules/filter/type.c","modules/scorer/unicode_range.c"],[("binary search","cbfilter/cbscorer")])
p("C13","Character width classification is exact",
 "Width counting adds one to exactly the counter (full, half or ambiguous) of the class the width table gives the code point and passes every datum through; ambiguous padding appends one no-break space after exactly the code points of the ambiguous table while padding is on; un-padding removes such a space exactly when it directly follows an ambiguous code point and passes all other data through unchanged. "
 "Width trimming lets data through exactly as long as the sum of their widths stays within the limit; from the first datum that would exceed it everything is dropped.",
 ["inputs","histories","configurations"],"all data sequences, pad on/off, all limits","Tests classify a few characters.",
 ["modules/inter/WIDTH.c","modules/inter/AMBIGUOUS-PAD.c","modules/inter/AMBIGUOUS-UNPAD.c","modules/inter/TRIM-WIDTH.c","modules/inter/_WIDTH.h","modules/inter/_AMBIGUOUS.h"],[("binary search over interval tables","cbconv")])
p("C14","The per-instance hash behaves as a map",
 "The hash attached to a conversion instance behaves as a map from names to values: after a set, get of that name returns the value last set and has answers yes; after a delete has answers no; and no operation on one name changes what get or has answer for any other name. "
 "No operation leaks, frees twice or loses an entry.",
 ["inputs","histories"],"all operation sequences and names","No test uses more than one or two keys; order-dependent corruption needs three.",
 ["src/libbsdconv_hash.c"],[("linked list with move-to-front","src/libbsdconv_hash.c")])
p("C15","Counters count exactly and stay addressable",
 "A named counter is created once per instance (names compared without case), starts at zero, and its address stays valid and unique for the life of the instance; reset of a name zeroes that counter only and reset of all zeroes all. The counting step adds one to its counter for exactly the data its filter accepts and passes every datum through unchanged and in order.",
 ["inputs","histories"],"all names, all operation sequences, all data","The counter tests read a few counters after one conversion.",
 ["src/libbsdconv_counter.c","modules/inter/COUNT.c"],[("counter list","src/libbsdconv_counter.c"),("COUNT cbconv","modules/inter/COUNT.c")])
p("C16","Conversion-string editing is exact",
 "Inserting or replacing a phase or a codec in a conversion string yields the string that differs from the original in exactly that phase or codec, for every position that exists, counted from the front or (negative) from the back, and phase and codec index lookup return the addressed position. "
 "The given strings are left unchanged and nothing is written outside the returned string.",
 ["inputs"],"all conversion strings and positions","The api test uses a few fixed strings and positions.",
 ["src/libbsdconv_util.c","src/libbsdconv.c"],[("unpack/edit/pack","bsdconv_insert_phase, bsdconv_insert_codec, bsdconv_replace_phase, bsdconv_replace_codec, bsdconv_pack, bsdconv_unpack")])
p("C17","Table compilation and lookup preserve the mapping text",
 "A compiled conversion table maps exactly the sequences listed in its text source (an exact listing overrides a case-insensitive one, and the first of several for the same sequence counts) to exactly the listed data, and no other sequence: looking up a listed sequence byte by byte reaches a match with its data, a proper prefix never matches unless it is itself listed, and anything else ends dead. "
 "Lookup never reads outside the compiled table.",
 ["inputs","configurations"],"all tables up to the stated bound, all looked-up sequences","Tests convert sample text; the compiler itself has no test.",
 ["src/bsdconv-mktable.c","src/bsdconv.h"],[("get_offset/read_state","src/bsdconv.h"),("trie build and dump","src/bsdconv-mktable.c")])
p("C18","Conversion does not depend on how input is cut into chunks",
 "The output and the error counters of a conversion depend only on the sequence of input bytes, never on how they are cut into chunks over successive calls, including zero-length chunks, multi-node input and cuts inside a character or inside an undecodable sequence (the pass-through decoder, which takes each piece of input as one datum, is not meant).",
 ["inputs","histories"],"all inputs and all chunkings up to the stated bound","Every io test feeds its input in one chunk.",
 ["src/libbsdconv.c"],[("pending queue between phases","src/libbsdconv.c bsdconv() FROM phase")])
p("C19","Decoding takes the longest match, in codec order, and skips one byte per error",
 "Over a list of codecs the decoder takes at each position the result of the first listed codec that matches there, with that codec's longest match; where none matches it drops exactly one byte, adds one to the input-error counter, and goes on with the next byte. "
 "Every input byte is either part of exactly one match or counted as one error.",
 ["inputs","configurations"],"all tables and inputs up to the stated bound","Error paths are exercised by very few tests, with at most one bad byte.",
 ["src/libbsdconv.c"],[("goto state machine FROM","src/libbsdconv.c bsdconv()")])
p("C20","Mapping and encoding phases replace exactly the longest matching data runs",
 "A mapping phase replaces, at each position, the longest run of data its first matching codec lists and passes an unmatched datum through unchanged; an encoding phase likewise encodes the longest listed run and drops an unmatched datum, adding exactly one to the output-error counter. Order is kept and nothing is lost or duplicated otherwise.",
 ["inputs","configurations"],"all tables and data sequences up to the stated bound","Tests exercise sample tables on sample text.",
 ["src/libbsdconv.c"],[("goto state machine INTER/TO","src/libbsdconv.c bsdconv()")])
p("C21","Every output mode delivers exactly the converted bytes",
 "The converted bytes are the same whichever output mode is chosen: a caller-provided buffer is never written beyond its stated length and what does not fit is delivered by later calls without loss, duplication or reordering (a datum is never split, so the buffer must hold the longest one); an allocated buffer has exactly the reported length; file and descriptor output receive exactly those bytes; handing over to another instance delivers them as its input; and the size query equals the number of bytes pending.",
 ["inputs","histories"],"all pending output sequences, all buffer lengths","Tests use one output mode with a large buffer.",
 ["src/libbsdconv.c"],[("output switch","src/libbsdconv.c bsdconv()")])
p("C22","Re-initialising an instance forgets its history",
 "After re-initialisation an instance converts exactly like a newly created one, whatever it processed before, including input that stopped inside a character, an escape or a pending match; no memory is freed twice or lost on the way.",
 ["histories"],"all codecs with state, all input prefixes","Tests use an instance once.",
 ["src/libbsdconv.c","modules/from/_UTF-8.c","modules/from/_JIS.c","modules/from/BSDCONV.c","modules/from/CP950-UDA.c","modules/from/EBCDIC.c","modules/inter/_NF-ORDER.c","modules/inter/_NFC.c"],[("bsdconv_init and each codec's cbinit","src/libbsdconv.c, modules/*/*.c")])
p("C23","Datum-wise steps transform exactly what they say",
 "REPLACE substitutes exactly the listed run of data (from left to right, wherever the whole run occurs), INSERT puts its data before and after each datum, PASS claims exactly the data its filter accepts (up to its limit) unchanged and leaves the others to the next codec of its phase, NULL drops every datum, and ANY emits its replacement for each input unit and counts it where asked; all other data pass unchanged and in order. Each datum's memory is owned exactly once afterwards.",
 ["inputs","histories","configurations"],"all data sequences and arguments","Tests use each step on one or two strings.",
 ["modules/inter/REPLACE.c","modules/inter/INSERT.c","modules/inter/PASS.c","modules/inter/NULL.c","modules/from/ANY.c","modules/to/ANY.c","modules/from/PASS.c","modules/to/PASS.c"],[("cbconv of each file","modules/*/*.c")])
p("C24","Shift-state encodings track their state exactly",
 "EBCDIC mixed encodings switch between single- and double-byte tables exactly at SO and SI (in double-byte mode a byte that starts no listed pair falls back to the single-byte table), and their encoder emits SO/SI exactly where the byte width changes, returning to single-byte mode before a datum it does not encode and at the end of the input, so that its output decodes to the same data (SO and SI themselves, U+000E and U+000F, apart); the ISO-2022-JP decoder switches character set exactly on its escape sequences (text that ends inside one apart). The state carries across chunk cuts and starts in single-byte mode.",
 ["inputs","histories"],"all byte sequences over the shift alphabet, all chunk cuts","Tests convert a few strings; shift placement over all interleavings is not enumerated.",
 ["modules/from/EBCDIC.c","modules/to/EBCDIC.c","modules/from/_JIS.c"],[("mode in codec state","cbconv of each file")])
p("C25","White-space derailing is reversible",
 "Derailing white space and then re-railing it (one such pair in a conversion) gives back exactly the original sequence of data, for every sequence of data and white space.",
 ["inputs","histories"],"all data sequences","One or two sample strings.",
 ["modules/inter/WHITESPACE-DERAIL.c","modules/inter/WHITESPACE-RERAIL.c","modules/inter/WHITESPACE.h"],[("hash-carried white-space list","cbconv of both files")])
p("C26","Canonical composition follows the Unicode algorithm",
 "Normalisation form C composes a starter with a following mark exactly when the two have a canonical composite (Unicode 13) and the mark is not blocked, and outputs every other datum unchanged and in order; the normal forms NFC, NFD, NFKC and NFKD of a text are those of the Unicode Standard.",
 ["inputs","histories"],"all sequences over starters and marks up to the stated bound","Tests normalise a few strings.",
 ["modules/inter/_NFC.c"],[("starter/pending state machine","modules/inter/_NFC.c cbconv")])
p("C27","In-place file conversion never loses the file",
 "When the command-line tool converts files in place (bsdconv CONVERSION -i FILE...), the path of each file holds either its old or its complete new content at every moment: even if the tool is killed, and even if reading, writing or any other call fails. If the tool ends with exit status 0, every file holds its new content: the conversion of all its bytes.",
 ["crash_points","fault_sequences","inputs"],"all kill points and failing calls of bsdconv -i","The tests never use -i.",
 ["src/bsdconv.c"],[("temporary file and rename","src/bsdconv.c main"),("every byte read is converted, then one flush","src/bsdconv.c bsdconv_file")])
p("C28","Instances used from different threads do not interfere",
 "Creating, running and destroying different conversion instances in different threads gives the same results as doing it one after another.",
 ["schedules"],"all interleavings of API calls on distinct instances","All tests are single-threaded.",
 ["src/libbsdconv.c"],[("no shared mutable state except the working directory during load","src/libbsdconv.c loadcodec")])
p("C29","An instance has exactly the codecs its conversion string spells",
 "Creating an instance from a conversion string gives, for a well-formed string of codecs that exist (blanks ignored, | beginning a new decode-to-encode group, : a new phase, a comma an alternative codec, # its arguments, names compared without case, an alias standing for the codecs it lists), an instance with exactly those phases and codecs, each loaded and created once with its own arguments; any other string gives no instance. Whatever fails on the way, and after the instance is destroyed, everything opened, mapped, created or allocated has been given back exactly once, and the working directory is as it was.",
 ["inputs","fault_sequences","configurations"],"all conversion strings and all failure points of loading and creating","Tests create valid conversions only; no test fails the loading or creation of a codec or looks at what is left behind.",
 ["src/libbsdconv.c","modules/inter/ALIAS-FROM.txt","modules/inter/ALIAS-INTER.txt","modules/inter/ALIAS-TO.txt"],[("bsdconv_create, bsdconv_unpack, _cbcreate, loadcodec, bsdconv_destroy","src/libbsdconv.c")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,x['id']
print(len(P))
