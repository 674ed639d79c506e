import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
                 "mechanism":[dict(zip(("name","where"),m)) for m in mech],"observe_at":list(observe),"hook_needed":hook}})
ALLSRC=["src/to_ascii.cpp","src/to_unicode.cpp","src/mapping.cpp","src/normalization.cpp","src/punycode.cpp","src/validity.cpp","src/unicode_transcoding.cpp","src/identifier.cpp","src/table_store.hpp","src/raw_inflate.hpp"]

p("C01","to_ascii implements UTS #46 domain-to-ASCII",
  "For every byte string within the size limit, to_ascii succeeds exactly when WHATWG domain-to-ASCII does (UTS #46 non-transitional processing, CheckHyphens=false, VerifyDnsLength=false, CheckBidi and CheckJoiners on; an all-ASCII input is only lower-cased, and the forbidden domain code point check is left to the caller, as a separate function), and on success its output is byte for byte the domain that the specification gives. Ill-formed UTF-8, disallowed code points, ACE labels that do not decode to a valid normalized non-ASCII label, and labels that break the Bidi or joiner rules make the whole domain fail.",
  ["inputs"],"all byte strings of up to 16384 bytes, all Unicode scalar values in all contexts",
  "the fixtures hold a few thousand domains; the interplay of mapping, normalization, label splitting, punycode, joiner and Bidi rules is over all Unicode strings",
  ["src/to_ascii.cpp","src/mapping.cpp","src/normalization.cpp","src/punycode.cpp","src/validity.cpp"],
  [("from_ascii_to_ascii / to_ascii pipeline","src/to_ascii.cpp"),("map","src/mapping.cpp"),("is_label_valid","src/validity.cpp")],observe=["ada::idna::to_ascii"])
p("C02","to_unicode implements UTS #46 ToUnicode label by label",
  "For every byte string within the size limit, each dot-separated label of to_unicode's output is the decoded label when the input label is an ACE label (it begins with xn--) whose decoding is valid, and the input label unchanged otherwise; the number and order of labels and the separators are kept. An invalid label never prevents the others from being decoded, and to_unicode never fails.",
  ["inputs"],"all byte strings of up to 16384 bytes, all mixtures of good, bad and plain labels",
  "fixtures sample a few hundred ACE labels, mostly valid and alone",
  ["src/to_unicode.cpp","src/punycode.cpp","src/validity.cpp"],[("per-label loop","src/to_unicode.cpp")],observe=["ada::idna::to_unicode"])
p("C03","Whatever to_ascii accepts is a safe, canonical ASCII domain",
  "Whenever to_ascii accepts an input that has non-ASCII bytes, every byte of the output is ASCII and not an upper-case letter, and every label that begins with xn-- is the canonical punycode of a non-ASCII label that is mapped, NFC and valid. Hence two accepted outputs that differ stand for different domains, and nothing dangerous can be smuggled through an encoded label.",
  ["inputs"],"all accepted inputs","fixtures compare a few thousand outputs with stored ones; the alphabet and canonicity of every output is not asserted anywhere",
  ["src/to_ascii.cpp","src/punycode.cpp","src/validity.cpp"],[("post-map verification of ACE labels","src/to_ascii.cpp")],observe=["output of ada::idna::to_ascii"])
p("C04","to_ascii and to_unicode are mutually consistent",
  "For every input that has non-ASCII bytes and is accepted by to_ascii with an output a within the size limit: to_ascii(a) is a, to_ascii(to_unicode(a)) is a, and to_unicode(to_unicode(a)) is to_unicode(a). Converting back and forth therefore never changes which domain is meant.",
  ["inputs","histories"],"all accepted inputs and all chains of conversions on them","fixtures check each direction on its own stored pairs",
  ["src/to_ascii.cpp","src/to_unicode.cpp"],[("shared mapping, normalization and validity code","src/")],observe=["chains of ada::idna::to_ascii / to_unicode"])
p("C05","Equivalent spellings of a domain give the same ASCII domain",
  "Two non-ASCII spellings of a domain with the same UTS #46 mapped and NFC-normalized form (different case, width, compatibility variants, composed or decomposed or reordered combining marks, ignorable code points, alternative dots) are either both rejected or both accepted with the same output.",
  ["inputs"],"all pairs of spellings that map and normalize to the same string","tests compare single spellings with stored outputs; equivalence ranges over unboundedly many spellings",
  ["src/mapping.cpp","src/normalization.cpp","src/to_ascii.cpp"],[("map then normalize","src/to_ascii.cpp"),("quick NFC check must never skip work","src/normalization.cpp")],observe=["ada::idna::to_ascii on both spellings"])
p("C06","Entry points signal errors and fill their outputs consistently",
  "For every input, whatever the output buffer held before: to_ascii(in,out) returns false with out empty on failure and the full result otherwise, and the one-argument overload returns the same result or the empty string; to_unicode(in,out) returns false (out empty) only for an input longer than max_domain_input_bytes, in which case the one-argument overload returns the input unchanged, and otherwise both give the same result. to_ascii rejects every input longer than max_domain_input_bytes and all ill-formed UTF-8, and accepts every all-ASCII input within the limit by lower-casing it.",
  ["inputs"],"all inputs of all lengths, in particular around the limit, and all previous buffer contents","tests check two lengths and fresh buffers",
  ["src/to_ascii.cpp","src/to_unicode.cpp","include/ada/idna/limits.h"],[("length checks and out.clear()","src/to_ascii.cpp, src/to_unicode.cpp")],observe=["return value and out of all four overloads"])
p("C07","Punycode encoding and decoding follow RFC 3492 and invert each other",
  "For every string of Unicode scalar values utf32_to_punycode appends exactly the RFC 3492 encoding to its output, and punycode_to_utf32 of that encoding gives the string back; punycode_to_utf32 accepts exactly the strings RFC 3492 decodes (lower-case digits only), yields exactly the decoded code points, and re-encoding them gives the same string back, so no two punycode strings stand for one label. Strings whose decoding itself begins with xn-- are refused, and code points that are surrogates or beyond U+10FFFF are not encodable.",
  ["inputs"],"all code point strings and all byte strings (deltas below 2^31)","the fixture holds some dozen pairs",
  ["src/punycode.cpp"],[("adapt / encode / decode loops","src/punycode.cpp")],observe=["ada::idna::punycode_to_utf32, utf32_to_punycode"])
p("C08","verify_punycode accepts exactly what can be decoded",
  "For every byte string, verify_punycode returns true exactly when punycode_to_utf32 on the same string returns true. A label that passes verification can thus always be shown to the user, and one that fails can never be decoded by another path.",
  ["inputs"],"all byte strings","tests try a handful of strings with each function",
  ["src/punycode.cpp"],[("verify_punycode duplicates the decoder's control flow","src/punycode.cpp")],observe=["both functions on the same input"])
p("C09","UTF-8/UTF-32 transcoding is exact and self-consistent in length",
  "utf8_to_utf32 accepts exactly the well-formed UTF-8 strings (no overlong forms, surrogates, values beyond U+10FFFF, stray or missing continuation bytes) and utf32_to_utf8 exactly the strings of scalar values; on success the result is the same text, otherwise 0 is returned. utf32_length_from_utf8 and utf8_length_from_utf32 give the exact result size for valid input, and a buffer of that size is never overrun, whatever the input.",
  ["inputs"],"all byte strings and all 32-bit code unit strings, at all alignments and lengths","tests use a few dozen short strings; the fast paths depend on the position of every byte",
  ["src/unicode_transcoding.cpp"],[("16-byte ASCII fast path and per-lead-byte branches","src/unicode_transcoding.cpp")],observe=["the four transcoding functions"])
p("C10","map applies the UTS #46 mapping table exactly",
  "For every sequence of code points, map (both overloads) replaces each mapped code point by its Unicode IDNA mapping, drops the ignored ones, keeps the valid ones and fails, leaving an empty result, if any code point is disallowed or is not a Unicode scalar value; code points are mapped independently of one another.",
  ["inputs"],"all 32-bit code point values and all sequences of them","tests map a handful of strings; the table has over a million entries in a compressed multi-stage layout",
  ["src/mapping.cpp","src/mapping_tables.cpp","src/table_blob.inc"],[("two-stage table, boolean blocks and inline mappings","src/mapping.cpp")],observe=["ada::idna::map"])
p("C11","normalize produces NFC and is_already_nfc recognises it",
  "For every sequence of scalar values, normalize turns it into its Unicode Normalization Form C and is idempotent, and is_already_nfc (once tables are loaded) is true exactly when normalize would change nothing. Hangul is composed and decomposed algorithmically, canonical ordering is stable, and composition exclusions and blocking are respected.",
  ["inputs"],"all code point sequences, in particular all orders of combining marks and all runs of them","tests normalize a handful of strings",
  ["src/normalization.cpp","src/normalization_tables.cpp"],[("decompose, sort marks, compose","src/normalization.cpp"),("quick check is_already_nfc","src/normalization.cpp")],observe=["ada::idna::normalize, is_already_nfc"])
p("C12","is_label_valid enforces the mark, joiner and Bidi rules",
  "For every non-empty label of mapped, NFC-normalized code points, is_label_valid is true exactly when the label does not begin with a combining mark, every U+200C and U+200D stands in a context that RFC 5892 A.1/A.2 permits (after a virama, or for U+200C between joining characters), and, if the label has right-to-left characters, all six conditions of the RFC 5893 Bidi rule hold.",
  ["inputs"],"all labels: all placements of joiners, marks, right-to-left and neutral characters","fixtures hold some hundreds of labels; the rules are conditions over whole sequences",
  ["src/validity.cpp"],[("mark, joiner and direction scans","src/validity.cpp")],observe=["ada::idna::is_label_valid"])
p("C13","valid_name_code_point is exactly the identifier set",
  "For every 32-bit value, valid_name_code_point(c, true) is true exactly for the code points of ID_Start plus $ and _, and valid_name_code_point(c, false) exactly for those of ID_Continue plus $, U+200C and U+200D (the URLPattern name code points).",
  ["inputs"],"all 32-bit values in both positions","tests check some dozen code points",
  ["src/identifier.cpp","src/id_tables.cpp"],[("binary search over ranges","src/identifier.cpp")],observe=["ada::idna::valid_name_code_point"])
p("C14","Byte-class helpers classify and fold every byte string exactly",
  "contains_forbidden_domain_code_point is true exactly when some byte of the string is a forbidden domain code point of the URL Standard (C0 controls, space, #, /, :, <, >, ?, @, [, \\, ], ^, |, %, DEL) or is not ASCII, wherever it stands; ascii_map lower-cases exactly the letters A-Z within the given length of an ASCII string and changes no other byte inside or outside of it.",
  ["inputs"],"all byte strings of all lengths and alignments","tests use a few short strings; the implementations work eight bytes at a time",
  ["src/to_ascii.cpp","src/mapping.cpp"],[("table loop and SWAR lower-casing","src/to_ascii.cpp, src/mapping.cpp")],observe=["ada::idna::contains_forbidden_domain_code_point, ascii_map"])
p("C15","Concurrent and early first use of the library is safe",
  "When any number of threads make their first calls at the same time, in any interleaving, every call returns the same answer as in a single-threaded program, there is no data race, no call blocks forever, and the tables are kept only once; calls made before main (from static constructors) or during exit (from static destructors) also give those answers.",
  ["schedules"],"all interleavings of first and later calls of any entry points from any number of threads, and use at static construction/destruction time","the safety tests race one entry point a few times without a race detector and cannot force the window",
  ["src/table_store.hpp"],[("atomic state machine with a winner and spinning waiters","src/table_store.hpp ensure_tables")],
  state=[("init state","uninitialized / in progress / ready / failed","src/table_store.hpp")],observe=["answers of all entry points","ThreadSanitizer","live table buffers"])
p("C16","A failed table initialization fails closed",
  "If the tables cannot be built (no memory for them, or the embedded compressed data is damaged in any way), no call crashes, hangs, leaks or returns a wrong acceptance: operations that need tables report failure in their documented way (to_ascii and map fail, normalize returns false and leaves its input, is_label_valid and valid_name_code_point refuse, to_unicode keeps labels as they are), and everything that needs no table still works. A damaged table is never used.",
  ["fault_sequences","schedules"],"all corruptions of the embedded data, allocation failure at initialization, single- and multi-threaded","no test makes the initialization fail",
  ["src/table_store.hpp","src/raw_inflate.hpp","src/mapping.cpp","src/normalization.cpp","src/validity.cpp","src/identifier.cpp"],[("size and CRC-32 check, failed state","src/table_store.hpp ensure_tables")],observe=["answers of all entry points after an injected fault"])
p("C17","Running out of memory is reported and leaves no damage",
  "For every call and every k, if the k-th memory allocation made during the call fails, the call either throws std::bad_alloc or returns its correct result; it leaks nothing, corrupts nothing, and the same call made again with memory available returns the correct result.",
  ["fault_sequences","inputs"],"all allocation points of all calls","no test injects allocation failure",
  ALLSRC,[("RAII containers only; noexcept functions must not allocate with throwing new","src/")],observe=["operator new/delete","exceptions","results after recovery"])
p("C18","No input causes undefined behaviour",
  "No call of a public function, with any bytes or any 32-bit code units of any length as input, reads or writes outside the given input and output buffers or any internal table, reads uninitialized memory, leaks memory, or has any other undefined behaviour (signed overflow, invalid shifts, misaligned access), and none aborts or throws for lack of a valid input.",
  ["inputs"],"all inputs to all public functions, including ill-formed UTF-8, lone surrogates, values up to 2^32-1, empty and very long input","the tests run without sanitizers on a few inputs",
  ALLSRC,[("bounds and range checks throughout","src/")],observe=["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, valgrind memcheck, libstdc++ assertions"])
p("C19","The DEFLATE decoder is exact and safe on any stream",
  "For every valid raw DEFLATE stream whose output fits the destination, inflate_raw writes exactly the output that RFC 1951 defines and returns its length; for a truncated stream, a stream with an invalid block type, stored-length check, code-length repeat, distance or symbol, or one whose output does not fit, it returns 0; for no stream at all does it read outside the source or write outside the destination.",
  ["inputs"],"all byte strings as streams, all block types, code shapes and window distances, all destination capacities","the tests inflate some dozen hand-made streams",
  ["src/raw_inflate.hpp"],[("bit reader, canonical Huffman decode, window copy","src/raw_inflate.hpp")],observe=["ada::idna::deflate::inflate_raw next to zlib"])
p("C20","Answers depend only on the input text",
  "The answer of every public function for an input (to_ascii and to_unicode first of all, but also mapping, normalization, punycode, transcoding and the predicates) is a function of that input alone: it does not depend on calls made before or in other threads, on the address, alignment or termination of the input view, on the bytes next to it, or on what a reused output buffer holds.",
  ["histories","inputs"],"all histories of calls, all placements of the input in memory","tests call each input once, from a NUL-terminated string",
  ["src/to_ascii.cpp","src/to_unicode.cpp","src/unicode_transcoding.cpp"],[("no state beyond read-only tables; views are never read past their end","src/")],observe=["answers across histories and placements"])
p("C21","Work and memory are bounded for every input",
  "For every input, the memory a call holds at any time is at most proportional to the input length (with a small constant), and to_ascii/to_unicode reject or pass through input longer than max_domain_input_bytes without processing it, so that their work and memory stay bounded whatever an attacker sends; memory does not accumulate from call to call; the stack a call takes does not grow with its input, so that it fits the small stack of a thread; the work of a call grows at most quadratically with the length of its input (linearly for all-ASCII input and for domains of short labels), and every call ends.",
  ["inputs"],"all inputs, in particular repetitive ones: long runs of combining marks, dots, joiners, expanding code points, long ACE labels","tests never measure work or memory",
  ["src/to_ascii.cpp","src/to_unicode.cpp","src/normalization.cpp","src/punycode.cpp","include/ada/idna/limits.h"],[("input limit","include/ada/idna/limits.h"),("mark sorting and composition loops","src/normalization.cpp")],observe=["executed edges (trace-pc-guard), heap high-water mark"])
p("C22","Behaviour does not depend on how the library is built",
  "Compiled by g++ or clang, at any optimization level, with signed or unsigned char, as C++20 or C++23, static or shared, as separate library or as the amalgamated single header, with the built-in or the simdutf transcoding, the library compiles and every entry point gives the same answer for every input; each public header compiles on its own, and the header can be used from several translation units of one program.",
  ["configurations","inputs"],"all supported build configurations","the tests run in one configuration and the single header is not compared with the library",
  ["CMakeLists.txt","singleheader/amalgamate.py","src/idna.cpp","include/idna.h"],[("amalgamation script","singleheader/amalgamate.py"),("inline/constexpr definitions","include/, src/")],observe=["digest of all answers per configuration"])
p("C23","The table scripts generate tables that behave as the Unicode files say",
  "For every consistent set of Unicode data files, the table generation scripts write tables with which the library, rebuilt, maps, classifies and recognises code points exactly as those files say (or refuse data their format cannot hold, and say so); packing the tables again without a change of data reproduces what the library now answers, and sections replaced through pack_tables' documented functions (load_blob_sections, write_blob) are the ones the rebuilt library uses, the others staying as they were.",
  ["inputs","configurations"],"all Unicode data files of the published formats (other Unicode versions)","no test runs the scripts",
  ["scripts/idna_table.py","scripts/derived_table.py","scripts/pack_tables.py"],[("script output to table_blob.inc","scripts/pack_tables.py")],observe=["answers of the library rebuilt from generated tables"])
p("C24","Big-endian hosts see the same tables as little-endian ones",
  "On a big-endian host, the table data converted after decompression yields, for every table and every element, the same value as on a little-endian host, so that all answers are the same on both.",
  ["configurations"],"all elements of all tables","tests run on a little-endian host and only check the byte swap of a few values",
  ["src/table_store.hpp"],[("convert_table_blob_to_host_endian","src/table_store.hpp")],observe=["every typed table element after conversion"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
