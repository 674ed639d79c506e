"""What each check builds, runs and claims. Also the source of MANIFEST.json (gen_manifest.py)."""
import os
import special
from vlib import Inconclusive, VERIF

PLANS = {}
NOT_APPLICABLE = {}
ASAN = ("-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-divide-by-zero,local-bounds", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS")


def plan(prop, **kw):
    PLANS[prop] = kw


def harness(name, scale_thorough=1.0, scale=1.0, fuzz=0, fuzz_thorough=None, **b):
    def run(c):
        exe, _ = c.build(name, **b)
        c.shards(exe, n=8, scale=scale_thorough if c.thorough else scale)
        if fuzz:
            c.fuzz(name, (fuzz_thorough or fuzz * 30) if c.thorough else fuzz)
    return run


DATA = "the reference data in oracle/ (Unicode 17.0 IDNA mapping, NFC, Bidi, joining, identifier properties; provenance in oracle/gen) and the reference model harness/ref.hpp are right"
DOM = "Every Unicode scalar value in the contexts that tell its mapping, Bidi class, joining type and composition behaviour, plus grammar-generated domains (mapped, ignored, disallowed, Bidi, joiner, normalization and ACE labels, damaged punycode and UTF-8, long ones) from VERIF_SEED. "

plan("C01", level="exploration",
     technique="differential runtime monitoring of to_ascii against an independent executable UTS #46 model",
     rule=DOM + "Non-trivial: the input is not pure ASCII; distinct by input bytes.",
     assumptions=[DATA], run=harness("h_domain", scale=1.6, fuzz=1600000))
plan("C02", level="exploration",
     technique="differential runtime monitoring of to_unicode, label by label, against an independent executable UTS #46 model",
     rule=DOM + "Non-trivial: the input has at least one xn-- label or non-ASCII byte; distinct by input bytes.",
     assumptions=[DATA], run=harness("h_domain", scale=1.6, fuzz=1600000))
plan("C03", level="exploration",
     technique="output-safety monitor on every accepted domain (alphabet, ACE canonicity, label validity)",
     rule=DOM + "Non-trivial: to_ascii accepted a non-ASCII input; distinct by input bytes.",
     assumptions=[DATA], run=harness("h_domain", scale=1.6, fuzz=1600000))
plan("C04", level="exploration",
     technique="round-trip and idempotence monitor over to_ascii/to_unicode call histories",
     rule=DOM + "Non-trivial: to_ascii accepted a non-ASCII input, so that the round trip was exercised; distinct by input bytes.",
     assumptions=[DATA], run=harness("h_domain", scale=1.6, fuzz=1600000))
plan("C05", level="exploration",
     technique="metamorphic monitor: spellings equivalent under mapping and normalization must give one answer",
     rule="Pairs of spellings with the same mapped and normalized form: NFD/NFC, reordered marks, inserted ignorables, alternative dots, pre-mapped and inversely mapped code points. Non-trivial: the two spellings differ; distinct by pair.",
     assumptions=[DATA], run=harness("h_domain", scale=1.6, fuzz=1600000))
plan("C06", level="exploration",
     technique="call-contract monitor on the four entry points (status, output buffer, overload agreement, limits)",
     rule="Generated domains incl. malformed UTF-8 and inputs around and above the size limit. Non-trivial: all; distinct by input.",
     assumptions=[], run=harness("h_domain", scale=1.6, fuzz=1600000))
plan("C07", level="exploration",
     technique="differential runtime monitoring of the punycode codec against an RFC 3492 model, with round-trip checks",
     rule="Every short string over the significant bytes, every scalar value in several contexts, generated labels and damaged encodings. Non-trivial: encodings of non-ASCII strings and all decodings; distinct by input.",
     assumptions=["harness/ref.hpp implements RFC 3492"], run=harness("h_core", scale=3, fuzz=3000000))
plan("C08", level="exploration",
     technique="agreement monitor: verify_punycode against punycode_to_utf32 and an RFC 3492 model on the same input",
     rule="As C07, decoding side. Distinct by input string.",
     assumptions=["harness/ref.hpp implements RFC 3492"], run=harness("h_core", scale=3, fuzz=3000000))
plan("C09", level="exploration",
     technique="differential runtime monitoring of the UTF-8/UTF-32 transcoders with guard zones around the outputs",
     rule="All two-byte sequences, most three- and four-byte ones, every scalar value, every position in ASCII runs, random and damaged text. Distinct by input.",
     assumptions=["the Unicode definition of well-formed UTF-8 as written in harness/ref.hpp"], run=harness("h_core", scale=3, fuzz=3000000))
plan("C10", level="exploration",
     technique="differential runtime monitoring of map() against the UTS #46 table, exhaustive per code point",
     rule="Every code point 0..0x110400 alone (exhaustive) and in context, random sequences weighted to mapped/ignored/disallowed. Distinct by input.",
     assumptions=[DATA], run=harness("h_core", scale=3, fuzz=3000000))
plan("C11", level="exploration",
     technique="differential runtime monitoring of normalize()/is_already_nfc() against UAX #15, exhaustive per code point and pair",
     rule="Every scalar value alone (exhaustive) and in 19 contexts, every primary composition pair, decompositions with interleaved marks, Hangul, random mark sequences. Distinct by input.",
     assumptions=[DATA], run=harness("h_core", scale=3, fuzz=3000000))
plan("C12", level="exploration",
     technique="differential runtime monitoring of is_label_valid against RFC 5891/5892 A.1-A.2/5893 rules",
     rule="Every valid code point below U+34000 in 30 Bidi and joiner contexts, random Bidi/joiner/script labels (mapped and NFC). Distinct by label.",
     assumptions=[DATA], run=harness("h_core", scale=3, fuzz=3000000))
plan("C13", level="exploration",
     technique="exhaustive runtime monitoring of valid_name_code_point against ID_Start/ID_Continue",
     rule="Every 32-bit value up to 0x120000 in both positions (exhaustive over Unicode) and random larger ones. Distinct by (code point, position).",
     assumptions=[DATA], run=harness("h_core"))
plan("C14", level="exploration",
     technique="differential runtime monitoring of the byte-class functions against the URL Standard set",
     rule="Every byte at several positions of runs of every length below 70, random byte strings. Distinct by input.",
     assumptions=["forbidden domain code points as in the URL Standard, plus non-ASCII bytes"], run=harness("h_core", scale=3, fuzz=3000000))


INIT_OPTIONAL = [("-DHAVE_BLOB", "-DHAVE_INFLATE"), ("-DHAVE_INFLATE",), ("-DHAVE_BLOB",), ()]


def c15(c):
    exe, _ = c.build("h_init", "init", internals=True, optional=INIT_OPTIONAL)
    c.shards(exe, n=8, limit=None)
    exe, _ = c.build("h_init", "init_tsan", flags=("-O1", "-g", "-fsanitize=thread"), internals=True, optional=INIT_OPTIONAL)
    c.shards(exe, n=8, scale=2, label="ThreadSanitizer")
    special.static_phases(c)


def c16(c):
    exe, _ = c.build("h_init", "init", internals=True, optional=INIT_OPTIONAL)
    c.shards(exe, n=8, scale=3)
    exe, _ = c.build("h_init", "init_asan", cc="clang++", flags=ASAN, internals=True, optional=INIT_OPTIONAL)
    c.shards(exe, n=8, scale=0.7, label="AddressSanitizer")


def c17(c):
    wrap = ("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc",)
    exe, _ = c.build("h_fault", "fault", link=wrap)
    c.shards(exe, n=8, scale=8)
    exe, _ = c.build("h_fault", "fault_asan", cc="clang++", flags=ASAN, link=wrap)
    c.shards(exe, n=8, scale=0.5, label="AddressSanitizer")


def c18(c):
    exe, used = c.build("h_mem", "mem_asan", cc="clang++", flags=ASAN, optional=[("-DSPLIT_TABLES",), ()], internals=True)
    c.counters["every table in a heap block of its own"] = int(bool(used))
    c.shards(exe, n=8, scale=6, label="AddressSanitizer and UndefinedBehaviorSanitizer")
    c.fuzz("h_mem", 40000000 if c.thorough else 1200000, flags=ASAN, optional=[("-DSPLIT_TABLES",), ()], internals=True)
    try:   # the code of the build with simdutf, over a stand-in for it
        exe, _ = c.build("h_mem", "mem_simdutf", cc="clang++", flags=(*ASAN, "-DADA_USE_SIMDUTF=1", "-I" + os.path.join(VERIF, "harness", "stub")))
    except Inconclusive as e:
        c.notes.append("the build with simdutf: not run, it needs more than the stand-in has (%s)" % str(e)[-300:])
    else:
        c.shards(exe, n=8, scale=1, label="the build with simdutf, sanitized")
    exe, _ = c.build("h_mem", "mem_valgrind", flags=("-O1", "-g"))
    c.shards(exe, n=8, scale=0.02 if c.thorough else 0.002, label="valgrind", wrap=("valgrind", "--error-exitcode=9", "-q", "--leak-check=full", "--errors-for-leak-kinds=definite", "--undef-value-errors=yes"))
    if c.thorough:
        exe, _ = c.build("h_mem", "mem_gcc", flags=("-O2", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"))
        c.shards(exe, n=8, scale=2, seed=c.seed + 1000, label="gcc sanitizers")


def c19(c):
    exe, _ = c.build("h_inflate", "inflate", internals=True, link=("-lz",))
    c.shards(exe, n=8)
    exe, _ = c.build("h_inflate", "inflate_asan", cc="clang++", flags=ASAN, internals=True, link=("-lz",))
    c.shards(exe, n=8, scale=0.2, label="AddressSanitizer")
    c.fuzz("h_inflate", 15000000 if c.thorough else 500000, flags=ASAN, length=1500, internals=True, link=("-lz",), whole=True)


def c20(c):
    exe, _ = c.build("h_domain", "domain")
    c.shards(exe, n=8)
    exe, _ = c.build("h_history", "history")
    c.shards(exe, n=8, label="histories of all entry points")


def c21(c):
    exe, used = c.build("h_resource", "resource", cc="clang++", flags=("-O1", "-fsanitize-coverage=trace-pc-guard"), hflags=("-O1",), optional=[("-DCOUNT_BYTES", "-DCOUNT_MALLOC"), ("-DCOUNT_BYTES",), ()])
    c.counters["bytes moved by the C library are counted"] = int(bool(used))
    c.shards(exe, n=8)


plan("C15", level="exploration",
     technique="races of first calls in freshly forked processes, answers compared with a sequential run, under ThreadSanitizer and natively; calls from static constructors, destructors and exit handlers",
     rule="One case is a fresh process in which 2-32 threads make their first calls on entry points chosen by VERIF_SEED, with injected delays in the table allocation; every answer is compared with the sequential one. Distinct by schedule seed.",
     assumptions=["ThreadSanitizer sees all synchronization the library uses (C++ atomics)", "interleavings are those the scheduler produced with the injected delays"], run=c15)
plan("C16", level="fault_enumeration",
     technique="fault injection (allocation failure, corruption of the embedded tables) in forked processes, with a fail-closed monitor on every entry point, natively and under AddressSanitizer",
     rule="One case is a fresh process with one injected fault: the table buffer's allocation fails, or bytes of the compressed data are flipped, overwritten, cut or swapped; then calls to all entry points from one or more threads. Distinct by fault.",
     assumptions=["corruptions that leave size and CRC-32 intact are answered as if nothing happened"], run=c16)
plan("C17", level="fault_enumeration",
     technique="exhaustive injection of allocation failure at every allocation of generated calls, with leak, corruption and recovery monitors, natively and under AddressSanitizer",
     rule="Generated calls of all allocating entry points, and for each call every k: the k-th allocation alone and all from the k-th on fail. Non-trivial: the call allocates; distinct by (entry point, buffers, input).",
     assumptions=["the library allocates with operator new, malloc, calloc or realloc"], run=c17)
plan("C18", level="exploration",
     technique="AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ assertions and valgrind memcheck over hostile workloads in exact-size heap buffers",
     rule="Every code point value alone, code units up to 2^32-1, noise, damaged UTF-8 and punycode, generated labels and domains, long inputs, to every public function. Distinct by input.",
     assumptions=["the sanitizers detect what their documentation says; reads of other live objects far outside the buffers are not seen"], run=c18)
plan("C19", level="exploration",
     technique="differential runtime monitoring of inflate_raw against zlib and an own encoder, with guard bytes, natively and under AddressSanitizer",
     rule="Streams by zlib at all levels and strategies and by an own encoder (all block types, code shapes, distances), truncations, bit flips, wrong capacities, noise. Distinct by (stream, capacity).",
     assumptions=["zlib decodes RFC 1951 correctly"], run=c19)
plan("C20", level="exploration",
     technique="history and placement monitor over all entry points: one input in many histories, threads, placements and output buffers must have the answer of a fresh process",
     rule=DOM + "Each is answered again later in the run, after near variants of it in the same buffer, between garbage, and with a dirty output buffer; histories over all entry points and small pools of near variants, in reused buffers and in threads, are compared with first-call answers of freshly forked processes. Distinct by input.",
     assumptions=[], run=c20)
plan("C21", level="exploration",
     technique="resource monitor: executed edges (trace-pc-guard), heap and stack high-water marks of every call against fixed bounds and growth limits",
     rule="Repetitive patterns of generated units at doubling lengths, over-long inputs, single calls of every entry point. Distinct by (pattern, length, entry point).",
     assumptions=["steps are edges of the control flow graph as clang -O1 compiles it, plus one per 16 bytes that memcpy, memmove, memset, memchr and memcmp touch (16 may be too kind to other library functions)", "memory is what malloc and operator new give; the stack is sampled at every executed edge of the library"], run=c21)
plan("C22", level="exploration",
     technique="digest comparison of one monitored workload over all entry points across compilers, flags, standards and the amalgamated single header",
     rule="One evaluation is one call with its answer in one configuration; non-trivial and distinct: chunk digests times configurations.",
     assumptions=["only x86-64 Linux with libstdc++ is run"], run=special.c22)
plan("C23", level="exploration",
     technique="runs of the table scripts on synthetic Unicode files in scratch copies, the rebuilt library monitored exhaustively per code point against the files",
     rule="Synthetic IdnaMappingTable.txt and DerivedCoreProperties.txt (all statuses, old STD3 ones, gaps, comments, one or several high ignored ranges, code points in use above U+E0000, more blocks than the format holds) and the data of Unicode 17, every code point per data set; repacking of the present data. Distinct: data sets.",
     assumptions=["zlib of the local Python"], run=special.c23)
plan("C24", level="exploration",
     technique="the library compiled with std::endian::native == big: with a byte-swapped blob its workload digest must be that of the plain library; its converted tables compared element by element with the little-endian ones, and the workload digest on the swapped-back tables",
     rule="Digest workload on byte-swapped tables; every element of every table (exhaustive), then the digest workload on the swapped-back tables. Distinct: multi-byte elements.",
     assumptions=["code other than the table conversion that depends on byte order without asking std::endian or __BYTE_ORDER__ is not exercised: no big-endian machine or emulator is here"], run=special.c24)
