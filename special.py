"""The checks that compare differently built libraries: C15 (static phases), C22, C23, C24."""
import glob, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from vlib import REPO, VERIF, NCPU, Inconclusive

H = os.path.join(VERIF, "harness")
INC = ["-I" + os.path.join(REPO, "include")]
LIB = os.path.join(REPO, "src", "idna.cpp")


def par(jobs):
    with ThreadPoolExecutor(NCPU) as ex:
        return [f.result() for f in [ex.submit(*j) for j in jobs]]


def obj(c, src, out, cc="g++", std="-std=c++20", flags=("-O2",), inc=None, must=True, what=None):
    p = c.cc([cc, std, *flags, *(inc if inc is not None else INC), "-c", src, "-o", out], what or os.path.basename(src), must=must)
    return p


# ---- C15: static construction and destruction ----------------------------------------------------------------
def static_phases(c):
    if c.replay:
        return
    d = c.dir
    jobs = [(obj, c, LIB, d + "/lib.o"), (obj, c, LIB, d + "/lib0.o", "g++", "-std=c++20", ("-O0",)), (obj, c, LIB, d + "/libc.o", "clang++")]
    for v, fl in (("n", ()), ("p", ("-DPRIORITY",))):
        jobs.append((obj, c, H + "/h_static.cpp", d + "/st_%s.o" % v, "g++", "-std=c++20", ("-O1", *fl)))
    par(jobs)
    n = 0
    for lib in ("lib", "lib0", "libc"):
        for v in "np":
            for order in (0, 1):
                exe = d + "/static_%s_%s_%d" % (lib, v, order)
                objs = [d + "/%s.o" % lib, d + "/st_%s.o" % v]
                c.cc(["g++", *(objs if order else objs[::-1]), "-o", exe, "-lpthread"], "linking the static phases")
                c.prog([exe], "static phases (%s, %s init priority, library %s)" % (lib, "with" if v == "p" else "without", "first" if order else "last"), limit=60)
                n += 1
    c.counters["programs with calls in static constructors, destructors and exit handlers"] = n


# ---- digests ---------------------------------------------------------------------------------------------------
def digest_cmd(c, exe, out, chunks, per, dump=None, seed=None):
    return [exe, "--seed", str(seed if seed is not None else c.seed), "--oracle", os.path.join(VERIF, "oracle"), "--out", out, "--chunks", str(chunks), "--per", str(per)] + (["--dump", str(dump)] if dump is not None else [])


def digest(c, exe, name, chunks, per, limit=300):
    out = os.path.join(c.dir, name + ".digest")
    try:
        p = subprocess.run(digest_cmd(c, exe, out, chunks, per), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        return None, "no end within %d s" % limit
    if p.returncode == -9:
        raise Inconclusive("%s was killed (memory?)" % name)
    if p.returncode:
        return None, "ended with %s: %s" % (p.returncode, p.stdout[-400:].strip())
    rows = open(out).read().split("\n")
    return rows, ""


def first_difference(c, exe_a, exe_b, ch, chunks, per):
    outs = []
    for k, exe in enumerate((exe_a, exe_b)):
        o = os.path.join(c.dir, "dump%d" % k)
        try:
            subprocess.run(digest_cmd(c, exe, o, chunks, per, dump=ch), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        except subprocess.TimeoutExpired:
            pass
        outs.append(o)
    try:
        with open(outs[0], errors="replace") as a, open(outs[1], errors="replace") as b:
            for x, y in zip(a, b):
                if x != y:
                    return x.strip()[:600], y.strip()[:600]
    except OSError:
        pass
    return None


def compare(c, base, name, exe, rows, chunks, per, key="differs"):
    b_exe, b_rows = base
    if rows == b_rows:
        return
    for x, y in zip(b_rows, rows):
        if x != y:
            ch = x.split()[0]
            if ch == "calls":
                c.violation(key, "%s: the number of calls differs" % name, "", [exe])
                return
            d = first_difference(c, b_exe, exe, ch, chunks, per)
            text = "reference: %s / here: %s" % d if d else "digest of chunk %s: %s / %s" % (ch, x, y)
            c.violation(key, "%s: %s" % (name, text), "", digest_cmd(c, exe, "/dev/null", chunks, per, dump=ch))
            return
    c.violation(key, "%s: the record is shorter" % name, "", [exe])


def amalgamate(c, d):
    """The single-header distribution, made in a scratch copy by the repository's own script."""
    src = os.path.join(d, "tree")
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns("_build", "build*", ".git", "tests", "fixtures", "benchmarks"))
    out = os.path.join(d, "single")
    os.makedirs(out, exist_ok=True)
    e = dict(os.environ, AMALGAMATE_OUTPUT_PATH=out)
    p = subprocess.run([sys.executable, os.path.join(src, "singleheader", "amalgamate.py")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=src, timeout=120)
    shutil.rmtree(src)
    if p.returncode or not os.path.exists(out + "/ada_idna.cpp"):
        c.violation("amalgamation", "the amalgamation script fails: " + p.stdout[-600:], "", ["python3", "singleheader/amalgamate.py"])
        return None
    return out


def c22(c):
    if c.replay:
        return
    d = c.dir
    chunks, per = 64, (40000 if c.thorough else 400)
    stub = os.path.join(H, "stub")
    # name, compiler, standard, flags, must compile, extra include
    cfg = [("gcc-O2", "g++", "20", ["-O2"], True), ("gcc-O0", "g++", "20", ["-O0"], True), ("gcc-O3", "g++", "20", ["-O3", "-DNDEBUG"], True),
           ("gcc-Os-unsigned-char", "g++", "20", ["-Os", "-funsigned-char"], True), ("gcc-O1-c++23", "g++", "23", ["-O1", "-fsigned-char"], True),
           ("gcc-noexcept-nortti", "g++", "20", ["-O2", "-fno-exceptions", "-fno-rtti"], False), ("gcc-asserts", "g++", "20", ["-O1", "-D_GLIBCXX_ASSERTIONS"], True),
           ("gcc-autoinit-pattern", "g++", "20", ["-O2", "-ftrivial-auto-var-init=pattern"], False), ("gcc-O3-native", "g++", "20", ["-O3", "-march=native"], True),
           ("gcc-simdutf", "g++", "20", ["-O2", "-DADA_USE_SIMDUTF=1", "-I" + stub], False), ("gcc-PIC", "g++", "20", ["-O2", "-fPIC"], True),
           ("clang-O2", "clang++", "20", ["-O2"], True), ("clang-O0-unsigned-char", "clang++", "20", ["-O0", "-funsigned-char"], True), ("clang-O3-c++23", "clang++", "23", ["-O3", "-DNDEBUG"], True),
           ("clang-autoinit-zero", "clang++", "20", ["-O1", "-ftrivial-auto-var-init=zero"], False), ("clang-noexcept", "clang++", "20", ["-Os", "-fno-exceptions", "-fno-rtti"], False),
           ("clang-simdutf", "clang++", "20", ["-O2", "-DADA_USE_SIMDUTF=1", "-I" + stub], False)]
    cfg += [("gcc-gnu20", "g++", "gnu20", ["-O2", "-g", "-DNDEBUG", "-DADA_TESTING=1"], True), ("gcc-gnu23-fast", "g++", "gnu23", ["-Ofast", "-D_FORTIFY_SOURCE=2"], True), ("clang-gnu20-fast", "clang++", "gnu20", ["-O3", "-ffast-math"], True),
            ("clang-gnu23-Os", "clang++", "gnu23", ["-Os", "-fno-strict-aliasing"], True), ("clang-c++26", "clang++", "26", ["-O1"], False),
            ("gcc-asan", "g++", "gnu20", ["-O1", "-fsanitize=address,undefined"], False), ("clang-asan", "clang++", "20", ["-O1", "-fsanitize=address"], False), ("gcc-tsan", "g++", "20", ["-O1", "-fsanitize=thread"], False),
            ("gcc-debug", "g++", "20", ["-Og", "-g", "-D_GLIBCXX_DEBUG", "-DDEBUG", "-D_DEBUG"], False), ("gcc-lto", "g++", "20", ["-O2", "-flto"], False), ("gcc-static-threads", "g++", "20", ["-O2", "-fno-threadsafe-statics", "-fvisibility=hidden", "-ffunction-sections"], False),
            ("gcc-generic", "g++", "20", ["-O2", "-fno-builtin", "-fno-tree-vectorize", "-mtune=generic", "-DADA_IDNA_DEVELOPMENT_CHECKS=1"], False), ("gcc-v3", "g++", "20", ["-O3", "-march=x86-64-v3"], False)]
    if c.thorough:
        for cc in ("g++", "clang++"):
            for o in ("-O0", "-O1", "-O2", "-O3", "-Os", "-Ofast"):
                for ch in ("-fsigned-char", "-funsigned-char"):
                    for std in ("20", "23", "gnu20"):
                        cfg.append(("%s%s%s-c++%s" % (cc, o, ch[2:], std), cc, std, [o, ch], True))
        cfg += [("gcc-lto-O3", "g++", "20", ["-O3", "-flto"], False), ("gcc-no-strict", "g++", "20", ["-O3", "-fno-strict-aliasing", "-fwrapv"], True), ("gcc-hardened", "g++", "20", ["-O2", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all"], False),
                ("gcc-unroll", "g++", "20", ["-O3", "-funroll-all-loops", "-fno-inline"], True), ("clang-noinline", "clang++", "20", ["-O2", "-fno-inline"], True)]
    single = amalgamate(c, d)
    jobs = [(obj, c, H + "/h_digest.cpp", d + "/digest.o", "g++", "-std=c++20", ("-O1",), INC + ["-I" + H])]
    jobs += [(obj, c, LIB, "%s/%s.o" % (d, n), cc, "-std=" + (std.replace("gnu", "gnu++") if std[0] == "g" else "c++" + std), fl, None, False) for n, cc, std, fl, _ in cfg]
    sing = []
    if single:
        os.makedirs(d + "/redirect")
        with open(d + "/redirect/idna.h", "w") as f:
            f.write('#include "ada_idna.h"\n')
        sing = [("single-header-gcc", "g++", ["-O2"]), ("single-header-clang", "clang++", ["-O1"]), ("single-header-simdutf", "g++", ["-O2", "-DADA_USE_SIMDUTF=1", "-I" + stub])]
        jobs += [(obj, c, single + "/ada_idna.cpp", "%s/%s.o" % (d, n), cc, "-std=c++20", fl, ["-I" + single], False) for n, cc, fl in sing]
        jobs.append((obj, c, H + "/h_digest.cpp", d + "/digest1.o", "g++", "-std=c++20", ("-O0",), ["-I" + d + "/redirect", "-I" + single, "-I" + H], False))
    res = par(jobs)
    if res[1].returncode:
        raise Inconclusive("the library does not build: " + res[1].stdout[-3000:])
    todo = []
    for k, (n, cc, std, fl, must) in enumerate(cfg):
        p = res[1 + k]
        if p.returncode:
            if must:
                c.violation("does not compile", "%s (%s %s): %s" % (n, cc, " ".join(fl), first_error(p.stdout)), "", [])
            else:
                c.notes.append("%s: does not compile, not compared" % n)
            continue
        todo.append((n, "digest.o", n + ".o", fl))
    if single:
        r1 = res[1 + len(cfg):]
        for k, (n, cc, fl) in enumerate(sing):
            if r1[k].returncode:
                if "simdutf" not in n:
                    c.violation("does not compile", "%s: %s" % (n, first_error(r1[k].stdout)), "", [])
                continue
            todo.append((n, "digest.o", n + ".o", fl))
        if r1[-1].returncode:
            c.violation("does not compile", "a program with ada_idna.h: " + first_error(r1[-1].stdout), "", [])
        elif not r1[0].returncode:
            todo.append(("single-header-whole", "digest1.o", "single-header-gcc.o", []))
    exes = {}

    def link(t):
        n, h, o, fl = t
        exe = "%s/x-%s" % (d, n)
        if n == "gcc-PIC":
            c.cc(["g++", "-shared", "%s/%s" % (d, o), "-o", d + "/libidna_x.so"], "the shared library")
            p = c.cc(["g++", "%s/%s" % (d, h), "-L" + d, "-lidna_x", "-Wl,-rpath," + d, "-o", exe, "-lpthread"], "linking " + n, must=False)
        else:
            ld = "clang++" if n == "clang-asan" else "g++"
            p = c.cc([ld, *[f for f in fl if f == "-flto" or f.startswith("-fsanitize=")], "%s/%s" % (d, h), "%s/%s" % (d, o), "-o", exe, "-lpthread"], "linking " + n, must=False)
        if p.returncode:
            return n, None, None, "does not link: " + first_error(p.stdout)
        rows, err = digest(c, exe, n, chunks, per, limit=7200 if c.thorough else 400)
        return n, exe, rows, err
    with ThreadPoolExecutor(NCPU) as ex:
        done = list(ex.map(link, todo))
    base = done[0]
    if base[2] is None:
        c.violation("crash", "%s: %s" % (base[0], base[3]), "", [base[1] or ""])
        return
    for n, exe, rows, err in done:
        c.configs.append(n)
        if rows is None:
            # a crash of one build and not of another
            c.violation("crash", "%s: %s (the reference build runs)" % (n, err), "", [exe or ""])
            continue
        c.evaluations += int(rows[-2].split()[1])
        if n != base[0]:
            compare(c, (base[1], base[2]), n, exe, rows, chunks, per)
    c.distinct = len({r for r in base[2][:-2]}) * len(done)
    c.counters["configurations run"] = len(done)
    c.counters["calls per configuration"] = int(base[2][-2].split()[1])
    c.samples = [" ".join(r.split()) for r in base[2][:3]]
    headers(c, d, single)
    installed(c, d, base, chunks, per)


def installed(c, d, base, chunks, per):
    """The library as the repository's own CMake files build and install it, static and shared, used from the install prefix."""
    if not shutil.which("cmake"):
        c.notes.append("no cmake: the installed library is not compared")
        return

    def one(kind):
        b, pre = "%s/cm-%s" % (d, kind), "%s/prefix-%s" % (d, kind)
        gen = ["-G", "Ninja"] if shutil.which("ninja") else []
        try:
            for cmd in (["cmake", "-S", REPO, "-B", b, *gen, "-DBUILD_TESTING=OFF", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_INSTALL_LIBDIR=lib",
                         "-DBUILD_SHARED_LIBS=" + ("ON" if kind == "shared" else "OFF"), "-DCMAKE_INSTALL_PREFIX=" + pre],
                        ["cmake", "--build", b, "--target", "ada-idna"], ["cmake", "-P", b + "/cmake_install.cmake"]):
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                if p.returncode:
                    return kind, None, "cmake: " + p.stdout[-300:], False
        except subprocess.TimeoutExpired:
            return kind, None, "cmake takes too long", False
        finally:
            shutil.rmtree(b, ignore_errors=True)
        o, exe = "%s/digest-%s.o" % (d, kind), "%s/x-installed-%s" % (d, kind)
        p = obj(c, H + "/h_digest.cpp", o, "g++", "-std=c++20", ("-O1",), ["-I" + pre + "/include", "-I" + H], False)
        if p.returncode:
            return kind, None, first_error(p.stdout), True
        p = c.cc(["g++", o, "-L" + pre + "/lib", "-lada-idna", "-Wl,-rpath," + pre + "/lib", "-o", exe, "-lpthread"], "linking the installed library", must=False)
        if p.returncode:
            return kind, None, first_error(p.stdout), True
        rows, err = digest(c, exe, "installed-" + kind, chunks, per, limit=7200 if c.thorough else 400)
        return kind, rows, err, True
    for kind, rows, err, judged in par([(one, k) for k in ("static", "shared")]):
        name = "installed-" + kind
        if rows is None:
            if judged:
                c.violation("installed library", "%s: %s" % (name, err), "", [])
            else:
                c.notes.append("%s: not compared (%s)" % (name, err))
            continue
        c.configs.append(name)
        c.evaluations += int(rows[-2].split()[1])
        compare(c, (base[1], base[2]), name, "%s/x-%s" % (d, name), rows, chunks, per)
        c.counters["installed libraries compared"] = c.counters.get("installed libraries compared", 0) + 1


def first_error(t):
    m = re.search(r"^.*(?:error|undefined reference|multiple definition).*$", t, re.M)
    return (m.group(0) if m else t[-300:]).strip()[:500]


def headers(c, d, single):
    """Each public header compiles by itself, twice in one unit, and in two units of one program."""
    jobs, names = [], []
    inc = os.path.join(REPO, "include")
    for h in sorted(glob.glob(inc + "/**/*.h", recursive=True)):
        rel = os.path.relpath(h, inc)
        s = "%s/hdr_%s.cpp" % (d, rel.replace("/", "_"))
        with open(s, "w") as f:
            f.write('#include "%s"\n#include "%s"\nint use_%d() { return 0; }\n' % (rel, rel, len(names)))
        for cc in ("g++", "clang++"):
            for std in ("c++20", "c++23"):
                jobs.append((obj, c, s, "%s.%s.%s.o" % (s, cc, std), cc, "-std=" + std, ("-O0", "-Wall", "-Wextra"), None, False))
                names.append((rel, cc + " -std=" + std))
    for (rel, cc), p in zip(names, par(jobs)):
        c.evaluations += 1
        if p.returncode:
            c.violation("header", "%s does not compile by itself with %s: %s" % (rel, cc, first_error(p.stdout)), "", [])
    c.counters["headers compiled alone"] = len(names)
    body = '#include <%s>\nint %s() { std::string o; std::u32string w; return (int)ada::idna::to_ascii("b\\xc3\\xbc.de", o) + (int)ada::idna::to_unicode("xn--b-eha.de", o) + (int)ada::idna::normalize(w) + (int)ada::idna::is_label_valid(U"a"); }\n'
    for label, hdr, i, lib in [("idna.h", "idna.h", INC, "gcc-O2.o")] + ([("ada_idna.h", "ada_idna.h", ["-I" + single], "single-header-gcc.o")] if single else []):
        objs = []
        if not os.path.exists(d + "/" + lib):
            continue
        for k in "ab":
            s = "%s/tu_%s_%s.cpp" % (d, label, k)
            with open(s, "w") as f:
                f.write(body % (hdr, "f" + k))
                if k == "b":
                    f.write("int fa(); int main() { return fa() == fb() ? 0 : 1; }\n")
            p = obj(c, s, s + ".o", inc=i, must=False)
            if p.returncode:
                c.violation("header", "%s: %s" % (label, first_error(p.stdout)), "", [])
                break
            objs.append(s + ".o")
        else:
            p = c.cc(["g++", *objs, d + "/" + lib, "-o", s + ".exe", "-lpthread"], "two units", must=False)
            c.evaluations += 1
            if p.returncode:
                c.violation("header", "two translation units with %s do not link: %s" % (label, first_error(p.stdout)), "", [])
            elif subprocess.run([s + ".exe"]).returncode:
                c.violation("header", "two translation units with %s answer differently" % label, "", [s + ".exe"])


# ---- C23: table scripts ------------------------------------------------------------------------------------------
def synth(rng, high=None, many=False, k=None):
    """A synthetic but consistent IdnaMappingTable.txt and DerivedCoreProperties.txt, and what they mean.
    high: how the plane-14 part looks (None: random); many: more different mixed blocks than the table format may hold."""
    def pick(values):   # every value has its turn
        return rng.choice(values) if k is None else values[(k * 3 + k // len(values)) % len(values)]
    rows = []
    top = 64 * rng.choice([700, 800, 900, 2500]) if many else pick([0x2fff, 0x3400, 0x10000, 0x1ffff, 0x2fa1d, 0x33479, 0x40000, 0x9ffff])
    pool = [tuple(rng.randrange(0x61, 0x250) for _ in range(rng.randrange(1, 4))) for _ in range(60)]
    pool += [tuple(rng.choice([rng.randrange(0x20, 0x7f), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0xe000, 0x10000), rng.randrange(0x10000, 0x34000), 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10fffd]) for _ in range(rng.choice([1, 1, 1, 2, 3, 18]))) for _ in range(rng.choice([20, 400]))]
    cp = 0
    style = rng.random()

    def emit(a, b):
        k = rng.random()
        if style < 0.3:
            k = k * 0.7 + 0.3   # few mappings
        if 0xd800 <= a <= 0xdfff:
            rows.append((a, b, "disallowed", (), 2))
        elif k < 0.30:
            m = rng.choice(pool)
            rows.append((a, b, rng.choice(["mapped", "mapped", "mapped", "disallowed_STD3_mapped"]), m, 3))
        elif k < 0.36:
            rows.append((a, b, "ignored", (), 0))
        elif k < 0.40:
            rows.append((a, b, "deviation", rng.choice([(), rng.choice(pool)]), 1))
        elif k < 0.75:
            rows.append((a, b, rng.choice(["valid", "valid", "valid", "disallowed_STD3_valid"]), (), 1))
        else:
            rows.append((a, b, "disallowed", (), 2))
    while cp <= top:
        n = rng.choice([1, 1, 1, 2, 3, rng.randrange(1, 20), rng.randrange(1, 200), 64 - cp % 64, rng.randrange(1, 9000)])
        if many:
            n = rng.choice([7, 15, 31, 40])
        b = min(cp + n - 1, top)
        if cp < 0xd800 <= b:
            b = 0xd7ff
        elif 0xd800 <= cp <= 0xdfff:
            b = 0xdfff
        if rng.random() < 0.05:
            cp = b + 1   # not listed at all: disallowed
            continue
        emit(cp, b)
        cp = b + 1
    high = high or rng.choice(["one", "one", "one", "none", "split", "active", "after v", "after m", "before"])
    if high == "none":
        rows.append((top + 1, 0x10ffff, "disallowed", (), 2))
    elif high == "one":
        hs = rng.choice([0xe0000, 0xe0001, 0xe0100, 0xe0fff, 0xeffff]) if rng.random() < 0.7 else rng.randrange(0xe0000, 0xe1000)
        he = hs + rng.choice([0, 1, 63, 64, 239, 4095])
        rows.append((top + 1, hs - 1, "disallowed", (), 2))
        mid = rng.randrange(hs, he + 1)
        rows.append((hs, mid, "ignored", (), 0))
        if mid < he:
            rows.append((mid + 1, he, "ignored", (), 0))
        rows.append((he + 1, 0x10ffff, "disallowed", (), 2))
    elif high in ("after v", "after m", "before"):  # one ignored range without gaps, and one range in use behind or before it
        use = lambda a, b: (a, b, "mapped", rng.choice(pool), 3) if high == "after m" or high == "before" and rng.random() < 0.5 else (a, b, "valid", (), 1)
        hs = rng.choice([0xe0000, 0xe0001, 0xe0100, 0xe0fff, 0xf0000, 0xffff0, 0x100000, 0x10fd00]) + (64 if high == "before" else 0)
        he = hs + rng.choice([0, 1, 63, 64, 239])
        mid = rng.randrange(hs, he + 1)
        gap = rng.choice([0, 1, 2, 63, 64, 500, 0x10000] if hs < 0xff000 else [0, 1, 64, 100])
        size = rng.choice([0, 1, 63, 64])
        if high == "before":
            gap = min(gap, 60)
            b = hs - 1 - gap
            a = b - min(size, 2)
            rows += [(top + 1, a - 1, "disallowed", (), 2), use(a, b), (b + 1, hs - 1, "disallowed", (), 2)]
        else:
            rows.append((top + 1, hs - 1, "disallowed", (), 2))
        rows += [(hs, mid, "ignored", (), 0), (mid + 1, he, "ignored", (), 0)]
        cp = he + 1
        if high != "before":
            cp += gap
            rows += [(he + 1, cp - 1, "disallowed", (), 2), use(cp, cp + size)]
            cp += size + 1
        rows.append((cp, 0x10ffff, "disallowed", (), 2))
    else:  # several ignored ranges, or other code points in use above U+E0000
        cp = rng.choice([0xe0000, 0xe0001, 0xe0100, 0xe0040, 0xdfff0 if high == "active" else 0xe0200])
        rows.append((top + 1, cp - 1, "disallowed", (), 2))
        kinds = rng.choice(["v", "m", "vm"])   # active: valid only, mapped only, both
        for _ in range(rng.randrange(2, 6)):
            b = cp + rng.choice([0, 1, 31, 62, 63, 64, 200])
            if high == "active" and rng.random() < 0.6:
                rows.append((cp, b, "valid", (), 1) if rng.choice(kinds) == "v" else (cp, b, "mapped", rng.choice(pool), 3))
            else:
                rows.append((cp, b, "ignored", (), 0))
            cp = b + 1
            n = rng.choice([1, 2, 63, 64, 500] if high == "split" else [0, 1, 2, 63, 64, 500])
            if n:
                rows.append((cp, cp + n - 1, "disallowed", (), 2))
                cp += n
        rows.append((cp, 0x10ffff, "disallowed", (), 2))
    if rng.random() < 0.4:   # what is disallowed need not be listed
        rows = [r for r in rows if r[4] != 2 or (r[0] <= top and rng.random() < 0.7)]
    # identifiers
    start = [(0x41, 0x5a), (0x61, 0x7a)]
    cont = [(0x30, 0x39), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a)]
    cp = 0x80
    end = pick([0x10ffff, 0x2000, 0x32000, 0xe01f0, 0x10fffd])
    lone = {x for x in (0xaa, 0xffff, 0x10000, 0x1ffff, 0xfffff, 0x100000, 0x10fffd, 0x10ffff) if x <= end and rng.random() < 0.5}
    spared = {x + d for x in lone for d in (-1, 0, 1)}
    while cp <= end:
        n = rng.choice([1, 1, 2, rng.randrange(1, 30), rng.randrange(1, 300), rng.randrange(1, 30000)])
        b = min(cp + n - 1, end)
        if cp <= 0xdfff and b >= 0xd800:
            cp = 0xe000
            continue
        r = rng.random()
        if spared.intersection(range(cp, min(b, cp + 70000) + 1)):
            r = 1
        if r < 0.3:
            start.append((cp, b))
        if r < 0.55:
            cont.append((cp, b))
        cp = b + 1 + rng.choice([0, 1, 1, 5, 400])
    cont += [(x, x) for x in lone]
    start += [(x, x) for x in lone if rng.random() < 0.7]
    return rows, sorted(start), sorted(cont)


def brim(rng, over):
    """Mapping data that fill the table of mapped texts (offsets of 16 bits, some of them reserved): just within, or over."""
    _, start, cont = synth(rng, "one")
    rows, seen, size = [], set(), 1
    goal = rng.choice([0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001]) if over else rng.randrange(0xf000, 0xfde0)
    cp = 0x80
    while True:
        n = rng.randrange(1, 19)
        left = goal - size - 1
        if left < 160:
            m = tuple(rng.randrange(0x61, 0x7b) for _ in range(left)) if left > 0 else ()
        else:
            m = tuple(rng.choice([rng.randrange(0x61, 0x7b), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0x10000, 0x30000)]) for _ in range(n))
        if m and m not in seen:
            seen.add(m)
            size += len("".join(map(chr, m)).encode()) + 1
            rows.append((cp, cp, "mapped", m, 3))
            cp += 1
        if left < 160:
            break
    last = (0x62, 0x3b1)   # the one that starts at the goal
    rows.append((cp, cp, "mapped", last, 3))
    if over and rng.random() < 0.5:
        rows.append((cp + 1, cp + 1, "mapped", (0x63, 0x64), 3))
        cp += 1
    rows = [(0, 0x7f, "valid", (), 1)] + rows + [(cp + 1, cp + 70, "valid", (), 1), (cp + 71, 0x10ffff, "disallowed", (), 2)]
    return rows, start, cont


def full(rows):
    """Bytes that the mapped texts take when each is stored once (the table can index some 65500)."""
    return 1 + sum(len("".join(map(chr, m)).encode()) + 1 for m in {r[3] for r in rows if r[4] == 3}) > 0xfe00


def idna_text(rows, rng, version):
    out = ["# IdnaMappingTable.txt", "# Date: 2031-02-03, 04:05:06 GMT", "# (c) synthetic", "#", "# Unicode IDNA Compatible Preprocessing for UTS #46", "# Version: %s" % version, "#", "# For documentation and usage, see https://www.unicode.org/reports/tr46", "#", ""]
    for a, b, status, m, _ in rows:
        if a > b:
            continue
        code = "%04X" % a if a == b else "%04X..%04X" % (a, b)
        f = code.ljust(14) + "; " + status.ljust(23)
        if m or status in ("mapped", "disallowed_STD3_mapped", "deviation"):
            f += "; " + " ".join("%04X" % x for x in m).ljust(16)
        if status == "valid" and rng.random() < 0.2:
            f += ";      ; " + rng.choice(["NV8", "XV8"])
        out.append(f + " # 1.1  NAME; WITH, a <comment> # here")
        if rng.random() < 0.01:
            out.append("")
        if rng.random() < 0.01:
            out.append("# 0041..005A ; disallowed # commented out")
    out += ["", "# Total code points: 1114112", "", "# EOF", ""]
    return "\n".join(out)


def derived_text(start, cont, rng, version):
    def sect(name, ranges):
        out = ["# ================================================", "", "# Derived Property: %s" % name, "#  Characters that ...", "#", ""]
        for a, b in ranges:
            code = "%04X" % a if a == b else "%04X..%04X" % (a, b)
            out.append(code.ljust(14) + "; " + name + " # L&  [%d] NAME; X" % (b - a + 1))
        return out + ["", "# Total code points: %d" % sum(b - a + 1 for a, b in ranges), ""]
    xs = [(a, b) for a, b in start if rng.random() < 0.9]
    return "\n".join(["# DerivedCoreProperties-%s.txt" % version, "# Date: 2031-02-03", "", *sect("Lowercase", [(0x61, 0x7a)]), *sect("ID_Start", start), *sect("ID_Continue", cont), *sect("XID_Start", xs), *sect("XID_Continue", cont), "# EOF", ""])


# What the scripts get instead of the network: the files in the directory "served", or an error when there is none.
STUB = '''
import os as _os
class _R:
    status_code, ok, reason, encoding, apparent_encoding = 200, True, "OK", "utf-8", "utf-8"
    headers = {"content-type": "text/plain; charset=utf-8"}
    def __init__(self, b, u): self.content, self.text, self.url = b, b.decode("utf-8"), u
    def raise_for_status(self): pass
    def iter_content(self, n=1024, **k): return iter([self.content[i:i + (n or 1024)] for i in range(0, len(self.content), n or 1024)])
    def iter_lines(self, **k): return iter(self.content.splitlines())
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
def get(url, *a, **k):
    d = _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "served")
    f = _os.path.join(d, url.rsplit("/", 1)[-1])
    if not _os.path.isfile(f):
        raise RuntimeError("no network")
    open(_os.path.join(d, "asked"), "a").write(url + "\\n")
    return _R(open(f, "rb").read(), url)
class Session:
    headers = {}
    def get(self, url, *a, **k): return get(url)
    def mount(self, *a): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
'''


def tree(c, name):
    t = os.path.join(c.dir, name)
    os.makedirs(t)
    for k in ("src", "include", "scripts"):
        shutil.copytree(os.path.join(REPO, k), os.path.join(t, k))
    st = os.path.join(t, "stub")
    os.makedirs(st)
    with open(st + "/requests.py", "w") as f:
        f.write(STUB)
    os.makedirs(t + "/cwd")
    return t


def script(c, t, name, *args):
    e = dict(os.environ, PYTHONPATH=os.path.join(t, "stub"), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, os.path.join(t, "scripts", name), *args], cwd=t + "/cwd", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=300)
    return p


def rebuild(c, t, harness, extra=()):
    """The library of tree t with a harness; (exe, error)."""
    exe = "%s/%s.exe" % (t, os.path.basename(harness).split(".")[0])
    p = c.cc(["g++", "-std=c++20", "-O1", "-I" + t + "/include", "-I" + H, harness, t + "/src/idna.cpp", "-o", exe, "-lpthread", *extra], "the rebuilt library", must=False)
    return exe, (first_error(p.stdout) if p.returncode else "")


def c23(c):
    if c.replay:
        return
    rng = random.Random(c.seed * 7919 + 23)
    n = 96 if c.thorough else 11
    sets = [synth(random.Random(rng.random()), {0: "one", 1: "none", 2: "split", 3: "active", 8: "after v", 9: "after m", 10: "before"}.get(k), k % 24 == 7, k) for k in range(n)]
    sets += [brim(random.Random(rng.random()), k % 3 != 2) for k in range(24 if c.thorough else 3)] + [published()]
    par([(synthetic, c, i, s, rng.randrange(1 << 30)) for i, s in enumerate(sets)] + [(relayout, c, i) for i in range(24 if c.thorough else 3)])
    repack(c)
    c.distinct = len(sets)


def published():
    """The mapping and identifier data of Unicode 17 (oracle/ucd17.txt), as if just published."""
    rows, start, cont, cp = [], [], [], 0
    for l in open(os.path.join(VERIF, "oracle", "ucd17.txt")):
        f = l.split()
        if f[0] == "S":
            a, b = int(f[1], 16), int(f[2], 16)
            if cp < a:
                rows.append((cp, a - 1, "disallowed", (), 2))
            rows.append({"V": (a, b, "valid", (), 1), "I": (a, b, "ignored", (), 0)}.get(f[3]) or (a, b, "mapped", tuple(int(x, 16) for x in f[4:]), 3))
            cp = b + 1
        elif f[0] in "st":
            (start if f[0] == "s" else cont).append((int(f[1], 16), int(f[2], 16)))
    rows.append((cp, 0x10ffff, "disallowed", (), 2))
    return rows, start, cont


def mixed_blocks(rows):
    """How many different blocks of 64 code points hold mapped or ignored ones (the table can index 512)."""
    flat = {}
    for a, b, _, m, code in rows:
        for cp in range(a, min(b, 0xfffff) + 1):
            if code != 2:
                flat.setdefault(cp >> 6, {})[cp & 63] = (code, m if code == 3 else ())
    return len({tuple(sorted(x.items())) for x in flat.values() if any(v[0] != 1 for v in x.values())})


def expected_text(rows, start, cont, m=True, i=True):
    out = []
    if m:
        for a, b, _, mp, code in rows:
            if a <= b:
                out.append("M %X %X %d %s" % (a, b, code, " ".join("%X" % x for x in mp) if code == 3 else ""))
    if i:
        out += ["S %X %X" % r for r in start] + ["C %X %X" % r for r in cont]
    return "\n".join(out) + "\n"


def synthetic(c, i, s, seed):
    rows, start, cont = s
    rng = random.Random(seed)
    t = tree(c, "syn%d" % i)
    ver = "%d.%d.0" % (rng.randrange(15, 40), rng.randrange(3))
    what = "data set %d of seed %d" % (i, c.seed)
    where = t + "/cwd"
    if i % 8 == 5:   # no file here yet: the scripts fetch them
        where = t + "/stub/served"
        os.makedirs(where)
        what += " (fetched)"
    with open(where + "/IdnaMappingTable.txt", "w") as f:
        f.write(idna_text(rows, rng, ver))
    with open(where + "/DerivedCoreProperties.txt", "w") as f:
        f.write(derived_text(start, cont, rng, ver))
    order = [("idna_table.py", "--write"), ("derived_table.py", "--write")]
    if rng.random() < 0.5:
        order.reverse()
    if rng.random() < 0.5:
        order.append(("pack_tables.py",))
    for a in order:
        p = script(c, t, *a)
        if p.returncode and a[0] == "idna_table.py" and (mixed_blocks(rows) > 500 or full(rows)):
            # more than the format can index: refused, and the tables must be as they were
            c.counters["data sets refused (too much for the format)"] = c.counters.get("data sets refused (too much for the format)", 0) + 1
            for f in ("table_blob.inc", "mapping_tables.cpp"):
                x, y = os.path.join(t, "src", f), os.path.join(REPO, "src", f)
                if os.path.exists(y) and open(x).read() != open(y).read() and order[0] == a:
                    c.violation("half written", "%s: %s fails and leaves a changed src/%s" % (what, " ".join(a), f), "", [])
            shutil.rmtree(t)
            return
        if p.returncode and where != t + "/cwd" and not os.path.exists(where + "/asked"):
            c.notes.append("%s: not judged, the files are not fetched with requests.get: %s" % (what, p.stderr[-200:]))
            return
        if p.returncode:
            c.violation("script fails", "%s: %s: %s" % (what, " ".join(a), p.stderr[-500:]), "", [])
            return
    if where != t + "/cwd":
        c.counters["data sets fetched by the scripts"] = c.counters.get("data sets fetched by the scripts", 0) + 1
    with open(t + "/want", "w") as f:
        f.write(expected_text(rows, start, cont))
    exe, err = rebuild(c, t, H + "/h_probe.cpp")
    if err:
        c.violation("does not compile", "%s: the rebuilt library: %s" % (what, err), "", [])
        return
    c.prog([exe, t + "/want"], what, limit=120)
    # what the scripts print without --write
    a, b = script(c, t, "idna_table.py"), script(c, t, "derived_table.py")
    if a.returncode or b.returncode:
        c.violation("script fails", "%s: printing the tables: %s" % (what, (a.stderr + b.stderr)[-500:]), "", [])
    else:
        printed(c, t, a.stdout, b.stdout, what)
    c.counters["data sets"] = c.counters.get("data sets", 0) + 1
    c.counters["ranges in the data sets"] = c.counters.get("ranges in the data sets", 0) + len(rows) + len(start) + len(cont)
    if len(c.samples) < 4:
        c.samples.append("%s: %d mapping rows up to U+%04X, %d/%d identifier ranges, e.g. %s" % (what, len(rows), rows[-1][0], len(start), len(cont), rows[len(rows) // 2]))
    shutil.rmtree(t)


def printed(c, t, mapping, ident, what):
    """The printed C++ tables, compiled next to the library's lookup code, give the same answers."""
    with open(t + "/m.inc", "w") as f:
        f.write(mapping)
    with open(t + "/i.inc", "w") as f:
        f.write(ident)
    with open(t + "/printed.cpp", "w") as f:
        f.write('''#include <cstdint>
#include <cstddef>
#include <string>
#include "m.inc"
#include "i.inc"
namespace ada::idna {
static bool one(uint32_t cp, std::u32string& o) {
  uint16_t v = IDNA_DISALLOWED;
  if (cp < IDNA_LOW_RANGE_END) {
    uint16_t r = idna_stage1[cp >> IDNA_BLOCK_BITS];
    if (r & IDNA_BOOL_FLAG) v = (idna_bool_blocks[r & (uint16_t)~IDNA_BOOL_FLAG] >> (cp & IDNA_BLOCK_MASK)) & 1 ? IDNA_VALID : IDNA_DISALLOWED;
    else v = idna_stage2[r + (cp & IDNA_BLOCK_MASK)];
  } else if (cp >= IDNA_HIGH_IGNORED_START && cp < IDNA_HIGH_IGNORED_END) v = IDNA_IGNORED;
  if (v == IDNA_DISALLOWED) return false;
  if (v == IDNA_VALID) { o += (char32_t)cp; return true; }
  for (const uint8_t* p = idna_utf8_mappings + v; *p;) {
    uint32_t b = *p++;
    int k = b < 0x80 ? 0 : b < 0xe0 ? 1 : b < 0xf0 ? 2 : 3;
    uint32_t x = k == 0 ? b : k == 1 ? b & 31 : k == 2 ? b & 15 : b & 7;
    while (k--) x = x << 6 | (*p++ & 63);
    o += (char32_t)x;
  }
  return true;
}
bool map(std::u32string_view in, std::u32string& o) { o.clear(); for (char32_t x : in) if (!one((uint32_t)x, o)) { o.clear(); return false; } return true; }
bool valid_name_code_point(char32_t x, bool first) {
  if (x == '$' || (first && x == '_')) return true;
  if (first) { for (auto& r : id_start) if (x >= r[0] && x <= r[1]) return true; } else { for (auto& r : id_continue) if (x >= r[0] && x <= r[1]) return true; }
  return false;
}
}
''')
    p = c.cc(["g++", "-std=c++20", "-O2", "-I" + t, "-I" + t + "/include", H + "/h_probe.cpp", t + "/printed.cpp", "-o", t + "/printed"], "printed tables", must=False)
    if p.returncode:
        c.notes.append("the printed tables have another form than expected; not judged: " + first_error(p.stdout)[:200])
        return
    c.prog([t + "/printed", t + "/want"], what + ", tables as printed", limit=240)


def repack(c):
    """Packing again without a change of data: the same answers."""
    t = tree(c, "repack")
    exe0, err0 = rebuild(c, t, H + "/h_digest.cpp")
    if err0:
        raise Inconclusive("the library does not build: " + err0)
    os.rename(exe0, exe0 + ".before")
    p = script(c, t, "pack_tables.py")
    if p.returncode:
        c.violation("script fails", "pack_tables.py: " + p.stderr[-500:], "", [])
        return
    first = open(t + "/src/table_blob.inc").read()
    exe1, err1 = rebuild(c, t, H + "/h_digest.cpp")
    if err1:
        c.violation("does not compile", "after packing again: " + err1, "", [])
        return
    chunks, per = 64, 200
    a, ea = digest(c, exe0 + ".before", "before", chunks, per)
    b, eb = digest(c, exe1, "after", chunks, per)
    if a is None:
        c.violation("crash", "the library as it is: " + ea, "", [])
        return
    if b is None:
        c.violation("crash", "after packing again: " + eb, "", [])
        return
    c.evaluations += int(a[-2].split()[1])
    compare(c, (exe0 + ".before", a), "after packing again", exe1, b, chunks, per)
    p = script(c, t, "pack_tables.py")
    if p.returncode or open(t + "/src/table_blob.inc").read() != first:
        c.violation("not stable", "packing a second time gives another file or fails: " + p.stderr[-300:], "", [])
    # other tables stay when one part is regenerated: mapping and identifiers from synthetic data, normalization must not change
    rng = random.Random(c.seed * 31 + 5)
    rows, start, cont = synth(rng)
    with open(t + "/cwd/DerivedCoreProperties.txt", "w") as f:
        f.write(derived_text(start, cont, rng, "20.0.0"))
    p = script(c, t, "derived_table.py", "--write")
    if p.returncode:
        c.violation("script fails", "derived_table.py: " + p.stderr[-500:], "", [])
        return
    with open(t + "/want", "w") as f:
        f.write(expected_text(rows, start, cont, m=False))
    exe, err = rebuild(c, t, H + "/h_probe.cpp")
    if err:
        c.violation("does not compile", "after derived_table.py: " + err, "", [])
        return
    c.prog([exe, t + "/want"], "identifiers alone regenerated", limit=120)
    exe2, err = rebuild(c, t, H + "/h_digest.cpp", ["-DNO_IDENT"])
    if not err:
        # -DNO_IDENT: the digest without valid_name_code_point
        os.rename(exe2, exe2 + ".id")
        base = os.path.join(c.dir, "plain")
        c.cc(["g++", "-std=c++20", "-O1", "-DNO_IDENT", *INC, "-I" + H, H + "/h_digest.cpp", LIB, "-o", base, "-lpthread"], "the library")
        x, ex = digest(c, base, "plain", chunks, per)
        y, ey = digest(c, exe2 + ".id", "id", chunks, per)
        if y is None or x is None:
            c.violation("crash", "after derived_table.py: " + (ex or ey), "", [])
        else:
            c.evaluations += int(y[-2].split()[1])
            compare(c, (base, x), "everything but identifiers after derived_table.py", exe2 + ".id", y, chunks, per)
    shutil.rmtree(t)


RELAYOUT = '''
import random, sys
sys.path.insert(0, sys.argv[1])
import pack_tables as p
r = random.Random(int(sys.argv[2]))
s = p.load_blob_sections()
before = {k: list(v) for k, v in s.items() if isinstance(v, list)}
def some(): return r.random() < 0.6
def split(flat, k):   # one range [a, b] becomes two
    i = r.choice([i for i in range(0, len(flat), 2) if flat[i] < flat[i + 1]])
    m = r.randrange(flat[i], flat[i + 1])
    return flat[:i + 1] + [m, m + 1] + flat[i + 1:]
for block, index, cols in (("decomposition_block", "decomposition_index", 257), ("ccc_block", "ccc_index", 256), ("composition_block", "composition_index", 257)):
    b, ix = list(s[block]), list(s[index])
    n = len(b) // cols
    for _ in range(r.randrange(4)):   # rows change places
        x, y = r.randrange(n), r.randrange(n)
        b[x * cols:(x + 1) * cols], b[y * cols:(y + 1) * cols] = b[y * cols:(y + 1) * cols], b[x * cols:(x + 1) * cols]
        ix = [y if v == x else x if v == y else v for v in ix]
    for _ in range(r.randrange(3)):   # a row more: a copy, which half of its pages then use
        x = r.randrange(n)
        b += b[x * cols:(x + 1) * cols]
        m = len(b) // cols - 1
        ix = [m if v == x and r.random() < 0.5 else v for v in ix]
    s[block], s[index] = b, ix
for name, hi in (("idna_stage2", 0xfffe), ("idna_bool_blocks", 2 ** 64 - 1), ("decomposition_data", 0x10ffff), ("composition_data", 0x10ffff), ("idna_utf8_mappings", 255)):
    if some():                        # values at the end that nothing refers to
        s[name] = s[name] + [r.randrange(hi + 1) for _ in range(r.randrange(1, 9))] + ([0] if name == "idna_utf8_mappings" else [])
for name in ("id_continue_flat", "id_start_flat", "combining_flat"):
    for _ in range(r.randrange(4)):
        s[name] = split(list(s[name]), 2)
for _ in range(r.randrange(4)):
    d, f, v = list(s["dir_start"]), list(s["dir_final"]), list(s["dir_value"])
    i = r.choice([i for i in range(len(d)) if d[i] < f[i]])
    m = r.randrange(d[i], f[i])
    s["dir_start"], s["dir_final"], s["dir_value"] = d[:i + 1] + [m + 1] + d[i + 1:], f[:i] + [m] + f[i:], v[:i + 1] + [v[i]] + v[i + 1:]
p.write_blob(s)
t = p.load_blob_sections()
for k in before:
    if list(t[k]) != list(s[k]):
        print("section %s reads back as %d values, %d were written" % (k, len(t[k]), len(s[k])))
        sys.exit(9)
print("changed", sum(s[k] != before[k] for k in before))
'''


def relayout(c, i):
    """pack_tables.py as a module, as its documentation shows: sections replaced by others that mean the same."""
    t = tree(c, "relayout%d" % i)
    what = "sections laid out anew (%d of seed %d)" % (i, c.seed)
    src = open(t + "/scripts/pack_tables.py").read()
    if "def load_blob_sections(" not in src or "def write_blob(" not in src:
        c.notes.append("pack_tables.py has no load_blob_sections/write_blob; not judged")
        return
    with open(t + "/relayout.py", "w") as f:
        f.write(RELAYOUT)
    p = subprocess.run([sys.executable, "-B", t + "/relayout.py", t + "/scripts", str(c.seed * 100 + i)], cwd=t + "/cwd", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    if p.returncode == 9:
        c.violation("reads back", what + ": " + p.stdout.strip(), "", [])
        return
    if p.returncode:
        if "write_blob" in p.stderr or "_parse" in p.stderr or "pack_tables.py" in p.stderr:
            c.violation("script fails", what + ": " + p.stderr[-500:], "", [])
        else:
            c.notes.append(what + ": not judged: " + p.stderr[-200:])
        return
    exe, err = rebuild(c, t, H + "/h_digest.cpp")
    if err:
        c.violation("does not compile", what + ": " + err, "", [])
        return
    base = os.path.join(c.dir, "relayout_base%d" % i)
    c.cc(["g++", "-std=c++20", "-O1", *INC, "-I" + H, H + "/h_digest.cpp", LIB, "-o", base, "-lpthread"], "the library")
    x, ex = digest(c, base, "rb%d" % i, 16, 100)
    y, ey = digest(c, exe, "ra%d" % i, 16, 100)
    if x is None or y is None:
        c.violation("crash", what + ": " + (ex or ey), "", [])
    else:
        c.evaluations += int(y[-2].split()[1])
        compare(c, (base, x), what, exe, y, 16, 100)
    c.counters["sections laid out anew"] = c.counters.get("sections laid out anew", 0) + 1
    shutil.rmtree(t)


# ---- C24: big-endian hosts ---------------------------------------------------------------------------------------
SWAP = """
import sys
sys.path.insert(0, sys.argv[1])
import pack_tables as p
width = {"idna_stage1": 2, "idna_stage2": 2, "idna_bool_blocks": 8, "idna_utf8_mappings": 1, "decomposition_index": 1, "decomposition_block": 2,
         "decomposition_data": 4, "ccc_index": 1, "ccc_block": 1, "composition_index": 1, "composition_block": 2, "composition_data": 4,
         "id_continue_flat": 4, "id_start_flat": 4, "dir_start": 4, "dir_final": 4, "dir_value": 1, "combining_flat": 4}
s = p.load_blob_sections()
for name, values in s.items():
    if not name.startswith("_"):
        s[name] = [int.from_bytes(v.to_bytes(width[name], "little"), "big") for v in values]
p.write_blob(s)
"""


def swapped_blob(c, refs, comp):
    """A black box for the conversion: tables packed with every element byte-swapped, in a library that believes its host
    to be big-endian: after the conversion they are this host's, and all answers must be those of the plain library."""
    t = tree(c, "swap")
    p = subprocess.run([sys.executable, "-c", SWAP, t + "/scripts"], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if p.returncode:
        c.notes.append("the tables cannot be packed byte-swapped (pack_tables.py has changed): " + p.stdout[-200:])
        return
    chunks, per = 64, (20000 if c.thorough else 400)
    lim = 3600 if c.thorough else 120

    def one(cc, ref):
        exe = "%s/swapped_%s" % (t, cc)
        q = c.cc([cc, "-std=c++20", "-O2", "-include", H + "/fake_endian.hpp", "-I" + t + "/include", "-c", t + "/src/idna.cpp", "-o", exe + ".o"], "the library for a big-endian host", must=False)
        if q.returncode:
            raise Inconclusive("the library does not build for a big-endian host: " + first_error(q.stdout))
        c.cc([cc, "-std=c++20", "-O2", "-I" + t + "/include", "-I" + H, H + "/h_digest.cpp", exe + ".o", "-o", exe, "-lpthread"], "h_digest")
        return digest(c, ref, "plain" + cc, chunks, per, limit=lim), digest(c, exe, "swapped" + cc, chunks, per, limit=lim), exe
    for cc, ref, (a, b, exe) in zip(comp, refs, par([(one, cc, ref) for cc, ref in zip(comp, refs)])):
        if a[0] is None:
            raise Inconclusive("the library as it is: " + a[1])
        if b[0] is None:
            c.violation("crash", "with byte-swapped tables on a big-endian host (%s): %s" % (cc, b[1]), "", [])
            continue
        c.evaluations += int(a[0][-2].split()[1])
        compare(c, (ref, a[0]), "byte-swapped tables on a big-endian host (%s)" % cc, exe, b[0], chunks, per)
    shutil.rmtree(t)


def c24(c):
    if c.replay:
        return
    d = c.dir
    inc = [*INC, "-I" + os.path.join(REPO, "src"), "-I" + H]
    fake = ["-include", H + "/fake_endian.hpp"]
    comp = ["g++", "clang++"]

    def mk(cc, be):
        exe = "%s/%s_%s" % (d, "be" if be else "le", cc)
        p = c.cc([cc, "-std=c++20", "-O1", *inc, "-DFULL", *(fake if be else []), H + "/h_endian.cpp", "-o", exe, "-lpthread"], "h_endian", must=False)
        return exe, p
    def plain(cc):  # the same compiler: the generator's order of evaluation is the compiler's
        exe = "%s/ref_%s" % (d, cc)
        return exe, c.cc([cc, "-std=c++20", "-O2", *inc, H + "/h_digest.cpp", LIB, "-o", exe, "-lpthread"], "h_digest", must=False)
    r = par([(mk, cc, be) for cc in comp for be in (False, True)] + [(plain, cc) for cc in comp])
    for exe, p in r[2 * len(comp):]:
        if p.returncode:
            raise Inconclusive("%s does not build: %s" % (exe, p.stdout[-2000:]))
    names = all(p.returncode == 0 for exe, p in r)
    if not names:
        c.notes.append("the internal names of the tables have changed: compared by answers only")
    swapped_blob(c, [x[0] for x in r[2 * len(comp):]], comp)
    c.counters["tables compared element by element"] = int(names)
    c.distinct = 1
    c.samples = ["the library with a byte-swapped table blob, two compilers"]
    if not names:
        return
    chunks, per = 64, (20000 if c.thorough else 400)
    for k, cc in enumerate(comp):
        le, be = r[2 * k][0], r[2 * k + 1][0]
        if c.prog([le, "write", d + "/tables.bin"], "the little-endian tables (%s)" % cc) is None:
            return
        a, ea = digest(c, r[4 + k][0], "ref" + cc, chunks, per, limit=3600 if c.thorough else 120)
        out = os.path.join(d, "be.digest")
        if os.path.exists(out):
            os.unlink(out)
        t = c.prog([be, "digest", d + "/tables.bin", *digest_cmd(c, be, out, chunks, per)[1:]], "conversion for a big-endian host (%s)" % cc, limit=3600 if c.thorough else 120)
        m = re.search(r"multi-byte elements (\d+)", t or "")
        if m:
            c.counters["multi-byte elements converted and compared"] = int(m.group(1))
        if os.path.exists(out) and a is not None and not any(v[0] == "element" for v in c.viol):
            rows = open(out).read().split("\n")
            c.evaluations += int(rows[-2].split()[1]) if rows and len(rows) > 2 else 0
            if rows != a:
                for x, y in zip(a, rows):
                    if x != y:
                        c.violation("answers", "with the tables a big-endian host sees, chunk %s of the workload answers differently" % x.split()[0], "", [be])
                        break
    c.distinct += c.counters.get("multi-byte elements converted and compared", 0)
    c.samples += ["every element of the 18 tables", "18 tables, two compilers"]
