#!/usr/bin/env python3
"""Mutation runs over /repo/src in scratch copies: which one-place changes do the monitors (one shard each) leave unseen, and
which of those do the existing tests leave unseen too. Development aid, used by no check.
mutate.py OUT WORKERS [FILE...]   (STEP=n: every n-th mutant, from START)"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
SEQ = {"punycode.cpp": ["C07", "C08", "C01"], "mapping.cpp": ["C10", "C14", "C01"], "normalization.cpp": ["C11", "C05"], "validity.cpp": ["C12", "C01", "C02"],
       "to_ascii.cpp": ["C01", "C03", "C06", "C14", "C04"], "to_unicode.cpp": ["C02", "C06"], "unicode_transcoding.cpp": ["C09"], "identifier.cpp": ["C13"],
       "raw_inflate.hpp": ["C19"], "table_store.hpp": ["C10", "C16"]}
ASAN = ["-std=c++20", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-divide-by-zero,local-bounds", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
HARN = {"C01": "h_domain", "C02": "h_domain", "C03": "h_domain", "C04": "h_domain", "C05": "h_domain", "C06": "h_domain", "C19": "h_inflate", "C16": "h_init"}


def mutants(f):
    src = open("/repo/src/" + f).read().split("\n")
    out = []
    com = False
    for n, l in enumerate(src):
        s = l.strip()
        if s.startswith("//") or s.startswith("#") or s.startswith("static_assert") or s.startswith("ADA_IDNA_SECTION") or not s or s.startswith("namespace"):
            continue
        code = l.split("//")[0]

        def sub(a, b, new, kind):
            out.append((n, l[:a] + new + l[b:], kind))
        for m in re.finditer(r"(?<=[\w)\] ])(<=|>=|==|!=|<|>)(?= )", code):
            if m.start() and code[m.start() - 1] != " ":
                continue
            for r in {"<": ["<=", ">"], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group(1)]:
                sub(m.start(), m.end(), r, m.group(1) + "->" + r)
        for m in re.finditer(r"&&|\|\|", code):
            sub(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "logic")
        for m in re.finditer(r"(?<= )[+\-*/%&|^](?= )", code):
            r = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/", "&": "|", "|": "&", "^": "|"}[m.group()]
            sub(m.start(), m.end(), r, m.group() + "->" + r)
        for m in re.finditer(r"<<|>>", code):
            sub(m.start(), m.end(), ">>" if m.group() == "<<" else "<<", "shift")
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
            v = int(m.group(1), 0)
            for d in (1, -1):
                if v + d >= 0:
                    sub(m.start(), m.end(), hex(v + d) if m.group(1).startswith("0x") else str(v + d), "const%+d" % d)
        for m in re.finditer(r"!(?=[\w(])", code):
            sub(m.start(), m.end(), "", "not")
        for m in re.finditer(r"return (true|false);", code):
            sub(m.start(), m.end(), "return %s;" % ("false" if m.group(1) == "true" else "true"), "return")
        for m in re.finditer(r"\bif \((.*)\) \{$", code):
            sub(m.start(1), m.end(1), "false && (%s)" % m.group(1), "if false")
            sub(m.start(1), m.end(1), "true || (%s)" % m.group(1), "if true")
        if re.match(r"\s*(\w[\w.\->\[\]+*: ]*(\(.*\)|[+\-*|&^<>]*= .*|\+\+|--)|\+\+\w+|--\w+|continue|break);$", code) and not re.match(r"\s*(const|static|inline|auto|size_t|uint\w+|int\w*|char\w*|std::\w+ \w|return|using|bool|extern|thread_local)", code):
            out.append((n, re.match(r"\s*", l).group() + ";", "delete"))
        m = re.search(r"memory_order_(acquire|release|acq_rel)", code)
        if m:
            sub(m.start(), m.end(), "memory_order_relaxed", "order")
    return src, out


def sh(cmd, t, **k):
    try:
        return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t, **k).returncode
    except subprocess.TimeoutExpired:
        return "timeout"


def one(job):
    k, f, src, (n, new, kind) = job
    d = "%s/m%d" % (W, k)
    os.makedirs(d)
    rec = {"k": k, "file": f, "line": n + 1, "kind": kind, "old": src[n].strip(), "new": new.strip()}
    try:
        shutil.copytree("/repo/src", d + "/src")
        shutil.copytree("/repo/include", d + "/include")
        t = list(src)
        t[n] = new
        open(d + "/src/" + f, "w").write("\n".join(t))
        if sh(["g++", "-std=c++20", "-O1", "-I" + d + "/include", "-c", d + "/src/idna.cpp", "-o", d + "/l.o"], 200):
            rec["end"] = "does not compile"
            return rec
        for p in SEQ[f]:
            h = HARN.get(p, "h_core")
            o = "%s/%s.o" % (W, h)
            if h in ("h_inflate", "h_init"):
                o = d + "/h.o"
                if sh(["g++", "-std=c++20", "-O1", "-DHAVE_BLOB", "-I" + d + "/include", "-I" + d + "/src", "-I" + V + "/harness", "-c", "%s/harness/%s.cpp" % (V, h), "-o", o], 200):
                    rec["end"] = "harness does not compile"
                    return rec
            if sh(["g++", o, d + "/l.o", "-o", d + "/x", "-lpthread", "-lz"], 60):
                rec["end"] = "does not link"
                return rec
            r = sh([d + "/x", "--prop", p, "--tier", "quick", "--seed", "1", "--oracle", V + "/oracle", "--shard", str(k % 8), "--shards", "8", "--scale", "0.5", "--out", d + "/o.json"], 150, cwd=d)
            if r != 0 or json.load(open(d + "/o.json"))["nviolations"]:
                rec["end"] = "seen by " + p + ("" if r == 0 else " (%s)" % r)
                return rec
        if sh(["clang++", *ASAN, "-I" + d + "/include", "-c", d + "/src/idna.cpp", "-o", d + "/l.o"], 200) == 0 and sh(["clang++", *ASAN, W + "/h_mem.o", d + "/l.o", "-o", d + "/x", "-lpthread"], 100) == 0:
            r = sh([d + "/x", "--prop", "C18", "--tier", "quick", "--seed", "1", "--oracle", V + "/oracle", "--shard", str(k % 8), "--shards", "8", "--scale", "3", "--out", d + "/o.json"], 300, cwd=d)
            if r != 0 or json.load(open(d + "/o.json"))["nviolations"]:
                rec["end"] = "seen by C18 (%s)" % r
                return rec
        rec["end"] = "UNSEEN"
        # do the tests see it?
        sh(["cp", "-a", "/repo/.", d + "/r"], 60)
        shutil.copy(d + "/src/" + f, d + "/r/src/" + f)
        rec["tests"] = tests(d)
        return rec
    except Exception as e:
        rec["end"] = "error %r" % e
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tests(d):
    s = "mount --bind %s/r /repo && bash /opt/vp/test.sh %s/t.json >%s/t.log 2>&1; tail -1 %s/t.log" % (d, d, d, d)
    try:
        return subprocess.run(["unshare", "-m", "bash", "-c", s], stdout=subprocess.PIPE, text=True, timeout=400).stdout.strip()
    except subprocess.TimeoutExpired:
        return "timeout"


def main():
    out, workers, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:] or list(SEQ)
    os.makedirs(W, exist_ok=True)
    for h in ("h_core", "h_domain"):
        subprocess.run(["g++", "-std=c++20", "-O2", "-I/repo/include", "-I" + V + "/harness", "-c", "%s/harness/%s.cpp" % (V, h), "-o", "%s/%s.o" % (W, h)], check=True)
    subprocess.run(["clang++", *ASAN, "-I/repo/include", "-I" + V + "/harness", "-c", V + "/harness/h_mem.cpp", "-o", W + "/h_mem.o"], check=True)
    jobs = []
    for f in files:
        src, ms = mutants(f)
        jobs += [(f, src, m) for m in ms]
    step, start = int(os.environ.get("STEP", "1")), int(os.environ.get("START", "0"))
    jobs = [(k, *j) for k, j in enumerate(jobs)][start::step]
    print(len(jobs), "mutants")
    with ThreadPoolExecutor(workers) as ex, open(out, "a") as g:
        for r in ex.map(one, jobs):
            g.write(json.dumps(r) + "\n")
            g.flush()
            if r["end"] == "UNSEEN":
                print(json.dumps(r), flush=True)


main()
