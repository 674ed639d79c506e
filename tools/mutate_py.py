#!/usr/bin/env python3
"""Mutation runs over the Python scripts of the repository: which one-place changes does the check (C23 or C22) leave unseen?
Development aid, used by no check.  mutate_py.py OUT WORKERS CHECK FILE...   (STEP=n, START=k; FILE relative to /repo)"""
import ast, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor


def mutants(f):
    text = open("/repo/" + f).read()
    src = text.split("\n")
    doc = set()
    for node in ast.walk(ast.parse(text)):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str):
            doc.update(range(node.lineno, node.end_lineno + 1))
    out = []
    for n, l in enumerate(src):
        s = l.strip()
        if not s or s.startswith("#") or (n + 1) in doc or s.startswith(("import", "from", "print(")):
            continue
        code = l.split("  #")[0]

        def sub(a, b, new, kind):
            out.append((n, l[:a] + new + l[b:], kind))
        for m in re.finditer(r"(?<= )(<=|>=|==|!=|<|>)(?= )", code):
            for r in {"<": ["<=", ">"], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group(1)]:
                sub(m.start(), m.end(), r, m.group(1) + "->" + r)
        for m in re.finditer(r"\b(and|or)\b", code):
            sub(m.start(), m.end(), "or" if m.group() == "and" else "and", "logic")
        for m in re.finditer(r"\bnot (?!in\b)", code):
            sub(m.start(), m.end(), "", "not")
        for m in re.finditer(r"(?<= )(//|[+\-*%&|^])(?= )", code):
            r = {"+": "-", "-": "+", "*": "+", "//": "*", "%": "+", "&": "|", "|": "&", "^": "|"}[m.group()]
            sub(m.start(), m.end(), r, m.group() + "->" + r)
        for m in re.finditer(r"<<|>>", code):
            sub(m.start(), m.end(), ">>" if m.group() == "<<" else "<<", "shift")
        for m in re.finditer(r"(?<![\w.\"'])(0x[0-9a-fA-F]+|\d+)(?![\w.\"'])", code):
            v = int(m.group(1), 0)
            for d in (1, -1):
                if v + d >= 0:
                    sub(m.start(), m.end(), hex(v + d) if m.group(1).startswith("0x") else str(v + d), "const%+d" % d)
        for m in re.finditer(r"\b(True|False)\b", code):
            sub(m.start(), m.end(), "False" if m.group() == "True" else "True", "bool")
        m = re.match(r"(\s*)(if|while) (.*):$", code)
        if m:
            out.append((n, "%s%s False and (%s):" % m.groups(), "if false"))
            if m.group(2) == "if":
                out.append((n, "%sif True or (%s):" % (m.group(1), m.group(3)), "if true"))
        if re.match(r"\s*([\w.\[\]]+ [+|]?= .*[^,(\[{]|[\w.]+\(.*\)|continue|break|raise .*\))$", code) and code.count("(") == code.count(")"):
            out.append((n, re.match(r"\s*", l).group() + "pass", "delete"))
    return src, out


def one(job):
    k, check, f, src, (n, new, kind) = job
    rec = {"k": k, "file": f, "line": n + 1, "kind": kind, "old": src[n].strip(), "new": new.strip()}
    w = tempfile.mkdtemp(prefix="/tmp/mut/py")
    try:
        subprocess.run("cp -a /repo %s/repo; mkdir %s/verif; cd /verif && cp -a *.py *.txt *.json* harness oracle tools %s/verif/" % (w, w, w), shell=True, check=True)
        t = list(src)
        t[n] = new
        open(w + "/repo/" + f, "w").write("\n".join(t))
        s = "mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s quick > %s/c 2>&1" % (w, w, check, w)
        rec["rc"] = subprocess.run(["unshare", "-m", "bash", "-c", s]).returncode
        txt = open(w + "/c", errors="replace").read()
        m = re.search(r"VIOLATION[^\n]*\n([^\n]*)", txt)
        rec["why"] = m.group(1).strip()[:160] if m else txt.strip().split("\n")[-1][:160]
        rec["end"] = "seen" if rec["rc"] == 1 else "UNSEEN" if rec["rc"] == 0 else "no answer"
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return rec


def main():
    out, workers, check, files = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    os.makedirs("/tmp/mut", exist_ok=True)
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["k"] for l in open(out)}
    jobs, k = [], 0
    for f in files:
        src, ms = mutants(f)
        for i in range(int(os.environ.get("START", 0)), len(ms), int(os.environ.get("STEP", 1))):
            jobs.append((k, check, f, src, ms[i]))
            k += 1
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(workers) as ex, open(out, "a") as o:
        for r in ex.map(one, [j for j in jobs if j[0] not in done]):
            o.write(json.dumps(r) + "\n")
            o.flush()


main()
