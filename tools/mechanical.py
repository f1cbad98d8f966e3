"""Mechanical changes: every small edit of a fixed list of kinds at every place of the source.

    python tools/mechanical.py list
    python tools/mechanical.py tests OUT [workers]        which ones pass the existing tests
    python tools/mechanical.py checks IN OUT [workers]    which of those a check reports

Changes are applied to scratch copies only.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

PY = "/opt/venv/bin/python"
REPO = Path(os.environ.get("DST_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent

CHECKS = {
    "cross_section": "C04 C06 C15 C09 C18",
    "constituents/element": "C16 C02 C11 C13 C03 C15",
    "constituents/isotope": "C16 C09",
    "constituents/natural_element_data": "C02 C11 C13 C03 C16 C01",
    "constituents/state": "C16 C09",
    "integration/darboux": "C08 C09",
    "integration/quad_partition": "C08 C09",
    "nonresonant/klein_nishina": "C05 C18",
    "nonresonant/nonresonant": "C04 C05",
    "nonresonant/xrmac": "C02 C11 C13 C03 C01",
    "resonance/breit_wigner": "C05 C10 C06 C07",
    "resonance/debye_model": "C12 C03",
    "resonance/gauss": "C05 C10 C06 C07",
    "resonance/maxwell_boltzmann": "C05 C12 C10",
    "resonance/pseudo_voigt": "C05 C10 C06 C07",
    "resonance/recoil": "C05 C16",
    "resonance/resonance": "C05 C06 C07 C16 C09",
    "resonance/voigt": "C05 C10 C06 C07",
}

COMPARE = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
           ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BINARY = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"]}
SYMBOL = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
          ast.NotIn: "not in", ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}


def offsets(text):
    out = [0]
    for line in text.splitlines(True):
        out.append(out[-1] + len(line.encode()))
    return out


def changes():
    for path in sorted((REPO / "ries").rglob("*.py")):
        text = path.read_text()
        raw = text.encode()
        if not raw.strip():
            continue
        off = offsets(text)
        rel = str(path.relative_to(REPO))

        def a(n):
            return off[n.lineno - 1] + n.col_offset

        def b(n):
            return off[n.end_lineno - 1] + n.end_col_offset

        tree = ast.parse(text)
        tables = {id(k) for n in ast.walk(tree) if isinstance(n, ast.Dict) and len(n.keys) > 20 for k in n.keys[2:] + n.values[2:]}
        docs = {id(n.body[0]) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body}
        found = []

        def add(lo, hi, new, kind):
            found.append((lo, hi, new, kind))

        def between(left, right, old, new, kind):
            lo, hi = b(left), a(right)
            gap = raw[lo:hi].decode()
            if gap.count(old) == 1:
                add(lo, hi, gap.replace(old, new), kind)

        for n in ast.walk(tree):
            if id(n) in tables:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for new in COMPARE.get(type(n.ops[0]), ()):
                    between(n.left, n.comparators[0], SYMBOL[type(n.ops[0])], new, "compare")
            elif isinstance(n, ast.BinOp) and type(n.op) in BINARY:
                for new in BINARY[type(n.op)]:
                    between(n.left, n.right, SYMBOL[type(n.op)], new, "arithmetic")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                add(a(n), a(n.operand), "", "sign")
            elif isinstance(n, ast.BoolOp):
                for x, y in zip(n.values, n.values[1:]):
                    old = "and" if isinstance(n.op, ast.And) else "or"
                    between(x, y, old, "or" if old == "and" else "and", "logic")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(a(n), b(n), repr(not n.value), "constant")
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                if path.name == "natural_element_data.py":
                    continue
                if isinstance(n.value, int):
                    add(a(n), b(n), repr(n.value + 1), "constant")
                    if n.value:
                        add(a(n), b(n), repr(n.value - 1), "constant")
                else:
                    add(a(n), b(n), repr(n.value * 1.001 if n.value else 1e-3), "constant")
                    add(a(n), b(n), repr(n.value * 2.0 if n.value else 1.0), "constant")
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and path.name != "natural_element_data.py":
                if "\n" not in n.value and len(n.value) < 20:
                    add(a(n), b(n), repr("XX" + n.value), "text")
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                s = raw[a(n.test):b(n.test)].decode()
                add(a(n.test), b(n.test), "(not (%s))" % s, "condition")
                add(a(n.test), b(n.test), "True", "condition")
                add(a(n.test), b(n.test), "False", "condition")
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg and len(n.args) + len(n.keywords) > 1:
                        lo, hi = a(k), b(k)
                        while raw[hi:hi + 1].isspace():
                            hi += 1
                        if raw[hi:hi + 1] == b",":
                            add(lo, hi + 1, "", "argument")
                        else:
                            back = lo
                            while raw[back - 1:back].isspace():
                                back -= 1
                            if raw[back - 1:back] == b",":
                                add(back - 1, b(k), "", "argument")
                if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                    add(a(n), b(n), "(" + raw[a(n.args[0]):b(n.args[0])].decode() + ")", "call")
                if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                    x, y = n.args[:2]
                    add(a(x), b(y), raw[a(y):b(y)].decode() + ", " + raw[a(x):b(x)].decode(), "swap")
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                add(a(n), b(n), raw[a(n.value):b(n.value)].decode(), "slice")
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Break, ast.Continue)) and id(n) not in docs:
                if isinstance(n, ast.Return):
                    if n.value is not None:
                        add(a(n), b(n), "return None", "return")
                else:
                    add(a(n), b(n), "pass", "statement")
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    if h.type is not None:
                        add(a(h.type), b(h.type), "Exception", "handler")
                        add(a(h.type), b(h.type), "MemoryError", "handler")
        seen, times = set(), {}
        for lo, hi, new, kind in sorted(found):
            out = (raw[:lo] + new.encode() + raw[hi:]).decode()
            if out in seen or out == text:
                continue
            seen.add(out)
            try:
                if ast.dump(ast.parse(out)) == ast.dump(tree):
                    continue
                compile(out, rel, "exec")
            except SyntaxError:
                continue
            line = raw[:lo].count(b"\n") + 1
            name = "%s:%d:%s:%s>%s" % (rel[5:-3], line, kind, raw[lo:hi].decode()[:40].strip(), new[:40].strip())
            times[name] = times.get(name, 0) + 1
            yield dict(id=name + "#%d" % times[name], file=rel, line=line, kind=kind,
                       old=raw[lo:hi].decode()[:90], new=new[:90], text=out)


def scratch(base, k):
    d = base / ("w%d" % k)
    if not d.exists():
        shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    return d


def every(work, items, workers, out):
    base = Path(tempfile.mkdtemp(prefix="mech-", dir="/tmp"))
    free = list(range(workers))
    done = 0
    try:
        with ThreadPoolExecutor(workers) as pool, open(out, "a") as f:
            def one(x):
                k = free.pop()
                d = scratch(base, k)
                p = d / x["file"]
                keep = p.read_text()
                try:
                    p.write_text(x["text"])
                    return work(d, x)
                finally:
                    p.write_text(keep)
                    free.append(k)
            for r in pool.map(one, items):
                done += 1
                f.write(json.dumps(r) + "\n")
                f.flush()
    finally:
        shutil.rmtree(base)


def run_tests(d, x):
    try:
        r = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, capture_output=True, text=True, timeout=90,
                           env={**os.environ, "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
        ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    return dict({k: v for k, v in x.items() if k != "text"}, survives=ok)


def run_checks(d, x):
    said = {}
    for c in CHECKS[x["file"][5:-3]].split():
        try:
            r = subprocess.run([PY, "-B", "-m", "dst.check", c], cwd=VERIF, capture_output=True, text=True, timeout=600,
                               env={**os.environ, "DST_REPO": str(d), "DST_SEEDS": os.environ.get("DST_SEEDS", "300"), "VERIF_TIER": "quick"})
            said[c] = r.returncode
        except subprocess.TimeoutExpired:
            said[c] = "timeout"
        if said[c] == 1:
            break
    return dict({k: v for k, v in x.items() if k != "text"}, said=said, caught=1 in said.values())


def main():
    m = list(changes())
    if sys.argv[1] == "list":
        for x in m:
            print(x["id"], repr(x["old"]), "->", repr(x["new"]))
        print(len(m))
    elif sys.argv[1] == "tests":
        every(run_tests, m, int(sys.argv[3]) if len(sys.argv) > 3 else 6, sys.argv[2])
    else:
        left = {json.loads(l)["id"] for l in open(sys.argv[2]) if json.loads(l)["survives"]}
        old = Path(sys.argv[3])
        seen = {json.loads(l)["id"] for l in old.open()} if old.exists() else set()
        every(run_checks, [x for x in m if x["id"] in left - seen], int(sys.argv[4]) if len(sys.argv) > 4 else 2, sys.argv[3])


if __name__ == "__main__":
    main()
