"""Apply every change of tools/mutants.py to a scratch copy of /repo, run the tests and the check.

    python tools/sensitivity.py [--all-checks] [--no-tests] [id prefix ...]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import steps  # noqa: E402
from mutants import M  # noqa: E402

PY = "/opt/venv/bin/python"


def apply(root, edits):
    for edit in edits:
        if edit[0] in steps.KINDS:
            steps.apply(root, [edit])
            continue
        file, old, new = edit
        path = root / file
        text = path.read_text()
        if old is None:
            kind, arg = new.split(":")
            lines = text.splitlines(True)
            k = next(i for i, l in enumerate(lines) if l[0:2].strip() == arg)
            a, b = lines[k], lines[k + 1]
            lines[k], lines[k + 1] = a[:2] + b[2:], b[:2] + a[2:]
            path.write_text("".join(lines))
            continue
        if text.count(old) < 1:
            raise SystemExit("not found in %s: %r" % (file, old[:80]))
        path.write_text(text.replace(old, new, 1))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    base = Path(tempfile.mkdtemp(prefix="sens-", dir="/tmp"))
    chosen = [x for x in M if not args or any(x[0].startswith(a) for a in args)]
    try:
        for id_, prop, edits in chosen:
            shutil.copytree(os.environ.get("DST_REPO", "/repo"), base / id_, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
            apply(base / id_, edits)

        def tests(x):
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "tests"], cwd=base / x[0], capture_output=True,
                               text=True, env={**os.environ, "MPLBACKEND": "Agg"})
            return "pass" if r.returncode == 0 else "FAIL"

        if "--no-tests" in sys.argv:
            result = ["-"] * len(chosen)
        else:
            with ThreadPoolExecutor(4) as pool:
                result = list(pool.map(tests, chosen))
        for x, t in zip(chosen, result):
            id_, prop, _ = x
            for p in (["C%02d" % i for i in range(1, 19)] if "--all-checks" in sys.argv else [prop]):
                r = subprocess.run([PY, "-m", "dst.check", p], cwd=HERE.parent, capture_output=True, text=True,
                                   env={**os.environ, "DST_REPO": str(base / id_)})
                m = re.search(r"VIOLATION.*", r.stdout)
                tail = [l for l in r.stdout.splitlines() if l.strip()][-1:] if r.returncode else []
                print("%-26s %s tests=%s exit=%d %s" % (id_, p, t, r.returncode, "CAUGHT" if r.returncode == 1 else
                      "missed" if r.returncode == 0 else "ERROR " + (r.stderr[-300:])), tail, flush=True)
            shutil.rmtree(base / id_)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
