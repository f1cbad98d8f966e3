"""Writes /verif/seeded/<id>/ from entries of tools/mutants.py and the demonstrations in tools/seeded_src.

tools/seeded_src/<id>.py starts with comment lines '# needs: ...' and '# breaks: ...'.  Each change is kept only
after the tests pass with it, and the demonstration passes without it and fails with it.
"""
import json
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from mutants import M  # noqa
from sensitivity import apply  # noqa

PY = "/opt/venv/bin/python"


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300)


def main():
    wanted = sys.argv[1:]
    base = pathlib.Path(tempfile.mkdtemp(prefix="seed-", dir="/tmp"))
    try:
        for id_, prop, edits in M:
            demo = HERE / "seeded_src" / (id_ + ".py")
            if not demo.exists() or (wanted and id_ not in wanted):
                continue
            work = base / id_
            subprocess.run(["cp", "-a", "/repo", str(work)], check=True)
            out = base / ("out-" + id_)
            out.mkdir()
            text = demo.read_text()
            needs = " ".join(re.findall(r"^# needs: (.*)$", text, re.M))
            breaks = " ".join(re.findall(r"^# breaks: (.*)$", text, re.M))
            body = "\n".join(l for l in text.splitlines() if not re.match(r"# (needs|breaks): ", l)).lstrip("\n") + "\n"
            (out / "demo.py").write_text(body)
            shutil.copy(HERE / "seeded_src" / "preempt.py", out / "preempt.py")
            (out / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            (out / "demo.sh").chmod(0o755)
            (out / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
            before = run(["bash", str(out / "demo.sh")], work)
            apply(work, edits)
            patch = run(["git", "diff"], work).stdout
            (out / "patch.diff").write_text(patch)
            tests = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], work)
            after = run(["bash", str(out / "demo.sh")], work)
            ok = before.returncode == 0 and after.returncode != 0 and tests.returncode == 0 and patch
            print(id_, prop, "tests", tests.returncode, "before", before.returncode, "after", after.returncode,
                  after.stdout.strip()[-120:], after.stderr.strip()[-120:], "KEPT" if ok else "REJECTED " + before.stderr[-300:] + tests.stdout[-300:], flush=True)
            if ok:
                target = HERE.parent / "seeded" / id_
                if target.exists():
                    shutil.rmtree(target)
                shutil.copytree(out, target, ignore=shutil.ignore_patterns("__pycache__"))
            shutil.rmtree(work)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
