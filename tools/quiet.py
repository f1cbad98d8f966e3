"""Run the checks on behaviour-preserving rewrites of the library (see refactorings.py); all must stay quiet.

usage: quiet.py [--seeds N] [--checks C01,C02] [--pack 1] [name prefix ...]

With --pack, rewrites of different files are applied together.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from refactorings import REFACTORINGS  # noqa: E402
from steps import apply  # noqa: E402

PY = "/opt/venv/bin/python"
ALL = ["C%02d" % i for i in range(1, 19)]


def groups(names, pack):
    """lists of names that are applied together"""
    out = []
    for n in names:
        files = {s[1] for s in REFACTORINGS[n]}
        for g in out:
            if pack and not files & g[1]:
                g[0].append(n)
                g[1].update(files)
                break
        else:
            out.append(([n], set(files)))
    return [g[0] for g in out]


def main():
    args = sys.argv[1:]
    seeds, checks, pack = "400", ALL, False
    while args and args[0].startswith("--"):
        if args[0] == "--seeds":
            seeds = args[1]
        if args[0] == "--pack":
            pack = True
        if args[0] == "--checks":
            checks = args[1].split(",")
        args = args[2:]
    names = [n for n in REFACTORINGS if not args or any(n.startswith(a) for a in args)]
    bad = 0
    for group in groups(names, pack):
        name = "+".join(group)
        root = tempfile.mkdtemp(prefix="quiet-", dir="/tmp")
        try:
            repo = os.path.join(root, "repo")
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "*.pyc"))
            for n in group:
                apply(repo, REFACTORINGS[n])
            tests = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=repo,
                                   capture_output=True, text=True)
            print("%-26s tests %s" % (name, "pass" if tests.returncode == 0 else "FAIL " + tests.stdout[-300:]), flush=True)
            for check in checks:
                env = dict(os.environ, DST_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
                env["DST_SEEDS"] = str(max(40, int(seeds) // 4)) if check == "C01" else seeds
                run = subprocess.run([PY, "-m", "dst.check", check], cwd=os.path.dirname(HERE), env=env,
                                     capture_output=True, text=True)
                if run.returncode != 0:
                    bad += 1
                    print("   ALARM %s exit %d %s" % (check, run.returncode, (run.stdout + run.stderr)[-1500:]), flush=True)
        finally:
            shutil.rmtree(root)
    print("%d refactorings, %d alarms" % (len(names), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
