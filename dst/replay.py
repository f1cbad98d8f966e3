"""python -m dst.replay FILE: repeats a recorded violation exactly."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "dst.replay"] + sys.argv[1:])

from . import check


def main(path, quiet):
    rec, res, fails = check.replay_file(path)
    same = [f for f in fails if f["kind"] == rec["failure"]["kind"]]
    print("log %s" % res.get("log"))
    for f in fails:
        print("%s: %s" % (f["kind"], f["msg"]))
    if rec.get("log") and res.get("log") != rec["log"]:
        print("the event log differs from the recorded one", file=sys.stderr)
    if same:
        if not quiet:
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "--quiet"]
    sys.exit(main(args[0], "--quiet" in sys.argv))
