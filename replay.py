"""
replay.py <file.json|-> : runs a counterexample on the unmodified code of /repo
with ordinary Python objects (no engine).  Exit 1 and REPRODUCED when the
property is broken by it, 0 otherwise.
"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [os.path.join(HERE, "stubs"), HERE, REPO]
sys.setrecursionlimit(3000)

from engine import hapi  # noqa: E402


def main():
    src = sys.stdin if sys.argv[1] == "-" else open(sys.argv[1])
    rec = json.load(src)
    mod = importlib.import_module("props." + rec["property"].lower())
    fns = {}
    for tier in ("quick", "thorough"):
        for name, fn, _ in mod.harnesses(tier):
            fns.setdefault(name, fn)
    h = hapi.ConcreteH(rec["values"], rec["cfg"])
    try:
        fns[rec["harness"]](h)
    except hapi.Skip:
        print("SKIPPED: assumption does not hold")
        return 0
    except hapi.Failed as e:
        print("REPRODUCED %s" % str(e).encode("ascii", "backslashreplace").decode())
        return 1
    except Exception as e:
        import traceback

        traceback.print_exc()
        print(
            "REPRODUCED unexpected %s: %s"
            % (type(e).__name__, ascii(str(e)))
        )
        return 1
    print("PASSED (%d checks)" % h.checks)
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
