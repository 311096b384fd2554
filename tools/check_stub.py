"""Compares the comparison routine of stubs/rpm.py with the real rpm library on a fixed set of labels."""
import importlib.util
import itertools
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
try:
    import rpm
except ImportError:
    print("real rpm bindings are not available, comparison skipped")
    sys.exit(0)
spec = importlib.util.spec_from_file_location("rpm_stub", os.path.join(HERE, "..", "stubs", "rpm.py"))
stub = importlib.util.module_from_spec(spec)
spec.loader.exec_module(stub)
if not hasattr(rpm, "labelCompare"):
    print("no labelCompare, skipped")
    sys.exit(0)
A = "01a~^."
words = [""] + ["".join(t) for n in (1, 2, 3) for t in itertools.product(A, repeat=n)]
words += ["10", "9", "1.10", "1.9", "1.0", "1.00", "1~rc1", "1^git1", "1a", "1.a", "a1", "Z", "z", "-", "+1"]
words = [w for w in words if w]
bad = n = 0
for a in words:
    for b in words:
        n += 1
        x = rpm.labelCompare(("0", a, "1"), ("0", b, "1"))
        y = stub.labelCompare(("0", a, "1"), ("0", b, "1"))
        if x != y:
            bad += 1
            if bad < 10:
                print("differs", a, b, x, y)
for ea, eb in itertools.product([None, "0", "1", "2"], repeat=2):
    for ra, rb in itertools.product(["", "1", "2"], repeat=2):
        n += 1
        x = rpm.labelCompare((ea, "1", ra), (eb, "1", rb))
        y = stub.labelCompare((ea, "1", ra), (eb, "1", rb))
        if x != y:
            bad += 1
            if bad < 20:
                print("differs", ea, ra, eb, rb, x, y)
print("compared", n, "pairs,", bad, "differences")
sys.exit(1 if bad else 0)
