"""EVR, NEVR and NEVRA: ordering like RPM, a consistent total order, equality and hash, text round-trip."""
import rpm

from specfile.exceptions import SpecfileException
from specfile.utils import EVR, NEVR, NEVRA

VER = "01a.~^"
WIDE = "019azAZ._+~^\u00e9\u0661"


def make(h, kind, i, v, r, alphabet, names=("p",), arches=("noarch",)):
    epoch = h.choice("epoch%d" % i, 2)
    version = h.str("v%d" % i, v, alphabet=alphabet)
    release = h.str("r%d" % i, r, alphabet=alphabet)
    if kind is EVR:
        return EVR(epoch=epoch, version=version, release=release)
    name = h.one_of("name%d" % i, names)
    if kind is NEVR:
        return NEVR(name=name, epoch=epoch, version=version, release=release)
    return NEVRA(name=name, epoch=epoch, version=version, release=release, arch=h.one_of("arch%d" % i, arches))


KINDS = {"EVR": EVR, "NEVR": NEVR, "NEVRA": NEVRA}


def ref(a, b):
    """Ordering by RPM (checked against the installed RPM by tools/check_stub.py)."""
    return rpm.labelCompare(
        (str(a.epoch), a.version or "0", a.release), (str(b.epoch), b.version or "0", b.release)
    )


def agree(h):
    """Every comparison operator follows RPM's ordering."""
    c = h.cfg
    kind = KINDS[c["kind"]]
    a = make(h, kind, 0, c["v"][0], c["r"][0], c["alphabet"])
    b = make(h, kind, 1, c["v"][1], c["r"][1], c["alphabet"])
    r = ref(a, b)
    h.cover({-1: "less", 0: "equal", 1: "greater"}[r])
    h.check((a < b) == (r < 0), "a < b")
    h.check((a <= b) == (r <= 0), "a <= b")
    h.check((a == b) == (r == 0), "a == b")
    h.check((a != b) == (r != 0), "a != b")
    h.check((a >= b) == (r >= 0), "a >= b")
    h.check((a > b) == (r > 0), "a > b")
    h.check((b < a) == (r > 0), "b < a")
    h.check((b == a) == (r == 0), "b == a")
    h.check(a == a and a <= a and not a < a and not a != a, "reflexivity")


def hashing(h):
    c = h.cfg
    kind = KINDS[c["kind"]]
    a = make(h, kind, 0, c["v"][0], c["r"][0], c["alphabet"])
    b = make(h, kind, 1, c["v"][1], c["r"][1], c["alphabet"])
    if a == b:
        h.cover("equal with hash")
        h.check(hash(a) == hash(b), "equal objects have different hashes")
        h.check(len({a, b}) == 1, "equal objects are different members of a set")


def transitive(h):
    c = h.cfg
    kind = KINDS[c["kind"]]
    a, b, d = (make(h, kind, i, c["v"][i], 0, c["alphabet"]) for i in range(3))
    if a <= b and b <= d:
        h.check(a <= d, "transitivity of <=")
        if a < b or b < d:
            h.check(a < d and not d <= a, "transitivity of <")
            h.cover("chain")


def unrelated(h):
    """Different packages or kinds are never equal and have no order."""
    c = h.cfg
    k1, k2 = KINDS[c["kinds"][0]], KINDS[c["kinds"][1]]
    a = make(h, k1, 0, 1, 1, "12", names=("p", "q"), arches=("noarch", "x86_64"))
    b = make(h, k2, 1, 1, 1, "12", names=("p", "q"), arches=("noarch", "x86_64"))
    same = (
        k1 is k2
        and getattr(a, "name", None) == getattr(b, "name", None)
        and getattr(a, "arch", None) == getattr(b, "arch", None)
    )
    if same:
        return
    h.cover("unrelated")
    h.check(not (a == b), "different packages are equal")
    h.check(a != b, "different packages are not different")
    for op in (lambda: a < b, lambda: a <= b, lambda: a > b, lambda: a >= b):
        try:
            op()
        except TypeError:
            continue
        h.check(False, "different packages have an order")


def no(h, name, n, exclude):
    return h.str(name, n, exclude=exclude + "\n")


def round_trip(h):
    """The text of a valid object is read back as the same object."""
    c = h.cfg
    kind = KINDS[c["kind"]]
    epoch = h.one_of("epoch", [0, 1, 9, 10, 123])
    version = no(h, "v", c["v"], "-:")
    release = no(h, "r", c["r"], "-:")
    if kind is EVR:
        x = EVR(epoch=epoch, version=version, release=release)
        text = (str(epoch) + ":" if epoch else "") + version + ("-" + release if release else "")
    else:
        name = no(h, "n", c["n"], "" if release else "-")
        text = name + "-" + (str(epoch) + ":" if epoch else "") + version + ("-" + release if release else "")
        if kind is NEVR:
            x = NEVR(name=name, epoch=epoch, version=version, release=release)
        else:
            arch = h.one_of("arch", ["noarch", "x86_64", "src" if c.get("src") else "i686", "ppc64le"])
            x = NEVRA(name=name, epoch=epoch, version=version, release=release, arch=arch)
            text += "." + arch
    h.check_eq(str(x), text, "text")
    y = kind.from_string(text)
    h.check_eq(y.epoch, epoch, "epoch")
    h.check_eq(y.version, version, "version")
    h.check_eq(y.release, release, "release")
    if kind is not EVR:
        h.check_eq(y.name, name, "name")
    if kind is NEVRA:
        h.check_eq(y.arch, arch, "arch")
    h.check(x == y, "not equal after a round-trip")
    h.cover("round trip " + c["kind"])


def accepts(h):
    """Any string is either rejected or split into parts that make it up."""
    c = h.cfg
    kind = KINDS[c["kind"]]
    s = "".join(p if isinstance(p, str) else h.str("s", p, exclude="\n") for p in c["s"])
    try:
        x = kind.from_string(s)
    except SpecfileException:
        h.cover("rejected")
        if kind is EVR:
            h.check(not s or s.count("-") > 1 or s.startswith("-") or s.endswith("-"), "valid EVR is rejected")
        return
    h.cover("accepted")
    tail = x.version + ("-" + x.release if x.release else "")
    h.check(bool(x.version) and "-" not in x.version and "-" not in x.release, "dash in version or release")
    if kind is NEVRA:
        tail += "." + x.arch
    h.check(s.endswith(tail), "version and release are not the end of the string")
    head = s[: len(s) - len(tail)]
    if kind is not EVR:
        h.check(head.startswith(x.name + "-") and bool(x.name), "name is not the beginning of the string")
        head = head[len(x.name) + 1 :]
    if head:
        h.check(head.endswith(":") and head[:-1].isdecimal(), "not an epoch")
        h.check(int(head[:-1]) == x.epoch, "epoch")
        h.cover("with epoch")
    else:
        h.check_eq(x.epoch, 0, "no epoch")


def bad_arch(h):
    arch = h.str("arch", h.cfg["n"], exclude="\n")
    h.assume(arch not in ("IP", "sh", "sh3", "sh4", "arm", "mips", "m68k", "sgi", "src"))
    try:
        NEVRA(name="a", version="1", release="1", arch=arch)
    except SpecfileException:
        h.cover("bad arch")
        return
    from specfile.constants import ARCH_NAMES

    h.check(arch in ARCH_NAMES, "unknown architecture is accepted")


def harnesses(tier):
    deep = tier == "thorough"
    for kind in KINDS:
        m = 3 if kind == "EVR" or deep else 2
        for va in range(0, m + 1):
            for vb in range(va, m + 1):
                wide = kind == "EVR" and va + vb <= (6 if deep else 4) or va + vb <= 2
                yield "agree", agree, {"kind": kind, "v": [va, vb], "r": [0, 0], "alphabet": WIDE if wide else VER}
                if va <= 1 and vb <= 1 + deep:
                    for ra in (0, 1):
                        for rb in (0, 1, 2):
                            yield "agree", agree, {"kind": kind, "v": [va, vb], "r": [ra, rb], "alphabet": VER}
                yield "hashing", hashing, {"kind": kind, "v": [va, vb], "r": [0, 0], "alphabet": "0a.~A" if max(va, vb) > 2 else VER}
        for ra in (0, 1):
            for rb in (0, 1, 2):
                yield "hashing", hashing, {"kind": kind, "v": [1, 1], "r": [ra, rb], "alphabet": "01."}
    n = 2
    for x in range(0, n + 1):
        for y in range(0, n + 1):
            for z in range(0, n + 1):
                yield "transitive", transitive, {"kind": "EVR", "v": [x, y, z], "alphabet": VER}
    for a in KINDS:
        for b in KINDS:
            yield "unrelated", unrelated, {"kinds": [a, b]}
    for v in (1, 2):
        for r in (0, 1, 2):
            yield "round_trip", round_trip, {"kind": "EVR", "v": v, "r": r}
            for nm in (1, 2):
                yield "round_trip", round_trip, {"kind": "NEVR", "v": v, "r": r, "n": nm}
                if r and v == 1:
                    yield "round_trip", round_trip, {"kind": "NEVRA", "v": v, "r": r, "n": nm}
    for k in range(0, 6 if deep else 5):
        yield "accepts", accepts, {"kind": "EVR", "s": [k]}
        yield "accepts", accepts, {"kind": "NEVR", "s": [k]}
        yield "accepts", accepts, {"kind": "NEVR", "s": ["a", k]}
    for k in range(0, 4):
        yield "accepts", accepts, {"kind": "NEVRA", "s": ["a-", k, ".noarch"]}
        yield "accepts", accepts, {"kind": "NEVRA", "s": ["a-", k, "-1.noarch"]}
    for k in range(0, 4):
        yield "bad_arch", bad_arch, {"n": k}


COVERS_ALL = ["less", "equal", "greater", "equal with hash", "chain", "unrelated", "round trip EVR", "round trip NEVR", "round trip NEVRA", "accepted", "rejected", "with epoch", "bad arch"]
BOUNDS = {
    "quick": "ordering: versions of up to 3 characters of 14 classes (digits, letters, separators, ~, ^, non-ASCII) and releases of up to 2; hashes: 3 characters; transitivity: three versions of up to 2 characters; text: versions and releases of 2, names of 2 arbitrary characters; parsing: any string of up to 5 characters",
    "thorough": "as quick, with 3 characters for all of the kinds and parsing of strings of up to 6 characters",
}
ASSUMPTIONS = [
    "rpm.labelCompare is a Python transcription of RPM's rpmvercmp(), compared with the installed RPM on 74673 pairs by setup_cmd",
]
