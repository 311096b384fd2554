"""Whatever goes wrong while parsing, everything is put back: files, environment, stderr; errors are the library's own."""
import builtins
import errno
import os
import pathlib
import sys

import rpm

from specfile.context_management import capture_stderr
from specfile.exceptions import RPMException, SpecfileException
from specfile.macros import Macros
from specfile.spec_parser import SpecParser
from specfile.specfile import Specfile

from props import _spec

KEYS = ("LANG", "LC_ALL")
MAGIC = [
    (".bz2", b"BZh"), (".zip", b"PK00"), (".xz", b"\xfd7zXZ\x00"), (".zst", b"(\xb5/"), (".lz", b"LZIP"),
    (".lrz", b"LRZI"), (".gz", b"\x1f\x8b"), (".7z", b"7z\xbc\xaf'\x1c"),
]


def snapshot(d):
    result = []
    for root, dirs, files in os.walk(str(d)):
        for n in dirs + files:
            p = os.path.join(root, n)
            if os.path.islink(p):
                result.append((p, "->", os.readlink(p)))
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    result.append((p, "file", f.read()))
            else:
                result.append((p, "dir", ""))
    return sorted(result)


def descriptors():
    return len(os.listdir("/proc/self/fd"))


def identity(fd):
    st = os.fstat(fd)
    return st.st_dev, st.st_ino


class Model(rpm.Model):
    """Every parsing may succeed, fail or be interrupted, and touch what a macro may touch."""

    def __init__(self, h, d):
        self.h = h
        self.d = d
        self.sources = []
        self.seen = []
        self.paths = []
        self.plan = None
        self.stderr = identity(2)
        self.loaded = ()

    def expand(self, text):
        return text.replace("%{dir}", str(self.d)).replace("%{SOURCE0}", str(self.d / "shell.txt")).replace("%(cat " + str(self.d / "shell.txt") + ")", "")

    def parse_spec(self, path, flags):
        h = self.h
        self.paths.append(path)
        h.check([os.environ.get(k) for k in KEYS] == ["C.UTF-8", "C.UTF-8"], "environment is not sanitized while parsing")
        h.check(identity(2) != self.stderr, "stderr is not captured while parsing")
        os.write(2, b"error: something\n")
        self.seen.append((flags, {os.path.basename(p): c for p, t, c in snapshot(self.d) if t == "file"}))
        outcome = self.plan[len(self.seen) - 1] if len(self.seen) <= len(self.plan) else "ok"
        if outcome == "env":
            os.environ.pop("LANG", None)
            os.environ["LC_ALL"] = "xx"
        elif outcome == "rm":
            # a shell expansion may remove what was created
            for n in self.sources:
                n = n.rpartition("/")[2]
                if n == "new1.tar.gz" and os.path.exists(str(self.d / n)):
                    os.unlink(str(self.d / n))
        elif outcome == "error":
            raise ValueError("can't parse specfile")
        elif outcome == "interrupt":
            raise KeyboardInterrupt
        elif outcome == "memory":
            raise MemoryError
        if self.loaded and not all(n in self.seen[-1][1] for n in self.loaded):
            raise ValueError("can't parse specfile")
        if "shell.txt" in self.loaded and not self.seen[-1][1]["shell.txt"].strip(b"\0\n "):
            # the tag must not be empty
            raise ValueError("can't parse specfile")
        r = rpm.spec_result()
        r.sources = [(n, i, 1) for i, n in enumerate(self.sources)]
        return r


class Faults:
    """Creating (or removing) the file of the given name fails, possibly after it has been created."""

    def __init__(self, kind, name):
        self.kind = kind
        self.name = name
        self.fired = False

    def __enter__(self):
        self.open = builtins.open
        self.saved = {n: pathlib.Path.__dict__[n] for n in ("write_bytes", "write_text", "unlink")}
        if self.kind == "none":
            return
        outer = self

        def wrap(fn, what):
            def f(path, *args, **kw):
                if path.name == outer.name:
                    outer.fired = outer.fired or what == ("unlink" if outer.kind == "stuck" else "write")
                    if what == "write" and outer.kind in ("full", "interrupt"):
                        fn(path, *args, **kw)
                        if outer.kind == "interrupt":
                            raise KeyboardInterrupt
                        raise OSError(errno.ENOSPC, "No space left on device")
                    if what == "write" and outer.kind == "denied":
                        raise PermissionError(errno.EACCES, "Permission denied")
                    if what == "unlink" and outer.kind == "stuck":
                        raise PermissionError(errno.EACCES, "Permission denied")
                return fn(path, *args, **kw)

            return f

        pathlib.Path.write_bytes = wrap(self.saved["write_bytes"], "write")
        pathlib.Path.write_text = wrap(self.saved["write_text"], "write")
        pathlib.Path.unlink = wrap(self.saved["unlink"], "unlink")
        original = self.open

        def create(path, mode="r", *args, **kw):
            f = original(path, mode, *args, **kw) if outer.kind != "denied" or not writes(path, mode) else None
            if writes(path, mode) and outer.kind in ("full", "interrupt", "denied"):
                outer.fired = True
                if f is not None:
                    f.close()
                if outer.kind == "interrupt":
                    raise KeyboardInterrupt
                raise OSError(errno.EACCES if f is None else errno.ENOSPC, "Failed")
            return f

        def writes(path, mode):
            return not isinstance(path, int) and os.path.basename(str(path)) == outer.name and mode[:1] in "wxa"

        builtins.open = create

    def __exit__(self, *args):
        builtins.open = self.open
        for n, f in self.saved.items():
            setattr(pathlib.Path, n, f)


class Environment:
    def __init__(self, h):
        self.h = h

    def __enter__(self):
        self.saved = {k: os.environ.get(k) for k in KEYS}
        self.set({k: self.h.one_of(k, [None, "cs_CZ.UTF-8", ""]) for k in self.h.cfg.get("env", ())})

    def set(self, values):
        for k, v in values.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def __exit__(self, *args):
        self.set(self.saved)


SOURCES = {
    "plain": ["new1.tar.gz", "http://x.org/dir/new2.zip"],
    "exts": ["n%s" % e for e, _ in MAGIC] + ["none", "http://x#/n.txt"],
    "other exts": ["n%s.sig" % e for e, _ in MAGIC] + ["n.xz.gz", "gz", ".gz", "nxz", "n.GZ", "n.tgz"],
    "existing": ["old.tar.gz", "new1.tar.gz"],
    "links": ["dangling.xz", "new1.tar.gz", "loop", "away.gz"],
    "odd": ["z" * 300, "new1.tar.gz", "nul\0x", "", "dir/", "..", "."],
    "shell": ["shell.txt", "new1.tar.gz"],
    "included": ["new1.tar.gz", "new3.inc"],
    "duplicate": ["a/new1.tar.gz", "b/new1.tar.gz", "new1.tar.gz"],
}
FORCED = {
    "": "",
    "include": "%include new3.inc\n",
    "include dir": "%include %{dir}/new3.inc\n",
    "include continued": "%include new3\\\n.inc\n",
    "include eof": "%include %{dir}/new3.inc\\",
    "include outside": "%include /nonexistent/dir/file\n%include %{dir}/new3.inc\n",
    "load": "%{load:%{dir}/new3.inc}\n",
    "load nested": "%{?x:a %{!?y:%{load:%{dir}/new3.inc}}}\n",
    "load outside": "%{load:/etc/new3.inc}\n",
    "unterminated": "%{load:%{dir}/new3.inc\n",
    "shell": "Version: %(cat %{SOURCE0})\n",
    "shell unterminated": "Version: %(cat %{SOURCE0}\n",
}
FOUND = ["include", "include dir", "include continued", "include outside", "load", "load nested", "shell"]


def parsing(h):
    c = h.cfg
    with _spec.scratch() as base:
        d = base / "sources"
        d.mkdir()
        (d / "dir").mkdir()
        (d / "old.tar.gz").write_bytes(b"precious")
        os.symlink("missing-target", str(d / "dangling.xz"))
        os.symlink("/nonexistent/dir/target", str(d / "away.gz"))
        os.symlink("loop", str(d / "loop"))
        v = h.str("v", 1, alphabet="ab")
        text = "Name: " + v + "\n" + FORCED[c.get("forced", "")]
        _spec.write(base / "s.spec", text)
        model = Model(h, d)
        model.sources = list(SOURCES[c["sources"]])
        if c.get("missing"):
            model.loaded = ("shell.txt",) if "shell" in c["forced"] else ("new3.inc",)
        rpm.install(model)
        if c.get("again"):
            model.plan = []
        else:
            model.plan = [h.one_of("outcome", c["outcomes"]) for _ in range(c["n"])]
        fault = h.one_of("fault", c.get("faults", ["none"]))
        name = h.one_of("at", ["new1.tar.gz", "new2.zip"]) if fault != "none" and c["sources"] == "plain" else "new1.tar.gz"
        faults = Faults(fault, name)
        cwd = os.getcwd()
        with Environment(h):
            os.chdir(str(d))
            before = snapshot(base)
            env = dict(os.environ)
            fds = descriptors()
            error = None
            s = None
            try:
                SpecParser._last_parse_hash = None
                try:
                    if c.get("again"):
                        s = Specfile(base / "s.spec", sourcedir=d, force_parse=bool(c.get("force")))
                        model.seen = []
                        model.plan = [h.one_of("outcome", c["outcomes"]) for _ in range(c["n"])]
                        with s.lines() as lines:
                            lines.append("# changed")
                        with faults:
                            s.rpm_spec
                    else:
                        with faults:
                            s = Specfile(base / "s.spec", sourcedir=d, force_parse=bool(c.get("force")))
                except KeyboardInterrupt as e:
                    error = KeyboardInterrupt
                except MemoryError:
                    error = MemoryError
                except RPMException as e:
                    error = RPMException
                    h.check("something" in str(e), "error message of RPM is lost")
                after = snapshot(base)
                env_after = dict(os.environ)
            finally:
                os.chdir(cwd)
            h.check(identity(2) == model.stderr, "stderr is not restored")
            h.check(env_after == env, "environment is not restored")
        if not faults.fired:
            fault = "none"
        if fault == "stuck":
            # the file that can't be removed stays, nothing else does
            after = [x for x in after if os.path.basename(x[0]) != name]
            before = [x for x in before if os.path.basename(x[0]) != name]
        h.check(after == before, "files are left behind, lost or changed: %r" % sorted(set(after) ^ set(before)))
        h.check(not any(os.path.exists(p) for p in model.paths), "temporary files are left behind")
        h.check_eq(descriptors(), fds, "open file descriptors")
        done = model.plan[: len(model.seen)]
        if "interrupt" in done or fault == "interrupt":
            h.check(error is KeyboardInterrupt or (fault == "interrupt" and error is RPMException), "an interrupt was swallowed or replaced by %r" % error)
            h.cover("interrupted")
        elif "memory" in done:
            h.check(error is MemoryError, "an error was swallowed or replaced by %r" % error)
        elif error is None:
            flags, files = model.seen[-1]
            h.check(flags == rpm.RPMSPEC_ANYARCH, "the last parsing is not a full one")
            for n in model.sources:
                n = n.rpartition("/")[2]
                if n in ("", ".", "..", "old.tar.gz", "loop", "away.gz") or len(n) > 200 or "\0" in n or (n == name and fault in ("full", "denied")):
                    continue
                if n == "shell.txt" and model.loaded:
                    continue
                n = {"dangling.xz": "missing-target"}.get(n, n)
                h.check(n in files, "%s is not available while parsing" % n)
                m = [g for e, g in MAGIC if {"missing-target": "dangling.xz"}.get(n, n).endswith(e)]
                if "rm" not in done:
                    h.check(files[n].startswith(m[0] if m else b"\0" * 13), "%s doesn't look like what it should be" % n)
                    h.check(len(files[n]) == 13, "%s doesn't look like what it should be" % n)
            h.check_eq(files["old.tar.gz"], b"precious", "an existing file was overwritten while parsing")
            if "error" in done:
                h.check(bool(c.get("force")), "an error of RPM was ignored")
            h.check(s.tainted == bool(c.get("force") and (done[:1] == ["error"] or model.loaded)), "tainted")
            h.cover("parsed")
        else:
            h.check("error" in done or bool(model.loaded), "unexpected error")
            if "error" not in done and fault == "none" and c["forced"] in FOUND:
                h.check(False, "the missing file was not made available")
            h.cover("error")


def capture(h):
    """stderr is captured line by line and given back, whatever happens inside, also when nested."""
    data = "".join(h.one_of("data", ["a", "\n", "%"]) for _ in range(h.cfg["n"]))
    raw = data.encode()
    outcome = h.one_of("outcome", [None, ValueError, KeyboardInterrupt, SystemExit])
    before = identity(2)
    fds = descriptors()
    caught = None
    inner = None
    try:
        with capture_stderr() as lines:
            h.check(identity(2) != before, "stderr is not captured")
            os.write(2, raw)
            if h.bool("nested"):
                with capture_stderr() as inner:
                    os.write(2, b"inner\n")
            if outcome:
                raise outcome("x")
    except BaseException as e:
        if outcome is None or not isinstance(e, outcome):
            raise
        caught = e
    h.check((caught is not None) == (outcome is not None), "an exception was swallowed")
    h.check(identity(2) == before, "stderr is not restored")
    h.check_eq(descriptors(), fds, "open file descriptors")
    h.check_eq("".join(x.decode() for x in lines), data, "captured output")
    h.check(all("\n" not in x.decode()[:-1] for x in lines), "captured output is not split into lines")
    if inner is not None:
        h.check_eq([x.decode() for x in inner], ["inner\n"], "output captured inside")
    h.cover("captured")


class Failing(rpm.Model):
    def __init__(self, outcome, text):
        self.outcome = outcome
        self.text = text

    def expand(self, text):
        os.write(2, self.text.encode())
        if self.outcome:
            raise self.outcome("x")
        return text


def expansion(h):
    """An error of RPM becomes RPMException with RPM's message, nothing is printed, stderr is given back."""
    text = h.str("text", h.cfg["n"], alphabet="ab")
    outcome = h.one_of("outcome", [None, rpm.error, KeyboardInterrupt])
    rpm.install(Failing(outcome, "error: " + text + "\nwarning: x\n"))
    before = identity(2)
    fds = descriptors()
    got = None
    try:
        got = Macros.expand("%" + text)
    except RPMException as e:
        h.check(outcome is rpm.error, "unexpected RPMException")
        h.check_eq(str(e), text, "message")
    except KeyboardInterrupt:
        h.check(outcome is KeyboardInterrupt, "unexpected interrupt")
    else:
        h.check(outcome is None, "an error was swallowed")
        h.check_eq(got, "%" + text, "expansion")
    h.check(identity(2) == before, "stderr is not restored")
    h.check_eq(descriptors(), fds, "open file descriptors")
    h.cover("expansion")


def harnesses(tier):
    deep = tier == "thorough"
    every = ["ok", "error", "interrupt", "memory", "env", "rm"]
    for s in SOURCES:
        yield "parsing", parsing, {"sources": s, "n": 2, "outcomes": every, "env": KEYS if s == "plain" else ()}
        yield "parsing", parsing, {"sources": s, "n": 2, "outcomes": every, "again": 1}
    yield "parsing", parsing, {"sources": "plain", "n": 0, "outcomes": every, "env": KEYS}
    for again in (0, 1):
        yield "parsing", parsing, {
            "sources": "plain", "n": 2, "outcomes": ["ok", "error"], "again": again,
            "faults": ["none", "full", "denied", "stuck", "interrupt"],
        }
    for s in SOURCES if deep else ("plain", "odd"):
        for f in FORCED:
            yield "parsing", parsing, {"sources": s, "n": 3, "outcomes": every if deep else ["ok", "error", "interrupt"], "force": 1, "forced": f}
    for f in FOUND + ["load outside", "unterminated"]:
        yield "parsing", parsing, {"sources": "shell" if f == "shell" else "included", "n": 0, "outcomes": [], "force": 1, "forced": f, "missing": 1}
    for n in range(0, 4 if deep else 3):
        yield "capture", capture, {"n": n}
        yield "expansion", expansion, {"n": n}


COVERS_ALL = ["parsed", "error", "interrupted", "captured", "expansion"]
BOUNDS = {
    "quick": "each of up to 3 runs of RPM's parser succeeds, fails, is interrupted, runs out of memory, changes the environment or removes a file; 9 sets of sources (existing, dangling and looping symlinks, names that can't be created, duplicates), disk full, denied, interrupted writing and failing removal of a file; 12 forms of %include, %{load:} and shell expansions with force_parse; captured output of 3 characters",
    "thorough": "all combinations of the sets of sources and the forms of %include",
}
ASSUMPTIONS = ["RPM is a stub that does what the harness says", "faults of the file system are injected in pathlib.Path.write_bytes, write_text and unlink"]
