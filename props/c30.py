"""Guessing the packager."""
import getpass
import os
import pwd
import shutil
import subprocess

import rpm

from specfile.changelog import guess_packager

from props import _spec


class Result:
    def __init__(self, stdout):
        self.stdout = stdout


class Entry:
    def __init__(self, gecos):
        self.pw_gecos = gecos


def packager(h):
    c = h.cfg
    env = h.str("env", c["n"], exclude="\x00") if h.bool("in environment") else None
    macro = h.str("macro", c["n"]) if h.bool("macro is defined") else None
    if macro is not None:
        h.assume(macro != "%packager")
    git = h.bool("git")
    ws = h.one_of("whitespace", ["\n", "", " \n"])
    blank = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029\u3000"
    email = h.str("email", c["n"], exclude=blank) if h.bool("has email") else ""
    name = h.str("name", c["n"], exclude=blank) if h.bool("has name") else ""
    gecos = h.one_of("gecos", ["", "Real Name"])
    calls = []

    def run(args, **kw):
        calls.append(args)
        h.check(kw.get("stdout") is not None and kw.get("stderr") is not None, "output of git is not captured")
        return Result({"user.email": email, "user.name": name}[args[-1]] + ws if args[-1] in ("user.email", "user.name") else "")

    saved = (shutil.which, subprocess.run, getpass.getuser, pwd.getpwnam)
    old = os.environ.pop("RPM_PACKAGER", None)
    rpm.install(_spec.SpecModel({"%packager": macro} if macro is not None else {}))
    try:
        shutil.which = lambda p: "/usr/bin/git" if p == "git" and git else None
        subprocess.run = run
        getpass.getuser = lambda: "user"
        pwd.getpwnam = lambda u: Entry(gecos)
        if env is not None:
            os.environ["RPM_PACKAGER"] = env
        got = guess_packager()
    finally:
        shutil.which, subprocess.run, getpass.getuser, pwd.getpwnam = saved
        os.environ.pop("RPM_PACKAGER", None)
        if old is not None:
            os.environ["RPM_PACKAGER"] = old
    if env is not None:
        want = env
        h.cover("environment")
    elif macro is not None:
        want = macro
        h.cover("macro")
    else:
        if not git:
            email = name = ""
        who = name or gecos or "user"
        want = who + (" <" + email + ">" if email else "")
        h.cover("git" if git else "no git")
    h.check_eq(got, want, "packager")
    if env is not None or macro is not None or not git:
        h.check(not calls, "git was run although the packager is known")


def harnesses(tier):
    for n in (1, 2) + ((3,) if tier == "thorough" else ()):
        yield "packager", packager, {"n": n}


COVERS_ALL = ["environment", "macro", "git", "no git"]
BOUNDS = {
    "quick": "all combinations of places that know the packager; values of 1 or 2 arbitrary characters",
    "thorough": "values of up to 3 arbitrary characters",
}
ASSUMPTIONS = ["git, the user database and RPM are stubs", "names and e-mails in the git configuration don't begin or end with whitespace"]
