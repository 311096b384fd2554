"""Spec file level harness support: scratch files and the stand-in for RPM."""
import contextlib
import logging
import os
import shutil
import tempfile
from pathlib import Path

import rpm

# warnings of the library are of no interest here
logging.disable(logging.CRITICAL)

from specfile.specfile import Specfile


class SpecModel(rpm.Model):
    """Parsing succeeds; expansion leaves text alone unless told otherwise."""

    def __init__(self, expansions=None):
        self.expansions = expansions or {}

    def expand(self, text):
        return self.expansions.get(text, text)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-spec-")
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write(path, text):
    with open(path, "wb") as f:
        f.write(text.encode("utf8", "surrogateescape"))


def read(path):
    with open(path, "rb") as f:
        return f.read().decode("utf8", "surrogateescape")


@contextlib.contextmanager
def spec(text, model=None, name="test.spec", **kw):
    """Yields (Specfile, path) for a file with the given text."""
    rpm.install(model or SpecModel())
    with scratch() as d:
        path = d / name
        write(path, text)
        yield Specfile(path, **kw), path
