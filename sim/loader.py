"""Import the code under test from /repo's working tree, from source only.

Cached bytecode is never read for `instancespace`, so an edit that keeps a file's
size and mtime cannot be missed, and nothing is written into /repo.
"""

from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG_DIR = os.path.realpath(os.path.join(REPO, "instancespace"))


class _SourceOnly(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):  # noqa: D102
        path = self.get_filename(fullname)
        data = self.get_data(path)
        code = self.source_to_code(data, path)
        _collect(code)
        _collect_cleanup(data, path)
        return code


CODES: list = []  # every code object of the code under test that was imported


CLEANUP: set = set()  # (file, line) of handlers, finally blocks and `with` headers


def _collect_cleanup(data, path):
    def add(first, last):
        CLEANUP.update((path, n) for n in range(first, last + 1))

    for node in ast.walk(ast.parse(data)):
        if isinstance(node, (ast.Try, ast.TryStar)):
            for h in node.handlers:
                add(h.lineno, h.end_lineno)
            if node.finalbody:
                add(node.finalbody[0].lineno, node.finalbody[-1].end_lineno)
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            # leaving the block runs the header's line again, before __exit__
            add(node.lineno, max(i.context_expr.end_lineno for i in node.items))


LEAVING = {"__exit__", "__aexit__", "__del__"}


def in_cleanup(frame) -> bool:
    """Whether a frame runs code that undoes things, which no fault should interrupt."""
    while frame is not None:
        code = frame.f_code
        if code.co_name in LEAVING or (code.co_filename, frame.f_lineno) in CLEANUP:
            return True
        frame = frame.f_back
    return False


def _collect(code):
    CODES.append(code)
    for c in code.co_consts:
        if isinstance(c, type(code)):
            _collect(c)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):  # noqa: D102
        if fullname != "instancespace" and not fullname.startswith("instancespace."):
            return None
        rel = fullname.split(".")[1:]
        base = os.path.join(PKG_DIR, *rel)
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.isfile(init):
                return importlib.util.spec_from_file_location(
                    fullname, init, loader=_SourceOnly(fullname, init),
                    submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        py = base + ".py"
        if os.path.isfile(py):
            return importlib.util.spec_from_file_location(
                fullname, py, loader=_SourceOnly(fullname, py))
        return None


def install() -> None:
    """Route every `instancespace` import to the working tree."""
    sys.dont_write_bytecode = True
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


def in_repo(filename: str) -> bool:
    """Whether a code object's file belongs to the code under test."""
    return filename.startswith(PKG_DIR)
