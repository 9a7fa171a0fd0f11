"""Asynchronous faults inside the library: an interrupt or a failing allocation at the n-th executed
line of the code under test."""
import ast
import os
import sys

from sim import core

ROOT = os.path.join(core.REPO, "gemd") + os.sep
_is_ours = {}


def ours(filename):
    hit = _is_ours.get(filename)
    if hit is None:
        hit = _is_ours[filename] = filename.startswith(ROOT)
    return hit


_shielded = {}


def shielded(filename):
    """Lines at which no fault is injected: headers of with-statements (their line event also fires
    on leaving the block, where an exception would skip the exit, which cannot happen to the real
    statement) and cleanup code (finally blocks and handlers), which nothing could protect."""
    got = _shielded.get(filename)
    if got is None:
        got = set()
        with open(filename) as f:
            tree = ast.parse(f.read())
        for node in ast.walk(tree):
            if isinstance(node, (ast.With, ast.AsyncWith)):
                got.update(range(node.lineno, node.body[0].lineno))
            elif isinstance(node, ast.Try):
                for part in list(node.finalbody) + list(node.handlers):
                    got.update(range(part.lineno, part.end_lineno + 1))
        _shielded[filename] = got
    return got


class LineFault:
    """with LineFault(at, exc): the at-th line executed in the library raises exc."""

    def __init__(self, at, exc, where=ours):
        self.at, self.exc, self.where = at, exc, where
        self.count = 0
        self.fired = None

    def _global(self, frame, event, arg):
        if event == "call" and self.where(frame.f_code.co_filename):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.fired is None:
            self.count += 1
            if self.count >= self.at and \
                    frame.f_lineno not in shielded(frame.f_code.co_filename):
                self.fired = "%s:%d" % (frame.f_code.co_filename.replace(ROOT, ""),
                                        frame.f_lineno)
                sys.settrace(None)
                raise self.exc
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


EXC = {"interrupt": core.SimInterrupt, "memory": MemoryError}


def position(r):
    """A line number to fail at: log-uniform, so that early and late lines are both reached."""
    return int(10 ** r.uniform(0, 4.2))
