"""Source-line events of the code under test: where calls can be paused or cut short."""

import ast
import gc
import os
import sys
import types

from . import locks

TOOL = 4
_codes = None
_sites = {}
handler = None  # f(code, line) while a simulation runs, or None


def _prefix():
    if locks.PREFIX is None:
        locks.install()
    return locks.PREFIX


def _collect():
    """Every code object of the repository reachable in this process."""
    seen = {}

    def add(c):
        if id(c) in seen or not c.co_filename.startswith(_prefix()):
            return
        seen[id(c)] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            add(o.__code__)
    # functions reachable only through wrappers gc does not track are found by module
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, "__file__", None)
        if f and f.startswith(_prefix()):
            for v in vars(mod).values():
                while v is not None and not isinstance(v, types.FunctionType):
                    v = getattr(v, "__wrapped__", None)
                if v is not None:
                    add(v.__code__)
    return list(seen.values())


def _line(code, line):
    h = handler
    if h is not None:
        return h(code, line)
    return None


def install():
    """In the zygote, once: line events for the repository's code only."""
    global _codes
    if _codes is not None:
        return
    m = sys.monitoring
    m.use_tool_id(TOOL, "vsim")
    m.register_callback(TOOL, m.events.LINE, _line)
    _codes = _collect()
    for c in _codes:
        m.set_local_events(TOOL, c, m.events.LINE)


def _no_inject(path):
    """Lines at which an asynchronous exception is not delivered: with/try headers
    (no bytecode boundary where CPython would deliver one) and clean-up code."""
    got = _sites.get(path)
    if got is not None:
        return got
    out = set()
    headers = set()
    try:
        tree = ast.parse(open(path).read())
    except (OSError, SyntaxError):
        tree = ast.Module(body=[], type_ignores=[])

    def span(nodes):
        for n in nodes:
            out.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            headers.update(range(n.lineno, n.body[0].lineno))
        elif isinstance(n, ast.Try):
            headers.add(n.lineno)
            span(n.finalbody)
            for h in n.handlers:
                out.add(h.lineno)
                span(h.body)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            headers.update(range(n.lineno, n.body[0].lineno))
            if n.name in ("__exit__", "__del__", "__aexit__"):
                span([n])
    _sites[path] = (headers, out)
    return headers, out


def injectable(code, line):
    """May an asynchronous exception arrive here? Not inside clean-up code, also
    not in functions called from clean-up code."""
    headers, cleanup = _no_inject(code.co_filename)
    if line in headers or line in cleanup:
        return False
    f = sys._getframe(1)
    while f is not None:
        p = f.f_code.co_filename
        if p.startswith(locks.PREFIX) and f.f_code is not code:
            if f.f_lineno in _no_inject(p)[1]:
                return False
        f = f.f_back
    return True


def site(code, line):
    return f"{os.path.basename(code.co_filename)}:{line}"


class Recorder:
    """Counts line events of one undisturbed execution (per site)."""

    def __init__(self):
        self.sites = {}
        self.inj = {}
        self.total = 0

    def __call__(self, code, line):
        self.total += 1
        s = site(code, line)
        self.sites[s] = self.sites.get(s, 0) + 1
        if injectable(code, line):
            self.inj[s] = self.inj.get(s, 0) + 1


class Injector:
    """Raises `exc` at the k-th occurrence of a site."""

    def __init__(self, where, occurrence, exc):
        self.where = where
        self.left = occurrence
        self.exc = exc
        self.fired = False

    def __call__(self, code, line):
        if self.fired or site(code, line) != self.where or not injectable(code, line):
            return
        self.left -= 1
        if self.left < 0:
            self.fired = True
            raise self.exc


class handling:
    def __init__(self, h):
        self.h = h

    def __enter__(self):
        global handler
        self.saved = handler
        handler = self.h
        return self.h

    def __exit__(self, *a):
        global handler
        handler = self.saved
