"""Mechanical extraction of the verified text: AST of live function objects.

Two sources:
* functions defined in a file: the file at code.co_filename is parsed and the node whose
  (first line, name) matches the code object is taken;
* functions emitted at run time through builtin compile() by the resolver compiler: compile() is
  shadowed in the compiler module's namespace (from here, no edit of /repo), every module compiled is
  recorded, and the node is found through the identity of the code object that actually runs.
Nothing is dropped except type annotations, decorators of nested definitions listed in exec.py and
docstrings.
"""
from __future__ import annotations
import ast, builtins, types, functools

_files: dict[str, dict] = {}
EMITTED: dict[int, tuple] = {}   # id(code) -> (node, code)   (keeps code alive)
_ASTMODS = []


class NoSource(Exception):
    pass


def _index(filename):
    if filename in _files:
        return _files[filename]
    try:
        with open(filename, encoding="utf-8") as f:
            tree = ast.parse(f.read(), filename)
    except OSError as e:
        raise NoSource(str(e))
    idx: dict = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            line = min([n.lineno] + [d.lineno for d in n.decorator_list])
            idx.setdefault((line, n.name), []).append(n)
        elif isinstance(n, ast.Lambda):
            idx.setdefault((n.lineno, "<lambda>"), []).append(n)
    _files[filename] = idx
    return idx


def node_for_code(code: types.CodeType):
    hit = EMITTED.get(id(code))
    if hit is not None and hit[1] is code:
        return hit[0]
    idx = _index(code.co_filename)
    cands = idx.get((code.co_firstlineno, code.co_name), [])
    if len(cands) == 1:
        return cands[0]
    if len(cands) > 1:
        nargs = code.co_argcount + code.co_kwonlyargcount
        c2 = [n for n in cands if len(n.args.args) + len(n.args.posonlyargs) + len(n.args.kwonlyargs) == nargs]
        if len(c2) >= 1:
            # lambdas on one line: disambiguate by column when available
            pos = next((p for p in code.co_positions() if p[0] is not None and p[2] is not None), None)
            return c2[0] if len(c2) == 1 else min(c2, key=lambda n: abs(n.col_offset - (pos[2] if pos else 0)))
    raise NoSource(f"{code.co_filename}:{code.co_firstlineno} {code.co_name}")


def _walk_codes(code):
    stack = [code]
    while stack:
        c = stack.pop()
        yield c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                stack.append(k)


def hook_compile(module):
    """Shadow builtin compile in `module` so every emitted function's AST is kept."""
    if getattr(module, "__vf_hooked__", False):
        return
    real = builtins.compile

    def recording_compile(source, filename, mode, *a, **kw):
        code = real(source, filename, mode, *a, **kw)
        tree = source if isinstance(source, ast.AST) else ast.parse(source)
        by: dict = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                by.setdefault(n.name, []).append(n)
            elif isinstance(n, ast.Lambda):
                by.setdefault("<lambda>", []).append(n)
        for c in _walk_codes(code):
            if c.co_name in by and len(by[c.co_name]) == 1:
                EMITTED[id(c)] = (by[c.co_name][0], c)
        _ASTMODS.append(tree)
        return code

    module.__dict__["compile"] = recording_compile
    module.__dict__["__vf_hooked__"] = True


def unwrap_function(f):
    while isinstance(f, functools.partial):
        f = f.func
    return f
