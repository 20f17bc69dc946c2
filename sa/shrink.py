"""Scaled-down copies of the analysed source.

Code may treat large samples differently (chunks, thresholds).  The points at which terms are compared are small, so the
integer constants of at least LARGE in the source are scaled down, equal constants alike and in the same order, and the
scaled-down source is analysed too, with integer types of few bits scaled down likewise.  The present code has none.
"""
from __future__ import annotations

import ast
import os

LARGE = 20
NARROW = {"int8", "int16", "int32", "uint8", "uint16", "uint32", "i1", "i2", "i4", "u1", "u2", "u4"}
OPS = {ast.Pow: lambda a, b: a ** b if 0 <= b < 64 else None, ast.LShift: lambda a, b: a << b if 0 <= b < 64 else None,
       ast.Mult: lambda a, b: a * b, ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b}


def value(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return int(n.value) if n.value == n.value and abs(n.value) < 1e18 and n.value == int(n.value) else None
    if isinstance(n, ast.BinOp) and type(n.op) in OPS:
        a, b = value(n.left), value(n.right)
        return None if a is None or b is None else OPS[type(n.op)](a, b)
    return None


def constants(tree):
    """Outermost constant expressions with a large value."""
    out = []

    def go(n):
        v = value(n) if isinstance(n, ast.expr) else None
        if v is not None:
            if LARGE <= v < 10 ** 12:
                out.append((n, v))
            return
        for c in ast.iter_child_nodes(n):
            go(c)
    go(tree)
    return out


def narrow_types(tree):
    """Integer types of at most 32 bits named in the source."""
    out = set()
    for n in ast.walk(tree):
        name = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else \
            n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
        if name in NARROW:
            out.add(name)
    return out


def overlays(repo, package="dcor", bases=(6, 3)):
    """[(label, {path: source})]; empty when the source has no large constants."""
    found = {}
    root = os.path.join(repo, package)
    narrow = set()
    for name in sorted(os.listdir(root)) if os.path.isdir(root) else ():
        path = os.path.join(root, name)
        if not name.endswith(".py"):
            continue
        try:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            tree = ast.parse(src)
            hits = constants(tree)
            narrow |= narrow_types(tree)
        except (SyntaxError, ValueError, OSError):
            continue
        if hits:
            found[path] = (src, hits)
    vals = sorted({v for _, hs in found.values() for _, v in hs})
    out = []
    if narrow and not 0 < len(vals) <= 6:
        return [("range of " + ", ".join(sorted(narrow)), {})]
    for b in bases if 0 < len(vals) <= 6 else ():
        new = {v: b + 3 * k for k, v in enumerate(vals)}
        label = ", ".join(f"{v} taken as {new[v]}" for v in vals)
        over = {}
        for path, (src, hits) in found.items():
            lines = src.encode().split(b"\n")
            starts = [0]
            for ln in lines:
                starts.append(starts[-1] + len(ln) + 1)
            raw = src.encode()
            for n, v in sorted(hits, key=lambda h: -(starts[h[0].lineno - 1] + h[0].col_offset)):
                s = starts[n.lineno - 1] + n.col_offset
                e = starts[n.end_lineno - 1] + n.end_col_offset
                pad = b"\n" * raw[s:e].count(b"\n")
                txt = str(new[v]).encode()
                if isinstance(n, ast.Constant) and isinstance(n.value, float):
                    txt += b".0"
                raw = raw[:s] + (b"(" + txt + pad + b")" if pad else txt) + raw[e:]
            over[path] = raw.decode()
        out.append((label + "".join(", range of " + t for t in sorted(narrow)), over))
    return out
