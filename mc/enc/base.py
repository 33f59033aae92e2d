import os

import numpy as np

from .. import alphabet as A
from ..dec import spec

NUM = ["r", "e", "E", "+", "f", "i"]


def num(style):
    """spellings of a decimal number (all values of the meshes are short dyadic fractions)"""
    def fmt(x):
        x = float(x)
        if style == "r":
            return repr(x)
        if style == "e":
            return f"{x:.15e}"
        if style == "E":
            return f"{x:.10E}"
        if style == "+":
            return f"{x:+.12f}"
        if style == "f":  # Fortran: no digit before or after the point
            s = repr(x)
            s = s[:-1] if s.endswith(".0") else s
            return s.replace("0.", ".", 1) if s.startswith(("0.", "-0.")) and len(s.lstrip("-0.")) else s
        if style == "i":  # integral values without a point
            return str(int(x)) if x == int(x) else repr(x)
        if style == "D":
            return f"{x:.12e}".replace("e", "D")
        raise ValueError(style)

    return fmt


def inverse(t, table):
    """file_nodes[j] = meshio_nodes[q[j]]"""
    p = spec.from_file_order(t, table, spec.corners(t))
    if p is None:
        return list(range(A.NN[t]))
    q = [0] * len(p)
    for i, j in enumerate(p):
        q[j] = i
    return q


def ids(n, style, start=1):
    """file numbers of n items"""
    if style == "seq":
        return list(range(start, n + start))
    if style == "sparse":
        return [7 + 10 * i for i in range(n)]
    if style == "big":
        return [1000000 + i for i in range(n)]
    if style == "rev":
        return list(range(n + start - 1, start - 1, -1))
    if style == "shuffle":  # a fixed permutation with gaps
        s = next(k for k in (7, 5, 3, 11, 13) if np.gcd(k, n) == 1)
        return [start + 2 * ((i * s + 3) % n) for i in range(n)]
    raise ValueError(style)


def lines(text, nl="\n", final=True):
    """line ends of a text"""
    if not final:
        text = text.rstrip("\n")
    return text.replace("\n", nl).encode()


class Enc:
    name = None
    ext = None
    fmt = None           # explicit format for meshio.read (None: by extension)
    axes = {}
    full = ("b",)        # axes that are always enumerated completely
    may = {}             # axis -> values that the reader may refuse
    parts = ("points", "cells", "point_data", "cell_data")
    extra_ok = ()
    tol = 0.0
    bound = {"quick": 2, "thorough": 3}
    late = True          # (which) mesh of the menu to make one with unused points of
    menu = {"tri": dict(b=[["triangle", 3]])}

    def admissible(self, case):
        return True

    def content(self, case):
        return A.build(self.menu[case["b"]])

    def expected(self, case):
        return self.content(case)

    def may_refuse(self, case):
        return any(case[k] in v for k, v in self.may.items() if k in case)

    def encode(self, c, case):
        """-> bytes or {file name: bytes}"""
        raise NotImplementedError

    def path(self, d):
        return os.path.join(d, "mesh" + self.ext)

    def check(self, m, case):
        """further comparisons -> (signature, message)"""
        return ()

    def read(self, meshio, path, case):
        return meshio.read(path, self.fmt)
