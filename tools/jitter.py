#!/usr/bin/env python3
"""Rerun the monitors on a copy of tftb whose inexact arithmetic is off by an ulp or two.

    /opt/venv/bin/python -B tools/jitter.py OUTDIR [SALT]      writes OUTDIR/tftb, a rewritten copy of /repo/tftb
    TFMON_REPO=OUTDIR /opt/venv/bin/python -B -m tfmon.run T05 --tier quick

Every product, quotient, power and transcendental/FFT call in the copy is wrapped in `__jit__`, a pure function of
the value which moves a floating-point result by -1, 0 or +1 ulp unless it is a small multiple of 1/4 (a value an
equivalent rewriting would also get exactly).  That is what a behaviour-preserving refactoring can do to the numbers;
a monitor which alarms here decides a rounding accident, not a property.  Not part of any registered command.
"""
import ast
import os
import shutil
import sys

NAMES = {"fft", "ifft", "fft2", "ifft2", "exp", "cos", "sin", "tan", "log", "log2", "sqrt", "arctan", "arctan2", "angle", "dot",
         "linspace", "mean", "trapezoid", "hilbert", "cosh", "sinh", "logspace", "sum", "power", "splev", "hanning", "hamming",
         "gaussian", "interp", "std", "var", "norm", "cumsum", "real_if_close", "abs", "sinc", "arccos", "arcsin", "kron"}


class T(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        for c in (n.left, n.right):     # halving and doubling are exact however they are written
            if isinstance(n.op, (ast.Mult, ast.Div)) and isinstance(c, ast.Constant) and c.value in (1, 2, 4, 8, 0.5, 0.25, 1.0, 2.0):
                return n
        if isinstance(n.op, (ast.Mult, ast.Div, ast.Pow, ast.Add, ast.Sub)):
            return ast.copy_location(ast.Call(ast.Name("__jit__", ast.Load()), [n], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in NAMES:
            return ast.copy_location(ast.Call(ast.Name("__jit__", ast.Load()), [n], []), n)
        return n


JIT = '''
import numpy as _np
SALT = %d


def _j(a):
    bits = _np.abs(a).view(_np.uint64)
    h = ((bits ^ _np.uint64(SALT * 0x9E37)) * _np.uint64(0x9E3779B97F4A7C15)) >> _np.uint64(62)
    step = _np.where(h == 1, 1.0, _np.where(h == 2, -1.0, 0.0))
    exact = (a * 4 == _np.round(a * 4)) & (_np.abs(a) < 2 ** 40)
    with _np.errstate(all="ignore"):
        out = a * (1 + step * 2.220446049250313e-16)
    return _np.where(exact | ~_np.isfinite(a), a, out)


def __jit__(v):
    if isinstance(v, float):
        r = float(_j(_np.atleast_1d(_np.float64(v)))[0])
        return _np.float64(r) if isinstance(v, _np.float64) else r
    if type(v) is complex or isinstance(v, _np.complex128):
        r = complex(__jit__(float(v.real)), __jit__(float(v.imag)))
        return _np.complex128(r) if isinstance(v, _np.complex128) else r
    if type(v) is _np.ndarray and v.size:
        with _np.errstate(all="ignore"):
            if v.dtype == _np.float64:
                return _j(_np.array(v)).reshape(v.shape)
            if v.dtype == _np.complex128:
                out = _np.empty(v.shape, complex)
                out.real = _j(_np.array(v.real))
                out.imag = _j(_np.array(v.imag))
                return out
    return v
'''


def main():
    out = sys.argv[1]
    salt = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    dst = os.path.join(out, "tftb")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree("/repo/tftb", dst, ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(dst, "_jit.py"), "w") as fh:
        fh.write(JIT % salt)
    for root, _, files in os.walk(dst):
        if "tests" in root.split(os.sep):
            continue
        for f in files:
            if not f.endswith(".py") or f in ("_jit.py", "__init__.py"):
                continue
            p = os.path.join(root, f)
            tree = T().visit(ast.parse(open(p, encoding="utf-8").read()))
            pos = 1 if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(getattr(tree.body[0], "value", None), ast.Constant) else 0
            while pos < len(tree.body) and isinstance(tree.body[pos], ast.ImportFrom) and tree.body[pos].module == "__future__":
                pos += 1
            tree.body.insert(pos, ast.parse("from tftb._jit import __jit__").body[0])
            ast.fix_missing_locations(tree)
            with open(p, "w") as fh:
                fh.write(ast.unparse(tree) + "\n")


main()
