"""Drives vectors: creation, swizzling, conversion (gsp_matplotlib.glm)."""
from fractions import Fraction
import numpy as np
from gsp_matplotlib import glm
from gsp_matplotlib.glm import ndarray

NAMES = {2: ["xy", "ra"], 3: ["xyz", "rgb"], 4: ["xyzw", "rgba"]}


def name(c, key, nm):
    n = NAMES[c]
    return "".join(n[(nm - 1) if nm < 3 else (i % 2)][k] for i, k in enumerate(key))


def num(v):
    v = float(v)
    return int(v) if v == int(v) else 99999


def rows(Z):
    Z = np.asarray(Z)
    if Z.ndim == 1:
        Z = Z.reshape(1, -1)
    return [[num(v) for v in r] for r in Z]


def quot(v):
    f = Fraction(float(v)).limit_denominator(4096)
    return [f.numerator, f.denominator]


SEL = dict(all=lambda Z: Z, tail=lambda Z: Z[1:], rev=lambda Z: Z[::-1], even=lambda Z: Z[::2],
           first=lambda Z: Z[0], last=lambda Z: Z[-1])


class Driver:
    def __init__(self):
        self.a = []

    def end(self):
        pass

    def value(self, e, Z, single):
        v, key, form = e["v"], e["key"], e["form"]
        k, m = len(key), 1 if single else len(Z)
        if form == "scalar": return v
        if form == "tuple": return tuple(v + j for j in range(1, k + 1))
        if form == "list": return [v + j for j in range(1, k + 1)]
        if form == "row": return np.array([v + j for j in range(1, k + 1)])
        if form == "arrays":
            return tuple(np.array([v + 10 * j + i for i in range(1, m + 1)]) for j in range(1, k + 1))
        if form == "items": return np.array([v + i for i in range(1, m + 1)])
        if form == "col": return np.array([[v + i] for i in range(1, m + 1)])
        if form == "rows":
            return np.array([[v + 10 * i + j for j in range(1, k + 1)] for i in range(1, m + 1)])
        if form == "swap":
            return getattr(Z, name(Z.shape[-1], e["from"], e["nm"]))
        if form == "other":
            B = SEL[e["sel"]](self.a[e["b"] - 1])
            return getattr(B, name(B.shape[-1], e["from"], e["nm"]))

    def do(self, e):
        ev, err, got, dtype, shape, alias = e["ev"], "", [], "", [], False
        Z = self.a[e["a"] - 1] if "a" in e else None
        try:
            if ev == "new":
                f = getattr(glm, f"{e['t']}vec{e['c']}")
                Z = f(e["n"]) if e["n"] else f()
                dtype, shape = str(Z.dtype), list(Z.shape)
                P = np.asarray(Z).reshape(-1, e["c"])
                for r in range(len(P)):
                    P[r] = [10 * (r + 1) + c for c in range(1, e["c"] + 1)]
                self.a.append(Z)
            elif ev == "mat":
                f = getattr(glm, f"{e['t']}mat{e['c']}")
                Z = f(e["n"]) if e["n"] else f()
                dtype, shape = str(Z.dtype), list(Z.shape)
            elif ev == "get":
                T = SEL[e["sel"]](Z)
                got = rows(getattr(T, name(Z.shape[-1], e["key"], e["nm"])))
            elif ev == "set":
                T = SEL[e["sel"]](Z)
                setattr(T, name(Z.shape[-1], e["key"], e["nm"]), self.value(e, T, T.ndim == 1))
            elif ev == "bad":
                setattr(Z, name(Z.shape[-1], e["key"], e["nm"]), np.ones(len(Z) + 1))
            elif ev == "unknown":
                getattr(Z, "q")
            elif ev == "conv":
                src = np.array(e["src"][0] if e["k"] == 0 else e["src"], dtype=e["from"])
                before = src.copy()
                f = getattr(glm, f"{e['how']}_vec{e['c']}")
                V = f(src, e["dtype"]) if e["dtype"] else f(src)
                if not isinstance(V, getattr(ndarray, f"vec{e['c']}")):
                    dtype = "not a vec"
                else:
                    dtype = str(V.dtype)
                A = np.asarray(V)
                got = [[quot(v) for v in r] for r in A]
                A[0, 0] = 1024
                alias = src.reshape(-1)[0] == 1024
                if not alias and not np.array_equal(src, before):
                    dtype = "source changed"
        except AttributeError:
            err = "AttributeError"
        except Exception as exc:
            err = "Error"
        return dict(err=err, data=[rows(a) for a in self.a], got=got, dtype=dtype, shape=shape,
                    alias=bool(alias))
