"""Drives ragged arrays (gsp_matplotlib.glm.vlist)."""
import numpy as np
from gsp_matplotlib import glm


def rows(Z, x=1):
    """Rows of an array whose elements go by blocks of x"""
    Z = np.asarray(Z)
    if x > 1:
        if len(Z) % x: return [[99998]]
        if any(np.any(Z[i::x] != Z[::x]) for i in (1, x // 2, x - 1)): return [[99997]]
        Z = Z[::x]
    if Z.ndim == 1:
        Z = Z.reshape(-1, 1)
    return [[int(v) if float(v) == int(v) else 99999 for v in r] for r in Z]


def key(k):
    f = lambda v: None if v == 99 else v
    if k["k"] == "i": return k["i"]
    if k["k"] == "s": return slice(f(k["a"]), f(k["b"]), f(k["s"]))
    return list(k["is"])


class Driver:
    def __init__(self):
        self.l = []
        self.x = []

    def end(self):
        pass

    def new(self, e):
        n, w, form, x = e["n"], e["w"], e["form"], e["x"]
        Z = np.array([[10 * r + c for c in range(1, max(w, 1) + 1)] for r in range(1, n + 1)],
                     dtype=e["dt"]).reshape((n, w) if w else (n,))
        Z = np.repeat(Z, x, axis=0)
        n, e = n * x, dict(e, k=e["k"] * x, sizes=[i * x for i in e["sizes"]])
        if form in ("lists", "arrays", "vecs"):
            parts = np.split(Z, np.cumsum(e["sizes"])[:-1])
            if form == "lists":
                # an empty item has no columns to show when it is a plain list
                if w and 0 in e["sizes"]:
                    parts = [p if len(p) == 0 else p.tolist() for p in parts]
                    parts = [np.zeros((0, w)) if len(p) == 0 else p for p in parts]
                    if isinstance(parts[0], list):
                        parts[0] = np.array(parts[0])
                else:
                    parts = [p.tolist() for p in parts]
            if form == "vecs":
                parts = [glm.as_vec3(p) for p in parts]
            return glm.vlist(parts)
        if form == "sizes": return glm.vlist(Z, list(e["sizes"]))
        if form == "sizesarray": return glm.vlist(Z, np.array(e["sizes"]))
        if form == "int": return glm.vlist(Z, e["k"])
        return glm.vlist(Z)

    def put(self, V, e, b):
        k, v, form = key(e["key"]), e.get("v"), e.get("form")
        m = len(V[k]) // b
        w = 0 if V.data.ndim == 1 else V.data.shape[1]
        if form == "through":
            V[k][...] = v
        elif form == "scalar":
            V[k] = v
        elif form == "each":
            x = np.array([[v + 10 * i + c for c in range(1, max(w, 1) + 1)] for i in range(1, m + 1)])
            x = np.repeat(x, b, axis=0)
            V[k] = x if w else x[:, 0]
        elif form == "row":
            V[k] = [v + c for c in range(1, w + 1)]
        elif form == "column":
            V[k] = np.repeat(np.array([[v + i] for i in range(1, m + 1)]), b, axis=0)

    def do(self, e):
        ev, err, got, sizes, meta = e["ev"], "", [], [], []
        V = self.l[e["a"] - 1] if "a" in e else None
        x = self.x[e["a"] - 1] if "a" in e else e["x"]
        count = lambda n: int(n) // x if int(n) % x == 0 else 99998
        try:
            if ev == "new":
                V = self.new(e)
                sizes = [count(i) for i in V.itemsize]
                meta = [len(V), count(V.size), 0 if len(V.shape) == 1 else int(V.shape[1])]
                if V.shape[0] != V.size or V.dtype != V.data.dtype:
                    meta = ["bad shape"]
                if e["form"] == "vecs" and not isinstance(V.data, glm.ndarray.vec3):
                    meta = ["bad class"]
                self.l.append(V)
                self.x.append(x)
            elif ev == "get":
                got = rows(V[key(e["key"])], x)
            elif ev == "set":
                self.put(V, e, x)
            elif ev == "misfit":
                w = V.data.shape[1:]
                V[key(e["key"])] = np.ones((e["n"] * x,) + w)
            elif ev == "iter":
                parts = [p for p in V]
                sizes = [count(len(p)) for p in parts]
                got = [r for p in parts for r in rows(p, x)]
                meta = [len(V), count(V.size), 0 if len(V.shape) == 1 else int(V.shape[1])]
                if x == 1: str(V)
        except IndexError:
            err = "IndexError"
        except (ValueError, ZeroDivisionError):
            err = "ValueError"
        return dict(err=err, data=[rows(v.data, b) for v, b in zip(self.l, self.x)], got=got, sizes=sizes, meta=meta)
