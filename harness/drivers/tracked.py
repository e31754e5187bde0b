"""Drives tracked arrays (gsp_matplotlib.glm.ndarray.tracked) and their views."""
import operator
import numpy as np
from gsp_matplotlib.glm import ndarray, vec3, as_vec3

U = 64
OPS = dict(add=operator.iadd, sub=operator.isub, mul=operator.imul, div=operator.itruediv,
           floordiv=operator.ifloordiv, mod=operator.imod, pow=operator.ipow)
LOG = []


class Tracker:
    def __init__(self, array=None):
        self.bytes = bytearray(array.nbytes if array is not None else 0)

    def set_data(self, offset, data):
        data = bytes(data)
        LOG.append((self, int(offset), int(offset) + len(data)))
        if offset + len(data) <= len(self.bytes):
            self.bytes[offset:offset + len(data)] = data


STRUCT = np.dtype([("a", "u1"), ("b", "<f4", 2)])


def make(kind):
    t = ndarray.tracked
    f4 = np.float32
    if kind == "flat": return t(6, dtype=f4)
    if kind == "grid": return t((3, 4), dtype=f4)
    if kind == "cube": return t((2, 3, 2), dtype=f4)
    if kind == "vec": return vec3(4)
    if kind == "asvec": return as_vec3(np.zeros((4, 3), f4))
    if kind == "part": return np.zeros(8, f4)[2:-1].view(t)
    if kind == "hole": return np.zeros((4, 5), f4)[1:3, 1:4].view(t)
    if kind == "fortran": return np.zeros((3, 2), f4, order="F").view(t)
    if kind == "struct": return t(3, dtype=STRUCT)


def cells(Z, dtype=None):
    Z = np.asarray(Z)
    if Z.dtype.names:
        out = []
        for item in Z.reshape(-1):
            out += [float(item["a"]), float(item["b"][0]), float(item["b"][1])]
    else:
        out = [float(v) for v in Z.reshape(-1)]
    res = []
    for v in out:
        v = v * U
        res.append(int(v) if v == int(v) and abs(v) < 2**31 else 999999999)
    return res


def key(ix):
    out = []
    for a in ix:
        if a["k"] == "i":
            out.append(a["i"])
        else:
            f = lambda v: None if v == 99 else v
            out.append(slice(f(a["a"]), f(a["b"]), a["s"]))
    return tuple(out) if len(out) != 1 else out[0]


class Driver:
    def __init__(self):
        self.h = []
        self.roots = []      # (handle index, tracker or None)
        ndarray.tracked.__tracker_class__ = Tracker

    def end(self):
        ndarray.tracked.__tracker_class__ = None

    def do(self, e):
        ev, err = e["ev"], ""
        LOG.clear()
        signals = LOG
        Z = self.h[e["h"] - 1] if "h" in e else None
        try:
            if ev == "new":
                if not e["tracker"]:
                    ndarray.tracked.__tracker_class__ = None
                try:
                    Z = make(e["kind"])
                finally:
                    ndarray.tracked.__tracker_class__ = Tracker
                P = Z.view(np.ndarray)
                if P.dtype.names:
                    P["a"], P["b"] = 0, 0
                else:
                    P[...] = 0
                self.h.append(Z)
                self.roots.append((len(self.h) - 1, Z._tracker if e["tracker"] else None))
            elif ev == "view":
                self.h.append(Z[key(e["ix"])])
            elif ev == "field":
                self.h.append(Z[e["f"]])
            elif ev == "T":
                self.h.append(Z.T)
            elif ev in ("copy", "take"):
                C = Z.copy() if ev == "copy" else Z[[0, -1]]
                self.h.append(C)
                self.roots.append((len(self.h) - 1, None))
            elif ev == "set":
                v = e["v"]
                if e["seq"]:
                    shape = np.asarray(Z)[key(e["ix"])].shape
                    v = (v + np.arange(int(np.prod(shape)))).reshape(shape)
                Z[key(e["ix"])] = v
            elif ev == "fill":
                Z[...] = e["v"]
            elif ev == "setfield":
                Z[e["f"]] = e["v"]
            elif ev == "comp":
                v = e["v"]
                if e["seq"]:
                    v = tuple(v + i for i in range(len(e["key"])))
                # the other name of the components
                name = e["key"] if e["key"] != "yx" else "yx"
                setattr(Z, name, v)
            elif ev == "op":
                if OPS[e["op"]](Z, e["v"]) is not Z:
                    err = "rebound"
            elif ev == "fancy":
                Z[[0]] = 1
            elif ev == "bad":
                Z[...] = np.zeros(Z.shape + (7,))
            elif ev == "clear":
                Z.clear()
            else:
                raise SystemExit(ev)
        except (NotImplementedError, ValueError) as exc:
            err = type(exc).__name__
        out = []
        for t, a, b in signals:
            r = [i + 1 for i, (_, x) in enumerate(self.roots) if x is t and t is not None]
            out.append([r[0] if r else 0, a, b])
        mirrors, dirty = [], []
        for i, t in self.roots:
            root = self.h[i]
            if t is None:
                mirrors.append([])
            else:
                m = np.frombuffer(bytes(t.bytes), root.dtype)
                mirrors.append(cells(m))
            d = root.dirty
            dirty.append([int(d[0]), int(d[1])] if d is not None else [-1, -1])
        return dict(err=err, data=[cells(h) for h in self.h],
                    shapes=[list(np.shape(h)) for h in self.h],
                    mirrors=mirrors, dirty=dirty, signals=out)
