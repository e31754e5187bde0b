"""Drives transforms: chaining, binding, copy, arithmetic, units, evaluation."""
import operator, warnings
from fractions import Fraction
import numpy as np
import matplotlib.pyplot as plt
import gsp
from gsp import transform
from gsp.transform import Transform, Operator
import gsp_matplotlib as backend
from gsp.io.command import CommandQueue

warnings.simplefilter("ignore")
OPS = dict(Add=operator.add, Sub=operator.sub, Mul=operator.mul, Div=operator.truediv)
FIXED = {}
SWZ = "xyzw"


def fixed(name):
    """Canvas and viewports are costly: made once per process"""
    if name not in FIXED:
        if name == "visual":
            c = backend.Canvas(127, 50, 127.0)
            FIXED[name] = backend.Viewport(c, 0, 0, 127, 50, (1, 1, 1, 1))
        elif name == "visual-tall":
            c = backend.Canvas(128, 256, 5.0)
            FIXED[name] = backend.Viewport(c, 32, 64, 64, 128, (1, 1, 1, 1))
        elif name == "visual-zoomed":
            c = backend.Canvas(128, 64, 9.0)
            FIXED[name] = backend.Viewport(c, 8, 16, 100, 40, (1, 1, 1, 1))
            FIXED[name]._axes.set_xlim(-3, 1)
            FIXED[name]._axes.set_ylim(0, .5)
        elif name == "canvas":
            FIXED[name] = backend.Canvas(254, 100, 127.0)
    return FIXED[name]


def values():
    S = np.zeros(3, dtype=[("x", "f8"), ("y", "f8"), ("pos", "f8", 2)])
    S["x"], S["y"], S["pos"] = [1, 2, 3], [4, 6, 8], [[7, 1], [5, 2], [3, 9]]
    N = np.zeros(3, dtype=[("pos", [("y", "f8"), ("b", "f8"), ("x", "f8")]), ("x", "f8")])
    N["pos"]["y"], N["pos"]["b"], N["pos"]["x"], N["x"] = [2, 4, 1], [3, 9, 8], [6, 5, 7], [1, 0, 2]
    A = np.array([[1, 2, 3, 4], [5, 7, 9, 11], [6, 4, 2, 8]], dtype=float)
    B = np.array([[4, 2, 10], [6, 8, 12]], dtype=float)
    B = backend.core.Buffer(2, np.dtype((np.float64, (3,))), B.tobytes())
    return dict(A=A, B=B, S=S, N=N, z=0, C=np.array([[8, 2], [4, 4], [16, 6], [2, 1]]), T=(10, 20, 5), U=(6.0, 4.0),
                f=2.5, i=4, n=-3)


def variables():
    return dict(screen=np.array([[1, 2, 8], [3, 5, 2], [9, 4, 6]], dtype=float),
                color=np.array([[1, 0, 0, 1], [0, 2, 3, 4]], dtype=float))


class Driver:
    def __init__(self):
        self.h = []
        self.v = values()
        self.queue = CommandQueue("active")
        self.queue.empty()

    def end(self):
        self.queue.empty()
        gsp.Object.objects.clear()

    def arg(self, a):
        return self.h[a["h"] - 1] if a["t"] == "h" else self.v[a["v"]] if a["t"] == "v" else None

    def name(self, x):
        for k, v in self.v.items():
            if x is v:
                return k
        return "-1" if isinstance(x, (int, float)) and x == -1 else "?"

    def kid(self, x):
        if x is None:
            return dict(c="none", base=0, bound=False, buf="", kids=[])
        if isinstance(x, Transform):
            return self.struct(x)
        return dict(c="value", base=0, bound=False, buf=self.name(x), kids=[])

    def struct(self, T):
        base = next((i + 1 for i, h in enumerate(self.h) if h is T.base), 0)
        kids, buf = [], ""
        if T.buffer is not None:
            buf = "transform" if isinstance(T.buffer, Transform) else self.name(T.buffer)
        if isinstance(T, Operator):
            kids = [self.kid(T.left), self.kid(T.right)]
        elif T.next is not None:
            kids = [self.struct(T.next)]
        elif buf == "transform":
            kids = [self.struct(T.buffer)]
        return dict(c=type(T).__name__, base=base, bound=bool(T.bound), buf=buf, kids=kids)

    def env(self, n):
        v = variables()
        if n == "visual": return dict(v, viewport=fixed(n))
        if n == "items": return dict(v, viewport=fixed("visual"), index=np.array([2, 0, 1, 1]))
        if n in ("visual-tall", "visual-zoomed"): return dict(screen=v["screen"], viewport=fixed(n))
        if n == "canvas": return dict(canvas=fixed(n))
        if n == "canvas-x":
            c = fixed("canvas")
            return dict(canvas=c, size=(c.size[0], c.size[0]))
        if n == "dpi": return dict(dpi=9)
        return {}

    def decode(self, v, T):
        if T.__class__.__name__ == "Colormap":
            v = np.asarray(v)
            for k in ("viridis", "gray"):
                table = plt.get_cmap(k)(np.arange(256))
                flat = v.reshape(-1, 4)
                ix = [int(np.argmin(np.abs(table - c).sum(-1))) for c in flat]
                if np.allclose(table[ix], flat, atol=1e-9):
                    return dict(k=k, sh=list(v.shape[:-1]), d=[[i, 1] for i in ix])
            return dict(k="?", sh=list(v.shape), d=[])
        v = np.asarray(v)
        if v.dtype.names:
            return dict(k="struct", sh=list(v.shape), d=[],
                        f=[[n, self.decode(v[n], None)] for n in v.dtype.names])
        d = []
        for x in v.reshape(-1):
            x = float(x)
            f = Fraction(x).limit_denominator(10**6) if np.isfinite(x) else Fraction(10**9)
            d.append([f.numerator, f.denominator])
        return dict(k="num", sh=list(v.shape), d=d)

    def do(self, e):
        ev, err = e["ev"], ""
        val = dict(k="", sh=[], d=[])
        T = self.h[e["h"] - 1] if "h" in e else None
        try:
            if ev == "new":
                c = e["c"]
                if c == "Out":
                    sub = "" if not e["sub"] else "." + "".join(SWZ[k] if k < 9 else "q" for k in e["sub"])
                    N = transform.Out(e["key"] + sub)
                elif c == "Colormap":
                    f = lambda v: None if v == 99 else float(v)
                    N = transform.Colormap(e["key"], f(e["lo"]), f(e["hi"]))
                elif c == "Accessor":
                    N = transform.Accessor(self.arg(e["arg"]), e["key"])
                elif e["arg"]["t"] == "none":
                    N = getattr(transform, c)()
                else:
                    N = getattr(transform, c)(self.arg(e["arg"]))
                self.h.append(N)
            elif ev == "newop":
                self.h.append(getattr(transform, e["c"])(self.arg(e["a"]), self.arg(e["b"])))
            elif ev == "call":
                self.h.append(T(self.arg(e["arg"])))
            elif ev == "arith":
                N = OPS[e["op"]](self.arg(e["a"]), self.arg(e["b"]))
                if not isinstance(N, Transform):
                    err = "not a transform"
                else:
                    self.h.append(N)
            elif ev == "neg":
                self.h.append(-T)
            elif ev == "copy":
                self.h.append(T.copy())
            elif ev == "set_colormap":
                T.set_colormap(e["key"])
            elif ev in ("set_buffer", "set_next", "set_base", "set_left", "set_right"):
                getattr(T, ev)(self.arg(e["arg"]))
            elif ev == "eval":
                val = self.decode(T.evaluate(self.env(e["env"])), T)
        except ValueError:
            err = "ValueError"
        except Exception as exc:
            err = "Error" if ev == "eval" else type(exc).__name__
        if ev == "eval" and err:
            err = "Error"
        return dict(err=err, hs=[self.struct(h) for h in self.h], val=val)
