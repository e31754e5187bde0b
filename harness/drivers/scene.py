"""Drives scenes: viewports laid out on a canvas, visuals rendered on them,
resizes, changes of the data, replay of the saved commands."""
import json, os, tempfile, warnings
from fractions import Fraction
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.backend_bases import ResizeEvent
import gsp
import gsp_matplotlib as backend
from gsp_matplotlib import glm
from gsp import transform
from gsp.core import Color, Marker, LineCap, LineStyle, LineJoin, Matrix
from gsp.io.command import CommandQueue

warnings.simplefilter("ignore")
DPI = 64.0
TRACKER = backend.Tracker
NAMES = dict(Pixels=dict(fill="colors"),
             Points=dict(fill="fill_colors", edge="line_colors", width="line_widths", size="sizes"),
             Markers=dict(fill="fill_colors", edge="line_colors", width="line_widths", size="sizes", mark="types", ang="angles"),
             Segments=dict(edge="line_colors", width="line_widths"),
             Paths=dict(edge="line_colors", width="line_widths"),
             Polygons=dict(fill="fill_colors", edge="line_colors", width="line_widths"))
DEPTH = dict(Pixels="screen[positions].z", Points="screen[positions].z", Markers="screen[positions].z",
             Segments="screen[segments]", Paths="screen[paths].z", Polygons="screen[polygons].z")
I = np.eye(4)


def diag(a, b, c, d):
    return np.diag([a, b, c, d]).astype(float)


def matrix(name):
    M = dict(I=I, flip=diag(1, 1, -1, 1), scale=diag(.5, 2, .25, 1), half=diag(1, 1, 1, 2))
    M["move"] = np.eye(4)
    M["move"][:3, 3] = .25, -.125, .5
    M["turn"] = np.array([[0, 0, 1, 0], [0, 1, 0, 0], [-1, 0, 0, 0], [0, 0, 0, 1]], float)
    M["spin"] = np.array([[0, -1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]], float)
    M["persp"] = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 1, 2]], float)
    return M[name].copy()


def rat(x, limit=20000):
    x = float(x)
    f = Fraction(x).limit_denominator(limit) if np.isfinite(x) else Fraction(10**9)
    if abs(float(f) - x) > 2e-5 * max(1, abs(x)):
        f = Fraction(999999)
    return [f.numerator, f.denominator]


def color(i):
    # colors that do not appear in images are half transparent
    return (i / 64, .5, .25, .5 if 5 <= i < 20 or i >= 30 else 1.0)


VIRIDIS = plt.get_cmap("viridis")(np.arange(256))


def color_id(c):
    c = np.asarray(c, float)
    i = int(round(c[0] * 64))
    if np.allclose(c, color(i), atol=1e-6):
        return i
    k = int(np.argmin(np.abs(VIRIDIS - c).sum(-1)))
    return 1000 + k if np.allclose(VIRIDIS[k], c, atol=1e-6) else -1


def whole(x):
    x = float(x)
    return int(x) if x == int(x) else -1


def number(x):
    """Numbers computed from depths (single precision)"""
    return rat(x, 1000)


def marker_path(t):
    import matplotlib as mpl
    m = mpl.markers.MarkerStyle(Marker.path(Marker(t)))
    return m.get_path().transformed(m.get_transform())


class Driver:
    def __init__(self):
        plt.close("all")
        gsp.Object.objects.clear()
        CommandQueue("active").empty()
        self.canvas = backend.Canvas(128, 64, DPI)
        self.fig = plt.gcf()
        self.viewports, self.visuals, self.specs, self.sources = [], [], [], []
        self.shown = []         # per viewport, specification of each artist (None: ignored)

    def end(self):
        plt.close("all")
        CommandQueue("active").empty()
        gsp.Object.objects.clear()
        glm.ndarray.tracked.__tracker_class__ = TRACKER

    # ------------------------------------------------------------ arguments --
    def extent(self, v):
        t, n, d = v["t"], v["n"], v["d"]
        if t == "px": return n
        if t == "fr": return n / d
        if t == "pixel": return n * transform.Pixel()
        if t == "inch": return (n / d) * transform.Inch()
        if t == "margin": return 1.0 - n * transform.Pixel()
        if t == "mid": return 0.5 + n * transform.Pixel()

    def attr(self, kind, name, a, n):
        f, v = a["f"], a["v"]
        if name in ("fill", "edge"):
            if f == "one": return list(color(v))
            if f == "tuple": return color(v)
            if f == "row": return np.array([color(v)])
            if f == "obj": return Color(*color(v))
            colors = np.array([color(v + i + 1) for i in range(n)], np.float32)
            if f == "each": return colors.astype(float)
            if f == "buffer": return backend.Buffer(n, np.dtype((np.float32, (4,))), colors.tobytes())
            if f == "tracked":
                out = glm.vec4(n)
                out[...] = colors
                return out
            if f == "map": return transform.Colormap("viridis")(transform.Out(DEPTH[kind]))
        if name == "mark":
            if f == "one": return Marker(v)
            if f == "list": return [Marker(v + i + 1) for i in range(n)]
            return np.array([v + i + 1 for i in range(n)])
        if f == "depth": return v * (2 - 0.5 * transform.Out(DEPTH[kind]))
        scale = 10 if name == "ang" else 1
        if f == "one": return float(v) * scale
        numbers = np.array([float(v + i + 1) * scale for i in range(n)])
        if f == "each": return numbers
        if f == "buffer": return backend.Buffer(n, np.dtype(np.float32), numbers.astype(np.float32).tobytes())
        if f == "tracked":
            out = glm.float(n)
            out[...] = numbers
            return out

    def count(self, v):
        n, ix = len(v["pts"]), v["ix"]
        if v["kind"] == "Segments": return n // 2
        if ix["t"] == "int": return n // ix["k"]
        if ix["t"] in ("sizes", "buffer"): return len(ix["s"])
        if ix["t"] in ("list", "List", "arrays"): return len(ix["ll"])
        return n

    def visual(self, v):
        kind, P, ix = v["kind"], np.array(v["pts"], float), v["ix"]
        source, pad = None, 0
        if ix["t"] in ("list", "List", "arrays") and ix["k"]:
            pad = ix["k"]
            P = np.concatenate([np.zeros((pad, 3)), P])
        # plain array, tracked array, buffer
        form = (len(self.visuals) + sum(v[k]["v"] for k in ("fill", "edge", "width", "size", "mark", "ang"))) % 3
        if not v["px"]:
            P = P / 8
        if kind == "Segments":
            P = P.reshape(-1, 2, 3)
        if form == 1:
            source = glm.vec3(P.shape[:-1] if P.ndim > 2 else len(P))
            source[...] = P
        elif form == 2:
            source = backend.Buffer(len(P), np.dtype((np.float64, P.shape[1:])), P.tobytes())
        else:
            source = P
        positions = source
        if v["px"]:
            positions, source = (P if form == 2 else source) * transform.Pixel(), None
        n = self.count(v)
        a = {k: self.attr(kind, k, v[k], n) for k in NAMES[kind]}
        index = self.index(ix)
        solid, miter = LineStyle.solid, LineJoin.miter
        if kind == "Pixels":
            V = backend.visual.Pixels(positions, a["fill"])
        elif kind == "Points":
            V = backend.visual.Points(positions, a["size"], a["fill"], a["edge"], a["width"])
        elif kind == "Markers":
            V = backend.visual.Markers(positions, a["mark"], a["size"], None, 0.0 if a["ang"] is None else a["ang"],
                                       a["fill"], a["edge"], a["width"])
        elif kind == "Segments":
            V = backend.visual.Segments(positions, LineCap.butt, a["edge"], a["width"])
        elif kind == "Paths":
            V = backend.visual.Paths(positions, index, a["edge"], a["width"], solid, miter, LineCap(v["cap"]))
        else:
            V = backend.visual.Polygons(positions, index, a["fill"], a["edge"], a["width"], solid, miter)
        self.visuals.append(V)
        self.specs.append(dict(v))
        self.sources.append((source, v["pts"], pad))

    def index(self, ix):
        t = ix["t"]
        if t == "int": return ix["k"]
        ix = dict(ix, ll=[[n + ix["k"] for n in z] for z in ix["ll"]])
        if t == "sizes": return np.array(ix["s"], int)
        if t == "list": return [list(z) for z in ix["ll"]]
        if t == "arrays": return [np.array(z, int) for z in ix["ll"]]
        if t == "buffer":
            s = np.array(ix["s"], np.int32)
            return backend.Buffer(len(s), s.dtype, s.tobytes())
        if t == "List":
            items, count = np.concatenate([np.array(z, int) for z in ix["ll"]]), np.array([len(z) for z in ix["ll"]])
            B = [backend.Buffer(len(b), b.dtype, b.tobytes()) for b in (items, count)]
            return backend.List(*B)

    def matrices(self, names):
        out = {}
        for i, (key, name) in enumerate(zip(("model", "view", "proj"), names)):
            if name:
                M = matrix(name)
                if i == 0: M = np.asfortranarray(M)
                if i == 1 and (name == "move"): M = Matrix(M)
                if i == 2 and name == "persp": M = M.ravel().tolist()
                out[key] = M
        return out

    # ----------------------------------------------------------- observation --
    def items(self, spec, col):
        kind = spec["kind"]
        if kind in ("Pixels", "Points", "Markers"):
            P = [[p] for p in np.asarray(col.get_offsets())]
        else:
            P = []
            for path in col.get_paths():
                v = path.vertices
                if path.codes is not None and len(v) and path.codes[-1] == path.CLOSEPOLY:
                    v = v[:-1]
                P.append(v)
        n = len(P)
        def get(name, values, decode):
            if spec[name]["f"] == "none":
                return [0 if decode is color_id else [0, 1]] * n
            values = list(values)
            return [decode(values[i % len(values)]) for i in range(n)] if values else [-2] * n
        fill = get("fill", col.get_facecolor(), color_id)
        edge = get("edge", col.get_edgecolor(), color_id)
        width = get("width", col.get_linewidths(), number)
        size = get("size", col.get_sizes(), number) if hasattr(col, "get_sizes") else [[0, 1]] * n
        mark = [0] * n
        if kind == "Markers":
            paths = col.get_paths()
            turned = (0,) if spec["ang"]["f"] == "none" else range(0, 10)
            mark = [self.mark(paths[i % len(paths)], turned) for i in range(n)]
        cap = dict(butt=1, round=2, projecting=3).get(str(col.get_capstyle()), 0) if kind == "Paths" else 0
        return [dict(p=[[rat(p[0]), rat(p[1])] for p in P[i]], fill=fill[i], edge=edge[i],
                     width=width[i], size=size[i], mark=mark[i], cap=cap) for i in range(n)]

    def mark(self, path, turned):
        for t in range(1, 13):
            m = marker_path(t)
            if m.vertices.shape == path.vertices.shape:
                for k in turned:
                    c, s = np.cos(k * np.pi / 18), np.sin(k * np.pi / 18)
                    if np.allclose(m.vertices @ [[c, s], [-s, c]], path.vertices, atol=1e-5):
                        return t + 100 * k
        return -1

    def screen(self, fig, shown):
        out = []
        W, H = fig.get_size_inches() * fig.dpi
        for k, ax in enumerate(fig.axes):
            p = ax.get_position()
            box = ax.get_window_extent()
            # the size reported by the viewport, when it is at hand
            size = self.viewports[k].size if fig is self.fig else (box.width, box.height)
            cols = []
            specs = shown[k] if k < len(shown) else []
            for i, col in enumerate(ax.collections):
                spec = specs[i] if i < len(specs) else dict(kind="?")
                if spec is None: continue
                cols.append(dict(kind=spec["kind"], items=self.items(spec, col) if spec["kind"] != "?" else []))
            xlim, ylim = ax.get_xlim(), ax.get_ylim()
            lim = [rat(xlim[1]), rat(ylim[1])]
            if not np.allclose([xlim[0], ylim[0]], [-xlim[1], -ylim[1]]):
                lim = [[0, 1], [0, 1]]
            out.append(dict(bg=color_id(ax.patch.get_facecolor()), pos=[rat(p.x0), rat(p.y0), rat(p.width), rat(p.height)],
                            size=[rat(size[0]), rat(size[1])], lim=lim, cols=cols))
        return out

    def image(self, to_file):
        """Every eighth column and row, and the one before, of the image"""
        if to_file:
            with tempfile.TemporaryDirectory() as d:
                name = os.path.join(d, "image.png")
                self.canvas.render(name)
                I = np.round(plt.imread(name) * 255).astype(int)
        else:
            I = np.asarray(self.canvas.render(None)).astype(int)
        h, w = I.shape[:2]
        at = lambda n: sorted([8 * i for i in range(n // 8)] + [8 * i + 7 for i in range(n // 8)])
        S = I[at(h)][:, at(w)]
        ids = np.where(S[..., 3] == 0, 0, np.round(S[..., 0] / 255 * 64).astype(int))
        odd = (S[..., 3] != 0) & ((abs(S[..., 1] - 128) > 1) | (abs(S[..., 2] - 64) > 1) | (S[..., 3] != 255))
        return [h, w], np.where(odd, -2, ids).tolist()

    def replay(self):
        """Screen made, in another process, by the saved commands"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = "crash"
            try:
                os.close(r)
                with tempfile.TemporaryDirectory() as d:
                    name = os.path.join(d, "scene.json")
                    gsp.save(name)
                    queue = gsp.load(name)
                    before = set(plt.get_fignums())
                    queue.run(backend)
                fig = plt.figure((set(plt.get_fignums()) - before).pop())
                shown = [[s for s in l if s is not None] for l in self.shown]
                out = self.screen(fig, shown)
            except BaseException as exc:
                out = f"{type(exc).__name__}: {exc}"
            finally:
                with os.fdopen(w, "w") as f:
                    json.dump(out, f)
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        out = json.loads(text) if text else "crash"
        # a replay that fails shows nothing
        return (out, "") if isinstance(out, list) else ([], out)

    def do(self, e):
        ev, err, other = e["ev"], "", []
        shape, image = [], []
        try:
            if ev == "viewport":
                x = {k: self.extent(v) for k, v in e["ext"].items()}
                self.viewports.append(backend.Viewport(self.canvas, x["x"], x["y"], x["w"], x["h"],
                                                       color(len(self.viewports) + 1)))
                self.shown.append([])
            elif ev == "visual":
                self.visual(e["v"])
            elif ev == "render":
                spec, seen = self.specs[e["v"] - 1], self.shown[e["k"] - 1]
                self.visuals[e["v"] - 1].render(self.viewports[e["k"] - 1], **self.matrices(e["mats"]))
                if not any(s is spec for s in seen):
                    seen.append(spec)
            elif ev == "broken":
                ax = self.fig.axes[e["k"] - 1]
                before = len(ax.collections)
                V = backend.visual.Points(np.zeros((2, 3)), 1.0, transform.Colormap("viridis")(transform.Out("missing")),
                                          color(1), 1.0)
                try:
                    V.render(self.viewports[e["k"] - 1], I, I, I)
                finally:
                    self.shown[e["k"] - 1] += [None] * (len(ax.collections) - before)
            elif ev == "move":
                source, _, pad = self.sources[e["v"] - 1]
                p, i = np.array(e["p"]) / 8, e["i"] - 1 + pad
                if isinstance(source, backend.Buffer):
                    source.set_data(24 * i, p.tobytes())
                else:
                    source.reshape(-1, 3)[i] = p
            elif ev == "attr":
                spec = self.specs[e["v"] - 1]
                spec[e["name"]] = e["a"]
                self.visuals[e["v"] - 1].set_variable(NAMES[spec["kind"]][e["name"]],
                                                      self.attr(spec["kind"], e["name"], e["a"], self.count(spec)))
            elif ev == "resize":
                self.fig.set_size_inches(e["w"] / DPI, e["h"] / DPI)
                self.fig.canvas.callbacks.process("resize_event", ResizeEvent("resize_event", self.fig.canvas))
            elif ev == "replay":
                other, _ = self.replay()
            elif ev == "image":
                shape, image = self.image(e["file"])
        except (ValueError, IndexError, KeyError, NotImplementedError, AttributeError, TypeError) as exc:
            err = type(exc).__name__
        pts = []
        for source, given, pad in self.sources:
            if source is None:
                pts.append(given)
            else:
                P = np.asarray(source).reshape(-1, 3)[pad:] * 8
                pts.append([[whole(c) if abs(c - round(c)) < 1e-6 else -99 for c in np.round(p, 7)] for p in P])
        return dict(err=err, screen=self.screen(self.fig, self.shown), other=other, pts=pts,
                    shape=shape, image=image,
                    tracking=glm.ndarray.tracked.__tracker_class__ is TRACKER)
