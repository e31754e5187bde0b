"""Drives the geometry functions, the meshes and the trackball."""
import copy, math, os, tempfile
import numpy as np
from gsp_matplotlib import glm
from gsp_matplotlib.glm import shapes
from gsp_matplotlib.glm import glm as functions
from gsp_matplotlib.glm.trackball import Trackball


def ints(a, scale=10000):
    a = np.asarray(a, float)
    return np.where(np.isfinite(a), np.rint(a * scale), 2 * 10**8).clip(-2 * 10**8, 2 * 10**8).astype(int).tolist()


def degrees(g):
    """Angle of cosine g[0]/g[2] and sine g[1]/g[2]"""
    return math.degrees(math.atan2(g[1], g[0]))


# angles that stand for those of rational cosine and sine
RATIONAL = {53: degrees((3, 4)), 23: degrees((12, 5))}
OBJ = [("v {} {} {}", "f {}", "{}"), ("v  {}.0 {}.0 {}.0", "f {} ", "{}/1"), ("v {} {} {} 1.0", "f  {}", "{}/1/1"), ("v {} {} {}", "f {}", "{}//1"),
       ("v\t{}\t{}\t{}", "f {}", "{}/1/1")]


class Driver:
    def __init__(self):
        self.ball = None

    def end(self):
        pass

    def do(self, e):
        try:
            return dict((self.new_ball if e["ev"] == "ball" else getattr(self, e["ev"], self.other))(e), err="")
        except Exception as exc:
            return dict(err=f"{type(exc).__name__}: {exc}"[:200])

    def matrix(self, e):
        f, a = getattr(functions, e["f"]), e["a"]
        kw = dict(transpose=True) if e["tr"] else {}
        if e["dt"]: kw["dtype"] = np.dtype(e["dt"])
        if e["f"] in ("translate", "scale"): m = f([x / 4 for x in a], **kw)
        elif e["f"] in ("xrotate", "yrotate", "zrotate"): m = f(degrees(a), **kw)
        elif e["f"] == "rotate": m = f(degrees(a), a[3:], **kw)
        elif e["f"] == "perspective": m = f(2 * math.degrees(math.atan2(a[0], a[1])), a[2] / a[3], *a[4:], **kw)
        elif e["f"] == "lookat": m = f(a[:3], a[3:6], tuple(a[6:]), **kw)
        elif e["f"] == "align": m = f(a[:3], np.array(a[3:]), **kw)
        elif e["f"] == "camera": m = f(RATIONAL.get(e["x"], e["x"]), RATIONAL.get(e["y"], e["y"]), e["z"][0] / e["z"][1], e["mode"])
        else: m = f(*a, **kw)
        return dict(m=ints(m), dt=str(m.dtype))

    def other(self, e):
        return dict(v=ints(getattr(functions, e["ev"])(np.array(e["v"], float))))

    def clamp(self, e):
        return dict(v=ints(functions.clamp(np.array(e["v"]), e["a"], e["b"])))

    def facing(self, e):
        f, b = functions.frontback(np.array(e["t"], float))
        return dict(front=[bool(x) for x in f], back=[bool(x) for x in b])

    def mesh(self, e):
        v, f, x = OBJ[e["style"]]
        lines = ["# v 9 9 9", "", "o thing"] if e["style"] % 2 else []
        vs = [v.format(*p) for p in e["v"]]
        fs = [f.format(" ".join(x.format(i + 1) for i in face)) for face in e["f"]]
        lines += vs + ["vt 0.5 0.5", "vn 0 0 1"] * (e["style"] > 0) + ["", "s off"] + fs
        if e["style"] == 4: # faces before (some) vertices
            lines = vs[:1] + fs + ["#comment"] + vs[1:]
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "m.obj")
            with open(path, "w") as out:
                out.write("\n".join(lines) + "\n" * (e["style"] != 2))
            vertices, faces = functions.mesh(path)
        return dict(v=ints(vertices), f=np.asarray(faces).tolist())

    def shape(self, e):
        if e["f"] == "sphere":
            v, f = shapes.sphere(e["r"] / 10000, e["n"], e["k"])
        else:
            v, f = getattr(shapes, e["f"])()
        return dict(v=ints(v), f=np.asarray(f).tolist())

    def see(self):
        b = copy.deepcopy(self.ball) # (reading changes nothing)
        cs = lambda t: [int(round(10000 * math.cos(math.radians(t)))), int(round(10000 * math.sin(math.radians(t))))]
        m = np.asarray(b.model)
        assert m.shape == (4, 4) and np.array_equal(m[3], [0, 0, 0, 1]) and np.array_equal(m[:, 3], [0, 0, 0, 1])
        try:
            th, ph = cs(b.theta), cs(b.phi)
        except ZeroDivisionError:
            th = ph = [20000, 20000]
        return dict(m=ints(m[:3, :3]), th=th, ph=ph)

    def new_ball(self, e):
        self.ball = Trackball(degrees(e["th"]), degrees(e["ph"]))
        return self.see()

    def drag(self, e):
        (x, y), (u, v) = e["from"], e["to"]
        self.ball.drag_to(x / 25, y / 25, u / 25 - x / 25, v / 25 - y / 25)
        return self.see()

    def shake(self, e):
        (x, y), (u, v) = [[c / 25 for c in p] for p in (e["from"], e["to"])]
        for _ in range(e["n"]):
            self.ball.drag_to(x, y, u - x, v - y)
            self.ball.drag_to(u, v, x - u, y - v)
        return self.see()

    def theta(self, e):
        self.ball.theta = degrees(e["a"])
        return self.see()

    def phi(self, e):
        self.ball.phi = degrees(e["a"])
        return self.see()
