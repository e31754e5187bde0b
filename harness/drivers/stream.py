"""Runs the same script with the generic classes (gsp) and with those of a
backend (gsp_matplotlib) and reports the streams they save."""
import base64, inspect, json, os, tempfile, warnings
import numpy as np
import matplotlib.pyplot as plt
import gsp
import gsp.core, gsp.visual, gsp.transform
import gsp_matplotlib as backend
from gsp.core import types
from gsp.io import json as gjson
from gsp.io.command import CommandQueue
from gsp.io.convert import convert

FORK = True
LIMIT = 60
warnings.simplefilter("ignore")


def arrays():
    f4, i = np.float32, np.arange(1, 13)
    wide = np.zeros((4, 6))
    wide[:, ::2] = (2.0 * i).reshape(4, 3)
    M4 = np.eye(4)
    M4[0, 3] = 0.5
    return dict(A4=i.astype(f4).reshape(4, 3), S4=wide[:, ::2], V4=np.array([2, 3, 1, 5], dtype=f4),
                C4=(np.arange(1, 17) / 16).astype(f4).reshape(4, 4), P2=(3 * i).astype(f4).reshape(2, 2, 3), K2=np.array([1, 2]), M4=M4)


def shape(dt):
    dt = convert(dt, "dtype")
    return dt


class Side:
    def __init__(self, name):
        self.name = name
        self.queue = CommandQueue(name)
        self.queue.empty()
        self.objs, self.arrs = [], arrays()

    def cls(self, name):
        package, name = name.split(".")
        if self.name == "mpl" and package != "transform" and name != "Data":
            return getattr(getattr(backend, package), name)
        return getattr(getattr(gsp, package), name)

    def value(self, x):
        t, v, q = x["t"], x["v"], [n / 64 for n in x["q"]]
        if t == "none": return None
        if t == "ref": return self.objs[int(v) - 1]
        if t == "int": return int(v)
        if t == "float": return float(v)
        if t == "f8": return np.float64(v)
        if t == "bool": return v == "true"
        if t == "str": return v
        if t == "dtype": return shape(v)
        if t == "array": return self.arrs[v]
        if t == "bytes": return bytes(int(n) for n in q)
        if t == "mv": return memoryview(bytes(int(n) for n in q))
        if t == "dict": return {}
        if t == "tuple": return tuple(q)
        if t == "list": return q
        if t == "ilist": return [int(n) for n in q]
        if t == "llist": return [[0, 1], [2, 0, 1]][:2] if v == "" else None
        if t == "color": return types.Color(*q)
        if t == "vec3": return types.Vec3(*q)
        if t == "matrix": return types.Matrix(q)
        if t in ("Marker", "LineCap", "LineStyle", "LineJoin"): return getattr(types, t)(int(v))
        raise KeyError(t)

    def do(self, e):
        CommandQueue.active = self.queue
        err, built = "", []
        if e["ev"] == "replay":
            err, built = self.replay()
        elif e["ev"] == "poke":
            self.arrs[e["name"]].flat[0] = 0.5
        else:
            args = [self.value(x) for x in e["args"]]
            kw = {k: self.value(x) for k, x in dict(e["kw"]).items()}
            try:
                if e["ev"] == "new":
                    f = self.cls(e["cls"])
                else:
                    f = getattr(self.objs[e["i"] - 1], e["m"])
            except Exception:
                raise RuntimeError("no such class or method")
            try:
                r = f(*args, **kw)
                if e["ev"] == "new":
                    self.objs.append(r)
            except Exception:
                err = "Error"
            plt.close("all")
        try:
            stream = self.stream()
        except Exception as exc:
            err, stream = "unsaved: " + repr(exc)[:80], []
        return dict(err=err, stream=stream, built=built)

    def replay(self):
        """Save the queue, load it in a fresh one and run it on the backend"""
        built, err = [], ""
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "x.json")
            CommandQueue.active = self.queue
            gsp.save(path)
            saved = dict(gsp.Object.objects)
            queue = CommandQueue("replay-" + self.name)
            gsp.Object.objects.clear()
            gjson.load(path, queue)
        try:
            queue.run(backend)
            objects = dict(gsp.Object.objects)
            known = {int(o.id): i + 1 for i, o in enumerate(self.objs)}
            for o in self.objs:
                x = objects.get(int(o.id))
                built.append(dict(c=type(x).__name__, p=self.built(x, known)))
        except Exception as exc:
            err = "replay: " + repr(exc)[:200]
        finally:
            gsp.Object.objects.clear()
            gsp.Object.objects.update(saved)
            CommandQueue.active = self.queue
            plt.close("all")
        return err, built

    def built(self, x, known):
        d = lambda k, v: dict(k=k, x=self.describe(v, known))
        if isinstance(x, gsp.visual.Visual):
            names = list(inspect.signature(type(x).__init__).parameters)[1:]
            return [d(k, x.get_variable(k)) for k in names]
        if isinstance(x, gsp.transform.Operator):
            names = ["operator"] if type(x) is gsp.transform.Operator else []
            return [d(k, getattr(x, k)) for k in names + ["left", "right"]]
        if isinstance(x, backend.core.Canvas):
            w, h = (int(round(n)) for n in x.size)
            one = "true" if w == 1 else str(w), "true" if h == 1 else str(h)
            return [dict(k=k, x=dict(t="num", v=v, q=[])) for k, v in zip(("width", "height"), one)]
        if isinstance(x, backend.core.Buffer):
            try:
                a = np.asarray(x)
                if a.dtype == np.uint8 and a.ndim == 1 and x._data is not None:
                    return [dict(k="content", x=dict(t="bytes", v="", q=[int(n) * 64 for n in a]))]
            except ValueError:
                pass
        return []

    def describe(self, v, known):
        o = lambda t, v="", q=(): dict(t=t, v=v, q=[int(round(float(x) * 64)) for x in q])
        if isinstance(v, gsp.Object) and int(v.id) in known:
            return o("ref", str(known[int(v.id)]))
        if isinstance(v, gsp.core.Buffer):
            a = np.asarray(v)
            return o("buffer", f"{len(a)}|{convert(np.dtype((a.dtype, a.shape[1:])), 'str')}", a.ravel())
        if isinstance(v, gsp.core.List):
            items = list(v)
            return o("vlist", str(len(items)), [n for i in items for n in i] + [len(i) for i in items])
        if v is None: return o("null")
        if isinstance(v, str): return o("str", v)
        if isinstance(v, (tuple, list)): return o("list", "", v)
        if isinstance(v, (bool, np.bool_)): return o("num", json.dumps(bool(v)))
        if isinstance(v, (int, float)): return o("num", json.dumps(v))
        return o(type(v).__name__)

    def stream(self):
        """The stream, with identifiers replaced by ranks of creation and
        just in time objects replaced by their content."""
        known = {int(o.id): i + 1 for i, o in enumerate(self.objs)}
        made, out = {}, []
        for c in json.loads(gjson.dump(self.queue))["commands"]:
            p = dict(c["parameters"])
            oid = p.pop("id")
            if oid in known:
                out.append(dict(m=c["method"], id=known[oid], p=[
                    dict(k=k.removesuffix("(id)"), x=self.param(c["method"], k, v, known, made))
                    for k, v in p.items()]))
            elif c["method"] == "core.Buffer":
                made[oid] = [p["count"], p["dtype"], bytearray(base64.b64decode(p["data"] or ""))]
            elif c["method"] == "Buffer/set_data":
                data = base64.b64decode(p["data"])
                made[oid][2][p["offset"]:p["offset"] + len(data)] = data
            elif c["method"] == "core.List":
                made[oid] = [made[p["data(id)"]], made[p["itemsizes(id)"]]]
            else:
                raise ValueError("unexpected " + c["method"])
        return out

    def param(self, method, key, v, known, made):
        o = lambda t, v="", q=(): dict(t=t, v=v, q=[int(round(float(x) * 64)) for x in q])
        if key.endswith("(id)"):
            if v in known: return o("ref", str(known[v]))
            if v not in made: return o("dangling", str(v))
            if len(made[v]) == 3:
                n, dt, data = made[v]
                x = np.frombuffer(bytes(data), convert(dt, "dtype"))
                return o("buffer" if len(x) == n else "badbuffer", f"{n}|{dt}", x.ravel())
            items, sizes = made[v]
            q = [np.frombuffer(bytes(b[2]), convert(b[1], "dtype")) for b in (items, sizes)]
            return o("vlist", str(sizes[0]), np.concatenate(q))
        if v is None: return o("null")
        if isinstance(v, str):
            if key == "data":
                return o("bytes", "", base64.b64decode(v))
            return o("str", v)
        if isinstance(v, (list, tuple)):
            return o("list", "", v)
        return o("num", json.dumps(v))


class Driver:
    def __init__(self):
        self.gsp, self.mpl = Side("gsp"), Side("mpl")

    def end(self):
        pass

    def do(self, e):
        return dict(gsp=self.gsp.do(e), mpl=self.mpl.do(e))
