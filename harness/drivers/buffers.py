"""Drives buffers and lists of the matplotlib backend."""
import base64, os, tempfile
import numpy as np
import gsp
import gsp_matplotlib as backend
from gsp_matplotlib import glm
from gsp.io import json as gjson
from gsp.io.command import CommandQueue
from gsp.io.convert import convert

# (written with numpy only: the codec of types is verified elsewhere)
TYPES = dict(u1=np.dtype("u1"), i2=np.dtype("<i2"), b2=np.dtype(">i2"), v3=np.dtype(("u1", (3,))), m2=np.dtype(("<i2", (1, 2))),
             st=np.dtype([("a", "u1"), ("b", "<i2", (2,))]), pad=np.dtype([("a", "u1"), ("b", "<i2")], align=True))
TEXT = dict(u1="|u1::1", i2="<i2::1", b2=">i2::1", v3="|u1::3", m2="<i2::1x2", st="|u1:a:1,<i2:b:2", pad="|u1:a:1,|V1::1,<i2:b:1")


def numbers(a):
    """Integers of an array, fields in order"""
    a = np.asarray(a)
    if a.dtype.names:
        cols = [a[f].reshape(len(a), -1) for f in a.dtype.names]
        return [int(v) for row in np.concatenate(cols, axis=1, dtype=np.int64) for v in row]
    return [int(v) for v in a.ravel()]


def text(a):
    for k, dt in TYPES.items():
        if a.dtype == dt.base and a.shape[1:] == dt.shape and a.dtype.itemsize == dt.base.itemsize:
            return TEXT[k]
    return f"{a.dtype} {a.shape[1:]}"


class Driver:
    def __init__(self):
        self.bs, self.ls = [], []
        self.mem = {}
        self.queue = CommandQueue("active")
        self.queue.empty()

    def end(self):
        self.queue.empty()
        gsp.Object.objects.clear()

    def do(self, e):
        err, bs, ls = "", self.bs, self.ls
        try:
            if e["ev"] == "replay":
                bs, ls = self.replay()
            else:
                getattr(self, e["ev"])(e)
        except (IndexError, ValueError, TypeError, KeyError) as exc:
            err = type(exc).__name__
        return dict(err=err, bs=[self.see(b) for b in bs], ls=[[numbers(x) for x in l] for l in ls])

    def see(self, b):
        a = np.asarray(b)
        return dict(n=len(b), len=len(a), dt=text(a), q=list(np.ascontiguousarray(a).tobytes()), x=numbers(a))

    def buffer(self, e):
        data = bytes(e["q"])
        memory = None
        if e["src"] == "none": data = None
        if e["src"] == "str": data = base64.b64encode(data).decode()
        if e["src"] == "mv":
            memory = bytearray(data)
            data = memoryview(memory)
        self.bs.append(backend.core.Buffer(e["n"], TEXT[e["dt"]] if e["text"] else TYPES[e["dt"]], data))
        if memory is not None:
            self.mem[len(self.bs) - 1] = np.frombuffer(memory, TYPES[e["dt"]])

    def convert(self, e):
        dt, n = TYPES[e["dt"]], e["n"]
        value = np.frombuffer(bytes(e["q"]), dt)
        if e["layout"] == "c":
            a = np.zeros(n, dt)
        elif e["layout"] == "strided":
            a = np.zeros(2 * n, dt)[::2]
        else:
            a = np.zeros(n + 2, dt)[1:-1]
            a = a[::-1]
        if e["tracked"]:
            a = a.view(glm.ndarray.tracked)
        np.asarray(a)[...] = value
        self.bs.append(convert(a, "Buffer") if not e["tracked"] else None)
        if e["tracked"]:
            # written through the array: signalled to its tracker
            a[...] = value
            self.bs[-1] = convert(a, "Buffer")
        self.mem[len(self.bs) - 1] = a

    def set(self, e):
        data = bytes(e["q"])
        if e["form"] == "str": data = base64.b64encode(data).decode()
        if e["form"] == "mv": data = memoryview(data)
        self.bs[e["i"] - 1].set_data(e["off"], data)

    def poke(self, e):
        a = self.mem[e["i"] - 1]
        dt = np.dtype((a.dtype, a.shape[1:]))
        a[e["r"]] = np.frombuffer(bytes(e["q"]), dt)[0]

    def poke1(self, e):
        a = self.mem[e["i"] - 1]
        ix = np.unravel_index(e["k"] - 1, a.shape[1:])
        a[(e["r"],) + tuple(int(i) for i in ix)] = np.frombuffer(bytes(e["q"]), a.dtype)[0]

    def list(self, e):
        self.ls.append(backend.core.List(self.bs[e["d"] - 1], self.bs[e["s"] - 1] if e["s"] else e["k"]))

    def replay(self):
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "x.json")
            gjson.save(path, self.queue)
            queue = CommandQueue("buffers-replay")
            saved = dict(gsp.Object.objects)
            try:
                gsp.Object.objects.clear()
                gjson.load(path, queue)
                queue.run(backend)
                found = dict(gsp.Object.objects)
            finally:
                gsp.Object.objects.clear()
                gsp.Object.objects.update(saved)
                CommandQueue.active = self.queue
        return [found[int(b.id)] for b in self.bs], [found[int(x.id)] for x in self.ls]

