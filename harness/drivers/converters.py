"""Drives the registry of converters and the codec of types."""
import numpy as np
import sys
from gsp.io.convert import register, unregister, is_registered, get_converter, convert
module = sys.modules["gsp.io.convert"]


class Pp: pass
class Qq(Pp): pass
class Rr(Qq): pass
class Dd: pass
class Ee: pass


CLASSES = dict(Pp=Pp, Qq=Qq, Rr=Rr, Dd=Dd, Ee=Ee, str=str, int=int)
SRCS, DSTS = ("Pp", "Qq", "Rr", "*", "str"), ("Dd", "Ee")


def build(t):
    fields = t["fields"]
    if len(fields) == 1 and not fields[0]["name"]:
        f = fields[0]
        return np.dtype((f["base"], tuple(f["shape"]))) if f["shape"] else np.dtype(f["base"])
    names, formats, offsets, at = [], [], [], 0
    for f in fields:
        at += f["pad"]
        names.append(f["name"])
        formats.append(np.dtype((f["base"], tuple(f["shape"]))))
        offsets.append(at)
        at += formats[-1].itemsize
    return np.dtype(dict(names=names, formats=formats, offsets=offsets, itemsize=at + t["pad"]))


def tree(dt):
    if not isinstance(dt, np.dtype):
        return str(type(dt))
    if not dt.names:
        return dict(fields=[dict(name="", base=dt.base.str, shape=list(dt.shape), pad=0)], pad=0)
    fields, at = [], 0
    for n in dt.names:
        f, offset = dt.fields[n][:2]
        fields.append(dict(name=n, base=f.base.str, shape=list(f.shape), pad=offset - at))
        at = offset + f.itemsize
    return dict(fields=fields, pad=dt.itemsize - at)


class Driver:
    def __init__(self):
        self.n = 0
        self.made = {}

    def end(self):
        for d in DSTS:
            unregister(SRCS, d)

    def table(self):
        out = []
        for s in SRCS:
            for d in DSTS:
                f = module.converters.get((s, d))
                if f is not None:
                    out.append([s, d, self.made.get(f, -1)])
        return out

    def value(self, v):
        if v["k"] == "text": return v["c"]
        c = CLASSES[v["c"]]
        return c if v["k"] == "class" else c()

    def do(self, e):
        o = dict(err="", got=0)
        try:
            if e["ev"] == "encode":
                dt = build(e["t"])
                o["text"] = convert(dt, "str")
                back = convert(o["text"], "dtype")
                return dict(err="", text=o["text"], back=tree(back), size=int(back.itemsize))
            if e["ev"] == "decode":
                back = convert(e["x"], "dtype")
                return dict(err="", back=tree(back), size=int(back.itemsize))
            if e["ev"] in ("register", "unregister"):
                srcs = e["srcs"][0] if e["one"] and len(e["srcs"]) == 1 else list(e["srcs"]) if e["one"] else tuple(e["srcs"])
                if e["ev"] == "unregister":
                    unregister(srcs, e["dst"])
                else:
                    k = self.n + 1
                    f = lambda x: (k, x)
                    self.made[f] = k
                    assert register(srcs, e["dst"])(f) is f
                    self.n = k
            else:
                x = self.value(e["v"])
                dst = CLASSES[e["dst"]] if e["cls"] else e["dst"]
                if e["ev"] == "get":
                    f = get_converter(x, dst)
                    o["got"] = self.made.get(f, -1) if f is not None else 0
                else:
                    k, y = convert(x, dst)
                    o["got"] = k if y is x else -1
        except (TypeError, ValueError, IndexError, KeyError) as exc:
            o["err"] = type(exc).__name__
        o["table"] = self.table()
        return o
