"""Drives the command layer of GSP with classes declared through its public
API (Object, @command, register, queue, record, json, gsp.save / gsp.load)."""
import json, os, tempfile, types

import gsp
from gsp.object import Object, OID
from gsp.io import command, register, record, queue, Command, CommandQueue
from gsp.io import json as gjson

FORK = True
LIMIT = 20
made = []           # every instance, in order of creation
conversions = [0]   # number of converter calls


TEXTS = {"$1": "\u00e9\"\\\n\t/\u4e2d '(id)'", "$2": ""}


DATA = {"$L": [1, 2.5, [3, "a", []], None, True, {"k": [0.1], "": {}}, 1 / 3], "$D": {"x(id)": [1, None], "b": {"c": -0.5}, "t": "u"}}


class Boom(Exception):
    pass


class Celsius:
    def __init__(self, v): self.v = v


class Kelvin(Celsius):
    pass


class Rankine(Kelvin):
    pass


class Wrap:
    def __init__(self, v): self.v = v


def converter(name, types, last):
    """Methods made by a function: they have the same code"""

    @command(name)
    def method(self, x: types, y: int = last):
        self.value = x

    return method


class Foo(Object):
    lab = by = ""

    @command()
    def __init__(self, value: int, scale: float | int = 1.5, tag: str = "t"):
        Object.__init__(self)
        made.append(self)
        self.value, self.scale, self.tag = value, scale, tag
        self.linked, self.weight = None, None

    @command()
    def set_value(self, value: int, scale: float | int = 3):
        self.value, self.scale = value, scale

    @command("renamed")
    def link(self, other: "Foo" = None, weight: int = 1):
        self.linked, self.weight = other, weight
        return 42

    mix = converter("mix", int | str, 1)
    mox = converter("mox", str | int, 2)

    @command()
    def boom(self, value: int):
        if type(value) is int and value in (2, 12):
            raise Boom()
        self.value = value

    @command()
    def data(self, x: list | dict):
        self.value = x

    @command()
    def attach(self, other: Object):
        self.linked = other

    renamed = link


class Bar(Foo):
    def __init__(self, value, scale=2.5, tag="b"):
        Foo.__init__(self, value, scale, tag=tag)


class Baz(Foo):
    @command("mod.Baz")
    def __init__(self, value: int, other: Foo = None):
        Foo.__init__(self, value, __no_command__=True)
        self.linked = other


@register("Celsius", "int")
def celsius_to_int(x):
    conversions[0] += 1
    return int("1" + x.v)


@register("Celsius", "str")
def celsius_to_str(x):
    conversions[0] += 1
    return "c" + x.v


@register("Kelvin", "str")
def kelvin_to_str(x):
    conversions[0] += 1
    return "k" + x.v


@register("Wrap", "Foo")
def wrap_to_foo(x):
    conversions[0] += 1
    return Foo(int(x.v))


def backend(lab):
    classes = {}

    @command("set_value")
    def set_value(self, value: int, scale: float | int = 3):
        self.value, self.scale, self.by = value, scale, lab

    for cls in (Foo, Bar, Baz):
        classes[cls.__name__] = cls if lab == "" else type(cls.__name__, (cls,), {"lab": lab, "set_value": set_value})
    module = types.ModuleType("backend" + lab)
    for k, v in classes.items():
        setattr(module, k, v)
    module.mod = types.ModuleType("mod")
    module.mod.Baz = classes["Baz"]
    return module


class Driver:
    def __init__(self):
        self.ids = {}           # real id -> canonical id
        self.next = 1
        self.queues = {}        # handles, as returned by the API
        self.dir = tempfile.mkdtemp(prefix="gspproto.")
        self.seen = 0
        self.far = 0

    def end(self):
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        os.rmdir(self.dir)

    # -- values
    def arg(self, a):
        t, v = a["t"], a["v"]
        return {"int": lambda: int(v), "float": lambda: float(v), "str": lambda: TEXTS.get(v, v),
                "none": lambda: None, "bool": lambda: bool(int(v)),
                "cel": lambda: Celsius(v), "kel": lambda: Kelvin(v), "ran": lambda: Rankine(v),
                "wrap": lambda: Wrap(v),
                "list": lambda: json.loads(json.dumps(DATA[v])) if v in DATA else [int(v)], "dict": lambda: json.loads(json.dumps(DATA[v])), "ref": lambda: made[int(v) - 1]}[t]()

    def canon(self, id):
        id = int(id)
        if id not in self.ids:
            return 100000 + id
        return self.ids[id]

    def val(self, v):
        if v is None: return ["none", ""]
        if isinstance(v, bool): return ["bool", str(int(v))]
        if isinstance(v, int) and type(v) is not int: return ["ref", str(self.canon(v))]   # OID
        if isinstance(v, int): return ["int", str(v)]
        if isinstance(v, float): return ["float", repr(v)]
        if isinstance(v, str): return ["str", next((k for k, t in TEXTS.items() if t == v), v)]
        if isinstance(v, Rankine): return ["ran", v.v]
        if isinstance(v, Kelvin): return ["kel", v.v]
        if isinstance(v, Celsius): return ["cel", v.v]
        if isinstance(v, Wrap): return ["wrap", v.v]
        for k, d in DATA.items():
            if type(v) is type(d) and repr(v) == repr(d): return [type(v).__name__, k]
        if isinstance(v, list) and len(v) == 1: return ["list", str(v[0])]
        if isinstance(v, Object): return ["ref", str(self.canon(v.id))]
        return ["?", type(v).__name__]

    def rec(self, v):
        t, v = self.val(v)
        return {"t": t, "v": v}

    def param(self, k, v):
        if k.endswith("(id)"):
            return {"k": k[:-4], "t": "ref", "v": str(self.canon(v))}
        if callable(v) and not isinstance(v, Object):
            return {"k": k, "t": "conv", "v": ""}
        r = self.rec(v)
        # an identifier that is not marked as such is a mere number at replay
        if r["t"] == "ref":
            r["t"] = "oid"
        return dict(r, k=k)

    def method(self, classname, methodname):
        if "." in methodname: return methodname
        if "." in classname: return classname
        return f"{classname}/{methodname}"

    # -- observation
    def cmd(self, c):
        return {"m": self.method(c.classname, c.methodname), "id": self.canon(c.parameters["id"]),
                "p": [self.param(k, v) for k, v in c.parameters.items() if k != "id"]}

    def fresh(self):
        """A real id slightly ahead of every id in use"""
        ids = [int(i) for i in Object.objects] + [int(o.id) for o in made] + list(self.ids) + [0]
        return max(ids) + 2

    def name_ids(self):
        for o in made[self.seen:]:
            if int(o.id) not in self.ids:
                self.ids[int(o.id)] = self.next
                self.next += 1
        self.seen = len(made)

    def parse(self, text):
        d = json.loads(text)
        out, cids = [], []
        for c in d["commands"]:
            cids.append(c["id"])
            p = [self.param(k, v) for k, v in c["parameters"].items() if k != "id"]
            out.append({"m": c["method"], "id": self.canon(c["parameters"]["id"]), "p": p})
        return out, cids

    def do(self, e):
        ev = e["ev"]
        conversions[0] = 0
        err, ret, stream, cids = "", None, [], None
        burst = True
        try:
            if ev == "create":
                ret = globals()[e["cls"]](*[self.arg(a) for a in e["args"]],
                                          **{k: self.arg(a) for k, a in dict(e["kw"]).items()})
            elif ev == "call":
                ret = getattr(made[e["i"] - 1], e["m"])(
                    *[self.arg(a) for a in e["args"]],
                    **{k: self.arg(a) for k, a in dict(e["kw"]).items()})
            elif ev == "queue":
                q = queue(e["name"])
                ret = q.name
                if self.queues.setdefault(q.name, q) is not q:
                    ret = "!" + q.name
            elif ev == "empty":
                self.queues[e["name"]].empty()
            elif ev == "setro":
                self.queues[e["name"]].readonly = e["b"]
            elif ev == "record":
                record(e["b"])
            elif ev == "orecord":
                Object.record = e["b"]
            elif ev == "run":
                self.queues[e["name"]].run(backend(e["lab"]))
            elif ev == "save":
                path = os.path.join(self.dir, e["file"] + ".json")
                if e["api"] == "gsp":
                    gsp.save(path)
                elif e["name"] == "active":
                    gjson.save(path)
                else:
                    gjson.save(path, self.queues[e["name"]])
                self.name_ids()
                stream, cids = self.parse(open(path).read())
            elif ev == "load":
                path = os.path.join(self.dir, e["file"] + ".json")
                if e["api"] == "gsp":
                    q = gsp.load(path)
                elif e["name"] == "active":
                    q = gjson.load(path)
                else:
                    q = gjson.load(path, self.queues[e["name"]])
                ret = q.name
            elif ev == "foreign":
                nid = self.fresh()
                self.ids[nid] = self.next
                self.next += 1
                path = os.path.join(self.dir, "foreign.json")
                with open(path, "w") as f:
                    json.dump({"gsp_version": "1.0", "commands": [
                        {"method": "Foo/__init__", "id": 1, "timestamp": 0.0,
                         "parameters": {"id": nid, "value": 7, "scale": 0.5, "tag": "f"}}]}, f)
                gjson.load(path, self.queues[e["name"]])
            elif ev == "setid":
                o = made[e["i"] - 1]
                nid = self.fresh()
                self.ids[nid] = self.next
                self.next += 1
                o.id = nid
            elif ev == "burst":
                used = {int(q[i].id) for q in self.queues.values() for i in range(len(q))}
                ids = [int(Command("Foo", "set_value", {"id": 1, "value": 1}).id)
                       for i in range(70000)]
                burst = len(set(ids)) == len(ids) and not used & set(ids)
                taken = {int(i) for i in Object.objects}
                ids = [int(OID()) for i in range(70000)]
                burst = burst and len(set(ids)) == len(ids) and not taken & set(ids)
            elif ev == "sameid":
                o = made[e["i"] - 1]
                o.id = o.id
            elif ev == "push":
                o = made[e["i"] - 1]
                self.queues[e["name"]].push(Command(
                    type(o).__name__, "renamed", {"id": o.id, "other": self.arg(e["other"]), "weight": self.arg(e["weight"])}))
            elif ev == "reset":
                Object.objects = {}
            else:
                raise SystemExit("unknown event " + ev)
        except ValueError:
            err, ret = "ValueError", None
        except Boom:
            err, ret = "Boom", None
        except Exception as exc:
            err, ret = "Error", None
        self.name_ids()
        # the queues created implicitly become visible through the API
        if CommandQueue.active is not None:
            q = CommandQueue("active")
            self.queues.setdefault(q.name, q)
        index = {id(o): i + 1 for i, o in enumerate(made)}
        queues = []
        allcids = []
        for name, q in self.queues.items():
            cmds = [q[i] for i in range(len(q))]
            allcids += [int(c.id) for c in cmds]
            queues.append({"name": q.name, "ro": q.readonly, "cmds": [self.cmd(c) for c in cmds]})
        if cids is not None:
            dup = len(set(cids)) != len(cids)
        else:
            dup = False
        return {"err": err, "ret": {"t": "str", "v": ret} if ev in ("queue", "load") and err == "" else
                       self.rec(ret) if ret is not None else {"t": "none", "v": ""},
                "insts": [{"cls": type(o).__name__ + o.lab, "id": self.canon(o.id),
                           "value": self.rec(o.value), "scale": self.rec(o.scale),
                           "tag": self.rec(o.tag),
                           "link": 0 if o.linked is None else
                                   (self.canon(o.linked.id) if isinstance(o.linked, Object) else
                                    0 if isinstance(o.linked, Wrap) else -1),
                           "weight": self.rec(o.weight), "by": o.by} for o in made],
                "reg": [[self.canon(k), index.get(id(o), 0)] for k, o in Object.objects.items()],
                "regok": all(int(k) == int(o.id) for k, o in Object.objects.items()),
                "active": CommandQueue.active.name if CommandQueue.active is not None else "none",
                "queues": queues, "stream": stream,
                "cidok": burst and len(set(allcids)) == len(allcids) and not dup,
                "conv": conversions[0]}
