"""The check of each property: which parts of the specification are explored,
which behaviours are executed by the real code, and which clauses decide."""
import sys, traceback
from harness import lib
from harness.lib import Check, TIER

QUICK = TIER != "thorough"


def q(quick, thorough):
    return quick if QUICK else thorough


CHECKS = {}


def check(pid, level="model_checking"):
    def deco(f):
        CHECKS[pid] = (f, level)
        return f
    return deco


# ------------------------------------------------------- command protocol --
def protocol(c, clauses, profile, depth, simulate, sim_depth):
    c.part(profile, "Protocol", "protocol", clauses, depth=depth, simulate=simulate,
           sim_depth=sim_depth, gen_env={"PROFILE": profile})


@check("C01")
def identity(c):
    cl = {"ids", "registry", "run-ids", "run-registry", "command-ids", "return"}
    protocol(c, cl, "id", q(5, 6), q(150, 1500), q(16, 24))
    protocol(c, cl, "all", None, q(100, 1500), q(24, 40))


@check("C02")
def recording(c):
    cl = {"recorded", "effect", "return", "error", "queue-contents"}
    protocol(c, cl, "rec", q(3, 4), q(200, 2000), q(14, 24))
    protocol(c, cl, "all", None, q(60, 1500), q(24, 40))


@check("C03")
def admission(c):
    cl = {"admission", "conversions", "recorded", "run-objects", "stream"}
    protocol(c, cl, "rec", q(3, 4), q(100, 2000), q(14, 24))
    protocol(c, cl, "stream", q(3, 4), q(100, 1000), q(14, 24))
    protocol(c, cl, "all", None, q(100, 1500), q(24, 40))


@check("C04")
def queues(c):
    cl = {"handle", "active", "queue-names", "queue-contents", "mode", "run-mode",
          "run-active", "run-recorded", "recorded", "save-changes-queue", "loaded"}
    protocol(c, cl, "queue", q(4, 6), q(150, 1500), q(20, 30))
    protocol(c, cl, "all", None, q(100, 1500), q(24, 40))


@check("C05")
def replay(c):
    cl = {"run-objects", "run-ids", "run-registry", "run-error", "run-recorded", "conversions"}
    protocol(c, cl, "run", q(4, 5), q(150, 1500), q(12, 20))
    protocol(c, cl, "lost", q(5, 6), None, None)
    protocol(c, cl, "all", None, q(100, 1500), q(24, 40))


@check("C06")
def round_trip(c):
    cl = {"io-error", "stream", "loaded", "save-changes-queue", "handle", "run-objects",
          "run-error", "conversions"}
    protocol(c, cl, "stream", q(4, 5), q(150, 1500), q(14, 24))
    protocol(c, cl, "all", None, q(100, 1500), q(24, 40))


@check("C07")
def integrity(c):
    cl = {"dangling", "run-error", "stream"}
    protocol(c, cl, "stream", q(4, 5), q(150, 1500), q(14, 24))
    protocol(c, cl, "all", None, q(100, 1500), q(24, 40))
    streams(c, ("dangling",), ("calls", 6))


# ---------------------------------------------------------- tracked arrays --
def tracked(c, clauses):
    c.part("base", "Tracked", "tracked", clauses, depth=q(2, 3), gen_env={"PROFILE": "base"})
    c.part("deep", "Tracked", "tracked", clauses, simulate=q(40, 600), sim_depth=q(20, 40),
           gen_env={"PROFILE": "deep"})


@check("C10")
def mirror(c):
    tracked(c, {"mirror", "content", "error"})


@check("C11")
def dirty(c):
    cl = {"range", "cover", "dirty"}
    tracked(c, cl)
    c.part("dirty", "Tracked", "tracked", cl, depth=q(4, 5), gen_env={"PROFILE": "dirty"})


# ------------------------------------------------------------------ vectors --
@check("C12")
def swizzle(c):
    cl = {"error", "content", "read", "vshape"}
    c.part("base", "Vectors", "vectors", cl, depth=q(2, 2), gen_env={"PROFILE": "base"})
    c.part("deep", "Vectors", "vectors", cl, simulate=q(40, 600), sim_depth=q(12, 24),
           gen_env={"PROFILE": "deep"})


@check("C13")
def ragged(c):
    cl = {"error", "content", "read", "partition"}
    c.part("base", "Ragged", "ragged", cl, depth=2, gen_env={"PROFILE": q("base", "rich")})
    c.part("deep", "Ragged", "ragged", cl, simulate=q(100, 1500), sim_depth=q(12, 24),
           gen_env={"PROFILE": "deep"})
    c.part("big", "Ragged", "ragged", cl, simulate=q(100, 600), sim_depth=q(6, 12),
           gen_env={"PROFILE": "big"})


@check("C14")
def conversions(c):
    cl = {"error", "converted", "source", "alias", "dtype", "vshape"}
    c.part("conv", "Vectors", "vectors", cl, depth=1, gen_env={"PROFILE": "conv"})
    c.part("new", "Vectors", "vectors", cl, depth=1, gen_env={"PROFILE": "base"})


# --------------------------------------------------------------- transforms --
def transforms(c, clauses, profile, depth, simulate):
    c.part(profile, "Transform", "transform", clauses, depth=depth, gen_env={"PROFILE": profile})
    c.part("deep", "Transform", "transform", clauses, simulate=simulate, sim_depth=q(20, 30),
           gen_env={"PROFILE": "deep"})


@check("C15")
def chaining(c):
    transforms(c, {"structure", "binding"}, "chain", q(3, 4), q(150, 3000))
    c.part("bases", "Transform", "transform", {"structure", "binding"}, depth=q(5, 6), gen_env={"PROFILE": "bases"})
    c.part("arith", "Transform", "transform", {"structure", "binding"}, depth=q(2, 3),
           gen_env={"PROFILE": "arith"})


@check("C16")
def arithmetic(c):
    cl = {"arith", "structure"}
    transforms(c, cl, "arith", 2, q(150, 3000))
    c.part("arith3", "Transform", "transform", cl, depth=3, gen_env={"PROFILE": "arith"}, limit=q(120000, None))


@check("C17")
def units(c):
    transforms(c, {"units", "arith"}, "units", q(3, 3), q(100, 3000))


@check("C18")
def access(c):
    transforms(c, {"access"}, "access", 2, q(100, 3000))
    c.part("maps", "Transform", "transform", {"access"}, depth=q(4, 5), gen_env={"PROFILE": "maps"}, limit=q(8000, 150000))
    c.part("chain", "Transform", "transform", {"access"}, depth=q(3, 4), gen_env={"PROFILE": "chain"})


# -------------------------------------------------------------------- scenes --
def scenes(c, clauses, profile, depth, simulate=60):
    c.part(profile, "Scene", "scene", clauses, depth=depth, gen_env={"PROFILE": profile})
    c.part("deep", "Scene", "scene", clauses, simulate=q(simulate, 1500), sim_depth=q(14, 24),
           gen_env={"PROFILE": "deep"})


@check("C09")
def replayed_scene(c):
    scenes(c, {"replay"}, "replay", 4)
    c.part("default", "Scene", "scene", {"replay"}, depth=q(3, 5), gen_env={"PROFILE": "default"})


@check("C19")
def layout(c):
    scenes(c, {"layout", "limits", "error"}, "layout", q(2, 4))


@check("C20")
def drawing(c):
    scenes(c, {"projection", "order", "attributes", "partition", "error"}, q("order", "orders"), 3)


@check("C21")
def isolation(c):
    cl = {"collections", "isolation", "tracking", "source", "error", "projection", "order", "attributes", "partition"}
    c.part("default", "Scene", "scene", cl, depth=q(3, 4), gen_env={"PROFILE": "default"})
    c.part("pair", "Scene", "scene", cl, depth=q(6, 7), gen_env={"PROFILE": "pair"})
    c.part("deep", "Scene", "scene", cl, simulate=q(120, 2500), sim_depth=q(16, 24), gen_env={"PROFILE": "deep"})


@check("C22")
def grouping(c):
    c.part("groups", "Scene", "scene", {"partition", "collections", "order", "error"}, depth=3,
           gen_env={"PROFILE": "groups"})


@check("C31")
def image(c):
    cl = {"image", "error", "layout"}
    c.part("image", "Scene", "scene", cl, depth=q(4, 5), gen_env={"PROFILE": "image"}, limit=q(2500, 40000))
    c.part("images", "Scene", "scene", cl, simulate=q(150, 3000), sim_depth=q(12, 20), gen_env={"PROFILE": "images"})


# ------------------------------------------------------------------- streams --
def streams(c, kinds, *parts):
    cl = {f"{side}-{k}" for side in ("generic", "backend") for k in kinds}
    for profile, depth in parts:
        c.part(profile, "Stream", "stream", cl, depth=depth, gen_env={"PROFILE": profile}, limit=q(4000, None))
    c.part("deep", "Stream", "stream", cl, simulate=q(150, 3000), sim_depth=24, gen_env={"PROFILE": "deep"})


@check("C08")
def protocol_streams(c):
    streams(c, ("admission", "stream"), ("news", 5), ("calls", 6))


@check("C23")
def backend_replay(c):
    streams(c, ("replay",), ("calls", 7), ("news", q(None, 6)))


# --------------------------------------------------- buffers and converters --
@check("C24")
def buffers(c):
    cl = {"content", "items", "error", "replayed"}
    c.part("base", "Buffers", "buffers", cl, depth=3, gen_env={"PROFILE": "base"}, limit=q(4000, None))
    c.part("deep", "Buffers", "buffers", cl, simulate=q(300, 6000), sim_depth=q(16, 24), gen_env={"PROFILE": "deep"})


@check("C25")
def conversion_registry(c):
    cl = {"lookup", "registry"}
    c.part("registry", "Converters", "converters", cl, depth=q(2, 3), gen_env={"PROFILE": "registry"})
    c.part("deep", "Converters", "converters", cl, simulate=q(400, 6000), sim_depth=q(14, 24), gen_env={"PROFILE": "deep"})


@check("C26")
def type_codec(c):
    c.part("codec", "Converters", "converters", {"codec"}, depth=1, gen_env={"PROFILE": "codec"})


# ------------------------------------------------------------------ geometry --
@check("C27")
def svg_paths(c):
    c.part("base", "Svg", "svg", {"path"}, depth=4, gen_env={"PROFILE": "base"}, limit=q(4000, None))
    c.part("styles", "Svg", "svg", {"path"}, simulate=q(150, 3000), sim_depth=q(14, 24), gen_env={"PROFILE": "styles"})
    c.part("free", "Svg", "svg", {"path"}, simulate=q(200, 3000), sim_depth=q(14, 24), gen_env={"PROFILE": "free"})


@check("C28")
def matrices(c):
    c.part("matrix", "Glm", "glm", {"matrix"}, depth=1, gen_env={"PROFILE": "matrix"})


@check("C29")
def meshes(c):
    c.part("geometry", "Glm", "glm", {"vertices", "mesh"}, depth=1, gen_env={"PROFILE": "geometry"})


@check("C30")
def trackball(c):
    c.part("ball", "Glm", "glm", {"ball"}, depth=q(2, 3), gen_env={"PROFILE": "ball"})
    c.part("deep", "Glm", "glm", {"ball"}, simulate=q(200, 4000), sim_depth=q(14, 20), gen_env={"PROFILE": "deep"})


def main():
    pid = sys.argv[1]
    f, level = CHECKS[pid]
    try:
        c = Check(pid, level)
        f(c)
        return c.finish()
    except lib.Machinery as exc:
        print("MACHINERY", exc)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        lib.cleanup()


if __name__ == "__main__":
    sys.exit(main())
