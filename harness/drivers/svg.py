"""Drives the reader of SVG paths."""
import numpy as np
from gsp.core.svg import svg_to_path

FRAME = "M-40-40L40 40"


def number(n, style):
    x = n / 2
    t = f"{x:g}"
    if style in (2, 4) and 0 < abs(x) < 1: t = t.replace("0.", ".")
    if style == 3: t = f"{n * 5}e-1" if n % 2 else f"+{x:g}" if n > 0 else t
    if style == 4 and n % 2 and abs(x) > 1: t = f"{n * 5}E-1"
    if style == 1 and n % 2 == 0: t = f"{x:.1f}"
    return t


def join(texts, style):
    out = ""
    for i, t in enumerate(texts):
        if i:
            glued = t[0] == "-" or (t[0] == "." and "." in texts[i - 1])
            out += "" if style == 2 and glued else "," if style in (1, 4) and i % 2 else " , " if style == 3 else " "
        out += t
    return out


def segments(path):
    """Canonical segments of a path: without empty lines, closing lines explicit"""
    out, v, c, i = [], path.vertices, path.codes, 0
    cur = start = None
    size = {1: 1, 2: 1, 3: 2, 4: 3, 79: 1}
    while i < len(c):
        n = size[int(c[i])]
        assert len(v) >= i + n and all(c[i:i + n] == c[i])
        p = v[i:i + n]
        k = {1: "M", 2: "L", 3: "Q", 4: "C", 79: "Z"}[int(c[i])]
        if k == "Z": p = start[None]
        if k in "LZ" and not np.allclose(p[0], cur, atol=1e-6): out.append(("L", [p[0]], cur))
        if k == "Z": out.append(("Z", [], cur))
        if k in "MQC": out.append((k, list(p), cur))
        cur = p[-1]
        if k == "M": start = cur
        i += n
    return out


def scaled(p):
    return [int(round(float(x) * 1e6)) if np.isfinite(x) else 0 for x in p]


class Driver:
    def __init__(self):
        self.text, self.seen = "", 0
        self.frame = False

    def end(self):
        pass

    def do(self, e):
        try:
            if e["ev"] == "frame":
                self.text, self.frame = FRAME, True
            else:
                letter = "" if e["imp"] else e["c"].lower() if e["rel"] else e["c"]
                p, s = e["p"], e["style"]
                if e["c"] == "A":
                    texts = [number(x, s) for x in p[:2]] + [str(x) for x in p[2:5]] + [number(x, s) for x in p[5:]]
                else:
                    texts = [number(x, s) for x in p]
                gap = " " if s != 2 or e["imp"] else ""
                self.text += gap + letter + gap + join(texts, s)
            segs = segments(svg_to_path(self.text))
        except Exception as exc:
            return dict(err=type(exc).__name__, segs=[], samples=[])
        new = segs[self.seen:] if self.frame else segs
        self.seen = len(segs)
        if e["ev"] != "frame" and e["c"] == "A" and all(k == "C" for k, _, _ in new) and new:
            samples = [scaled(new[0][2])]
            for _, (b, c, d), a in new:
                for t in (.5, 1):
                    samples.append(scaled((1 - t)**3 * a + 3 * t * (1 - t)**2 * b + 3 * t * t * (1 - t) * c + t**3 * d))
            return dict(err="", segs=[], samples=samples)
        return dict(err="", segs=[dict(k=k, p=[scaled(x) for x in p]) for k, p, _ in new], samples=[])
