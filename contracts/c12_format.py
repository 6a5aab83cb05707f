"""C12: text form of geodetic coordinates."""
import math
import re

import numpy as np

from pvc.ctx import harness

P = "photogrammetry.coordinates.GeodeticWorldCoordinate."
F = [P + "__format__", P + "to_dms_string"]

# tokens of a format specification: directive -> (kind, which, python format)
TOK = {
    "%ld": ("d", "lat", "02d"), "%lm": ("m", "lat", "02d"), "%ls": ("s", "lat", "02d"),
    "%od": ("d", "lon", "03d"), "%om": ("m", "lon", "02d"), "%os": ("s", "lon", "02d"),
    "%lh": ("h", "lat", str.lower), "%lH": ("h", "lat", str.upper), "%oh": ("h", "lon", str.lower), "%oH": ("h", "lon", str.upper),
    "%L": ("v", "lat", ""), "%O": ("v", "lon", ""), "%E": ("v", "elev", ""), "%%": ("lit", "%", ""),
}
SPECS = [
    "%ld%lm%ls%lH%od%om%os%oH",
    "%ld%lm%ls%lh%od%om%os%oh",
    "%od:%om:%os %oH, %ld:%lm:%ls %lH",
    "%od%oh/%ld%lh.dt2",
    "lat %ld deg %lm' %ls\" %lH %% lon %od %om %os %oH",
    "%lm %ls %ld %os %om %od x",
    "%L, %O, %E",
    "%E%% [%ld]",
    "no directives",
]


def tokens(spec):
    out, i = [], 0
    while i < len(spec):
        for n in (3, 2):
            t = spec[i:i + n]
            if t in TOK and len(t) == n:
                out.append(TOK[t])
                i += n
                break
        else:
            out.append(("lit", spec[i], ""))
            i += 1
    return out


def check(ctx, text, spec, lon, lat, h):
    """Split the text by the specification and check the parts."""
    val = {"lat": lat, "lon": lon, "elev": h}
    deg = {"lat": ctx.degrees(lat), "lon": ctx.degrees(lon)}
    if ctx.symbolic:
        from pvc.sym import SStr

        chunks = list(text.chunks) if isinstance(text, SStr) else [text]
    parts = {}
    hemi = {}
    for w, (neg, pos) in (("lat", "SN"), ("lon", "WE")):
        hemi[w] = neg if deg[w] < 0 else pos
    toks = tokens(spec)
    if ctx.symbolic:
        flat = []
        for c in chunks:
            flat += list(c) if isinstance(c, str) else [c]
        i = 0
        for kind, w, f in toks:
            if i >= len(flat):
                ctx.ensure("every directive of the format appears", False)
                return
            c = flat[i]
            i += 1
            if kind == "lit":
                ctx.ensure("literal text is kept", isinstance(c, str) and c == w)
            elif kind == "h":
                ctx.ensure(f"hemisphere of the {w}", isinstance(c, str) and c == f(hemi[w]))
            elif kind == "v":
                ctx.ensure(f"value of the {w}", not isinstance(c, str))
                ctx.ensure_eq(f"value of the {w}", c[0], val[w])
            else:
                ctx.ensure("number", not isinstance(c, str) and c[1] == f)
                parts.setdefault(w, {})[kind] = c[0]
        ctx.ensure("nothing else is added", i == len(flat))
    else:
        rx, names = "", []
        for k, (kind, w, f) in enumerate(toks):
            if kind == "lit":
                rx += re.escape(w)
            elif kind == "h":
                rx += re.escape(f(hemi[w]))
            elif kind == "v":
                rx += r"(-?[\d.eE+-]+)"
                names.append((kind, w))
            else:
                rx += r"(\d{%d})" % int(f[:-1])
                names.append((kind, w))
        m = re.fullmatch(rx, text)
        ctx.ensure(f"the text has the format {spec}", m is not None)
        for (kind, w), g in zip(names, m.groups()):
            if kind == "v":
                ctx.ensure_eq(f"value of the {w}", float(g), val[w], tol=1e-12)
            else:
                parts.setdefault(w, {})[kind] = int(g)
    eps = 0 if ctx.symbolic else 1e-6
    for w, p in parts.items():
        for q in ("m", "s"):
            if q in p:
                ctx.ensure(f"{w}: minutes and seconds are below 60", ctx.and_(p[q] >= 0, p[q] <= 59))
        sec = ctx.ite(deg[w] < 0, -deg[w], deg[w]) * 3600
        if set(p) == {"d", "m", "s"}:
            t = p["d"] * 3600 + p["m"] * 60 + p["s"]
            ctx.ensure(f"{w}: degrees, minutes and whole seconds of the angle", ctx.and_(sec - t < 1 + eps, sec - t >= -0.0005 - eps))
            if not ctx.symbolic and abs(sec - round(sec)) < 1e-6:
                ctx.ensure(f"{w}: an angle of whole seconds is written with these seconds", t == round(sec))
        elif set(p) == {"d"}:
            t = p["d"] * 3600
            ctx.ensure(f"{w}: whole degrees of the angle", ctx.and_(sec - t < 3600 + eps, sec - t >= -0.0005 - eps))


def place(ctx):
    lon, lat = ctx.real("lon", -math.pi, math.pi), ctx.real("lat", -math.pi / 2, math.pi / 2)
    if not ctx.symbolic:
        k = ctx.choice("kind", ["any", "whole degrees", "whole seconds", "just below"])
        if k != "any":
            q = 1 if k == "whole degrees" else 3600
            e = 1e-9 if k == "just below" else 0.0
            lon, lat = [math.radians(round(math.degrees(v) * q) / q - e) for v in (lon, lat)]
    return lon, lat, ctx.real("h", -500, 9000)


@harness("C12", F[:1], samples=600)
def format_directives(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    lon, lat, h = place(ctx)
    spec = ctx.choice("spec", SPECS)
    w = GeodeticWorldCoordinate([lon, lat, h])
    t = fmt(ctx, w, spec)
    check(ctx, t, spec, lon, lat, h)
    ctx.ensure_vec("formatting does not modify the coordinate", w.coordinate, [lon, lat, h])


def fmt(ctx, w, spec):
    return w.__format__(spec) if ctx.symbolic else format(w, spec)


@harness("C12", F, samples=600)
def dms_string(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    lon, lat, h = place(ctx)
    w = GeodeticWorldCoordinate([lon, lat, h])
    check(ctx, w.to_dms_string(), "%ld%lm%ls%lH%od%om%os%oH", lon, lat, h)
    check(ctx, fmt(ctx, w, ""), "%ld%lm%ls%lH %od%om%os%oH %E", lon, lat, h)
    if not ctx.symbolic:
        ctx.ensure("15 characters", len(w.to_dms_string()) == 15)


@harness("C12", F[:1], sym=False, samples=400, bounded="random specifications of up to 8 tokens")
def random_specifications(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    lon, lat, h = place(ctx)
    n = ctx.int("n", 0, 8)
    lits = [" ", "-", "d", "m", "/", "%%", "l", "o", "E", "x"]
    spec = "".join(ctx.choice(f"t{i}", [t for t in TOK if len(t) == 3] + lits) for i in range(n)) + "."
    check(ctx, format(GeodeticWorldCoordinate([lon, lat, h]), spec), spec, lon, lat, h)


C = "photogrammetry.coordinates."


@harness("C12", [C + "WorldCoordinate.__init__", C + "ImageCoordinate.__init__", C + "GeodeticWorldCoordinate.__init__"])
def coordinate_components(ctx):
    """x/y/z, lon/lat/elevation and column/row are views of one vector, and construction copies its argument."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, WorldCoordinate

    a, b, c, n = [ctx.real(q, -10, 10) for q in "abcn"]
    src = np.array([a, b, c], dtype=object if ctx.symbolic else float)
    for cls, names in ((WorldCoordinate, ("x", "y", "z")), (GeodeticWorldCoordinate, ("longitude", "latitude", "elevation")),
                       (GeodeticWorldCoordinate, ("x", "y", "z"))):
        for k in range(3):
            w = cls(src)
            ctx.ensure_vec(f"{names} components", [getattr(w, q) for q in names], [a, b, c])
            setattr(w, names[k], n)
            e = [a, b, c]
            e[k] = n
            ctx.ensure_vec(f"setting {names[k]} sets that component only", w.coordinate, e)
        ctx.ensure_vec("the argument is not modified", src, [a, b, c])
    s2 = np.array([a, b], dtype=object if ctx.symbolic else float)
    for names in (("x", "y"), ("c", "r")):
        for k in range(2):
            i = ImageCoordinate(s2)
            ctx.ensure_vec(f"{names} components", [i.x, i.y, i.c, i.r], [a, b, a, b])
            setattr(i, names[k], n)
            e = [a, b]
            e[k] = n
            ctx.ensure_vec(f"setting {names[k]} sets that component only", i.coordinate, e)
        ctx.ensure_vec("the argument is not modified", s2, [a, b])
    # whole numbers, given as such, are the same coordinates: a fraction can be set later
    for kind in (list, tuple, lambda v: np.array(v), lambda v: np.array(v, dtype=np.float32), lambda v: np.array(v, dtype=np.uint8)):
        for cls, vals in ((WorldCoordinate, [1, 2, 3]), (GeodeticWorldCoordinate, [1, 0, 3]), (ImageCoordinate, [7, 200])):
            w = cls(kind(vals))
            ctx.ensure_vec("components given as whole numbers", list(w.coordinate), vals)
            w.x = -0.25
            ctx.ensure_vec("a fraction set on whole numbers", list(w.coordinate), [-0.25] + vals[1:])
            w.y = 1 / 3
            ctx.ensure_vec("every digit of it", list(w.coordinate), [-0.25, 1 / 3] + vals[2:], tol=1e-15)
    for cls, bad in ((WorldCoordinate, [1.0, 2.0]), (GeodeticWorldCoordinate, [1.0] * 4), (ImageCoordinate, [1.0] * 3)):
        v, e = ctx.attempt(cls, bad)
        ctx.ensure("a wrong number of components is rejected", isinstance(e, ValueError))
