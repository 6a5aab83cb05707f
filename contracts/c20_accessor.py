"""C20: image geometries of features."""
import json

from pvc.ctx import harness

from .common import Rec

A = "features.imaged_feature_property_accessor.ImagedFeaturePropertyAccessor."
LIB = ["shapely constructors build the geometry of the coordinates given"]
NEW, OLD = ["imageGeometry", "imageBBox"], ["geom_imcoords", "detection", "bounds_imcoords"]


def points(ctx, name, n, closed=False):
    p = [[ctx.real(f"{name}x{i}", 0, 1000), ctx.real(f"{name}y{i}", 0, 1000)] for i in range(n)]
    return p + [list(p[0])] if closed else p


def values(ctx, present, simple=False):
    """Property values with their own coordinates (different in every property)."""
    v = {}
    if "imageGeometry" in present:
        t, n = ctx.choice("shape", [("Point", 1), ("LineString", 2), ("Polygon", 3)]) if not simple else ("Point", 1)
        p = points(ctx, "ig", n, t == "Polygon")
        v["imageGeometry"] = {"type": t, "coordinates": p[0] if t == "Point" else [p] if t == "Polygon" else p}
    for k in ("imageBBox", "bounds_imcoords"):
        if k in present:
            x, y, w, h = ctx.real(k + "x", 0, 500), ctx.real(k + "y", 0, 500), ctx.real(k + "w", 1, 100), ctx.real(k + "h", 1, 100)
            v[k] = [x, y, x + w, y + h]
    if "geom_imcoords" in present:
        v["geom_imcoords"] = points(ctx, "gi", 3, True)
    if "detection" in present:
        t = ctx.choice("detection shape", ["Polygon", "Point", "none"] if not simple else ["Point", "none"])
        v["detection"] = {"label": "x", "type": t}
        p = points(ctx, "d", 3, True)
        if t != "none":
            v["detection"]["pixelCoordinates"] = p[0] if t == "Point" else [p]
    return v


def expect(v, deprecated):
    """(type, coordinates or bounds) of the preferred property."""
    if "imageGeometry" in v:
        return "shape", v["imageGeometry"]
    if "imageBBox" in v:
        return "box", v["imageBBox"]
    if deprecated:
        if "geom_imcoords" in v:
            return "shape", {"type": "Polygon", "coordinates": [v["geom_imcoords"]]}
        if "pixelCoordinates" in v.get("detection", {}):
            return "shape", {"type": v["detection"]["type"], "coordinates": v["detection"]["pixelCoordinates"]}
        if "bounds_imcoords" in v:
            return "box", v["bounds_imcoords"]
    return None


def flat(c):
    return [x for e in c for x in flat(e)] if isinstance(c, (list, tuple)) else [c]


def check_geometry(ctx, name, g, want):
    if want is None:
        ctx.ensure(name + ": none", g is None)
        return
    kind, w = want
    ctx.ensure(name + ": found", g is not None)
    if ctx.symbolic:
        t, c, b = g.type, g.coordinates, g.bounds
    else:
        import shapely

        m = shapely.geometry.mapping(g)
        t, c, b = m["type"], m["coordinates"], g.bounds
    if kind == "box":
        ctx.ensure(name + ": a rectangle", t == "Polygon")
        ctx.ensure_vec(name + ": bounds", list(b), list(w), tol=1e-12)
    else:
        ctx.ensure(name + ": type", t == w["type"])
        a, e = flat(c), flat(w["coordinates"])
        ctx.ensure(name + ": number of coordinates", len(a) == len(e))
        ctx.ensure_vec(name + ": coordinates", a, e, tol=1e-12)


def libs(ctx):
    import contextlib

    import shapely
    import shapely.geometry

    st = contextlib.ExitStack()
    if not ctx.symbolic:
        return st

    def shape(m):
        return Rec(type=m["type"], coordinates=m["coordinates"], bounds=None)

    def box(minx, miny, maxx, maxy, ccw=True):
        return Rec(type="Polygon", coordinates=None, bounds=[minx, miny, maxx, maxy])

    def polygon(shell=None, holes=None):
        return Rec(type="Polygon", coordinates=[shell], bounds=None)

    for f, r in ((shapely.geometry.shape, shape), (shapely.geometry.box, box), (shapely.geometry.Polygon, polygon), (shapely.geometry.mapping, lambda g: g.__geo_interface__)):
        st.enter_context(ctx.lib(f, r))
    loads = json.loads
    st.enter_context(ctx.lib(shapely.to_geojson, lambda g, indent=None: GeoJSON(g)))
    st.enter_context(ctx.lib(json.loads, lambda t, **k: t.loaded() if isinstance(t, GeoJSON) else loads(t, **k)))
    return st


class GeoJSON(str):
    """The text of a geometry."""

    def __new__(cls, g):
        self = str.__new__(cls, "{}")
        self.g = g
        return self

    def loaded(self):
        return {"type": self.g.kind, "coordinates": nested(self.g.coordinates, list)}


def nested(c, t):
    return t(nested(x, t) for x in c) if isinstance(c, (list, tuple)) else c


class Geometry:
    """A geometry with arbitrary coordinates (stands for shapely's, by its documented attributes)."""

    def __init__(self, ctx, kind, coordinates):
        self.kind = self.geom_type = kind
        self.coordinates = coordinates
        v = flat(coordinates)
        self.bounds = (ctx.min(*v[::2]), ctx.min(*v[1::2]), ctx.max(*v[::2]), ctx.max(*v[1::2]))
        self.__geo_interface__ = {"type": kind, "coordinates": nested(coordinates, tuple)}

    @property
    def __class__(self):
        import shapely.geometry

        return getattr(shapely.geometry, self.kind)


def feature(v):
    import geojson

    f = geojson.Feature(geometry=None, properties={"other": [1, 2]})
    f["properties"].update(v)
    return f


@harness("C20", [A + f for f in ("__init__", "find_image_geometry", "get_image_geometry", "get_image_bbox")], samples=300, trusted=LIB,
         limits=dict(max_paths=3000))
def find(ctx):
    """The preferred property available gives the geometry; reading does not modify the feature."""
    from aws.osml.features import ImagedFeaturePropertyAccessor

    dep = ctx.choice("deprecated", [True, False, None])
    present = [k for k in NEW + OLD if ctx.choice(k, [False, True])]
    v = values(ctx, present)
    f = feature(v)
    a = ImagedFeaturePropertyAccessor() if dep is None else ImagedFeaturePropertyAccessor(allow_deprecated=dep)
    with libs(ctx):
        g, ig, bb = a.find_image_geometry(f), a.get_image_geometry(f), a.get_image_bbox(f)
    check_geometry(ctx, "geometry", g, expect(v, dep is not False))
    check_geometry(ctx, "image geometry", ig, ("shape", v["imageGeometry"]) if "imageGeometry" in v else None)
    check_geometry(ctx, "bounding box", bb, ("box", v["imageBBox"]) if "imageBBox" in v else None)
    ctx.ensure("the feature keeps its properties", list(f["properties"]) == ["other"] + list(v) and all(f["properties"][k] is v[k] for k in v))


def sample_geometry(ctx, name):
    import shapely

    t = ctx.choice(name, ["Point", "LineString", "hole", "MultiPolygon"] + (["Polygon", "MultiPoint", "PointZ"] if not ctx.symbolic else []))
    p = [(ctx.real(f"{name}{i}x", 0, 1000), ctx.real(f"{name}{i}y", 0, 1000)) for i in range(4)]
    x, y = p[0]
    ring = [(x, y), (x + 10, y), (x + 10.5, y + 8), (x, y + 9)]
    hole = [(x + 2, y + 2), (x + 3, y + 2), (x + 3, y + 3)]
    if ctx.symbolic:
        a, b = ring + ring[:1], [(p[1][0] + q, p[1][1] + r) for q, r in ((0, 0), (1, 0), (1, 1), (0, 0))]
        kind, c = {"Point": ("Point", p[0]), "LineString": ("LineString", p[:3]), "Polygon": ("Polygon", [b]), "hole": ("Polygon", [a, hole + hole[:1]]),
                   "MultiPoint": ("MultiPoint", p[:2]), "MultiPolygon": ("MultiPolygon", [[b], [[(q + 500, r) for q, r in b]]])}[t]
        return Geometry(ctx, kind, c)
    return {"Point": lambda: shapely.Point(p[0]), "LineString": lambda: shapely.LineString(p), "Polygon": lambda: shapely.Polygon(ring),
            "hole": lambda: shapely.Polygon(ring, [hole]), "MultiPoint": lambda: shapely.MultiPoint(p), "PointZ": lambda: shapely.Point(x, y, 5.0),
            "MultiPolygon": lambda: shapely.MultiPolygon([shapely.Polygon(ring), shapely.Polygon([(q + 500, r) for q, r in ring])])}[t]()


def same(a, b):
    """equal property values (symbolic ones by identity or term)"""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or bool(a == b)


@harness("C20", [A + f for f in ("set_image_geometry", "set_image_bbox", "update_existing_image_geometries", "find_image_geometry")],
         samples=300, trusted=LIB, limits=dict(max_paths=4000), bounded="geometries of seven shapes with fixed numbers of points")
def update(ctx):
    """Setting stores exactly the geometry or its bounds; updating replaces those properties that exist and no others, whatever was read or set before."""
    import shapely

    from aws.osml.features import ImagedFeaturePropertyAccessor

    dep = ctx.choice("deprecated", [True, False])
    what = ctx.choice("what", ["update", "set geometry", "set bbox"])
    if what == "update" or not ctx.symbolic:
        present = [k for k in NEW + OLD if ctx.choice(k, [False, True])]
    else:
        present = NEW + OLD if ctx.choice("all", [False, True]) else []
    v = values(ctx, present, ctx.symbolic)
    f = feature(nested_copy(v))
    a = ImagedFeaturePropertyAccessor(dep)
    g = sample_geometry(ctx, "g")
    with libs(ctx):
        m = shapely.geometry.mapping(g) if not ctx.symbolic else g.__geo_interface__
        if not ctx.symbolic:
            a.find_image_geometry(f), a.get_image_geometry(f), a.get_image_bbox(f)
            other, og = feature(nested_copy(v)), sample_geometry(ctx, "o")
            for h in (g, og):
                change(a, what, other, h)
        change(a, what, f, g)
        if not ctx.symbolic:
            # properties of features do not share their values
            for q in other["properties"].values():
                if isinstance(q, list):
                    q.append(7.0)
            change(a, what, other, og)
        p = f["properties"]
        touched = {"set geometry": {"imageGeometry"}, "set bbox": {"imageBBox"}}.get(what, set(NEW) & set(v) | (set(OLD) & set(v) if dep else set()))
        ctx.ensure("no other properties appear or vanish", set(p) == {"other"} | set(v) | (touched if what != "update" else set()))
        ctx.ensure("other properties are not modified", p["other"] == [1, 2] and all(same(p[k], v[k]) for k in v if k not in touched))
        for k in sorted(touched):
            if k == "imageGeometry":
                coordinates(ctx, "the geometry is stored", p[k]["coordinates"], m["coordinates"])
                ctx.ensure("with its type", p[k]["type"] == m["type"])
                if not ctx.symbolic:
                    ctx.ensure("and read back", shapely.equals_exact(a.get_image_geometry(f), g) and shapely.equals_exact(a.find_image_geometry(f), g))
            elif k in ("imageBBox", "bounds_imcoords"):
                ctx.ensure("four bounds", isinstance(p[k], (list, tuple)) and len(p[k]) == 4)
                ctx.ensure_vec("the bounds are stored", list(p[k]), list(g.bounds), tol=0)
                if k == "imageBBox" and not ctx.symbolic:
                    ctx.ensure("and read back as a box", a.get_image_bbox(f).bounds == g.bounds)
            elif k == "geom_imcoords":
                coordinates(ctx, "the (outer) ring is stored", p[k], m["coordinates"][0] if m["type"] == "Polygon" else m["coordinates"])
            elif k == "detection":
                ctx.ensure("other parts of the detection are kept", p[k]["label"] == "x")
                if "pixelCoordinates" in v[k]:
                    ctx.ensure("the detection has the type", p[k]["type"] == m["type"])
                    coordinates(ctx, "the detection is stored", p[k]["pixelCoordinates"], m["coordinates"])
                else:
                    ctx.ensure("a detection without coordinates is not modified", same(p[k], v[k]))


def change(a, what, f, g):
    if what == "set geometry":
        a.set_image_geometry(f, g)
    elif what == "set bbox":
        a.set_image_bbox(f, g)
    else:
        a.update_existing_image_geometries(f, g)


def coordinates(ctx, name, got, want):
    ctx.ensure(name + ": nesting", shape_of(got) == shape_of(want))
    ctx.ensure_vec(name, flat(got), flat(want), tol=0)


def shape_of(c):
    return [shape_of(x) for x in c] if isinstance(c, (list, tuple)) else 0


def nested_copy(v):
    return {k: nested_copy(x) for k, x in v.items()} if isinstance(v, dict) else [nested_copy(x) for x in v] if isinstance(v, list) else v
