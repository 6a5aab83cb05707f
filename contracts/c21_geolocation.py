"""C21: geolocation of features."""
import contextlib
import inspect
import math

from pvc.ctx import Structural, harness

from .common import Rec, stub_elevation, stub_model

F = "features.geolocation."
L, G = F + "LocationGridInterpolator.", F + "Geolocator."
TRUST = ["scipy RectBivariateSpline(kx=1, ky=1): bilinear interpolation of z[i][j] at (x[i], y[j])", "np.linspace: evenly spaced, ends included"]


def weights(x, u, v):
    return [(u[i + 1] - x) / (u[i + 1] - u[i]) for i in range(len(u) - 1)]


def bilinear(ctx, xs, ys, z, x, y):
    """z[i][j] at (xs[i], ys[j]); the cell containing the location."""
    def cell(us, u):
        k = 0
        while k < len(us) - 2 and u > us[k + 1]:
            k += 1
        t = (u - us[k]) / (us[k + 1] - us[k])
        return k, t

    (i, s), (j, t) = cell(xs, x), cell(ys, y)
    return (1 - s) * ((1 - t) * z[i][j] + t * z[i][j + 1]) + s * ((1 - t) * z[i + 1][j] + t * z[i + 1][j + 1])


class Spline:
    ctx = None

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        import numpy as np

        from pvc.sym import Unsupported

        self.x, self.y, self.z = list(x), list(y), np.asarray(z, dtype=object)
        if self.z.shape != (len(self.x), len(self.y)):
            raise ValueError("x and y dimensions do not match z")
        if (kx, ky) != (1, 1):
            raise Unsupported("spline outside the assumed contract")

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        import numpy as np

        v = bilinear(self.ctx, self.x, self.y, self.z, x, y)
        return np.array([[v]], dtype=object) if grid else v

    def ev(self, x, y):
        return self(x, y)[0][0]


@harness("C21", [L + "__init__", L + "__call__"], samples=100, trusted=TRUST, assume_nonzero=True,
         bounded="grids of 2 x 2 and 3 x 3 locations (any size on sampled runs)")
def grid_of_locations(ctx):
    """Inside the area the location is the bilinear interpolation of the sensor model's locations, on the surface of the elevation model."""
    import aws.osml.features.geolocation as mod

    ctx.need(mod, "LocationGridInterpolator")
    n = ctx.choice("n", [2, 3]) if ctx.symbolic else ctx.choice("n", [2, 3, 4, 11])
    m = stub_model(ctx)
    use = ctx.choice("dem", [False, True, "no coverage"])
    dem = stub_elevation(ctx, outside=UNCOVERED if use == "no coverage" else None) if use else None
    ux, uy, w, h = ctx.real("ux", -100, 100), ctx.real("uy", -100, 100), ctx.real("w", 1, 100), ctx.real("h", 1, 100)
    a, b = ctx.real("a", 0, 1), ctx.real("b", 0, 1)
    Spline.ctx = ctx
    with ctx.stub(mod, "RectBivariateSpline", Spline):
        g = mod.LocationGridInterpolator(m, dem, ux, uy, w, h, n)
        x, y = ux + a * w, uy + b * h
        r = g(ctx.choice("kind", [lambda p: p, tuple])([x, y]))
    xs, ys = [ux + w * i / (n - 1) for i in range(n)], [uy + h * j / (n - 1) for j in range(n)]
    z = [[m.spec_i2w(p, q) for q in ys] for p in xs]
    e = [bilinear(ctx, xs, ys, [[c[k] for c in row] for row in z], x, y) for k in range(3)]
    ctx.ensure_vec("interpolated longitude and latitude", [r.longitude, r.latitude], e[:2], tol=1e-9)
    if use is True:
        ctx.ensure_eq("elevation of the surface there", r.elevation, dem.elev(r.longitude, r.latitude), tol=1e-9)
    else:
        ctx.ensure_eq("interpolated elevation", r.elevation, e[2], tol=1e-9)
    if dem is not None:
        ctx.ensure("the sensor model is given the elevation model", all(c[2] is dem for c in m.log))


UNCOVERED = 0.0  # anything: an elevation model that does not cover a location leaves its elevation alone


class GridState:
    pass


def grid_loops():
    """Loop contracts of the grid for any resolution n: entry a*n + b of the flat lists is location (a, b)."""
    from pvc.loops import ForAll, LoopSpec

    T = GridState
    fn = "aws.osml.features.geolocation:LocationGridInterpolator.__init__#"
    names = ("longitude_values", "latitude_values", "elevation_values")

    def filled(env, count):
        return [("position in the lists", env["i"] == count)] + [
            (f"{v} filled", ForAll(0, count, lambda j, k=k, v=v: env[v].at(j) == T.flat[k](j))) for k, v in enumerate(names)]

    def rows(env, a):
        T.a = a
        T.locate(a, 0)
        return filled(env, a * T.n)

    def columns(env, b):
        T.locate(T.a, b)
        return filled(env, T.a * T.n + b)

    return [LoopSpec(fn + "1", rows), LoopSpec(fn + "2", columns)]


@harness("C21", [L + "__init__", L + "__call__"], samples=60, trusted=TRUST, assume_nonzero=True, loops=grid_loops())
def grid_of_any_size(ctx):
    """Any resolution: value (p, q) of each spline is the sensor model's location at point (p, q) of the evenly spaced grid."""
    import aws.osml.features.geolocation as mod

    ctx.need(mod, "RectBivariateSpline")
    n = ctx.int("n", 2, None if ctx.symbolic else 12)
    m = stub_model(ctx)
    use = ctx.choice("dem", [False, True, "no coverage"])
    dem = stub_elevation(ctx, outside=UNCOVERED if use == "no coverage" else None) if use else None
    ux, uy, w, h = ctx.real("ux", -100, 100), ctx.real("uy", -100, 100), ctx.real("w", 1, 100), ctx.real("h", 1, 100)
    value = ctx.uf("value", 3, 1, 2)
    real = ctx.float if ctx.symbolic else float
    made = []

    class Recorded:
        def __init__(self, x, y, z, bbox=(None, None, None, None), kx=3, ky=3, s=0):
            if (kx, ky, s) != (1, 1, 0) or any(e is not None for e in bbox):
                raise Structural("another kind of spline")
            self.x, self.y, self.z, self.asked = x, y, z, []
            made.append(self)

        def __call__(self, x, y, dx=0, dy=0, grid=True):
            if not grid or dx or dy:
                raise Structural("another evaluation")
            v = value(real(made.index(self)), real(x), real(y))
            self.asked.append(v)
            return [[v]]

    def axis(u, extent, k):
        return u + (u + extent - u) * k / (n - 1)

    def want(p, q):
        lon, lat, el = m.spec_i2w(axis(ux, w, p), axis(uy, h, q))
        return [lon, lat, dem.elev(lon, lat) if use is True else el]

    T = GridState
    T.n = n
    if ctx.symbolic:
        T.flat = [ctx.uf(f"flat{k}", 1) for k in range(3)]

        def locate(p, q):
            k = real(p * n + q)
            for f, v in zip(T.flat, want(p, q)):
                ctx.definition(ctx.implies(ctx.and_(0 <= p, p < n, 0 <= q, q < n), f(k) == v))

        T.locate = locate
    with ctx.patch(mod, "RectBivariateSpline", Recorded):
        g = mod.LocationGridInterpolator(m, dem, ux, uy, w, h, n)
        x, y = ctx.real("x", 0, 100), ctx.real("y", 0, 100)
        r = g([x, y])
    p, q = ctx.index("p", (n, n))
    if ctx.symbolic:
        T.locate(p, q)
        ctx.ensure("the point is in the lists", p * n + q < n * n)
        ctx.point(p * n + q)
    if len(made) < 2:
        raise Structural("another interpolation")

    def of(v):
        out = [s for s in made if any(ctx.same(v, u) for u in s.asked)]
        ctx.ensure("the values of a spline at the location asked for", len(out) >= 1)
        return out[0]

    for k, v in enumerate([r.longitude, r.latitude, r.elevation]):
        if k == 2 and use is True:
            ctx.ensure_eq("elevation of the surface there", v, dem.elev(r.longitude, r.latitude), tol=1e-9)
            break
        s = of(v)
        ctx.ensure_eq("values are those at the location asked for", v, value(real(made.index(s)), real(x), real(y)), tol=1e-9)
        ctx.ensure("a value for every point of the grid", ctx.and_(*[d == n for d in (*s.z.shape, ctx.length(s.x), ctx.length(s.y))]))
        ctx.ensure_eq("points across the width", ctx.at(s.x, (p,)), ux + w * p / (n - 1), tol=1e-9)
        ctx.ensure_eq("points across the height", ctx.at(s.y, (q,)), uy + h * q / (n - 1), tol=1e-9)
        ctx.ensure_eq(f"{('longitude', 'latitude', 'elevation')[k]} at every point", ctx.at(s.z, (p, q)), want(p, q)[k], tol=1e-9)
    if not ctx.symbolic:
        ctx.ensure("the sensor model is given the elevation model", all(c[2] is dem for c in m.log))


@harness("C21", [G + "radians_coordinate_to_degrees"], samples=30)
def degrees(ctx):
    from aws.osml.features import Geolocator
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    c = [ctx.real("lon", -4, 4), ctx.real("lat", -2, 2), ctx.real("h", -1000, 1000)]
    ctx.ensure_vec("degrees and elevation", list(Geolocator.radians_coordinate_to_degrees(GeodeticWorldCoordinate(c))),
                   [ctx.degrees(c[0]), ctx.degrees(c[1]), c[2]], tol=1e-12)


RING = [[0.0, 0.0], [10.0, 1.0], [9.0, 12.0], [0.0, 0.0]]
HOLE2 = [[6.0, 3.0], [7.0, 3.0], [7.0, 4.0], [6.0, 3.0]]
HOLE = [[3.0, 3.0], [4.0, 3.0], [4.0, 4.0], [3.0, 3.0]]


def geometries(dx, dy):
    def mv(c):
        return [mv(e) for e in c] if isinstance(c[0], list) else [c[0] + dx, c[1] + dy]

    out = {
        "Point": [3.0, 4.0], "LineString": [[0.0, 0.0], [5.0, 7.0], [9.0, 2.0]], "LineString along a row": [[1.0, 2.0], [8.0, 2.0]],
        "LineString along a column": [[1.0, 2.0], [1.0, 9.0]], "Polygon": [RING], "Polygon with a hole": [RING, HOLE, HOLE2],
        "MultiPoint": [[1.0, 2.0], [30.0, -4.0]], "MultiLineString": [[[0.0, 0.0], [5.0, 7.0]], [[1.0, 1.0], [2.0, 8.0], [3.0, 3.0]]],
        "MultiPolygon": [[RING, HOLE], [[[20.0, 20.0], [25.0, 20.0], [25.0, 30.0], [20.0, 20.0]]]],
    }
    out = {k: {"type": k.split()[0], "coordinates": mv(c)} for k, c in out.items()}
    out["GeometryCollection"] = {"type": "GeometryCollection", "geometries": [out["Point"], out["Polygon with a hole"], out["MultiPoint"]]}
    return out


def libs(ctx):
    """Assumed contracts of the constructors of geojson and of the bounds of shapely points, for symbolic coordinates."""
    import geojson
    import shapely

    st = contextlib.ExitStack()
    if not ctx.symbolic:
        return st

    def maker(name):
        def f(coordinates=None, **kw):
            c = coordinates
            if name == "GeometryCollection":
                return {"type": name, "geometries": list(c)}
            if name.startswith("Multi"):
                c = [e["coordinates"] if isinstance(e, dict) else e for e in c]
            return {"type": name, "coordinates": c}

        return f

    for n in ("Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"):
        st.enter_context(ctx.lib(getattr(geojson, n), maker(n)))

    def multi(pts=None):
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        return Rec(bounds=(ctx.min(*xs), ctx.min(*ys), ctx.max(*xs), ctx.max(*ys)))

    st.enter_context(ctx.lib(shapely.MultiPoint, multi))
    st.enter_context(ctx.lib(shapely.geometry.MultiPoint, multi))
    return st


def check_like(ctx, got, want, loc):
    """got (GeoJSON) has the structure of want (image coordinates) with every coordinate located by loc."""
    ctx.ensure("type of the geometry", got["type"] == want["type"])
    if want["type"] == "GeometryCollection":
        ctx.ensure("number of parts", len(got["geometries"]) == len(want["geometries"]))
        for g, w in zip(got["geometries"], want["geometries"]):
            check_like(ctx, g, w, loc)
        return

    def go(g, w):
        if isinstance(w[0], (list, tuple)):
            ctx.ensure("number of coordinates", len(g) == len(w))
            for a, b in zip(g, w):
                go(a, b)
        else:
            lon, lat, el = loc(w)
            ctx.ensure("longitude, latitude and elevation", len(g) == 3)
            ctx.ensure_vec("location of the coordinate", list(g), [ctx.degrees(lon), ctx.degrees(lat), el], tol=1e-6)

    go(got["coordinates"], want["coordinates"])


class Arguments(dict):
    """Arguments of a constructor by the names of its parameters."""

    def __missing__(self, k):
        raise Structural(f"no parameter {k}")


def bounds(g):
    import shapely

    return shapely.geometry.shape(g).bounds


@harness("C21", [G + f for f in ("__init__", "geolocate_features", "_geolocate_features_using_approximation_grid", "_geolocate_image_geometry")],
         samples=300, trusted=["geojson constructors keep the coordinates (to 6 decimals)", "shapely: bounds and centroids"],
         bounded="lists of up to 3 features of ten kinds of geometry", limits=dict(max_paths=2000))
def features(ctx):
    """With any interpolation function: geometry and bbox are those of the image, located; nothing else changes; the grid covers every feature."""
    import geojson
    import shapely

    import aws.osml.features.geolocation as mod
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    ctx.need(mod, "LocationGridInterpolator")
    f3 = [ctx.uf("lon", 2), ctx.uf("lat", 2), ctx.uf("el", 2, 0, 1000)]

    def loc(p):
        return [f(float(p[0]), float(p[1])) for f in f3]

    made, asked = [], []
    sig = inspect.signature(mod.LocationGridInterpolator.__init__)

    class Grid:
        def __init__(self, *a, **k):
            made.append(Arguments(sig.bind(self, *a, **k).arguments))

        def __call__(self, c, *a, **k):
            asked.append((float(c[0]), float(c[1])))
            return GeodeticWorldCoordinate(loc(c))

    n = ctx.choice("features", [1, 2]) if ctx.symbolic else ctx.choice("features", [1, 2, 3])
    fs, want = [], []
    for i in range(n):
        gs = geometries(*([(0.0, 0.0), (100.0, -50.0), (-7.0, 300.0)][i]))
        kinds = ["geometry", "bbox", "both", "old", "nothing"]
        kind = ctx.choice(f"kind{i}", kinds if i == 0 or not ctx.symbolic else ["both", "nothing", "bbox"])
        t = ctx.choice(f"shape{i}", list(gs) if i == 0 and n == 1 or not ctx.symbolic else ["Polygon with a hole"])
        p = {"name": f"f{i}", "center": 3}
        x0, y0, x1, y1 = bounds(gs[t])
        box = [x0 - 30.0, y0 - 1.0, x1 + 2.0, y1 + 25.0]
        g = gs[t] if kind in ("geometry", "both") else None
        if g:
            p["imageGeometry"] = g
        if kind in ("bbox", "both"):
            p["imageBBox"] = box
        if kind == "old":
            p["geom_imcoords"] = gs["Polygon"]["coordinates"][0]
            g = gs["Polygon"]
        f = geojson.Feature(id=f"id{i}", geometry=None, properties=p)
        fs.append(f)
        want.append((g, box if "imageBBox" in p else None, dict(f["properties"])))
    nothing = all(g is None and b is None for g, b, _ in want)
    sm, dem = object(), ctx.choice("dem", [None, object()])
    from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor

    with libs(ctx), ctx.patch(mod, "LocationGridInterpolator", Grid):
        size = ctx.choice("size", [None, 5])
        geo = Geolocator(ImagedFeaturePropertyAccessor(), sm, dem) if size is None else Geolocator(ImagedFeaturePropertyAccessor(), sm, dem, size)
        r = geo.geolocate_features(fs)
    ctx.ensure("features are updated in place", r is None and len(fs) == n)
    for (g, b, p), f in zip(want, fs):
        ctx.ensure("identity and properties are kept", f["id"] == "id" + p["name"][1] and all(f["properties"][k] == p[k] for k in p))
        extra = set(f["properties"]) - set(p)
        ctx.ensure("properties added", extra == (set() if g is None and b is None else {"center_longitude", "center_latitude"}))
        if g is None:
            ctx.ensure("no geometry is made up", f["geometry"] is None)
        else:
            check_like(ctx, f["geometry"], g, loc)
        if b is None:
            ctx.ensure("no bbox is made up", "bbox" not in f)
        else:
            cs = [loc((x, y)) for x in (b[0], b[2]) for y in (b[1], b[3])]
            lo, la = [ctx.degrees(c[0]) for c in cs], [ctx.degrees(c[1]) for c in cs]
            ctx.ensure("bbox of two dimensions", len(f["bbox"]) == 4)
            ctx.ensure_vec("bbox: smallest that contains the corners", list(f["bbox"]), [ctx.min(*lo), ctx.min(*la), ctx.max(*lo), ctx.max(*la)], tol=1e-9)
        if g is not None or b is not None:
            c = shapely.geometry.shape(g).centroid.coords[0] if g is not None else ((b[0] + b[2]) / 2, (b[1] + b[3]) / 2)
            near = min(asked, key=lambda q: abs(q[0] - c[0]) + abs(q[1] - c[1]))
            ctx.ensure("the center is located", abs(near[0] - c[0]) + abs(near[1] - c[1]) < 1e-9)
            e = loc(near)
            ctx.ensure_vec("center", [f["properties"]["center_longitude"], f["properties"]["center_latitude"]], [ctx.degrees(e[0]), ctx.degrees(e[1])],
                           tol=1e-9)
    if nothing:
        ctx.ensure("nothing to locate", not asked)
        return
    for a in made:
        ctx.ensure("the grid is of this sensor model and elevation model", a["sensor_model"] is sm and a["elevation_model"] is dem)
        ctx.ensure("the grid has an extent in both directions (needed by its splines)", a["grid_area_width"] > 0 and a["grid_area_height"] > 0)
        ctx.ensure("resolution asked for", a["grid_resolution"] == (11 if size is None else size))
    for x, y in asked:
        ctx.ensure("the grid covers every location asked for",
                   any(a["grid_area_ulx"] <= x <= a["grid_area_ulx"] + a["grid_area_width"] and a["grid_area_uly"] <= y <= a["grid_area_uly"] + a["grid_area_height"]
                       for a in made))


class S:
    pass


def feature_loops():
    """Loop contracts for any number of features (S: the features and the grid, set by the contract below)."""
    from pvc.loops import ForAll, LoopSpec

    fn = "aws.osml.features.geolocation:Geolocator._geolocate_features_using_approximation_grid#"

    def area(env, i):
        b = env["feature_bounds"]
        if any(isinstance(v, float) and math.isinf(v) for v in b):
            return [("nothing found", ForAll(0, i, lambda j: S.none(j)))]
        return [("covers", ForAll(0, i, lambda j: S.covered(b, j))), ("not empty", S.and_(b[0] <= b[2], b[1] <= b[3]))]

    def located(env, i):
        return S.located()

    return [LoopSpec(fn + "1", area, havoc=lambda env: {"feature_bounds": S.bounds()}), LoopSpec(fn + "3", located)]


@harness("C21", [G + f for f in ("__init__", "geolocate_features", "_geolocate_features_using_approximation_grid", "_geolocate_image_geometry")],
         samples=100, loops=feature_loops(), limits=dict(max_paths=2000),
         trusted=["geojson constructors keep the coordinates (to 6 decimals)", "shapely: bounds and centroids"])
def any_number_of_features(ctx):
    """Any number of features with points and boxes anywhere: the grid covers them, and each gets its own locations."""
    import geojson
    import shapely

    import aws.osml.features.geolocation as mod
    from aws.osml.features import Geolocator
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    ctx.need(mod, "LocationGridInterpolator")
    n = ctx.int("n", 1, None if ctx.symbolic else 6)
    fx = [ctx.array(k, (n,), lo=-1000, hi=1000) for k in ("x", "y", "bx", "by")]
    fw = [ctx.array(k, (n,), lo=0, hi=500) for k in ("w", "h")]
    fg, fb = ctx.array("geometry", (n,), lo=0, hi=1, dtype="int64"), ctx.array("box", (n,), lo=0, hi=1, dtype="int64")
    f3 = [ctx.uf("lon", 2), ctx.uf("lat", 2), ctx.uf("el", 2, 0, 1000)]
    real = ctx.float if ctx.symbolic else float

    def loc(p):
        return [f(real(p[0]), real(p[1])) for f in f3]

    def has(a, j):
        return ctx.at(a, (j,)) == 1

    def point(j):
        return [ctx.at(a, (j,)) for a in fx[:2]]

    def box(j):
        x, y = ctx.at(fx[2], (j,)), ctx.at(fx[3], (j,))
        return [x, y, x + ctx.at(fw[0], (j,)), y + ctx.at(fw[1], (j,))]

    class Point:
        def __init__(self, x, y):
            self.x, self.y, self.coords, self.bounds, self.geom_type = x, y, [(x, y)], (x, y, x, y), "Point"

        @property
        def centroid(self):
            return self

        @property
        def __class__(self):
            return shapely.Point

    class Accessor:
        def get_image_geometry(self, feature):
            j = number(feature)
            return Point(*point(j)) if has(fg, j) else None

        def get_image_bbox(self, feature):
            j = number(feature)
            return Rec(bounds=tuple(box(j))) if has(fb, j) else None

        def find_image_geometry(self, feature):
            g = self.get_image_geometry(feature)
            return self.get_image_bbox(feature) if g is None else g

    numbers = []

    def number(f):
        return numbers[int(f["number"].split()[1])]

    def feature(j):
        f = geojson.Feature(geometry=None, properties={"name": "f"})
        numbers.append(j)
        f["number"] = f"feature {len(numbers) - 1}"
        S.last = f
        return f

    made = []
    sig = inspect.signature(mod.LocationGridInterpolator.__init__)

    class Grid:
        def __init__(self, *a, **k):
            made.append(Arguments(sig.bind(self, *a, **k).arguments))

        def __call__(self, c, *a, **k):
            m = made[-1]
            x, y, w, h = m["grid_area_ulx"], m["grid_area_uly"], m["grid_area_width"], m["grid_area_height"]
            ctx.ensure("the grid covers every location asked for", ctx.and_(x <= c[0], c[0] <= x + w, y <= c[1], c[1] <= y + h))
            return GeodeticWorldCoordinate(loc(c))

    def check(f):
        j = number(f)
        g, b = bool(has(fg, j)), bool(has(fb, j))
        out = [("properties", set(f["properties"]) == ({"name", "center_longitude", "center_latitude"} if g or b else {"name"})),
               ("geometry", (f["geometry"] is not None) == g), ("bbox", ("bbox" in f) == b)]
        if not all(c for _, c in out):
            return out

        def eq(u, v):
            return ctx.and_(*[ctx.near(p, q) for p, q in zip(u, v)])

        if g:
            lon, lat, el = loc(point(j))
            out.append(("type", f["geometry"]["type"] == "Point"))
            out.append(("location of the point", eq(f["geometry"]["coordinates"], [ctx.degrees(lon), ctx.degrees(lat), el])))
        if b:
            q = box(j)
            cs = [loc((u, v)) for u in (q[0], q[2]) for v in (q[1], q[3])]
            lo, la = [ctx.degrees(c[0]) for c in cs], [ctx.degrees(c[1]) for c in cs]
            out.append(("bbox of the corners", eq(list(f["bbox"]), [ctx.min(*lo), ctx.min(*la), ctx.max(*lo), ctx.max(*la)])))
        if g or b:
            q = box(j)
            lon, lat, _ = loc(point(j) if g else [(q[0] + q[2]) / 2, (q[1] + q[3]) / 2])
            out.append(("center", eq([f["properties"]["center_longitude"], f["properties"]["center_latitude"]], [ctx.degrees(lon), ctx.degrees(lat)])))
        return out

    S.last, S.and_ = None, ctx.and_
    if ctx.symbolic:
        S.none = lambda j: ctx.not_(ctx.or_(has(fg, j), has(fb, j)))

        def covered(b, j):
            def inside(v):
                return ctx.and_(b[0] <= v[0], b[1] <= v[1], v[2] <= b[2], v[3] <= b[3])

            return ctx.and_(ctx.implies(has(fg, j), inside(point(j) * 2)), ctx.implies(has(fb, j), inside(box(j))))

        S.covered = covered
        S.bounds = lambda: [ctx.fresh("bound") for _ in range(4)] if ctx.fresh("found", "bool") else [math.inf, math.inf, -math.inf, -math.inf]
        S.located = lambda: [] if S.last is None else check(S.last)
    fs = ctx.seq("features", n, feature)
    sm, dem = object(), object()
    with libs(ctx), ctx.patch(mod, "LocationGridInterpolator", Grid):
        Geolocator(Accessor(), sm, dem, 5).geolocate_features(fs)
        for a in made:
            ctx.ensure("the grid is of this sensor model and elevation model", a["sensor_model"] is sm and a["elevation_model"] is dem)
            ctx.ensure("the grid has an extent in both directions (needed by its splines)", ctx.and_(a["grid_area_width"] > 0, a["grid_area_height"] > 0))
            ctx.ensure("resolution asked for", a["grid_resolution"] == 5)
        if not ctx.symbolic:
            for f in fs:
                for name, c in check(f):
                    ctx.ensure(name, c)


@harness("C21", [G + "geolocate_features"], sym=False, samples=60, bounded="sampled affine sensor models")
def affine_images(ctx):
    """On images whose geometry is affine the locations are exact."""
    import geojson

    from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
    from aws.osml.photogrammetry import ConstantElevationModel, GDALAffineSensorModel, ImageCoordinate

    gt = (ctx.real("a", -100, 100), ctx.real("b", 0.0001, 0.001), ctx.real("c", -0.001, 0.001), ctx.real("d", -50, 50), ctx.real("e", -0.001, 0.001),
          ctx.real("f", -0.001, -0.0001))
    ctx.assume(abs(gt[1] * gt[5] - gt[2] * gt[4]) > 1e-8)
    m = GDALAffineSensorModel(gt)
    dem = ctx.choice("dem", [None, ConstantElevationModel(123.0)])
    fs, gs = [], []
    for i in range(ctx.choice("n", [1, 2, 5])):
        g = geometries(ctx.real(f"x{i}", 0, 1000), ctx.real(f"y{i}", 0, 1000))
        g = g[ctx.choice(f"t{i}", list(g))]
        gs.append(g)
        fs.append(geojson.Feature(geometry=None, properties={"imageGeometry": g, "imageBBox": list(bounds(g))}))
    Geolocator(ImagedFeaturePropertyAccessor(), m, dem, ctx.choice("size", [2, 3, 11])).geolocate_features(fs)

    def loc(p):
        return list(m.image_to_world(ImageCoordinate([p[0], p[1]]), elevation_model=dem).coordinate)

    for f, g in zip(fs, gs):
        check_like(ctx, f["geometry"], g, loc)


@harness("C21", [G + "geolocate_features"], samples=5)
def no_features(ctx):
    from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor

    fs = []
    ctx.ensure("nothing to do", Geolocator(ImagedFeaturePropertyAccessor(), stub_model(ctx), None).geolocate_features(fs) is None and fs == [])
