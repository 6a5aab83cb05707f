"""C01: affine (GDAL geotransform) sensor model."""
import numpy as np

from pvc.ctx import harness

F = ["photogrammetry.gdal_sensor_model.GDALAffineSensorModel." + x for x in ("__init__", "image_to_world", "world_to_image")]


def mk(ctx):
    from aws.osml.photogrammetry import GDALAffineSensorModel

    g = [
        ctx.real("g0", -180, 180),
        ctx.real("g1", -2, 2),
        ctx.real("g2", -2, 2),
        ctx.real("g3", -90, 90),
        ctx.real("g4", -2, 2),
        ctx.real("g5", -2, 2),
    ]
    det = g[1] * g[5] - g[2] * g[4]
    if not ctx.symbolic:
        ctx.assume(abs(det) > 1e-3)
        s = ctx.choice("pixel size", [1.0, 1e-3, 1e-5, 3e-6])
        g = [g[0]] + [s * v for v in g[1:3]] + [g[3]] + [s * v for v in g[4:6]]
        det = det * s * s
    return g, det, GDALAffineSensorModel


@harness("C01", F)
def affine_formula(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate

    g, det, M = mk(ctx)
    ctx.assume(det != 0)
    m = M(g)
    x, y = ctx.real("x", -5000, 5000), ctx.real("y", -5000, 5000)
    w = m.image_to_world(ImageCoordinate([x, y]))
    ctx.ensure_eq("longitude = radians(g0 + g1 x + g2 y)", w.longitude, ctx.radians(g[0] + g[1] * x + g[2] * y), tol=1e-12)
    ctx.ensure_eq("latitude = radians(g3 + g4 x + g5 y)", w.latitude, ctx.radians(g[3] + g[4] * x + g[5] * y), tol=1e-12)
    ctx.ensure_eq("elevation is 0 without an elevation model", w.elevation, 0.0)
    b = m.world_to_image(w)
    ctx.ensure_eq("image->world->image x", b.x, x, tol=1e-10, scale=1e4)
    ctx.ensure_eq("image->world->image y", b.y, y, tol=1e-10, scale=1e4)


@harness("C01", F)
def affine_world_round_trip(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate

    g, det, M = mk(ctx)
    ctx.assume(det != 0)
    m = M(g)
    lon, lat, h = ctx.real("lon", -3.14, 3.14), ctx.real("lat", -1.5, 1.5), ctx.real("h", -500, 9000)
    p = m.world_to_image(GeodeticWorldCoordinate([lon, lat, h]))
    w = m.image_to_world(p)
    ctx.ensure_eq("world->image->world longitude", w.longitude, lon, tol=1e-9)
    ctx.ensure_eq("world->image->world latitude", w.latitude, lat, tol=1e-9)


@harness("C01", F)
def affine_singular(ctx):
    g, det, M = mk(ctx)
    if ctx.symbolic:
        ctx.assume(det == 0)
    else:
        g[4], g[5] = 0.0, 0.0
    ctx.ensure_raises("a singular geotransform is rejected with ValueError", ValueError, M, g)


@harness("C01", F, trusted=["pyproj.Transformer.transform: forward and inverse are mutual inverses on the image CRS, degrees"])
def affine_projected(ctx):
    """With a projected CRS the geotransform gives CRS coordinates, which the CRS transform maps to lon/lat."""
    import pyproj

    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate

    from .common import Rec, proj_pair, stub_elevation

    g, det, M = mk(ctx)
    # another image, of another coordinate system with the same name, is opened before or after this one
    when = ctx.choice("other image", ["before", "after"])
    if ctx.symbolic:
        ctx.assume(det != 0)
        T, Ff, Gf = proj_pair(ctx, "crs")
        T2, Ff2, Gf2 = proj_pair(ctx, "other")
        kind = ctx.choice("kind", ["PROJCS", "GEOGCS", "PROJCRS", "GEOGCRS", "COMPD_CS", "LOCAL_CS", "EPSG:"])
        wkt, wkt2 = ctx.unique(kind), ctx.unique("OTHER")

        def crs(w, *_):
            return Rec(name="unnamed", wkt=w, to_wkt=lambda *a: w, to_string=lambda: w)

        def transformer(c, *_, **k):
            w = getattr(c, "wkt", c)
            return T if w == wkt else T2

        def build(w, h):
            with ctx.lib(pyproj.Transformer.from_crs, transformer), ctx.lib(pyproj.CRS.from_string, crs):
                return M(h, w)
    else:
        q = ctx.choice("crs", [18, 31, -1, "NAD27", "ED50", "WGS84"])
        if isinstance(q, str):
            g = [g[0] / 2, g[1] / 1000, g[2] / 1000, g[3] / 2, g[4] / 1000, g[5] / 1000]
            det = 1e6 * (g[1] * g[5] - g[2] * g[4])
        else:
            g[0], g[3] = 500000 + 100 * g[0], 4000000 + 100 * g[3]
            det = g[1] * g[5] - g[2] * g[4]
        ctx.assume(abs(det) > 1e-2)
        c = pyproj.CRS.from_epsg({"NAD27": 4267, "ED50": 4230, "WGS84": 4326}[q]) if isinstance(q, str) else pyproj.CRS.from_epsg(32600 + q) if q > 0 else pyproj.CRS.from_proj4(f"+proj=utm +zone={ctx.int('zone', 1, 60)} +datum=WGS84 +units=m")
        wkt = c.to_wkt()
        wkt2 = pyproj.CRS.from_proj4(f"+proj=utm +zone={ctx.int('zone2', 1, 60)} +datum=WGS84 +units=m").to_wkt()
        tr = pyproj.Transformer.from_crs(c, pyproj.CRS.from_epsg(4326), always_xy=True)
        Ff = [lambda a, b: tr.transform(a, b)[0], lambda a, b: tr.transform(a, b)[1]]
        build = lambda w, h: M(h, w)
    g2 = [1.0, 2.0, 0.0, 3.0, 0.0, -2.0]
    if when == "before":
        build(wkt2, g2)
    m = build(wkt, g)
    if when == "after":
        build(wkt2, g2)
    x, y = ctx.real("x", -500, 500), ctx.real("y", -500, 500)
    use = ctx.choice("dem", [False, True, "no coverage"])
    dem = stub_elevation(ctx, outside=0.0 if use == "no coverage" else None)
    m.image_to_world(ImageCoordinate([x, y]), elevation_model=stub_elevation(ctx, "dem0")).latitude = 9.0
    w = m.image_to_world(ImageCoordinate([x, y]), elevation_model=dem if use else None)
    cx, cy = g[0] + g[1] * x + g[2] * y, g[3] + g[4] * x + g[5] * y
    ctx.ensure_eq("longitude of the CRS position", w.longitude, ctx.radians(Ff[0](cx, cy)), tol=1e-9)
    ctx.ensure_eq("latitude of the CRS position", w.latitude, ctx.radians(Ff[1](cx, cy)), tol=1e-9)
    ctx.ensure_eq("elevation comes from the elevation model or is 0", w.elevation,
                  dem.elev(w.longitude, w.latitude) if use else 0.0)
    b = m.world_to_image(w)
    ctx.ensure_eq("projected image->world->image x", b.x, x, tol=1e-6)
    ctx.ensure_eq("projected image->world->image y", b.y, y, tol=1e-6)


@harness("C01", F)
def affine_elevation(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate

    from .common import stub_elevation

    g, det, M = mk(ctx)
    ctx.assume(det != 0)
    m = M(g)
    x, y = ctx.real("x", -5000, 5000), ctx.real("y", -5000, 5000)
    dem = stub_elevation(ctx, outside=ctx.choice("covered", [None, 0.0]))
    w0 = m.image_to_world(ImageCoordinate([x, y]))
    ic = ImageCoordinate([x, y])
    w = m.image_to_world(ic, elevation_model=dem)
    ctx.ensure_eq("elevation set from the elevation model at the same location", w.elevation, dem.elev(w.longitude, w.latitude))
    ctx.ensure_vec("position not moved by the elevation model", w.coordinate[0:2], w0.coordinate[0:2])
    ctx.ensure_vec("the image coordinate passed in is not modified", ic.coordinate, [x, y])
    h = ctx.real("h", -500, 9000)
    lon, lat, el = w.longitude, w.latitude, w.elevation
    p1 = m.world_to_image(w)
    ctx.ensure_vec("the world coordinate passed in is not modified", w.coordinate, [lon, lat, el])
    p2 = m.world_to_image(GeodeticWorldCoordinate([w.longitude, w.latitude, h]))
    ctx.ensure_vec("the image location does not depend on elevation", p1.coordinate, p2.coordinate)
