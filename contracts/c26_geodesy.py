"""C26: coordinates and the conversion between geodetic and geocentric positions."""
import math

from pvc.ctx import harness

from .common import Bijection

P = "photogrammetry.coordinates."
TRUST = ["pyproj.Transformer.transform: x, y, z in both directions, angles in radians if asked, otherwise degrees"]


def transform(ctx):
    """A pyproj transformer by contract: longitude, latitude, height <-> x, y, z."""
    from pyproj.enums import TransformDirection

    b = Bijection(ctx, "earth", 3)

    class T:
        def transform(self, xx, yy, zz=None, tt=None, radians=False, errcheck=False, direction=TransformDirection.FORWARD, inplace=False):
            fwd = str(getattr(direction, "value", direction)).upper() == "FORWARD"
            if fwd:
                return tuple(b.fwd(*([xx, yy] if radians else [ctx.radians(xx), ctx.radians(yy)]), zz))
            lon, lat, h = b.inv(xx, yy, zz)
            return (lon, lat, h) if radians else (ctx.degrees(lon), ctx.degrees(lat), h)

    return b, T()


@harness("C26", [P + "geodetic_to_geocentric", P + "geocentric_to_geodetic"], samples=300, trusted=TRUST)
def conversion(ctx):
    """Mutually inverse, radians, longitude first; concretely the closed formulas of the WGS84 ellipsoid."""
    import aws.osml.photogrammetry.coordinates as mod
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, WorldCoordinate, geocentric_to_geodetic, geodetic_to_geocentric

    ctx.need(mod, "GEODETIC_TO_GEOCENTRIC_TRANSFORM")
    lon, lat, h = v = [ctx.real("lon", -3.14, 3.14), ctx.real("lat", -1.57, 1.57), ctx.real("h", -500, 30000)]
    g = GeodeticWorldCoordinate(v)
    if ctx.symbolic:
        b, t = transform(ctx)
        with ctx.patch(mod, "GEODETIC_TO_GEOCENTRIC_TRANSFORM", t):
            e = geodetic_to_geocentric(g)
            want = b.fwd(*v)
            q = [ctx.real(n) for n in ("x", "y", "z")]
            w = WorldCoordinate(q)
            r = geocentric_to_geodetic(w)
            ctx.ensure_vec("geodetic position", r.coordinate, b.inv(*q))
            ctx.ensure_vec("the position given is not modified", w.coordinate, q)
            back = geocentric_to_geodetic(e)
            there = geodetic_to_geocentric(r)
        ctx.ensure_vec("geocentric and back", there.coordinate, q)
    else:
        a, f = 6378137.0, 1 / 298.257223563
        e2 = f * (2 - f)
        n = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
        want = [(n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * (1 - e2) + h) * math.sin(lat)]
        e = geodetic_to_geocentric(g)
        back = geocentric_to_geodetic(e)
        r = back
    ctx.ensure("types", isinstance(e, WorldCoordinate) and isinstance(back, GeodeticWorldCoordinate) and isinstance(r, GeodeticWorldCoordinate))
    ctx.ensure_vec("geocentric position", e.coordinate, want, tol=1e-9, scale=1)
    ctx.ensure_vec("the location given is not modified", g.coordinate, v)
    ctx.ensure_vec("geodetic and back", back.coordinate[:2], v[:2], tol=1e-9)
    ctx.ensure_eq("height and back", back.elevation, h, tol=1e-6, scale=1)


@harness("C26", [P + c + "." + f for c, fs in (("WorldCoordinate", "__init__ x y z"), ("GeodeticWorldCoordinate", "longitude latitude elevation"), ("ImageCoordinate", "__init__ c r x y"))
                 for f in fs.split()], samples=200)
def accessors(ctx):
    """Each name reads and writes its own component; a coordinate is independent of what it was made from."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, WorldCoordinate

    kind, names = ctx.choice("kind", [(WorldCoordinate, ["x", "y", "z"]), (GeodeticWorldCoordinate, ["longitude", "latitude", "elevation"]), (GeodeticWorldCoordinate, ["x", "y", "z"]),
                                      (ImageCoordinate, ["x", "y"]), (ImageCoordinate, ["c", "r"])])
    n = len(names)
    v = [ctx.real(f"v{i}", -1000, 1000) for i in range(n)]
    new = ctx.real("new", -1000, 1000)
    src = kind(v) if ctx.choice("from", ["list", "coordinate"]) == "coordinate" else None
    given = list(v) if src is None else src.coordinate
    c = kind(given)
    ctx.ensure_vec("components", c.coordinate, v)
    ctx.ensure_vec("by name", [getattr(c, k) for k in names], v)
    i = ctx.choice("which", list(range(n)))
    setattr(c, names[i], new)
    ctx.ensure_vec("after assignment", c.coordinate, [new if j == i else v[j] for j in range(n)])
    ctx.ensure_vec("by name after assignment", [getattr(c, k) for k in names], [new if j == i else v[j] for j in range(n)])
    ctx.ensure_vec("what it was made from is unchanged", list(given), v)
    ctx.ensure_vec("the origin by default", kind().coordinate, [0.0] * n)
    a, b = kind(), kind()
    setattr(a, names[0], new)
    ctx.ensure_vec("defaults are not shared", b.coordinate, [0.0] * n)
    ctx.ensure_raises("too few components", ValueError, kind, v[:-1])
    ctx.ensure_raises("too many components", ValueError, kind, v + [1.0])
