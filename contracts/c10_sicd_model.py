"""C10: SICD sensor model: image grid <-> ground, on a plane, at constant height and on a terrain surface."""
import contextlib
import math
import os
from pathlib import Path

import numpy as np

from pvc.ctx import Structural, harness

from .c07_sicd_grid import arr, vcross, vdot
from .c08_rrdot_plane import angle
from .common import Bijection, Rec, stub_elevation

P = "photogrammetry.sicd_sensor_model."
M = P + "SICDSensorModel."
TRUST = ["geodetic <-> geocentric conversion: mutual inverses (contract decided in C26)"]
REPO = os.environ.get("VERIF_REPO", "/repo")


def geodesy(ctx, mod):
    """geocentric <-> geodetic by contract (symbolic mode only)."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, WorldCoordinate

    b = Bijection(ctx, "geo", 3)
    st = contextlib.ExitStack()
    st.enter_context(ctx.stub(mod, "geocentric_to_geodetic", lambda ecef_world_coordinate: GeodeticWorldCoordinate(b.inv(*ecef_world_coordinate.coordinate))))
    st.enter_context(ctx.stub(mod, "geodetic_to_geocentric", lambda geodetic_coordinate: WorldCoordinate(b.fwd(*geodetic_coordinate.coordinate))))
    return b, st


class Coa:
    """Any projection set: range, range rate, time, position and velocity are arbitrary functions of the grid location."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.f = [ctx.uf(f"coa{i}", 2) for i in range(9)]
        self.log = []

    def spec(self, x, y):
        v = [f(x, y) for f in self.f]
        return v[0], v[1], v[2], arr(self.ctx, v[3:6]), arr(self.ctx, v[6:9])

    def precise_rrdot_computation(self, xrow_ycol):
        self.log.append(list(xrow_ycol))
        return self.spec(xrow_ycol[0], xrow_ycol[1])


class Surface:
    """Any surface: the ground point is an arbitrary function of the contour (range, range rate, position, velocity)."""

    def __init__(self, ctx, name, more=0):
        self.ctx, self.more = ctx, more
        self.f = [ctx.uf(f"{name}{i}", 8, -6e6, 6e6) for i in range(3)]

    def spec(self, r, rd, a, v):
        return [f(r, rd, *a, *v) for f in self.f]

    def rrdot_to_ground(self, r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity):
        p = self.spec(r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity)
        return np.array([p] + [[7.0 * k, 1.0, 2.0] for k in range(1, self.more + 1)], dtype=object if self.ctx.symbolic else float)


def simple_grid(ctx):
    from aws.osml.photogrammetry import ImageCoordinate, SARImageCoordConverter, WorldCoordinate

    fx, fy = ctx.real("first_x", 0, 1000), ctx.real("first_y", 0, 1000)
    first = dict(first_pixel=ImageCoordinate([fx, fy]))
    if ctx.bool("no first pixel given"):
        fx = fy = 0.0
        first = {}
    sr, sc = ctx.real("scp_row", 0, 1e4), ctx.real("scp_col", 0, 1e4)
    rs, cs = ctx.real("row_ss", 0.05, 20), ctx.real("col_ss", 0.05, 20)
    scp = [ctx.real("scp0", 2e6, 2.6e6), ctx.real("scp1", 4.5e6, 5.2e6), ctx.real("scp2", 2.8e6, 3.4e6)]
    if not ctx.symbolic:
        # close to the surface of the Earth
        q = 6.37e6 / ctx.norm(scp)
        scp = [c * q for c in scp]
    k = SARImageCoordConverter(scp_pixel=ImageCoordinate([sc, sr]), scp_ecf=WorldCoordinate(scp), u_row=arr(ctx, [1.0, 0.0, 0.0]),
                               u_col=arr(ctx, [0.0, 1.0, 0.0]), row_ss=rs, col_ss=cs, **first)
    return k, scp, fx, fy, sr, sc, rs, cs


@harness("C10", [M + "__init__", M + "image_to_world"], assume_nonzero=True, trusted=TRUST)
def image_to_world_chain(ctx):
    """Pixel (+ the chip's first pixel) -> grid -> contour -> first intersection with the terrain given, else with the plane."""
    from aws.osml.photogrammetry import ImageCoordinate, SICDSensorModel
    from aws.osml.photogrammetry import sicd_sensor_model as mod

    k, scp, fx, fy, sr, sc, rs, cs = simple_grid(ctx)
    coa, plane = Coa(ctx), Surface(ctx, "plane", 1)
    terrains = [Surface(ctx, "terrain", 2), Surface(ctx, "other_terrain", 1)]
    x, y = ctx.real("x", -1000, 1000), ctx.real("y", -1000, 1000)
    side = ctx.choice("side", ["L", "R"])
    use = ctx.choice("elevation models of the calls", [(None, None), (0, 0), (0, 1), (0, None), (None, 0)])
    dems = [stub_elevation(ctx), stub_elevation(ctx)]
    made = []

    def make(*a, **kw):
        names = ["scp_ecf", "side_of_track", "elevation_model"]
        made.append({**dict(zip(names, a)), **kw})
        k = [k for k in range(2) if made[-1].get("elevation_model") is dems[k]]
        ctx.ensure("the terrain given is the surface intersected", len(k) == 1 and k[0] in use)
        return terrains[k[0]]

    b, geo = geodesy(ctx, mod)
    with geo, ctx.patch(mod, "DEMRRDotSurfaceProjection", make), ctx.patch(mod, "GroundPlaneRRDotSurfaceProjection", lambda *a, **kw: plane):
        m = SICDSensorModel(k, coa, arr(ctx, [0.0, 0.0, 1.0]), side_of_track=side, u_gpn=arr(ctx, [0.0, 0.0, 1.0]))
        for i, u in enumerate(use):
            ic = ImageCoordinate([x, y])
            w = m.image_to_world(ic, elevation_model=None if u is None else dems[u])
            what = " (second call)" if i else ""
            r, rd, t, a, v = coa.spec((y + fy - sr) * rs, (x + fx - sc) * cs)
            e = (plane if u is None else terrains[u]).spec(r, rd, a, v)
            if ctx.symbolic:
                g = b.inv(*e)
            else:
                from aws.osml.photogrammetry import WorldCoordinate

                g = mod.geocentric_to_geodetic(WorldCoordinate(e)).coordinate
            ctx.ensure_vec("location of the pixel" + what, w.coordinate, g, tol=1e-8)
            ctx.ensure_vec("the pixel is not modified" + what, ic.coordinate, [x, y])
    for q in made:
        ctx.ensure("the side of track is that of the image", q.get("side_of_track") == side)
        ctx.ensure_vec("the terrain is described around the scene center", q["scp_ecf"].coordinate, scp)


@harness("C10", [M + "world_to_image"], assume_nonzero=True, trusted=TRUST, samples=100)
def world_to_image_is_within_tolerance(ctx):
    """When the iteration stops before its limit of 10, the pixel's ground point is within 1 cm of the scene point."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, SICDSensorModel, WorldCoordinate
    from aws.osml.photogrammetry import sicd_sensor_model as mod

    k, scp, fx, fy, sr, sc, rs, cs = simple_grid(ctx)
    d = [ctx.uf(f"ground{i}", 2, -3, 3) for i in range(3)]
    calls = []

    def ground(x, y):
        s = 1 if ctx.symbolic else 1e-3
        return [scp[0] + x + d[0](x * s, y * s), scp[1] + y + d[1](x * s, y * s), scp[2] + d[2](x * s, y * s)]

    class C:
        def precise_rrdot_computation(self, xrow_ycol):
            return xrow_ycol[0], xrow_ycol[1], 0.0, arr(ctx, [0.0] * 3), arr(ctx, [0.0] * 3)

    class S:
        def rrdot_to_ground(self, r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity):
            calls.append((r_tgt_coa, r_dot_tgt_coa))
            return np.array([ground(r_tgt_coa, r_dot_tgt_coa)], dtype=object if ctx.symbolic else float)

    b, geo = geodesy(ctx, mod)
    with geo, ctx.patch(mod, "GroundPlaneRRDotSurfaceProjection", lambda *a, **kw: S()):
        m = SICDSensorModel(k, C(), arr(ctx, [0.0, 0.0, 1.0]), u_gpn=arr(ctx, [0.0, 0.0, 1.0]))
        dx, dy = ctx.real("dx", -3000, 3000), ctx.real("dy", -3000, 3000)
        if ctx.symbolic:
            s = [scp[0] + dx, scp[1] + dy, scp[2]]
            g = GeodeticWorldCoordinate(b.inv(*s))
        else:
            gx = ground(dx, dy)
            g = mod.geocentric_to_geodetic(WorldCoordinate(gx))
            s = list(gx)
        o = m.world_to_image(g)
    p = ground((o.y + fy - sr) * rs, (o.x + fx - sc) * cs)
    d = [p[i] - s[i] for i in range(3)]
    if len(calls) < 10 or not ctx.symbolic:
        ctx.ensure("ground point of the pixel found is within 1 cm of the scene point", ctx.norm(d) <= 0.01 * (1 if ctx.symbolic else 1.02))


@harness("C10", [M + "world_to_image"], assume_nonzero=True, trusted=TRUST, samples=100)
def world_to_image_corrects_an_offset(ctx):
    """Flat scenes whose contour projection differs from the straight line along the slant normal by a constant: the answer is exact."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, SICDSensorModel, WorldCoordinate
    from aws.osml.photogrammetry import sicd_sensor_model as mod

    k, scp, fx, fy, sr, sc, rs, cs = simple_grid(ctx)
    # slant and ground plane normals, scaled so that their last component is 1 (only their directions matter)
    n = [ctx.real("n0", -1, 1), ctx.real("n1", -1, 1), 1.0]
    g = [ctx.real("g0", -1, 1), ctx.real("g1", -1, 1), 1.0]
    gn = vdot(g, n)
    ctx.assume(gn > (0 if ctx.symbolic else 0.2))
    e0, e1 = ctx.real("e0", -20, 20), ctx.real("e1", -20, 20)
    off = [e0, e1, -(g[0] * e0 + g[1] * e1)]

    def straight(x, y):
        t = -(x * g[0] + y * g[1]) / gn
        return [scp[0] + x + t * n[0], scp[1] + y + t * n[1], scp[2] + t * n[2]]

    class C:
        def precise_rrdot_computation(self, xrow_ycol):
            return xrow_ycol[0], xrow_ycol[1], 0.0, arr(ctx, [0.0] * 3), arr(ctx, [0.0] * 3)

    class S:
        def rrdot_to_ground(self, r_tgt_coa, r_dot_tgt_coa, arp_position, arp_velocity):
            p = straight(r_tgt_coa, r_dot_tgt_coa)
            return np.array([[p[i] + off[i] for i in range(3)]], dtype=object if ctx.symbolic else float)

    b, geo = geodesy(ctx, mod)
    with geo, ctx.patch(mod, "GroundPlaneRRDotSurfaceProjection", lambda *a, **kw: S()):
        m = SICDSensorModel(k, C(), arr(ctx, n), u_gpn=arr(ctx, g))
        x, y = ctx.real("x", -3000, 3000), ctx.real("y", -3000, 3000)
        s = straight(x, y)
        if ctx.symbolic:
            w = GeodeticWorldCoordinate(b.inv(*s))
        else:
            w = mod.geocentric_to_geodetic(WorldCoordinate(s))
        before = list(w.coordinate)
        o = m.world_to_image(w)
    ctx.ensure_vec("the location is not modified", w.coordinate, before)
    p = straight((o.y + fy - sr) * rs, (o.x + fx - sc) * cs)
    d = [p[i] + off[i] - s[i] for i in range(3)]
    ctx.ensure("ground point of the pixel found is within 1 cm of the scene point", ctx.norm(d) <= 0.01 * (1 if ctx.symbolic else 1.02))


@harness("C10", [M + "compute_u_spn", M + "compute_u_gpn"], assume_nonzero=True)
def plane_normals(ctx):
    from aws.osml.photogrammetry import SICDSensorModel, WorldCoordinate

    scp = [ctx.real(f"scp{i}", -6e6, 6e6) for i in range(3)]
    a = [ctx.real(f"a{i}", -7e6, 7e6) for i in range(3)]
    v = [ctx.real(f"v{i}", -8e3, 8e3) for i in range(3)]
    side = ctx.choice("side", ["L", "R"])
    los = [scp[i] - a[i] for i in range(3)]
    c = vcross(v, los)
    ctx.assume(vdot(c, c) > 0)
    sa, va = arr(ctx, a), arr(ctx, v)
    n = SICDSensorModel.compute_u_spn(WorldCoordinate(scp), sa, va, side)
    sg = -1.0 if side == "R" else 1.0
    L = ctx.sqrt(vdot(c, c))
    ctx.ensure_vec("slant plane normal: unit vector of v x (scp - arp), reversed for right looking images", n, [sg * q / L for q in c])
    ctx.ensure_vec("the platform position is not modified", sa, a)
    ctx.ensure_vec("the platform velocity is not modified", va, v)
    ur, uc = [[ctx.real(f"{q}{i}", -1, 1) for i in range(3)] for q in ("ur", "uc")]
    d = vcross(ur, uc)
    ctx.assume(vdot(d, d) > (0 if ctx.symbolic else 1e-3))
    gp = SICDSensorModel.compute_u_gpn(WorldCoordinate(scp), arr(ctx, ur), arr(ctx, uc))
    D = ctx.sqrt(vdot(d, d))
    s2 = 1.0 if vdot(d, scp) >= 0 else -1.0
    ctx.ensure_vec("ground plane normal: unit normal of the image plane pointing away from the earth", gp, [s2 * q / D for q in d])


@harness("C10", [P + "HAERRDotSurfaceProjection.__init__", P + "HAERRDotSurfaceProjection.rrdot_to_ground"], assume_nonzero=True, trusted=TRUST)
def constant_height_point_has_that_height(ctx):
    from aws.osml.photogrammetry import WorldCoordinate
    from aws.osml.photogrammetry import sicd_sensor_model as mod
    from aws.osml.photogrammetry.sicd_sensor_model import HAERRDotSurfaceProjection

    if not ctx.symbolic:
        tgt, scp, A, V, R, Rd, side, h, off = scene(ctx, size=ctx.choice("size", [3000, 30000]))
        p = HAERRDotSurfaceProjection(WorldCoordinate(scp), side, hae=h).rrdot_to_ground(R, Rd, A, V)[0]
        g = mod.geocentric_to_geodetic(WorldCoordinate(p))
        ctx.ensure("the point has the height asked for", abs(g.elevation - h) < 1e-4)
        ctx.ensure("the point is on the range / range-rate contour, on the imaged side", np.linalg.norm(p - tgt) < 1e-3)
        return
    # reference pieces: the plane projection, the geodesy and their contracts
    b, geo = geodesy(ctx, mod)
    pl = [ctx.uf(f"plane{i}", 6) for i in range(3)]
    planes = []
    R, Rd = ctx.real("R"), ctx.real("Rd")
    A, V = [arr(ctx, [ctx.real(f"{q}{i}") for i in range(3)]) for q in "AV"]

    def rr(self, r, rd, a, v):
        g = list(self.ref_ecf.coordinate)
        n = list(self.u_gpn)
        planes.append((g, n))
        ctx.ensure_eq("range", r, R)
        ctx.ensure_eq("range rate", rd, Rd)
        ctx.ensure_vec("position", a, list(A))
        ctx.ensure_vec("velocity", v, list(V))
        return np.array([[f(*g, *n) for f in pl]], dtype=object)

    h = ctx.real("hae")
    scp = [ctx.real(f"scp{i}") for i in range(3)]
    side = ctx.choice("side", ["L", "R"])

    def up(lon, lat):
        return [ctx.cos(lat) * ctx.cos(lon), ctx.cos(lat) * ctx.sin(lon), ctx.sin(lat)]

    with geo, ctx.stub(mod.GroundPlaneRRDotSurfaceProjection, "rrdot_to_ground", rr):
        s = HAERRDotSurfaceProjection(WorldCoordinate(scp), side, hae=h)
        p = list(s.rrdot_to_ground(R, Rd, A, V)[0])
        # first plane: through the point at the height asked for above the scene center, normal to the vertical there
        lon, lat, hs = b.inv(*scp)
        u = up(lon, lat)
        g = [scp[i] + (h - hs) * u[i] for i in range(3)]
        for j, (gr, n) in enumerate(planes):
            ctx.ensure_vec(f"plane {j}: passes through the reference point", gr, g)
            ctx.ensure_vec(f"plane {j}: normal to the vertical", n, u)
            q = [f(*gr, *n) for f in pl]
            lon, lat, hq = b.inv(*q)
            dh = hq - h
            u = up(lon, lat)
            g = [q[i] - dh * u[i] for i in range(3)]
            if j + 1 < len(planes):
                ctx.ensure("another plane is used only while the point is more than 1 m above the surface", dh > 1)
        if len(planes) < 3:
            ctx.ensure("the iteration stops only when the point is at most 1 m above the surface", dh <= 1)
        ctx.ensure("at most three planes", len(planes) <= 3)
        los = [q[i] - A[i] for i in range(3)]
        c = vcross(V, los)
        k = dh / vdot(c, u)
        slp = [q[i] - k * c[i] for i in range(3)]
        e = b.fwd(*(b.inv(*slp)[:2] + [h]))
        ctx.ensure_vec("the point is moved along the normal of velocity and line of sight to the height asked for", p, e)
        ctx.ensure_eq("the point has the height asked for", b.inv(*p)[2], h)


def scene(ctx, dem=None, size=3000):
    """A platform in orbit, a target on the surface and its contour."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, geodetic_to_geocentric

    def ecf(lon, lat, h):
        return np.array(geodetic_to_geocentric(GeodeticWorldCoordinate([lon, lat, h])).coordinate, dtype=float)

    lon, lat = ctx.real("lon", -3.1, 3.1), ctx.real("lat", -1.2, 1.2)
    h = ctx.real("h", -100, 3000)
    scp = ecf(lon, lat, h + ctx.real("dh", -300, 300))
    dn, de = ctx.real("dn", -size, size), ctx.real("de", -size, size)
    tl, tb = lon + de / 6.4e6 / math.cos(lat), lat + dn / 6.4e6
    th = h if dem is None else dem(tl, tb)
    tgt = ecf(tl, tb, th)
    az, gr, rng = ctx.real("az", 0, 6.28), ctx.real("graze", 0.35, 1.1), ctx.real("range", 6e5, 9e5)
    up = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    e = np.array([-math.sin(lon), math.cos(lon), 0.0])
    n = np.cross(up, e)
    look = math.cos(gr) * (math.cos(az) * n + math.sin(az) * e) + math.sin(gr) * up
    A = scp + rng * look
    side = ctx.choice("side", ["L", "R"])
    # velocity about perpendicular to the line of sight (squint within 20 degrees), horizontal
    ua = A / np.linalg.norm(A)
    hor = -look - np.dot(-look, ua) * ua
    hor /= np.linalg.norm(hor)
    v0 = np.cross(hor, ua)  # target to the left of the track
    sq = ctx.real("squint", -0.3, 0.3)
    v = math.cos(sq) * v0 + math.sin(sq) * hor
    if side == "R":
        v = -math.cos(sq) * v0 + math.sin(sq) * hor
    V = 7500 * v
    d = A - tgt
    R = float(np.linalg.norm(d))
    return tgt, scp, A, V, R, float(np.dot(V, d) / R), side, h, (lon, lat)


@harness("C10", [P + "DEMRRDotSurfaceProjection.__init__", P + "DEMRRDotSurfaceProjection.rrdot_to_ground"], sym=False, samples=40,
         bounded="sampled smooth terrain surfaces and geometries")
def terrain_intersection(ctx):
    """Every point returned is on the contour and on the terrain, the true target is found, heights increase."""
    from aws.osml.photogrammetry import ElevationModel, ElevationRegionSummary, WorldCoordinate, geocentric_to_geodetic
    from aws.osml.photogrammetry.sicd_sensor_model import DEMRRDotSurfaceProjection

    base, slope_e, slope_n, amp = ctx.real("base", 0, 2000), ctx.real("se", -0.1, 0.1), ctx.real("sn", -0.1, 0.1), ctx.real("amp", 0, 30)
    post = ctx.choice("post", [10.0, 30.0, 90.0])
    lon0 = lat0 = None
    lon0, lat0 = ctx.real("lon", -3.1, 3.1), ctx.real("lat", -1.2, 1.2)

    def dem(lon, lat):
        e, n = (lon - lon0) * 6.4e6 * math.cos(lat0), (lat - lat0) * 6.4e6
        return base + slope_e * e + slope_n * n + amp * math.sin(e / 900) * math.cos(n / 1100)

    class Dem(ElevationModel):
        def set_elevation(self, world_coordinate):
            world_coordinate.elevation = dem(world_coordinate.longitude, world_coordinate.latitude)

        def describe_region(self, world_coordinate):
            asked.append(world_coordinate)
            return ElevationRegionSummary(min_elevation=base - 900, max_elevation=base + 900, no_data_value=-32767, post_spacing=post)

    asked = []
    tgt, scp, A, V, R, Rd, side, h, _ = scene(ctx, dem)
    pts = DEMRRDotSurfaceProjection(WorldCoordinate(scp), side, elevation_model=Dem()).rrdot_to_ground(R, Rd, A, V)
    c = geocentric_to_geodetic(WorldCoordinate(scp))
    for q in asked:
        ctx.ensure_vec("the terrain is described at the scene center", [q.longitude, q.latitude], [c.longitude, c.latitude])
    ctx.ensure("the contour meets the terrain", len(pts) >= 1)
    last = None
    for p in pts:
        d = A - p
        r = np.linalg.norm(d)
        ctx.ensure("the point has the contour's range", abs(r - R) < 1e-3)
        ctx.ensure("the point has the contour's range rate", abs(np.dot(V, d) / r - Rd) < 1e-5)
        g = geocentric_to_geodetic(WorldCoordinate(p))
        ctx.ensure("the point is on the terrain surface", abs(g.elevation - dem(g.longitude, g.latitude)) < 0.25)
        ctx.ensure("points are in order of increasing height", last is None or g.elevation >= last - 1e-3)
        last = g.elevation
    ctx.ensure("the target is among the points", min(np.linalg.norm(p - tgt) for p in pts) < 1.0)


@harness("C10", [P + "DEMRRDotSurfaceProjection.__init__", P + "DEMRRDotSurfaceProjection.rrdot_to_ground"], sym=False, samples=40,
         bounded="sampled geometries; terrain crossing the contour 1, 5 or 9 times, some steps apart")
def terrain_every_crossing(ctx):
    """Terrain that crosses the contour again and again, in steps to be resolved (10 m, half a post): every crossing is found, once."""
    from aws.osml.photogrammetry import ElevationModel, ElevationRegionSummary, WorldCoordinate, geocentric_to_geodetic
    from aws.osml.photogrammetry.sicd_sensor_model import DEMRRDotSurfaceProjection

    tgt, scp, A, V, R, Rd, side, h, _ = scene(ctx)

    def lle(p):
        return geocentric_to_geodetic(WorldCoordinate(p))

    # the contour near the target: its horizontal direction, and its slope
    u = V / np.linalg.norm(V)
    ctr = A - u * (R * Rd / np.linalg.norm(V))
    t = np.cross(u, tgt - ctr)
    t /= np.linalg.norm(t)
    if np.dot(t, tgt) < 0:
        t = -t
    g, q = lle(tgt), lle(tgt + t)
    cos = math.cos(g.latitude)

    def horizontal(w):
        return np.array([(w.longitude - g.longitude) * 6.4e6 * cos, (w.latitude - g.latitude) * 6.4e6])

    e = horizontal(q)
    run = float(np.linalg.norm(e))
    e /= run
    slope = (q.elevation - g.elevation) / run
    post = ctx.choice("post", [3.0, 10.0, 90.0])
    step = min(10 * run, 0.5 * post)
    half, k = 4 * step, ctx.choice("crossings", [0, 2, 4])
    end, amp = (k + 0.5) * half, ctx.real("amp", 1, 5)
    lo, hi = ctx.real("lo", 1, 4), ctx.real("hi", 1, 4)
    bottom, top = h - slope * (end + lo * half), h + slope * (end + hi * half)

    class Dem(ElevationModel):
        def set_elevation(self, world_coordinate):
            d = float(np.dot(horizontal(world_coordinate), e))
            world_coordinate.elevation = h + slope * d - amp * math.sin(math.pi * max(-end, min(end, d)) / half)

        def describe_region(self, world_coordinate):
            return ElevationRegionSummary(min_elevation=bottom, max_elevation=top, no_data_value=-32767, post_spacing=post)

    pts = DEMRRDotSurfaceProjection(WorldCoordinate(scp), side, elevation_model=Dem()).rrdot_to_ground(R, Rd, A, V)
    ctx.ensure_eq("as many points as crossings", len(pts), 2 * k + 1)
    for j, p in enumerate(pts):
        ctx.ensure("each crossing is found, in order of height", abs(np.dot(horizontal(lle(p)), e) - (j - k) * half) < 0.3 * step + 0.05)


@harness("C10", [P + "DEMRRDotSurfaceProjection.__init__", P + "DEMRRDotSurfaceProjection.rrdot_to_ground"], sym=False, samples=40,
         bounded="sampled geometries; level terrain close to the lowest or highest elevation of the region")
def terrain_up_to_the_highest(ctx):
    """Terrain close to the lowest or the highest elevation of its region is met too."""
    from aws.osml.photogrammetry import ConstantElevationModel, ElevationRegionSummary, WorldCoordinate
    from aws.osml.photogrammetry.sicd_sensor_model import DEMRRDotSurfaceProjection

    tgt, scp, A, V, R, Rd, side, h, _ = scene(ctx)
    th = h
    below, above = ctx.choice("below", [0.01, 1.0, 60.0]), ctx.choice("above", [0.01, 1.0, 60.0])
    post = ctx.choice("post", [3.0, 30.0, 90.0])

    class Dem(ConstantElevationModel):
        def describe_region(self, world_coordinate):
            return ElevationRegionSummary(min_elevation=th - below, max_elevation=th + above, no_data_value=-32767, post_spacing=post)

    pts = DEMRRDotSurfaceProjection(WorldCoordinate(scp), side, elevation_model=Dem(th)).rrdot_to_ground(R, Rd, A, V)
    ctx.ensure("the contour meets the terrain once", len(pts) == 1)
    ctx.ensure("at the target", len(pts) != 1 or np.linalg.norm(pts[0] - tgt) < 0.1)


class Terrain:
    """The contour of the run, for the loop contracts; the heights (contour, terrain) met along it."""

    met = []


def search(ctx, n):
    """The terrain search with n points of the contour, whatever the heights met."""
    from aws.osml.photogrammetry import ElevationModel, ElevationRegionSummary, WorldCoordinate
    from aws.osml.photogrammetry import sicd_sensor_model as mod

    # frame: velocity along x; the platform's vertical is in the x-z plane; any other frame is a rotation of this one
    vm = ctx.real("v", 1, None)
    cu, su = angle(ctx, "up")
    ctx.assume(cu > 0)
    H = ctx.real("H", 1, None)
    A, V = arr(ctx, [H * su, 0.0, H * cu]), arr(ctx, [vm, 0.0, 0.0])
    cd, sd = angle(ctx, "dca")
    ctx.assume(sd > 0)
    R = ctx.real("R", 1, None)
    Rd = -vm * cd

    def on_contour(p):
        d = [A[i] - p[i] for i in range(3)]
        return [("range of the point", vdot(d, d), R * R), ("range rate of the point", vdot(V, d), Rd * R)]

    Terrain.on_contour = on_contour
    side = ctx.choice("side", ["L", "R"])
    elev = ctx.uf("elev", 2)

    class Dem(ElevationModel):
        def set_elevation(self, world_coordinate):
            world_coordinate.elevation = elev(world_coordinate.longitude, world_coordinate.latitude)

        def describe_region(self, world_coordinate):
            return ElevationRegionSummary(min_elevation=100.0, max_elevation=300.0, no_data_value=-1, post_spacing=30.0)

    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    # any conversion will do here: the heights met are arbitrary
    def lle(ecef_world_coordinate):
        g = [ctx.fresh("lon"), ctx.fresh("lat"), ctx.fresh("h")]
        Terrain.met.append((g[2], elev(g[0], g[1])))
        return GeodeticWorldCoordinate(g)

    geo = ctx.stub(mod, "geocentric_to_geodetic", lle)
    pts = {100.0: [ctx.real(f"pa{i}") for i in range(3)], 300.0: [ctx.real(f"pb{i}") for i in range(3)]}

    class Hae:
        def __init__(self, scp_ecf=None, side_of_track=None, hae=None, **k):
            self.hae = hae

        def rrdot_to_ground(self, *a, **k):
            return np.array([pts[self.hae]], dtype=object)

    from pvc import models

    with geo, ctx.patch(mod, "HAERRDotSurfaceProjection", Hae):
        s = mod.DEMRRDotSurfaceProjection(WorldCoordinate([6.4e6, 0.0, 0.0]), side, Dem())
        Terrain.met = []
        old = models.MODELS[np.floor]
        models.MODELS[np.floor] = lambda f, a, k: n - 2
        try:
            out = s.rrdot_to_ground(R, Rd, A, V)
        finally:
            models.MODELS[np.floor] = old
    return out


@harness("C10", [P + "DEMRRDotSurfaceProjection.rrdot_to_ground"], assume_nonzero=True, trusted=TRUST, limits=dict(max_seconds=200, assume_roots=True, feas_ms=40),
         bounded="contours of up to 3 points", samples=1)
def terrain_points_are_on_the_contour(ctx):
    """Whatever the terrain heights are, each point returned has the contour's range and range rate."""
    if not ctx.symbolic:
        return
    n = ctx.choice("points", [2, 3])
    out = search(ctx, n)
    for p in out:
        for name, v, want in Terrain.on_contour(p):
            ctx.ensure_eq(name, v, want)
    d = [h - e for h, e in Terrain.met]
    if len(d) != n:
        raise Structural("another order of evaluation")
    # (where the difference is exactly the threshold either answer will do)
    for q in d:
        ctx.assume((q != 0.001) & (q != -0.001))
    on = [(q < 0.001) & (q > -0.001) for q in d]
    found = sum(1 for q in on if q) + sum(1 for a, b in zip(d, d[1:]) if ((a > 0.001) & (b < -0.001)) | ((a < -0.001) & (b > 0.001)))
    ctx.ensure("a point for each contour point on the terrain and for each two neighbours on different sides of it", len(out) == found)


def terrain_loops():
    """Loop contracts of the search: every point computed, and every point found, is on the contour."""
    from pvc.loops import ForAll, LoopSpec

    fn = "aws.osml.photogrammetry.sicd_sensor_model:DEMRRDotSurfaceProjection.rrdot_to_ground#"

    def on(name, seq, count):
        if isinstance(seq, list):
            return []
        return [(f"{name}: {what}", ForAll(0, count, lambda j, k=k: (lambda t: t[1] == t[2])(Terrain.on_contour(seq.get(j))[k]), last=True))
                for k, what in enumerate(("range", "range rate"))]

    def computed(env, i):
        a = env["points_ecf"]
        return [("a point for every step", Terrain.length(a) == i)] + on("points computed", a, i)

    def found(env, i):
        a = env["intersection_points"]
        v = env["prev_indicator"]
        sign = [] if v is None else [("indicator", Terrain.and_(-1 <= v, v <= 1))]
        return [("points found so far", Terrain.length(a) >= 0)] + sign + on("points found", a, Terrain.length(a))

    return [LoopSpec(fn + "1", computed, havoc=lambda env: {"points_ecf": Terrain.points("computed")}),
            LoopSpec(fn + "2", found, havoc=lambda env: {"intersection_points": Terrain.points("found"), "prev_indicator": Terrain.indicator(),
                                                     "prev_delta_height": Terrain.height()})]


@harness("C10", [P + "DEMRRDotSurfaceProjection.rrdot_to_ground"], assume_nonzero=True, trusted=TRUST, limits=dict(max_seconds=200, assume_roots=True, feas_ms=40),
         samples=1, loops=terrain_loops())
def terrain_of_any_number_of_points(ctx):
    """Contours of any number of points: each point returned has the contour's range and range rate."""
    if not ctx.symbolic:
        return
    from pvc.sym import SymSeq

    Terrain.length, Terrain.and_, Terrain.height = ctx.length, ctx.and_, lambda: ctx.fresh("height")

    def points(name):
        fs = [ctx.uf(f"{name}{k}", 1) for k in range(3)]
        return SymSeq(ctx.fresh(name, "int"), lambda j: np.array([f(ctx.float(j)) for f in fs], dtype=object), name)

    def indicator():
        if ctx.fresh("first", "bool"):
            return None
        return ctx.fresh("indicator", "int")

    Terrain.points, Terrain.indicator = points, indicator
    out = search(ctx, ctx.int("n", 1, None))
    if not hasattr(out, "at") or len(out.shape) != 2:
        if len(out) == 0:
            return
        raise Structural("another representation of the points")
    j = ctx.index("j", (out.shape[0],))[0]
    ctx.point(j)
    p = [ctx.at(out, (j, k)) for k in range(3)]
    for name, v, want in Terrain.on_contour(p):
        ctx.ensure_eq(name, v, want)


@harness("C10", [M + "image_to_world", M + "world_to_image", "gdal.sicd_sensor_model_builder.SICDSensorModelBuilder.build"], sym=False,
         samples=60, bounded="sampled pixels of three SICD images (PFA, RMA/INCA, RGAZCOMP grids)")
def real_images_round_trip(ctx):
    from aws.osml.photogrammetry import ConstantElevationModel, ElevationRegionSummary, ImageCoordinate, geocentric_to_geodetic

    name = ctx.choice("image", ["capella", "pfa", "rma"])
    m, xml = sicd(name)
    cc = m.coord_converter
    ctx.need(cc, "scp_pixel", "first_pixel", "scp_ecf")
    dx, dy = ctx.real("dx", -700, 700), ctx.real("dy", -700, 700)
    ic = ImageCoordinate([cc.scp_pixel.x + dx - cc.first_pixel.x, cc.scp_pixel.y + dy - cc.first_pixel.y])
    w = m.image_to_world(ic)
    o = m.world_to_image(w)
    ctx.ensure_vec("pixel -> world -> pixel", o.coordinate - ic.coordinate, [0, 0], tol=0.05)
    scp = geocentric_to_geodetic(cc.scp_ecf)
    if dx == 0 and dy == 0 or ctx.bool("center"):
        c = m.image_to_world(ImageCoordinate([cc.scp_pixel.x - cc.first_pixel.x, cc.scp_pixel.y - cc.first_pixel.y]))
        ctx.ensure_vec("the scene center pixel maps to the scene center point",
                       (c.coordinate - scp.coordinate) * [6.4e6, 6.4e6, 1], [0, 0, 0], tol=0.02)

    class Dem(ConstantElevationModel):
        def describe_region(self, world_coordinate):
            s = super().describe_region(world_coordinate)
            return ElevationRegionSummary(s.min_elevation - 50, s.max_elevation + 50, s.no_data_value, s.post_spacing)

    dh = ctx.real("dh", -40, 40)
    d = m.image_to_world(ic, elevation_model=Dem(scp.elevation + dh))
    ctx.ensure_eq("height on a level terrain", d.elevation, scp.elevation + dh, tol=1e-5)
    e = m.image_to_world(ic)
    ctx.ensure_vec("asking with a terrain first does not change the answer without one", e.coordinate, w.coordinate, tol=1e-12)
    # a chip: same metadata with another first pixel
    ox, oy = ctx.int("ox", 0, 300), ctx.int("oy", 0, 300)
    c, _ = sicd(name, ox, oy)
    ci = ImageCoordinate([ic.x - ox, ic.y - oy])
    cw = c.image_to_world(ci)
    ctx.ensure_vec("a chip's pixel has the location of the full image's pixel", cw.coordinate, w.coordinate, tol=1e-10)
    co = c.world_to_image(w)
    ctx.ensure_vec("a location's pixel in a chip", co.coordinate - o.coordinate, [-ox, -oy], tol=1e-8)


_CACHE = {}


def sicd(name, ox=0, oy=0):
    import re

    from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder

    if name not in _CACHE:
        f = Path(REPO) / f"test/data/sicd/example.sicd121.{name}.xml"
        if not f.exists():
            raise Structural(f"no {f}")
        _CACHE[name] = f.read_text()
    xml = _CACHE[name]
    if ox or oy:
        def bump(tag, k, s):
            return re.sub(rf"(<{tag}>)(\d+)(</{tag}>)", lambda q: q.group(1) + str(int(q.group(2)) + k) + q.group(3), s, count=1)

        xml = bump("FirstRow", oy, bump("FirstCol", ox, xml))
    return SICDSensorModelBuilder(xml).build(), xml
