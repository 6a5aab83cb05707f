"""C08: projection of a range / range-rate contour onto a ground plane."""
import math

import numpy as np

from pvc.ctx import harness

from .c07_sicd_grid import arr, vcross, vdot

P = "photogrammetry.sicd_sensor_model.GroundPlaneRRDotSurfaceProjection."
F = [P + "__init__", P + "rrdot_to_ground"]


def vec(ctx, name, lo, hi):
    return arr(ctx, [ctx.real(f"{name}{i}", lo, hi) for i in range(3)])


def angle(ctx, name):
    """(cos, sin) of any angle."""
    if ctx.symbolic:
        c, s = ctx.real("c" + name), ctx.real("s" + name)
        ctx.relation(s, 2, 1 - c * c)
        return c, s
    t = ctx.real("angle" + name, -math.pi, math.pi)
    return math.cos(t), math.sin(t)


def frame(ctx):
    """Any right-handed orthonormal frame (x, y, n)."""
    (cf, sf), (ct, st), (cg, sg) = angle(ctx, "f"), angle(ctx, "t"), angle(ctx, "g")
    n = [cf * ct, cf * st, sf]
    e1 = [-st, ct, 0.0]
    e2 = vcross(n, e1)
    x = [cg * a + sg * b for a, b in zip(e1, e2)]
    return x, vcross(n, x), n


def comb(*kv):
    return [sum((k * v[i] for k, v in kv[1:]), kv[0][0] * kv[0][1][i]) for i in range(3)]


@harness("C08", F, assume_nonzero=True, samples=300, limits=dict(max_seconds=120))
def ground_plane_intersection(ctx):
    """Any plane, platform, range and range rate: every normal n and velocity with a component along the plane are
    (0, 0, 1) and (vx, 0, vz) in some orthonormal frame (x, y, n), which ranges over all frames here."""
    from aws.osml.photogrammetry import WorldCoordinate
    from aws.osml.photogrammetry.sicd_sensor_model import GroundPlaneRRDotSurfaceProjection

    x, y, u = frame(ctx)
    ref = [ctx.real(f"ref{i}", -7e6, 7e6) for i in range(3)]
    z, vx = ctx.real("z", 0, 9e5), ctx.real("vx", 0, 8000)
    vz = ctx.real("vz", -500, 500)
    px, py = ctx.real("px", -9e5, 9e5), ctx.real("py", -9e5, 9e5)
    ctx.assume(z > (0 if ctx.symbolic else 1000))
    ctx.assume(vx > (0 if ctx.symbolic else 20))
    side = ctx.choice("side", [1, -1])
    # side of the track of the reference point: sign of ((arp - ref) x v) . n = -py vx
    ctx.assume(py * side < (0 if ctx.symbolic else -1))
    R = ctx.real("R", 1, 2e6)
    if ctx.symbolic:
        Rd = ctx.real("Rdot")
    else:
        # most range rates are those of a point of the plane
        a = ctx.real("az", -1.1, 1.1)
        g = math.sqrt(max(R * R - z * z, 0.0))
        Rd = (vz * z - vx * g * math.cos(a) * ctx.choice("stretch", [1.0, 1.0, -1.0, 1.5])) / R
        if "Rdot" in ctx.values:
            Rd = ctx.real("Rdot")
    arp = arr(ctx, comb((1, ref), (z, u), (px, x), (py, y)))
    vel = arr(ctx, comb((vx, x), (vz, u)))
    k = ctx.real("length of the normal", 0.1, 10)
    n = arr(ctx, [k * c for c in u])
    arp0, vel0, n0 = arp.copy(), vel.copy(), n.copy()
    s = GroundPlaneRRDotSurfaceProjection(WorldCoordinate(ref), n)
    out, exc = ctx.attempt(s.rrdot_to_ground, R, Rd, arp, vel)
    ctx.ensure_vec("the platform position passed in is not modified", arp, arp0)
    ctx.ensure_vec("the platform velocity passed in is not modified", vel, vel0)
    ctx.ensure_vec("the normal passed in is not modified", n, n0)
    L = 1e7
    if exc is None:
        p = np.asarray(out)[0]
        d = [p[i] - arp[i] for i in range(3)]
        ctx.ensure_eq("the result lies in the plane", vdot([p[i] - ref[i] for i in range(3)], u), 0.0, tol=1e-9, scale=L)
        ctx.ensure_eq("the result is at the range", vdot(d, d), R * R, tol=1e-9, scale=R * L)
        ctx.ensure_eq("the result has the range rate", -vdot(vel, d), Rd * R, tol=1e-9, scale=L * 8000)
        w = vdot(vcross([-c for c in d], vel), u)
        ctx.ensure_le("the result is on the side of the track of the reference point", 0.0, w * side, tol=1e-7, scale=L * 8000)
    else:
        ctx.ensure("only a contour that misses the plane is rejected, with ValueError", isinstance(exc, ValueError))
        a = (-Rd * R + vz * z) * (-Rd * R + vz * z)
        g2 = R * R - z * z
        if ctx.symbolic:
            ctx.ensure("rejected: the range sphere misses the plane, or no point of it has the range rate",
                       ctx.or_(R < z, vx * vx * g2 < a))
        else:
            ctx.ensure("rejected: the range sphere misses the plane, or no point of it has the range rate",
                       g2 < 1e-6 * R * R or vx * vx * g2 < a * (1 + 1e-9))


@harness("C08", F[:1], assume_nonzero=True)
def ground_plane_normal(ctx):
    """Given normals are scaled to unit length; the spherical-earth normal points away from the earth's centre."""
    from aws.osml.photogrammetry.sicd_sensor_model import GroundPlaneRRDotSurfaceProjection as G
    from aws.osml.photogrammetry import WorldCoordinate

    ref = vec(ctx, "ref", -7e6, 7e6)
    ctx.assume(vdot(ref, ref) > 1)
    n = vec(ctx, "n", -10, 10)
    ctx.assume(vdot(n, n) > 0.01)
    n0 = n.copy()
    a = G(WorldCoordinate(ref), n)
    s = ctx.sqrt(vdot(n, n))
    ctx.ensure_vec("the given normal scaled to unit length", [a.u_gpn[i] * s for i in range(3)], n)
    ctx.ensure_vec("the normal passed in is not modified", n, n0)
    b = G(WorldCoordinate(ref), None, gpn_type=G.GroundPlaneNormalType.SPHERICAL_EARTH)
    s = ctx.sqrt(vdot(ref, ref))
    ctx.ensure_vec("spherical earth: the direction of the reference point", [b.u_gpn[i] * s for i in range(3)], ref)


@harness("C08", F[:1], trusted=["geocentric_to_geodetic: its own contract (C26)"])
def ground_plane_geodetic_normal(ctx):
    import aws.osml.photogrammetry.sicd_sensor_model as M
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, WorldCoordinate
    from aws.osml.photogrammetry.coordinates import geodetic_to_geocentric

    lon, lat, h = ctx.real("lon", -3.14, 3.14), ctx.real("lat", -1.57, 1.57), ctx.real("h", -500, 9000)
    if ctx.symbolic:
        ref = WorldCoordinate([ctx.real(f"ref{i}") for i in range(3)])
    else:
        ref = geodetic_to_geocentric(GeodeticWorldCoordinate([lon, lat, h]))
    with ctx.stub(M, "geocentric_to_geodetic", lambda ecef_world_coordinate: GeodeticWorldCoordinate([lon, lat, h])):
        s = M.GroundPlaneRRDotSurfaceProjection(ref, None)
    ctx.ensure_vec("the default normal is the ellipsoid normal at the reference point", s.u_gpn,
                   [ctx.cos(lat) * ctx.cos(lon), ctx.cos(lat) * ctx.sin(lon), ctx.sin(lat)])
    v, e = ctx.attempt(M.GroundPlaneRRDotSurfaceProjection, ref, None, "OTHER")
    ctx.ensure("an unknown kind of normal is rejected", isinstance(e, ValueError))
