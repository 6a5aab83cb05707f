"""C05: RSM ground domain."""
import math

import numpy as np

from pvc.ctx import harness

from .common import Bijection

P = "photogrammetry.replacement_sensor_model.RSMGroundDomain."
F = [P + x for x in ("__init__", "geodetic_to_ground_domain_coordinate", "ground_domain_coordinate_to_geodetic")]
TRUST = ["geodetic <-> geocentric conversion: mutual inverses (contract decided in C26)"]


def verts(ctx, W):
    return [W([ctx.real(f"v{i}{k}", -1, 1) for k in range(3)]) for i in range(8)]


@harness("C05", F)
def ground_domain_validation(ctx):
    from aws.osml.photogrammetry import RSMGroundDomain, RSMGroundDomainForm, WorldCoordinate

    n = ctx.choice("n", [8, 0, 7, 9])
    form = ctx.choice("form", list(RSMGroundDomainForm))
    o, u = ctx.choice("origin", [True, False]), ctx.choice("units", [True, False])
    vs = [WorldCoordinate([0.01 * i, 0.02 * i, 5.0]) for i in range(n)]
    v, e = ctx.attempt(RSMGroundDomain, form, vs, WorldCoordinate([6378137.0, 0.0, 0.0]) if o else None, np.eye(3) if u else None)
    ok = n == 8 and (form != RSMGroundDomainForm.RECTANGULAR or (o and u))
    ctx.ensure("8 vertices, and origin and axes for a rectangular domain, are required (ValueError)",
               e is None if ok else isinstance(e, ValueError))


@harness("C05", F)
def ground_domain_geodetic(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, RSMGroundDomain, RSMGroundDomainForm, WorldCoordinate

    form = ctx.choice("form", [RSMGroundDomainForm.GEODETIC, RSMGroundDomainForm.GEODETIC_2PI])
    vs = verts(ctx, WorldCoordinate)
    d = RSMGroundDomain(form, vs)
    lon, lat, h = ctx.real("lon", -math.pi, math.pi), ctx.real("lat", -1.57, 1.57), ctx.real("h", -500, 9000)
    g = GeodeticWorldCoordinate([lon, lat, h])
    p = d.geodetic_to_ground_domain_coordinate(g)
    ctx.ensure_vec("latitude and height are kept", [p.y, p.z], [lat, h])
    two = 2 * math.pi
    if form == RSMGroundDomainForm.GEODETIC:
        ctx.ensure_eq("longitude is kept", p.x, lon)
    else:
        ctx.ensure("longitude is in [0, 2 pi)", ctx.and_(p.x >= 0, p.x < two))
        ctx.ensure("longitude is the same angle modulo 2 pi",
                   ctx.or_(ctx.and_(p.x - lon < 1e-9, p.x - lon > -1e-9), ctx.and_(p.x - lon - two < 1e-9, p.x - lon - two > -1e-9)))
    ctx.ensure_vec("the coordinate passed in is not modified", g.coordinate, [lon, lat, h])
    b = d.ground_domain_coordinate_to_geodetic(p)
    ctx.ensure_vec("domain -> geodetic keeps x, y, z", b.coordinate, p.coordinate)


@harness("C05", F)
def ground_domain_elevation(ctx):
    """Reference height: that of the reference point, else the mean of the vertices; bounding box of the vertices."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, RSMGroundDomain, RSMGroundDomainForm, WorldCoordinate

    vs = verts(ctx, WorldCoordinate)
    grp = ctx.choice("grp", [True, False])
    hz = ctx.real("hz", -100, 100)
    form = ctx.choice("form", [RSMGroundDomainForm.GEODETIC, RSMGroundDomainForm.GEODETIC_2PI])
    d = RSMGroundDomain(form, vs, ground_reference_point=WorldCoordinate([0.1, 0.2, hz]) if grp else None)
    w = GeodeticWorldCoordinate([0.1, 0.2, 77.0])
    d.default_elevation_model.set_elevation(w)
    mean = 0.0
    for v in vs:
        mean = mean + v.z
    ctx.ensure_eq("default height", w.elevation, hz if grp else mean / 8)
    bb = d.geodetic_lonlat_bbox
    for i, v in enumerate(vs):
        ctx.ensure(f"bounding box contains vertex {i}", ctx.and_(bb[0] <= v.x, bb[2] >= v.x, bb[1] <= v.y, bb[3] >= v.y))
    for k, (q, what) in enumerate(((0, "x"), (1, "y"), (2, "x"), (3, "y"))):
        ctx.ensure(f"bounding box side {q} is attained", ctx.or_(*[bb[q] == getattr(v, what) for v in vs]))


@harness("C05", F, trusted=TRUST, assume_nonzero=True)
def ground_domain_rectangular(ctx):
    import aws.osml.photogrammetry.replacement_sensor_model as M
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, RSMGroundDomain, RSMGroundDomainForm, WorldCoordinate
    from aws.osml.photogrammetry.coordinates import geodetic_to_geocentric

    if ctx.symbolic:
        B = Bijection(ctx, "wgs84", 3)

        def fwd(geodetic_coordinate):
            return WorldCoordinate(B.fwd(*geodetic_coordinate.coordinate))

        def inv(ecef_world_coordinate):
            return GeodeticWorldCoordinate(B.inv(*ecef_world_coordinate.coordinate))

        u = [[ctx.real(f"u{i}{k}") for k in range(3)] for i in range(3)]
        o = [ctx.real(f"o{i}") for i in range(3)]
        U = np.array(u, dtype=object)
        from pvc.models import det

        ctx.assume(det(U) != 0)
        lon, lat, h = ctx.real("lon"), ctx.real("lat"), ctx.real("h")
        vs = [WorldCoordinate([float(i), 2.0, 3.0]) for i in range(8)]
        with ctx.stub(M, "geodetic_to_geocentric", fwd), ctx.stub(M, "geocentric_to_geodetic", inv):
            d = RSMGroundDomain(RSMGroundDomainForm.RECTANGULAR, vs, WorldCoordinate(o), U)
            g = GeodeticWorldCoordinate([lon, lat, h])
            p = d.geodetic_to_ground_domain_coordinate(g)
            e = B.fwd(lon, lat, h)
            b = d.ground_domain_coordinate_to_geodetic(p)
            q = WorldCoordinate([ctx.real("qx"), ctx.real("qy"), ctx.real("qz")])
            gq = d.ground_domain_coordinate_to_geodetic(q)
        eq = B.fwd(*gq.coordinate)
        ctx.ensure_vec("domain = axes * (ECEF - origin)", p.coordinate,
                       [sum(u[i][k] * (e[k] - o[k]) for k in range(3)) for i in range(3)])
        ctx.ensure_vec("geodetic -> domain -> geodetic", b.coordinate, [lon, lat, h])
        ctx.ensure_vec("domain = axes * (ECEF(geodetic) - origin) for domain -> geodetic", q.coordinate,
                       [sum(u[i][k] * (eq[k] - o[k]) for k in range(3)) for i in range(3)])
    else:
        lon, lat, h = ctx.real("lon", -3, 3), ctx.real("lat", -1.4, 1.4), ctx.real("h", -500, 9000)
        a = [ctx.real(f"a{i}", -3, 3) for i in range(3)]
        ca, sa = np.cos(a), np.sin(a)
        Rz = np.array([[ca[0], -sa[0], 0], [sa[0], ca[0], 0], [0, 0, 1]])
        Rx = np.array([[1, 0, 0], [0, ca[1], -sa[1]], [0, sa[1], ca[1]]])
        U = Rz @ Rx
        e = geodetic_to_geocentric(GeodeticWorldCoordinate([lon, lat, h])).coordinate
        o = e + np.array([100.0, -250.0, 80.0])
        vs = [WorldCoordinate([10.0 * i, 2.0, 3.0]) for i in range(8)]
        d = RSMGroundDomain(RSMGroundDomainForm.RECTANGULAR, vs, WorldCoordinate(o), U)
        p = d.geodetic_to_ground_domain_coordinate(GeodeticWorldCoordinate([lon, lat, h]))
        ctx.ensure_vec("domain = axes * (ECEF - origin)", p.coordinate, U @ (e - o), tol=1e-8)
        b = d.ground_domain_coordinate_to_geodetic(p)
        ctx.ensure_vec("geodetic -> domain -> geodetic", b.coordinate, [lon, lat, h], tol=1e-8, scale=1e3)
        q = WorldCoordinate([12.0, -7.0, 30.0])
        gq = d.ground_domain_coordinate_to_geodetic(q)
        eq = geodetic_to_geocentric(gq).coordinate
        ctx.ensure_vec("domain = axes * (ECEF(geodetic) - origin) for domain -> geodetic", q.coordinate, U @ (eq - o), tol=5e-6)
