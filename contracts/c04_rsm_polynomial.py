"""C04: RSM polynomials and the RSM polynomial sensor model."""
import numpy as np

from pvc.ctx import harness

from .common import Rec, check_search, minimize_contract, stub_elevation

P = "photogrammetry.replacement_sensor_model."
FQ = [P + "RSMPolynomial." + x for x in ("__init__", "evaluate", "__call__")]
FL = [P + "RSMLowOrderPolynomial." + x for x in ("__init__", "evaluate", "__call__")]
S = P + "RSMPolynomialSensorModel."
FS = [S + x for x in ("__init__", "world_to_image", "ground_domain_to_image", "normalize_world_coordinate",
                      "denormalize_world_coordinate", "normalize_image_coordinate", "denormalize_image_coordinate",
                      "normalize", "denormalize")]
FI = FS + [S + "image_to_world", "photogrammetry.math_utils.equilateral_triangle"]


def ipow(v, n):
    r = 1.0
    for _ in range(n):
        r = r * v
    return r


def poly_pow(pz):
    def h(ctx):
        from aws.osml.photogrammetry import RSMPolynomial, WorldCoordinate

        px = ctx.choice("px", [0, 1, 2, 3, 4, 5])
        py = ctx.choice("py", [0, 1, 2, 3, 4, 5])
        n = (px + 1) * (py + 1) * (pz + 1)
        c = [ctx.real(f"c{i}", -5, 5) for i in range(n)]
        x, y, z = [ctx.real(v, -2, 2) for v in "xyz"]
        w = WorldCoordinate([x, y, z])
        q = RSMPolynomial(px, py, pz, list(c))
        e = 0.0
        # RSMPCA: the coefficient of x^i y^j z^k is at i + (px+1) * (j + (py+1) * k)
        for k in range(pz + 1):
            for j in range(py + 1):
                for i in range(px + 1):
                    e = e + c[i + (px + 1) * (j + (py + 1) * k)] * ipow(x, i) * ipow(y, j) * ipow(z, k)
        ctx.ensure_eq("sum of c(i,j,k) x^i y^j z^k", q(w), e, scale=1e3)
        ctx.ensure_vec("argument unchanged", w.coordinate, [x, y, z])

    h.__name__ = f"rsm_polynomial_z{pz}"
    return h


for _k in range(6):
    harness("C04", FQ, samples=80)(poly_pow(_k))


@harness("C04", FQ[:1] + FL[:1])
def rsm_coefficient_count(ctx):
    from aws.osml.photogrammetry import RSMLowOrderPolynomial, RSMPolynomial

    px, py, pz = [ctx.choice("p" + v, [0, 1, 3]) for v in "xyz"]
    d = ctx.choice("d", [-1, 1, 0, 3])
    n = (px + 1) * (py + 1) * (pz + 1) + d
    v, e = ctx.attempt(RSMPolynomial, px, py, pz, [0.5] * n)
    ctx.ensure("a polynomial is accepted exactly with one coefficient per combination of powers",
               (e is None) if d == 0 else isinstance(e, ValueError))
    k = ctx.choice("k", [9, 10, 11])
    v, e = ctx.attempt(RSMLowOrderPolynomial, [0.5] * k)
    ctx.ensure("a low order polynomial has exactly 10 coefficients", (e is None) if k == 10 else isinstance(e, ValueError))


@harness("C04", FL)
def rsm_low_order_polynomial(ctx):
    from aws.osml.photogrammetry import RSMLowOrderPolynomial, WorldCoordinate

    c = [ctx.real(f"c{i}", -5, 5) for i in range(10)]
    x, y, z = [ctx.real(v, -5, 5) for v in "xyz"]
    q = RSMLowOrderPolynomial(list(c))
    w = WorldCoordinate([x, y, z])
    e = (c[0] + c[1] * x + c[2] * y + c[3] * z + c[4] * x * x + c[5] * x * y + c[6] * x * z + c[7] * y * y + c[8] * y * z
         + c[9] * z * z)
    ctx.ensure_eq("order 1 X Y Z XX XY XZ YY YZ ZZ", q(w), e)


def model(ctx, context, polys):
    from aws.osml.photogrammetry import RSMPolynomialSensorModel

    pr = dict(
        row_norm_offset=ctx.real("r_off", 0, 5000), column_norm_offset=ctx.real("c_off", 0, 5000),
        x_norm_offset=ctx.real("x_off", -2, 2), y_norm_offset=ctx.real("y_off", -1, 1), z_norm_offset=ctx.real("z_off", -100, 2000),
        row_norm_scale=ctx.real("r_sc", 500, 5000), column_norm_scale=ctx.real("c_sc", 500, 5000),
        x_norm_scale=ctx.real("x_sc", 0.001, 0.01), y_norm_scale=ctx.real("y_sc", 0.001, 0.01), z_norm_scale=ctx.real("z_sc", 50, 1000),
    )
    m = RSMPolynomialSensorModel(context, 1, 1, row_numerator_poly=polys[0], row_denominator_poly=polys[1],
                                 column_numerator_poly=polys[2], column_denominator_poly=polys[3], **pr)
    return Rec(**pr), m


class AnyDomain:
    """Any ground domain: an arbitrary function from geodetic to domain coordinates (contract: see C05)."""

    def __init__(self, ctx):
        from aws.osml.photogrammetry import WorldCoordinate

        self.f = [ctx.uf(f"dom{i}", 3, -1, 1) for i in range(3)]
        self.W = WorldCoordinate

    def geodetic_to_ground_domain_coordinate(self, geodetic_coordinate):
        return self.W([f(geodetic_coordinate.x, geodetic_coordinate.y, geodetic_coordinate.z) for f in self.f])


@harness("C04", FS, assume_nonzero=True)
def rsm_world_to_image(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    fs = [ctx.uf(f"poly{i}", 3, 0.5, 1.5) for i in range(4)]
    dom = AnyDomain(ctx)
    r, m = model(ctx, Rec(ground_domain=dom), [(lambda w, f=f: f(w.x, w.y, w.z)) for f in fs])
    lon, lat, h = ctx.real("lon", -3.14, 3.14), ctx.real("lat", -1.5, 1.5), ctx.real("h", -500, 9000)
    g = GeodeticWorldCoordinate([lon, lat, h])
    ic = m.world_to_image(g)
    d = [f(lon, lat, h) for f in dom.f]
    n = [(d[0] - r.x_norm_offset) / r.x_norm_scale, (d[1] - r.y_norm_offset) / r.y_norm_scale, (d[2] - r.z_norm_offset) / r.z_norm_scale]
    ctx.ensure_eq("row = scale * num/den + offset of the normalised domain coordinate", ic.r,
                  r.row_norm_scale * (fs[0](*n) / fs[1](*n)) + r.row_norm_offset)
    ctx.ensure_eq("column = scale * num/den + offset of the normalised domain coordinate", ic.c,
                  r.column_norm_scale * (fs[2](*n) / fs[3](*n)) + r.column_norm_offset)
    ctx.ensure_vec("the world coordinate passed in is not modified", g.coordinate, [lon, lat, h])


@harness("C04", FS, assume_nonzero=True)
def rsm_normalisation_inverse(ctx):
    from aws.osml.photogrammetry import ImageCoordinate, WorldCoordinate

    r, m = model(ctx, None, [None] * 4)
    v = [ctx.real(n, -5, 5) for n in ("u", "v", "w")]
    ctx.ensure_vec("normalise then denormalise a world coordinate",
                   m.denormalize_world_coordinate(m.normalize_world_coordinate(WorldCoordinate(v))).coordinate, v)
    ctx.ensure_vec("denormalise then normalise a world coordinate",
                   m.normalize_world_coordinate(m.denormalize_world_coordinate(WorldCoordinate(v))).coordinate, v)
    p = v[:2]
    ctx.ensure_vec("normalise then denormalise an image coordinate",
                   m.denormalize_image_coordinate(m.normalize_image_coordinate(ImageCoordinate(p))).coordinate, p)
    ctx.ensure_vec("denormalise then normalise an image coordinate",
                   m.normalize_image_coordinate(m.denormalize_image_coordinate(ImageCoordinate(p))).coordinate, p)
    ni = m.normalize_image_coordinate(ImageCoordinate(p))
    ctx.ensure_eq("x is the column", ni.x, (p[0] - r.column_norm_offset) / r.column_norm_scale)
    ctx.ensure_eq("y is the row", ni.y, (p[1] - r.row_norm_offset) / r.row_norm_scale)


@harness("C04", FI, samples=60, assume_nonzero=True)
def rsm_image_to_world(ctx):
    from scipy.optimize import minimize

    from aws.osml.photogrammetry import (ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate, RSMGroundDomain,
                                         RSMGroundDomainForm, RSMPolynomial, SensorModelOptions, WorldCoordinate)

    co = [ctx.real("ry", -1.2, -0.8), ctx.real("rx", -0.2, 0.2), ctx.real("cx", 0.8, 1.2), ctx.real("cy", -0.2, 0.2),
          ctx.real("rz", -0.05, 0.05), ctx.real("cz", -0.05, 0.05)]
    # 1 X Y XY Z XZ YZ XYZ
    row = RSMPolynomial(1, 1, 1, [0.0, co[1], co[0], 0.0, co[4], 0.0, 0.0, 0.0])
    col = RSMPolynomial(1, 1, 1, [0.0, co[2], co[3], 0.0, co[5], 0.0, 0.0, 0.0])
    one = RSMPolynomial(0, 0, 0, [1.0])
    href = ctx.real("href", -100, 2000)
    c = Rec()
    r, m = model(ctx, c, [row, one, col, one])
    e0, e1 = ctx.real("e0", 0.001, 0.01), ctx.real("e1", 0.001, 0.01)
    if ctx.symbolic:
        vs = [[ctx.real(f"v{i}{k}", -1, 1) for k in range(3)] for i in range(8)]
    else:
        vs = [[r.x_norm_offset + (2 * (i % 2) - 1) * e0, r.y_norm_offset + (2 * (i // 2 % 2) - 1) * e1, href + 200 * (i // 4)] for i in range(8)]
    c.ground_domain = gd = RSMGroundDomain(RSMGroundDomainForm.GEODETIC, [WorldCoordinate(v) for v in vs],
                                           ground_reference_point=WorldCoordinate([r.x_norm_offset, r.y_norm_offset, href]))
    a, b = ctx.real("a", -0.9, 0.9), ctx.real("b", -0.9, 0.9)
    glon, glat = r.x_norm_offset + a * e0, r.y_norm_offset + b * e1
    kind = ctx.choice("elevation", ["none", "dem", "no coverage"])
    dem = stub_elevation(ctx, outside=None if kind == "dem" else href) if kind != "none" else None
    hasg = ctx.choice("guess", ["default", "list", "array"])
    if ctx.symbolic:
        x, y = ctx.real("x"), ctx.real("y")
    else:
        t = m.world_to_image(GeodeticWorldCoordinate([glon, glat, dem.elev(glon, glat) if dem else href]))
        x, y = t.x, t.y
    g0 = ctx.real("g0", -1e-4, 1e-4)
    guess = [glon + g0, glat - g0]
    sd = ctx.real("sd", 1e-4, 1e-3)
    options = None
    if hasg != "default":
        options = {SensorModelOptions.INITIAL_GUESS: list(guess) if hasg == "list" else np.array(guess),
                   SensorModelOptions.INITIAL_SEARCH_DISTANCE: sd}
    f, calls = minimize_contract(ctx)
    ic = ImageCoordinate([x, y])
    with ctx.lib(minimize, f):
        # whatever was asked before has no influence
        earlier = ctx.choice("earlier call", ["none", "same pixel", "same pixel, other surface", "other pixel"])
        if earlier != "none":
            d0 = dem if earlier == "same pixel" else stub_elevation(ctx, "dem0") if dem is None or earlier != "other pixel" else None
            i0 = ImageCoordinate([x + 3.0, y - 2.0]) if earlier == "other pixel" else ImageCoordinate([x, y])
            w0 = m.image_to_world(i0, elevation_model=d0, options=options)
            w0.longitude, w0.elevation = w0.longitude + 1.0, -9999.0
            i0.x = -1.0
            calls.clear()
        w = m.image_to_world(ic, elevation_model=dem, options=options)
    ctx.ensure_eq("elevation is the surface at the result (reference height without a DEM)", w.elevation,
                  dem.elev(w.longitude, w.latitude) if dem else href)
    ctx.ensure_vec("the image coordinate passed in is not modified", ic.coordinate, [x, y])
    m.world_to_image(GeodeticWorldCoordinate([w.longitude, w.latitude, w.elevation + 50.0]))
    bk = m.world_to_image(w)
    if ctx.symbolic:
        ctx.ensure("one search", len(calls) == 1)
        k = calls[0]
        ctx.ensure_vec("the result is the location found by the search", [w.longitude, w.latitude], k.x)
        ctx.ensure_eq("the minimised value is the distance in the image between the target and the projected result",
                      k.value * k.value, (bk.x - x) ** 2 + (bk.y - y) ** 2)
        if k.bounds is not None:
            for i, v in enumerate(vs):
                ctx.ensure(f"the searched box contains ground domain vertex {i}",
                           ctx.and_(v[0] >= k.bounds[0][0], v[0] <= k.bounds[0][1], v[1] >= k.bounds[1][0], v[1] <= k.bounds[1][1]))
        if hasg == "default":
            ctx.ensure_vec("the search starts at the middle of vertices 1 and 4", k.x0,
                           [(vs[0][0] + vs[3][0]) / 2, (vs[0][1] + vs[3][1]) / 2])
        else:
            check_search(ctx, k, guess, sd)
    else:
        px = max(r.row_norm_scale / r.y_norm_scale, r.column_norm_scale / r.x_norm_scale)
        tol = ctx.radians(20e-6) * px + 0.5
        ctx.ensure("the result projects back to the image coordinate (x)", abs(bk.x - x) <= tol)
        ctx.ensure("the result projects back to the image coordinate (y)", abs(bk.y - y) <= tol)
