"""C03: RPC sensor model."""
import numpy as np

from pvc.ctx import harness

from .common import Rec, check_search, minimize_contract, stub_elevation

P = "photogrammetry.rpc_sensor_model."
FP = [P + "RPCPolynomial." + x for x in ("__init__", "evaluate", "__call__")]
FM = [P + "RPCSensorModel." + x for x in ("__init__", "world_to_image")]
FI = FM + [P + "RPCSensorModel.image_to_world", "photogrammetry.math_utils.equilateral_triangle"]

# STDI-0002 Volume 1 Appendix E: order of the RPC00B terms as powers of (L, P, H)
TERMS = [
    (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2),
    (1, 1, 1), (3, 0, 0), (1, 2, 0), (1, 0, 2), (2, 1, 0), (0, 3, 0), (0, 1, 2), (2, 0, 1), (0, 2, 1), (0, 0, 3),
]


def spec_poly(c, l, p, h):
    r = 0.0
    for k, (i, j, m) in zip(c, TERMS):
        t = k
        for v, n in ((l, i), (p, j), (h, m)):
            for _ in range(n):
                t = t * v
        r = r + t
    return r


@harness("C03", FP)
def rpc_polynomial(ctx):
    from aws.osml.photogrammetry import RPCPolynomial, WorldCoordinate

    c = [ctx.real(f"c{i}", -10, 10) for i in range(20)]
    l, p, h = [ctx.real(n, -2, 2) for n in "lph"]
    q = RPCPolynomial(list(c))
    w = WorldCoordinate([l, p, h])
    ctx.ensure_eq("RPC00B term order and values", q(w), spec_poly(c, l, p, h))
    ctx.ensure_eq("evaluate agrees with calling the polynomial", q.evaluate(w), q(w))
    ctx.ensure_vec("argument unchanged", w.coordinate, [l, p, h])


def model(ctx, polys):
    from aws.osml.photogrammetry import RPCSensorModel

    pr = dict(
        line_off=ctx.real("line_off", 0, 5000), samp_off=ctx.real("samp_off", 0, 5000),
        lat_off=ctx.real("lat_off", -60, 60), long_off=ctx.real("long_off", -170, 170),
        height_off=ctx.real("height_off", -100, 2000), line_scale=ctx.real("line_scale", 500, 5000),
        samp_scale=ctx.real("samp_scale", 500, 5000), lat_scale=ctx.real("lat_scale", 0.02, 0.2),
        long_scale=ctx.real("long_scale", 0.02, 0.2), height_scale=ctx.real("height_scale", 50, 1000),
    )
    m = RPCSensorModel(err_bias=ctx.real("err_bias", 0, 1), err_rand=ctx.real("err_rand", 0, 1), **pr,
                       line_num_poly=polys[0], line_den_poly=polys[1], samp_num_poly=polys[2], samp_den_poly=polys[3])
    return Rec(**pr), m


@harness("C03", FM, assume_nonzero=True)
def rpc_world_to_image(ctx):
    """The four polynomials are arbitrary functions here (their contract is rpc_polynomial)."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    fs = [ctx.uf(f"poly{i}", 3, 0.5, 1.5) for i in range(4)]

    def mk(f):
        return lambda w: f(w.x, w.y, w.z)

    r, m = model(ctx, [mk(f) for f in fs])
    lon, lat, h = ctx.real("lon", -3.14, 3.14), ctx.real("lat", -1.5, 1.5), ctx.real("h", -500, 9000)
    w = GeodeticWorldCoordinate([lon, lat, h])
    ic = m.world_to_image(w)
    L = (ctx.degrees(lon) - r.long_off) / r.long_scale
    Pn = (ctx.degrees(lat) - r.lat_off) / r.lat_scale
    H = (h - r.height_off) / r.height_scale
    ctx.ensure_eq("line = scale * num/den + offset", ic.y, r.line_scale * (fs[0](L, Pn, H) / fs[1](L, Pn, H)) + r.line_off, tol=1e-7)
    ctx.ensure_eq("sample = scale * num/den + offset", ic.x, r.samp_scale * (fs[2](L, Pn, H) / fs[3](L, Pn, H)) + r.samp_off, tol=1e-7)
    ctx.ensure_vec("the world coordinate passed in is not modified", w.coordinate, [lon, lat, h])


@harness("C03", FI, samples=60)
def rpc_image_to_world(ctx):
    from scipy.optimize import minimize

    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, RPCPolynomial, SensorModelOptions

    def affine(n, a, b, h=0.0, c=0.0):
        q = [0.0] * 20
        q[0], q[1], q[2], q[3] = c, a, b, h
        return RPCPolynomial(q)

    def con(v):
        q = [0.0] * 20
        q[0] = v
        return RPCPolynomial(q)

    ll, lp = ctx.real("ll", -0.2, 0.2), ctx.real("lp", -1.2, -0.8)
    sl, sp = ctx.real("sl", 0.8, 1.2), ctx.real("sp", -0.2, 0.2)
    lh, sh = ctx.real("lh", -0.05, 0.05), ctx.real("sh", -0.05, 0.05)
    r, m = model(ctx, [affine("l", ll, lp, lh), con(1.0), affine("s", sl, sp, sh), con(1.0)])
    # a point inside the normalised ground domain
    l0, p0 = ctx.real("l0", -0.9, 0.9), ctx.real("p0", -0.9, 0.9)
    kind = ctx.choice("elevation", ["none", "dem", "no coverage"])
    hasg = ctx.choice("guess", ["default", "list", "array"])
    dem = stub_elevation(ctx, outside=None if kind == "dem" else r.height_off) if kind != "none" else None
    glon, glat = ctx.radians(r.long_off + l0 * r.long_scale), ctx.radians(r.lat_off + p0 * r.lat_scale)
    if ctx.symbolic:
        x, y = ctx.real("x"), ctx.real("y")
    else:
        e = dem.elev(glon, glat) if dem else r.height_off
        t = m.world_to_image(GeodeticWorldCoordinate([glon, glat, e]))
        x, y = t.x, t.y
    g0 = ctx.real("g0", -1e-4, 1e-4)
    guess = [glon + g0, glat - g0]
    sd = ctx.real("sd", 1e-4, 1e-3)
    options = None
    if hasg != "default":
        options = {SensorModelOptions.INITIAL_GUESS: list(guess) if hasg == "list" else np.array(guess),
                   SensorModelOptions.INITIAL_SEARCH_DISTANCE: sd}
    f, calls = minimize_contract(ctx)
    ic = ImageCoordinate([x, y])
    with ctx.lib(minimize, f):
        # whatever was asked before has no influence
        earlier = ctx.choice("earlier call", ["none", "same pixel", "same pixel, other surface", "other pixel"])
        if earlier != "none":
            d0 = dem if earlier == "same pixel" else stub_elevation(ctx, "dem0") if dem is None or earlier != "other pixel" else None
            i0 = ImageCoordinate([x + 3.0, y - 2.0]) if earlier == "other pixel" else ImageCoordinate([x, y])
            w0 = m.image_to_world(i0, elevation_model=d0, options=options)
            w0.longitude, w0.elevation = w0.longitude + 1.0, -9999.0
            i0.x = -1.0
            calls.clear()
        w = m.image_to_world(ic, elevation_model=dem, options=options)
    ctx.ensure_eq("elevation is the surface at the result (height offset without a DEM)", w.elevation,
                  dem.elev(w.longitude, w.latitude) if dem else r.height_off)
    ctx.ensure_vec("the image coordinate passed in is not modified", ic.coordinate, [x, y])
    m.world_to_image(GeodeticWorldCoordinate([w.longitude, w.latitude, w.elevation + 50.0]))
    b = m.world_to_image(w)
    if ctx.symbolic:
        ctx.ensure("one search", len(calls) == 1)
        c = calls[0]
        ctx.ensure_vec("the result is the location found by the search", [w.longitude, w.latitude], c.x)
        ctx.ensure_eq("the minimised value is the distance in the image between the target and the projected result",
                      c.value * c.value, (b.x - x) ** 2 + (b.y - y) ** 2)
        if hasg == "default":
            check_search(ctx, c, [ctx.radians(r.long_off), ctx.radians(r.lat_off)], ctx.radians(0.5))
        else:
            check_search(ctx, c, guess, sd)
    else:
        # search tolerance 1e-6 degrees, 0.5 pixel
        scale = max(r.line_scale / r.lat_scale, r.samp_scale / r.long_scale)  # pixels per degree
        tol = 20e-6 * scale + 0.5
        ctx.ensure("the result projects back to the image coordinate (x)", abs(b.x - x) <= tol)
        ctx.ensure("the result projects back to the image coordinate (y)", abs(b.y - y) <= tol)
        ctx.ensure("the result is the ground location (20e-6 degrees + half a pixel)",
                   max(abs(w.longitude - glon), abs(w.latitude - glat)) <= ctx.radians(20e-6 + 1.0 / min(r.line_scale / r.lat_scale, r.samp_scale / r.long_scale)))
