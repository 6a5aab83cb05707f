"""C02: projective transforms, tie-point models and chipped images."""
import numpy as np

from pvc.ctx import harness

T = "photogrammetry.transforms.ProjectiveTransform."
FT = [T + x for x in ("forward", "inverse", "estimate")]
FC = ["photogrammetry.chipped_image_sensor_model.ChippedImageSensorModel." + x for x in ("__init__", "image_to_world", "world_to_image")]
FP = ["photogrammetry.projective_sensor_model.ProjectiveSensorModel." + x for x in ("__init__", "image_to_world", "world_to_image")]


def params(ctx):
    a = [
        ctx.real("a0", -5, 5),
        ctx.real("a1", 0.5, 2, gen=lambda r: r.uniform(0.5, 2)),
        ctx.real("a2", -0.2, 0.2),
        ctx.real("b0", -5, 5),
        ctx.real("b1", -0.2, 0.2),
        ctx.real("b2", 0.5, 2),
        ctx.real("c0", -0.002, 0.002),
        ctx.real("c1", -0.002, 0.002),
    ]
    return a


def proj(a, x, y):
    d = 1 + a[6] * x + a[7] * y
    return (a[0] + a[1] * x + a[2] * y) / d, (a[3] + a[4] * x + a[5] * y) / d


def pts(ctx, rows):
    return np.array(rows, dtype=object if ctx.symbolic else float)


@harness("C02", FT[:2], assume_nonzero=True)
def projective_inverse(ctx):
    from aws.osml.photogrammetry.transforms import ProjectiveTransform

    if ctx.symbolic:
        a = [ctx.real(f"p{i}") for i in range(8)]
    else:
        a = params(ctx)
    t = ProjectiveTransform(np.array(a, dtype=object if ctx.symbolic else float))
    x, y, x2, y2 = [ctx.real(n, -100, 100) for n in ("x", "y", "x2", "y2")]
    src = pts(ctx, [[x, y], [x2, y2]])
    out = t.forward(src)
    e1, e2 = proj(a, x, y), proj(a, x2, y2)
    ctx.ensure_vec("forward is the projective map (row 0)", out[0], e1)
    ctx.ensure_vec("forward is the projective map (row 1)", out[1], e2)
    back = t.inverse(out)
    ctx.ensure_vec("inverse(forward(p)) = p", back[0], [x, y], tol=1e-9)
    ctx.ensure_vec("inverse(forward(p)) = p (row 1)", back[1], [x2, y2], tol=1e-9)
    ctx.ensure_vec("the input array is not modified", src[0], [x, y])


@harness("C02", FT[:2], sym=False, samples=60, bounded="sampled whole coordinates")
def projective_whole_numbers(ctx):
    """Coordinates given as whole numbers are mapped like any other."""
    from aws.osml.photogrammetry.transforms import ProjectiveTransform

    a = params(ctx)
    t = ProjectiveTransform(np.array(a))
    q = [[ctx.int(f"x{i}", -100, 100), ctx.int(f"y{i}", -100, 100)] for i in range(2)]
    for f in (t.forward, t.inverse):
        i, e = f(np.array(q)), f(np.array(q, dtype=float))
        for k in range(2):
            ctx.ensure_vec("whole coordinates", list(i[k]), list(e[k]), tol=1e-9)


@harness("C02", FT[:2], assume_nonzero=True)
def projective_forward_of_inverse(ctx):
    from aws.osml.photogrammetry.transforms import ProjectiveTransform

    a = [ctx.real(f"p{i}") for i in range(8)] if ctx.symbolic else params(ctx)
    t = ProjectiveTransform(np.array(a, dtype=object if ctx.symbolic else float))
    x, y = ctx.real("x", -100, 100), ctx.real("y", -100, 100)
    f = t.forward(t.inverse(pts(ctx, [[x, y]])))
    ctx.ensure_vec("forward(inverse(q)) = q", f[0], [x, y], tol=1e-9)


def estimate_n(n):
    def h(ctx):
        """The normal system handed to the least-squares solver is the projective equations of every tie point."""
        from aws.osml.photogrammetry.transforms import ProjectiveTransform

        from .common import lstsq_contract

        a = params(ctx)
        src = [(ctx.real(f"sx{i}", -100, 100), ctx.real(f"sy{i}", -100, 100)) for i in range(n)]
        if ctx.symbolic:
            dst = [(ctx.real(f"dx{i}"), ctx.real(f"dy{i}")) for i in range(n)]
        else:
            from itertools import combinations

            dst = [proj(a, *s) for s in src]
            # well conditioned: among the first four points no three are collinear
            for p, q, r in combinations(src[:4], 3):
                ctx.assume(abs((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])) > 2000)
        seen = []

        def lsq(A, b, rcond=None):
            seen.append((A, b))
            return lstsq_contract(ctx)(A, b, rcond)

        with ctx.lib(np.linalg.lstsq, lsq):
            t = ProjectiveTransform.estimate(pts(ctx, src), pts(ctx, dst))
        if ctx.symbolic:
            # the residual of the system at any parameter vector q vanishes exactly when q maps every source point
            A, b = seen[0]
            q = [ctx.real(f"q{i}") for i in range(8)]
            ctx.ensure_eq("two equations per tie point", A.shape[0], 2 * n)
            for i in range(n):
                den = 1 + q[6] * src[i][0] + q[7] * src[i][1]
                ex = (q[0] + q[1] * src[i][0] + q[2] * src[i][1]) - dst[i][0] * den
                ey = (q[3] + q[4] * src[i][0] + q[5] * src[i][1]) - dst[i][1] * den
                res = [sum((A[k, j] * q[j] for j in range(8)), 0.0) - b[k] for k in range(2 * n)]
                ctx.ensure(f"equation of x of tie point {i}", ctx.or_(*[_same(ctx, r, ex) for r in res]))
                ctx.ensure(f"equation of y of tie point {i}", ctx.or_(*[_same(ctx, r, ey) for r in res]))
        out = t.forward(pts(ctx, src))
        for i in range(n):
            ctx.ensure_vec(f"the estimated transform maps tie point {i}", out[i], dst[i], tol=1e-9, scale=100)

    h.__name__ = f"projective_estimate_{n}"
    return h


def _same(ctx, a, b):
    """syntactic identity of two polynomials decided by the algebraic back end, as a constant"""
    from pvc import algebra
    from pvc.sym import toreal

    ok = algebra.prove_equalities([(toreal(a), toreal(b))], [], [], budget=5.0)
    if not ok:
        ok = algebra.prove_equalities([(toreal(a), toreal(-b))], [], [], budget=5.0)
    return bool(ok)


for _n in (4,):
    harness("C02", FT, assume_nonzero=True, bounded="4 tie points (any number: projective_estimate_any_number)",
            trusted=["np.linalg.lstsq: exact solution of consistent full-rank systems"])(estimate_n(_n))


@harness("C02", FT, assume_nonzero=True, trusted=["np.linalg.lstsq: exact solution of consistent full-rank systems"])
def projective_estimate_any_number(ctx):
    """Any number of tie points: every one of them is mapped to its partner by the estimated transform."""
    from aws.osml.photogrammetry.transforms import ProjectiveTransform

    a = params(ctx)
    n = ctx.int("n", 4, None if ctx.symbolic else 12)
    src = ctx.array("src", (n, 2), -100, 100)
    if ctx.symbolic:
        dst = ctx.array("dst", (n, 2))
    else:
        src[:4] = [[-100, -100], [100, -100], [100, 100], [-100, 100]]
        dst = np.array([proj(a, *s) for s in src])
    k, = ctx.index("k", (n,))

    def lsq(A, b, rcond=None):
        ctx.ensure("a system of 8 unknowns", A.shape[1] == 8 and ctx.same_shape(A.shape[:1], b.shape))
        x = np.array([ctx.fresh("ls") for _ in range(8)], dtype=object)
        # the solution satisfies every equation; stated at the ones of tie point k in a blockwise or interleaved system
        for i in (k, k + n, 2 * k, 2 * k + 1):
            if ctx.known(i < A.shape[0]):
                r = 0.0
                for j in range(8):
                    r = r + ctx.at(A, (i, j)) * x[j]
                ctx.assume(r == ctx.at(b, (i,)))
        return x, None, 8, None

    with ctx.lib(np.linalg.lstsq, lsq):
        t = ProjectiveTransform.estimate(src, dst)
    out = t.forward(src)
    for c in (0, 1):
        ctx.ensure_eq(f"the estimated transform maps the tie point (component {c})", ctx.at(out, (k, c)), ctx.at(dst, (k, c)), tol=1e-9, scale=100)


@harness("C02", FC + FT, assume_nonzero=True, trusted=["np.linalg.lstsq: exact solution of consistent full-rank systems"])
def chipped_model(ctx):
    """Chip coordinates relate to full-image coordinates by the corner correspondence; options and DEM pass through."""
    from aws.osml.photogrammetry import ChippedImageSensorModel, GeodeticWorldCoordinate, ImageCoordinate

    from .common import lstsq_contract, stub_elevation, stub_model

    full = stub_model(ctx)
    dem = stub_elevation(ctx)
    ox, oy = ctx.real("ox", 0, 1000), ctx.real("oy", 0, 1000)
    w, h = ctx.real("w", 10, 500), ctx.real("h", 10, 500)
    sx, sy = ctx.real("sx", 0.5, 4), ctx.real("sy", 0.5, 4)
    orig = [[ox, oy], [ox + w, oy], [ox + w, oy + h], [ox, oy + h]]
    chip = [[0.0, 0.0], [w * sx, 0.0], [w * sx, h * sy], [0.0, h * sy]]

    def lsq(A, b, rcond=None):
        # unique solution of the corner system: scale and shift
        x = np.array([-ox * sx, sx, 0.0, -oy * sy, 0.0, sy, 0.0, 0.0], dtype=object)
        for i in range(A.shape[0]):
            r = 0.0
            for j in range(8):
                r = r + A[i, j] * x[j]
            ctx.ensure_eq(f"corner system row {i} is the corner correspondence", r, b[i])
        return x, None, 8, None

    with ctx.lib(np.linalg.lstsq, lsq):
        m = ChippedImageSensorModel([ImageCoordinate(c) for c in orig], [ImageCoordinate(c) for c in chip], full)
    px, py = ctx.real("px", 0, 500), ctx.real("py", 0, 500)
    opts = {"any": 1}
    use = ctx.choice("dem", [False, True])
    other = stub_elevation(ctx, "dem0")
    # earlier questions have no influence: the same pixel with another surface, another pixel
    w0 = m.image_to_world(ImageCoordinate([px, py]), elevation_model=other)
    w0.longitude = 7.0
    m.image_to_world(ImageCoordinate([py, px]), options={"x": 2})
    full.log.clear()
    pc = ImageCoordinate([px, py])
    wc = m.image_to_world(pc, elevation_model=dem if use else None, options=opts)
    ctx.ensure_vec("the pixel passed in is not modified", pc.coordinate, [px, py])
    ex, ey = ox + px / sx, oy + py / sy
    exp = full.spec_i2w(ex, ey)
    if use:
        exp = exp[:2] + [dem.elev(exp[0], exp[1])]
    ctx.ensure_vec("full image location of the chip pixel", full.log[-1][1], [ex, ey], tol=1e-8)
    ctx.ensure_vec("world location of a chip pixel is that of the full image pixel", wc.coordinate, exp, tol=1e-6)
    ctx.ensure("elevation model and options reach the full image model", full.log[-1][2] is (dem if use else None) and full.log[-1][3] is opts)
    lon, lat, el = ctx.real("lon", -1, 1), ctx.real("lat", -1, 1), ctx.real("el", 0, 100)
    m.world_to_image(GeodeticWorldCoordinate([lon, lat, el + 1.0])).x = 3.0
    gw = GeodeticWorldCoordinate([lon, lat, el])
    ic = m.world_to_image(gw)
    ctx.ensure_vec("the location passed in is not modified", gw.coordinate, [lon, lat, el])
    fx, fy = full.spec_w2i(lon, lat, el)
    ctx.ensure_vec("chip pixel of a world location", ic.coordinate, [(fx - ox) * sx, (fy - oy) * sy], tol=1e-8, scale=1000)


@harness("C02", FC + FT, assume_nonzero=True, bounded="corner correspondences: 4 points",
         trusted=["np.linalg.lstsq: exact solution of consistent full-rank systems"])
def chipped_corners(ctx):
    """Arbitrary (rotated, sheared) corner correspondences: each chip corner maps to its own original corner."""
    from aws.osml.photogrammetry import ChippedImageSensorModel, GeodeticWorldCoordinate, ImageCoordinate

    from .common import lstsq_contract, stub_model

    full = stub_model(ctx)
    a = params(ctx)
    w, h = ctx.real("w", 50, 100), ctx.real("h", 50, 100)
    orig = [[0.0, 0.0], [w, 0.0], [w, h], [0.0, h]]
    if ctx.symbolic:
        chip = [[ctx.real(f"cx{i}"), ctx.real(f"cy{i}")] for i in range(4)]
    else:
        chip = [list(proj(a, *p)) for p in orig]
    with ctx.lib(np.linalg.lstsq, lstsq_contract(ctx)):
        m = ChippedImageSensorModel([ImageCoordinate(c) for c in orig], [ImageCoordinate(c) for c in chip], full)
    k = ctx.choice("corner", [0, 1, 2, 3])
    m.image_to_world(ImageCoordinate(chip[k]))
    if not ctx.symbolic:
        ctx.ensure_vec("chip corner k maps to original corner k", full.log[-1][1], orig[k], tol=1e-9, scale=100)
    full.spec_w2i = lambda lon, lat, el: orig[k]
    ic = m.world_to_image(GeodeticWorldCoordinate([0.1, 0.1, 0.0]))
    ctx.ensure_vec("original corner k maps to chip corner k", ic.coordinate, chip[k], tol=1e-9, scale=100)


@harness("C02", FP + FT, assume_nonzero=True, trusted=["np.linalg.lstsq: exact solution of consistent full-rank systems"])
def tie_point_model(ctx):
    """A tie-point model reproduces its projective correspondence in both directions, in radians."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    from aws.osml.photogrammetry.projective_sensor_model import ProjectiveSensorModel

    from .common import stub_elevation

    dem = stub_elevation(ctx)
    # lon/lat (radians) -> pixels
    a = [ctx.real("a0", -5, 5), ctx.real("a1", 800, 1200), ctx.real("a2", -50, 50), ctx.real("b0", -5, 5), ctx.real("b1", -50, 50),
         ctx.real("b2", -1200, -800), ctx.real("c0", -0.05, 0.05), ctx.real("c1", -0.05, 0.05)]
    lon0, lat0 = ctx.real("lon0", -0.2, 0.2), ctx.real("lat0", -0.2, 0.2)
    d = 0.125
    gc = [(lon0 + d * i, lat0 + d * j) for i in (0, 1) for j in (0, 1)]
    ic = [proj(a, *g) for g in gc]

    def lsq(A, b, rcond=None):
        for i in range(A.shape[0]):
            r = 0.0
            for j in range(8):
                r = r + A[i, j] * a[j]
            ctx.ensure_eq(f"tie point system row {i} holds for the true transform", r, b[i])
        return np.array(a, dtype=object), None, 8, None

    with ctx.lib(np.linalg.lstsq, lsq):
        m = ProjectiveSensorModel([GeodeticWorldCoordinate([g[0], g[1], 0.0]) for g in gc], [ImageCoordinate(list(p)) for p in ic])
    far = (None, None) if ctx.symbolic else (-0.3, 0.3)
    lon, lat, h = ctx.real("lon", *far), ctx.real("lat", *far), ctx.real("h", 0, 500)
    p = m.world_to_image(GeodeticWorldCoordinate([lon, lat, h]))
    ctx.ensure_vec("pixel of a world location", p.coordinate, proj(a, lon, lat), tol=1e-9, scale=1000)
    use = ctx.choice("dem", [False, True, "no coverage"])
    if use == "no coverage":
        dem = stub_elevation(ctx, outside=0.0)
    m.image_to_world(p, elevation_model=stub_elevation(ctx, "dem0")).latitude = 7.0
    w = m.image_to_world(p, elevation_model=dem if use else None)
    ctx.ensure_vec("the pixel passed in is not modified", p.coordinate, proj(a, lon, lat), tol=1e-9, scale=1000)
    ctx.ensure_vec("image_to_world inverts world_to_image", w.coordinate[0:2], [lon, lat], tol=1e-9)
    ctx.ensure_eq("elevation from the elevation model or 0", w.elevation, dem.elev(w.longitude, w.latitude) if use else 0.0, tol=1e-9)


@harness("C02", FP + FC + FT, sym=False, samples=120, bounded="sampled scenes of real size anywhere on Earth")
def scenes_of_real_size(ctx):
    """Scenes of 2 to 600 km anywhere, images of thousands of pixels: pixels to 1/20, locations to 6 cm."""
    from aws.osml.photogrammetry import ChippedImageSensorModel, GeodeticWorldCoordinate, ImageCoordinate
    from aws.osml.photogrammetry.projective_sensor_model import ProjectiveSensorModel

    from .common import stub_elevation

    lon0, lat0, ext = ctx.real("lon0", -3, 3), ctx.real("lat0", -1.4, 1.4), 10 ** ctx.real("size", -3.5, -1)
    W, H, c0, c1 = ctx.real("W", 500, 20000), ctx.real("H", 500, 20000), ctx.real("c0", -0.1, 0.1), ctx.real("c1", -0.1, 0.1)

    def pix(u, v):
        d = 1 + c0 * u + c1 * v
        return [W * u / d, H * (1 - v) / d]

    corners = [(0, 0), (1, 0), (1, 1), (0, 1)] + [(ctx.real(f"u{i}", 0, 1), ctx.real(f"v{i}", 0, 1)) for i in range(ctx.choice("more", [0, 1, 20]))]
    m = ProjectiveSensorModel([GeodeticWorldCoordinate([lon0 + ext * u, lat0 + ext * v, 0.0]) for u, v in corners], [ImageCoordinate(pix(u, v)) for u, v in corners])
    dem = ctx.choice("dem", [None, stub_elevation(ctx), stub_elevation(ctx, outside=0.0)])
    u, v = ctx.real("u", 0, 1), ctx.real("v", 0, 1)
    lon, lat, p = lon0 + ext * u, lat0 + ext * v, pix(u, v)
    q = m.world_to_image(GeodeticWorldCoordinate([lon, lat, ctx.real("h", -100, 4000)]))
    ctx.ensure("pixel of a location of the scene", abs(q.x - p[0]) < 0.05 and abs(q.y - p[1]) < 0.05)
    w = m.image_to_world(ImageCoordinate(list(p)), elevation_model=dem)
    ctx.ensure("location of a pixel", abs(w.longitude - lon) < 1e-8 and abs(w.latitude - lat) < 1e-8)
    ctx.ensure_eq("elevation of the surface or 0", w.elevation, dem.elev(w.longitude, w.latitude) if dem else 0.0)
    # a chip of the image, at its own size
    x0, y0, w0, h0 = ctx.int("x0", 0, 20000), ctx.int("y0", 0, 20000), ctx.int("cw", 64, 4000), ctx.int("ch", 64, 4000)
    s, t = ctx.real("sx", 0.1, 4), ctx.real("sy", 0.1, 4)

    class Full:
        def world_to_image(self, world_coordinate):
            return ImageCoordinate([x0 + w0 * u, y0 + h0 * v])

        def image_to_world(self, image_coordinate, elevation_model=None, options=None):
            self.asked = [image_coordinate.x, image_coordinate.y]
            return GeodeticWorldCoordinate([0.1, 0.2, 0.0])

    full = Full()
    c = ChippedImageSensorModel([ImageCoordinate([x0 + a * w0, y0 + b * h0]) for a, b in corners[:4]],
                                [ImageCoordinate([a * w0 * s, b * h0 * t]) for a, b in corners[:4]], full)
    q = c.world_to_image(GeodeticWorldCoordinate([0.1, 0.2, 0.0]))
    ctx.ensure("chip pixel of a full image pixel", abs(q.x - u * w0 * s) < 5e-3 and abs(q.y - v * h0 * t) < 5e-3)
    c.image_to_world(ImageCoordinate([u * w0 * s, v * h0 * t]))
    ctx.ensure("full image pixel of a chip pixel", abs(full.asked[0] - x0 - w0 * u) < 5e-3 and abs(full.asked[1] - y0 - h0 * v) < 5e-3)
