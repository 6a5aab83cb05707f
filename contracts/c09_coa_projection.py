"""C09: image grid location -> range / range-rate contour (SICD Volume 3, sections 2 and 4)."""
import numpy as np

from pvc.ctx import Structural, harness

from .c07_sicd_grid import arr, vdot

P = "photogrammetry.sicd_sensor_model."
FC = [P + "COAProjectionSet." + x for x in ("__init__", "precise_rrdot_computation")]


class Fun:
    """An arbitrary differentiable function of one variable: value and first derivative are arbitrary functions."""

    def __init__(self, ctx, name, lo=-3.0, hi=3.0, order=0):
        self.ctx, self.name, self.lo, self.hi, self.order = ctx, name, lo, hi, order
        self.f = ctx.uf(f"{name}_d{order}", 1, lo, hi)

    def __call__(self, t):
        v = self.f(t)
        return v if self.ctx.symbolic else np.float64(v)

    def deriv(self, m=1):
        return Fun(self.ctx, self.name, self.lo, self.hi, self.order + m)


def platform(ctx):
    """Platform path with arbitrary components."""
    from aws.osml.photogrammetry import PolynomialXYZ

    fs = [Fun(ctx, f"arp{i}", *b) for i, b in enumerate(((6.9e6, 7.1e6), (-1e5, 1e5), (-1e5, 1e5)))]
    return PolynomialXYZ(*fs), fs


def common(ctx):
    t = ctx.uf("tcoa", 2, 0.0, 5.0)
    tp = (lambda x, y: t(x, y)) if ctx.symbolic else (lambda x, y: np.float64(t(x, y)))
    path, fs = platform(ctx)
    x, y = ctx.real("x", -5e3, 5e3), ctx.real("y", -5e3, 5e3)
    kw = {}
    off = ctx.choice("offsets", [False, True])
    da, dv, rb = [0.0] * 3, [0.0] * 3, 0.0
    if off:
        da = [ctx.real(f"da{i}", -10, 10) for i in range(3)]
        dv = [ctx.real(f"dv{i}", -1, 1) for i in range(3)]
        rb = ctx.real("rb", -10, 10)
        kw = dict(delta_arp=arr(ctx, da), delta_varp=arr(ctx, dv), range_bias=rb)
    tc = t(x, y)
    A = [f(tc) for f in fs]
    V = [f.deriv()(tc) for f in fs]
    return tp, path, x, y, kw, da, dv, rb, tc, A, V


def finish(ctx, ps, x, y, da, dv, rb, tc, A, V, R, Rd, kw):
    for k in range(2):
        what = "" if k == 0 else " (second call)"
        r, rd, t, a, v = ps.precise_rrdot_computation(arr(ctx, [x, y]))
        ctx.ensure_eq("COA time" + what, t, tc)
        ctx.ensure_vec("platform position at COA plus its offset" + what, a, [A[i] + da[i] for i in range(3)])
        ctx.ensure_vec("platform velocity at COA plus its offset" + what, v, [V[i] + dv[i] for i in range(3)])
        ctx.ensure_eq("range at COA plus the range bias" + what, r, R + rb, tol=1e-9)
        ctx.ensure_eq("range rate at COA" + what, rd, Rd, tol=1e-8)
    if kw:
        ctx.ensure_vec("the offsets passed in are not modified", kw["delta_arp"], da)
        ctx.ensure_vec("the velocity offsets passed in are not modified", kw["delta_varp"], dv)


def to_scp(ctx, A, V, scp):
    d = [A[i] - scp[i] for i in range(3)]
    r = ctx.sqrt(vdot(d, d))
    return r, vdot(V, d) / r


@harness("C09", FC + [P + "PFAProjectionSet._grid_specific_projection"], assume_nonzero=True)
def pfa_projection(ctx):
    from aws.osml.photogrammetry import PFAProjectionSet, WorldCoordinate

    tp, path, x, y, kw, da, dv, rb, tc, A, V = common(ctx)
    scp = [ctx.real(f"scp{i}", -6.4e6, 6.4e6) for i in range(3)]
    pa, sf = Fun(ctx, "pa", -0.1, 0.1), Fun(ctx, "ksf", 0.9, 1.1)
    ps = PFAProjectionSet(scp_ecf=WorldCoordinate(scp), polar_ang_poly=pa, spatial_freq_sf_poly=sf, coa_time_poly=tp, arp_poly=path, **kw)
    r0, rd0 = to_scp(ctx, A, V, scp)
    th, dth = pa(tc), pa.deriv()(tc)
    k, dk = sf(th), sf.deriv()(th)
    ka = x * ctx.cos(th) + y * ctx.sin(th)
    kc = -x * ctx.sin(th) + y * ctx.cos(th)
    finish(ctx, ps, x, y, da, dv, rb, tc, A, V, r0 + k * ka, rd0 + (dk * ka + k * kc) * dth, kw)


@harness("C09", FC + [P + "RGAZCOMPProjectionSet._grid_specific_projection"], assume_nonzero=True)
def rgazcomp_projection(ctx):
    from aws.osml.photogrammetry import RGAZCOMPProjectionSet, WorldCoordinate

    tp, path, x, y, kw, da, dv, rb, tc, A, V = common(ctx)
    scp = [ctx.real(f"scp{i}", -6.4e6, 6.4e6) for i in range(3)]
    az = ctx.real("azsf", -1e-5, 1e-5)
    ps = RGAZCOMPProjectionSet(scp_ecf=WorldCoordinate(scp), az_scale_factor=az, coa_time_poly=tp, arp_poly=path, **kw)
    r0, rd0 = to_scp(ctx, A, V, scp)
    finish(ctx, ps, x, y, da, dv, rb, tc, A, V, r0 + x, rd0 - ctx.sqrt(vdot(V, V)) * az * y, kw)


@harness("C09", FC + [P + "INCAProjectionSet._grid_specific_projection"], assume_nonzero=True)
def inca_projection(ctx):
    from aws.osml.photogrammetry import INCAProjectionSet

    tp, path, x, y, kw, da, dv, rb, tc, A, V = common(ctx)
    rca = ctx.real("rca", 5e5, 9e5)
    tca = Fun(ctx, "tca", 0.0, 5.0)
    dr = ctx.uf("drsf", 2, 0.8, 1.2)
    ps = INCAProjectionSet(r_ca_scp=rca, inca_time_coa_poly=tca, drate_sf_poly=lambda a, b: dr(a, b), coa_time_poly=tp, arp_poly=path, **kw)
    ta = tca(y)
    va = [f.deriv()(ta) for f in (path.x_polynomial, path.y_polynomial, path.z_polynomial)]
    d, dt = dr(x, y), tc - ta
    v2 = vdot(va, va)
    r2 = (rca + x) * (rca + x) + d * v2 * dt * dt
    ctx.assume(r2 > 0)
    r = ctx.sqrt(r2)
    finish(ctx, ps, x, y, da, dv, rb, tc, A, V, r, d / r * v2 * dt, kw)


@harness("C09", FC + [P + "PlaneProjectionSet._grid_specific_projection"], assume_nonzero=True)
def plane_projection(ctx):
    from aws.osml.photogrammetry import PlaneProjectionSet, WorldCoordinate

    tp, path, x, y, kw, da, dv, rb, tc, A, V = common(ctx)
    scp = [ctx.real(f"scp{i}", -6.4e6, 6.4e6) for i in range(3)]
    ur, uc = [arr(ctx, [ctx.real(f"{n}{i}", -1, 1) for i in range(3)]) for n in ("ur", "uc")]
    ps = PlaneProjectionSet(scp_ecf=WorldCoordinate(scp), image_plane_urow=ur, image_plane_ucol=uc, coa_time_poly=tp, arp_poly=path, **kw)
    r0, rd0 = to_scp(ctx, A, V, [scp[i] + x * ur[i] + y * uc[i] for i in range(3)])
    finish(ctx, ps, x, y, da, dv, rb, tc, A, V, r0, rd0, kw)
    ctx.ensure_vec("the scene center is not modified", ps.scp_ecf.coordinate, scp)


def horner(c, t):
    r = 0.0
    for v in reversed(c):
        r = r * t + v
    return r


@harness("C09", [P + "Polynomial2D.__init__", P + "Polynomial2D.__call__"], bounded="coefficient arrays up to 4 x 4", samples=100)
def polynomial_2d(ctx):
    from aws.osml.photogrammetry import Polynomial2D

    n, m = ctx.choice("n", [1, 2, 3, 4]), ctx.choice("m", [1, 2, 3, 4])
    c = [[ctx.real(f"c{i}{j}", -5, 5) for j in range(m)] for i in range(n)]
    x, y = ctx.real("x", -3, 3), ctx.real("y", -3, 3)
    p = Polynomial2D(np.array(c, dtype=object if ctx.symbolic else float))
    # full double precision: the polynomials of an image are times and distances to be good to a fraction of a pixel
    ctx.ensure_eq("coef[i][j] multiplies x^i y^j", p(x, y), horner([horner(r, y) for r in c], x), tol=1e-11, scale=5 * 3 ** (n + m - 1))
    for bad in ([1.0, 2.0], [[[1.0]]]):
        v, e = ctx.attempt(Polynomial2D, bad)
        ctx.ensure("coefficients that are not a two-dimensional array are rejected", isinstance(e, ValueError))


@harness("C09", [P + "PolynomialXYZ.__call__", P + "PolynomialXYZ.deriv"], bounded="degrees up to 4", samples=100)
def polynomial_xyz(ctx):
    from aws.osml.photogrammetry import PolynomialXYZ

    n = ctx.choice("n", [1, 2, 3, 5])
    c = [[ctx.real(f"c{i}{j}", -5, 5) for j in range(n)] for i in range(3)]
    t = ctx.real("t", -3, 3)
    if ctx.symbolic:
        ps = [np.polynomial.Polynomial(np.array(r, dtype=object)) for r in c]
    else:
        ps = [np.polynomial.Polynomial(r) for r in c]
    q = PolynomialXYZ(*ps)
    ctx.ensure_vec("one value per axis, in x, y, z order", q(t), [horner(r, t) for r in c], tol=1e-11, scale=1e3)
    d = q.deriv()
    ctx.ensure_vec("first derivative", d(t), [horner([k * r[k] for k in range(1, n)] or [0.0], t) for r in c], tol=1e-11, scale=1e4)
    d = q.deriv(m=2)
    ctx.ensure_vec("second derivative", d(t), [horner([k * (k - 1) * r[k] for k in range(2, n)] or [0.0], t) for r in c], tol=1e-11, scale=1e5)


@harness("C09", [P + "PolynomialXYZ.__init__", P + "PolynomialXYZ.__call__", P + "PolynomialXYZ.deriv"], samples=100)
def polynomial_xyz_any_degree(ctx):
    """Polynomials of any degree: the components are arbitrary functions with their derivatives."""
    from aws.osml.photogrammetry import PolynomialXYZ

    fs = [Fun(ctx, f"f{i}") for i in range(3)]
    q = PolynomialXYZ(*fs)
    t, s = ctx.real("t", -3, 3), ctx.real("s", -3, 3)
    ctx.ensure_vec("one value per axis, in x, y, z order", q(t), [f(t) for f in fs])
    d = q.deriv()
    ctx.ensure_vec("first derivative", d(s), [f.deriv()(s) for f in fs])
    d2 = q.deriv(m=2)
    ctx.ensure_vec("second derivative", d2(s), [f.deriv(2)(s) for f in fs])
    ctx.ensure_vec("derivatives do not change the polynomial", q(s), [f(s) for f in fs])
    ctx.ensure_vec("nor earlier derivatives", d(t), [f.deriv()(t) for f in fs])


@harness("C09", [P + "Polynomial2D.__init__", P + "Polynomial2D.__call__"], samples=100,
         trusted=["np.polynomial.polynomial.polyval2d(x, y, c): sum of c[i][j] x^i y^j"])
def polynomial_2d_any_size(ctx):
    """Coefficient arrays of any size: NumPy's evaluation, with exactly these coefficients and arguments."""
    from aws.osml.photogrammetry import Polynomial2D

    n, m = ctx.int("n", 1, 9), ctx.int("m", 1, 9)
    c = ctx.array("c", (n, m), lo=-5, hi=5)
    p = Polynomial2D(c)
    calls = []

    def polyval2d(x, y, coef):
        calls.append((x, y, coef))
        return token

    token = ctx.real("value", -9, 9)
    import numpy.polynomial.polynomial as npp

    for k in range(2):
        x, y = ctx.real(f"x{k}", -3, 3), ctx.real(f"y{k}", -3, 3)
        calls.clear()
        with ctx.patch(npp, "polyval2d", polyval2d):
            got = p(x, y)
        if not calls:
            raise Structural("another evaluation")
        ctx.ensure_vec("at the arguments in their order", list(calls[-1][:2]), [x, y])
        ctx.ensure("coefficients of the same shape", ctx.is_array(calls[-1][2]) and ctx.same_shape(calls[-1][2].shape, (n, m)))
        i = ctx.index("i", (n, m))
        ctx.ensure_eq("with the given coefficients", ctx.at(calls[-1][2], i), ctx.at(c, i))
        ctx.ensure_eq("its value", got, token)
