"""C07: SICD image grid and image plane conversions."""
import math

import numpy as np

from pvc.ctx import harness

P = "photogrammetry.sicd_sensor_model.SARImageCoordConverter."
F = [P + x for x in ("__init__", "rowcol_to_xrowycol", "xrowycol_to_rowcol", "xrowycol_to_ipp", "ipp_to_xrowycol")]


def unit(ctx, name):
    """A unit vector."""
    if ctx.symbolic:
        a, b, c = ctx.real(name + "0"), ctx.real(name + "1"), ctx.real(name + "2")
        ctx.relation(c, 2, 1 - a * a - b * b)
        return np.array([a, b, c], dtype=object)
    t, f = ctx.real(name + "t", 0, 2 * math.pi), ctx.real(name + "f", -1.5, 1.5)
    return np.array([math.cos(f) * math.cos(t), math.cos(f) * math.sin(t), math.sin(f)])


def vdot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def vcross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def arr(ctx, v):
    return np.array(list(v), dtype=object if ctx.symbolic else float)


def grid(ctx, first=False):
    from aws.osml.photogrammetry import ImageCoordinate, SARImageCoordConverter, WorldCoordinate

    ur, uc = unit(ctx, "ur"), unit(ctx, "uc")
    ct = vdot(ur, uc)
    ctx.assume(1 - ct * ct > (0 if ctx.symbolic else 0.05))
    scp = [ctx.real(f"scp{i}", -7e6, 7e6) for i in range(3)]
    sr, sc = ctx.real("scp_row", 0, 1e5), ctx.real("scp_col", 0, 1e5)
    rs, cs = ctx.real("row_ss", 0.05, 20), ctx.real("col_ss", 0.05, 20)
    kw = {}
    if first:
        kw["first_pixel"] = ImageCoordinate([ctx.real("first_x", 0, 1000), ctx.real("first_y", 0, 1000)])
    k = SARImageCoordConverter(scp_pixel=ImageCoordinate([sc, sr]), scp_ecf=WorldCoordinate(scp), u_row=ur, u_col=uc,
                               row_ss=rs, col_ss=cs, **kw)
    return k, ur, uc, scp, sr, sc, rs, cs


@harness("C07", F[:3], assume_nonzero=True)
def grid_to_image_coordinates(ctx):
    k, ur, uc, scp, sr, sc, rs, cs = grid(ctx, first=True)
    r, c = ctx.real("r", -1e5, 1e5), ctx.real("c", -1e5, 1e5)
    a = arr(ctx, [r, c])
    o = k.rowcol_to_xrowycol(a)
    ctx.ensure_vec("xrow, ycol are the distances in metres from the scene center pixel", o, [(r - sr) * rs, (c - sc) * cs])
    b = k.xrowycol_to_rowcol(o)
    ctx.ensure_vec("row, col -> xrow, ycol -> row, col", b, [r, c])
    ctx.ensure_vec("xrow, ycol are not modified", o, [(r - sr) * rs, (c - sc) * cs])
    ctx.ensure_vec("the input is not modified", a, [r, c])
    x, y = ctx.real("x", -1e5, 1e5), ctx.real("y", -1e5, 1e5)
    q = k.xrowycol_to_rowcol(arr(ctx, [x, y]))
    ctx.ensure_vec("row, col of an xrow, ycol", q, [x / rs + sr, y / cs + sc])


@harness("C07", [F[0], F[3], F[4]], assume_nonzero=True)
def image_plane_round_trip(ctx):
    """For unit row and column directions at any angle to each other (not only a right angle)."""
    k, ur, uc, scp, sr, sc, rs, cs = grid(ctx)
    x, y = ctx.real("x", -1e5, 1e5), ctx.real("y", -1e5, 1e5)
    a = arr(ctx, [x, y])
    p = k.xrowycol_to_ipp(a)
    ctx.ensure_vec("image plane point = SCP + xrow u_row + ycol u_col", p, [scp[i] + x * ur[i] + y * uc[i] for i in range(3)])
    b = k.ipp_to_xrowycol(p)
    ctx.ensure_vec("xrow, ycol -> image plane -> xrow, ycol", b, [x, y], scale=1e6, tol=1e-9)
    ctx.ensure_vec("the input is not modified", a, [x, y])
    ctx.ensure_vec("the image plane point is not modified", p, [scp[i] + x * ur[i] + y * uc[i] for i in range(3)])
    ctx.ensure_vec("converting it again gives the same", k.ipp_to_xrowycol(p), [x, y], scale=1e6, tol=1e-9)
    ctx.ensure_vec("the scene center point is not modified", k.scp_ecf.coordinate, scp)


@harness("C07", [F[0]], assume_nonzero=True)
def image_plane_normal(ctx):
    k, ur, uc, scp, *_ = grid(ctx)
    n = k.uvect_ipn
    ctx.ensure_eq("unit length", vdot(n, n), 1.0)
    ctx.ensure_eq("perpendicular to the row direction", vdot(n, ur), 0.0)
    ctx.ensure_eq("perpendicular to the column direction", vdot(n, uc), 0.0)
    x = vcross(ur, uc)
    s = ctx.sqrt(vdot(x, x))
    ctx.ensure_vec("the normal is u_row x u_col scaled to unit length", [n[i] * s for i in range(3)], x)


@harness("C07", [F[0], F[3], F[4]], assume_nonzero=True)
def image_plane_projection(ctx):
    """A point off the plane gets the coordinates of its orthogonal projection onto the plane."""
    k, ur, uc, scp, *_ = grid(ctx)
    x, y, d = ctx.real("x", -1e5, 1e5), ctx.real("y", -1e5, 1e5), ctx.real("d", -1e4, 1e4)
    n = vcross(ur, uc)
    p = arr(ctx, [scp[i] + x * ur[i] + y * uc[i] + d * n[i] for i in range(3)])
    b = k.ipp_to_xrowycol(p)
    ctx.ensure_vec("coordinates of the foot of the perpendicular", b, [x, y], scale=1e6, tol=1e-9)
