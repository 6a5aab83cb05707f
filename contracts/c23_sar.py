"""C23: SAR image operations, for images of every shape."""
import numpy as np

from pvc.ctx import harness

O = "image_processing.sar_complex_imageop."
TRUST = ["numpy's elementwise functions, indexing and reductions on arrays of any shape (element by element; min/max attained bounds; the mean of "
         "non-negative numbers is 0 only if all are)", "pixels are finite numbers"]


def shape(ctx):
    return ctx.int("rows", 1, None if ctx.symbolic else 6), ctx.int("columns", 1, None if ctx.symbolic else 7)


def untouched(ctx, a, before, idx):
    ctx.ensure_eq("the pixels given are not modified", ctx.at(a, idx), before, tol=0)


@harness("C23", [O + "image_pixels_to_complex", O + "complex_to_power_value", O + "power_value_in_decibels"], samples=200, trusted=TRUST)
def power(ctx):
    """The power of a pixel is re^2 + im^2 without overflow; in decibels 10 log10 of it."""
    from aws.osml.image_processing.sar_complex_imageop import complex_to_power_value, image_pixels_to_complex, power_value_in_decibels

    s = shape(ctx)
    kind = ctx.choice("type", ["RE32F_IM32F", "RE16I_IM16I", None])
    dt = ctx.choice("dtype", [np.float64, np.float32] if kind == "RE32F_IM32F" else [np.int16, np.uint8, np.uint16, np.int32, np.int8] if kind else
                    [np.float64, np.float32, np.int16, np.uint16])
    whole = np.issubdtype(dt, np.integer)
    a = ctx.array("pixels", (2,) + s, None if whole else -1000, None if whole else 1000, dt)
    i = ctx.index("i", s)
    re, im = ctx.at(a, (0,) + i), ctx.at(a, (1,) + i)
    c = image_pixels_to_complex(a, pixel_type=kind) if kind or ctx.choice("how", [0, 1]) else image_pixels_to_complex(a)
    ctx.ensure("shape of complex values", ctx.same_shape(c.shape, (2,) + s))
    ctx.ensure_eq("real part", ctx.at(c, (0,) + i), re)
    ctx.ensure_eq("imaginary part", ctx.at(c, (1,) + i), im)
    p = complex_to_power_value(c)
    ctx.ensure("shape of power values", ctx.same_shape(p.shape, s))
    ctx.ensure_eq("power", ctx.at(p, i), ctx.float(re) * re + ctx.float(im) * im, tol=1e-5 if dt is np.float32 else 1e-9)
    untouched(ctx, a, re, (0,) + i)
    untouched(ctx, a, im, (1,) + i)


@harness("C23", [O + "power_value_in_decibels"], samples=60, trusted=TRUST)
def decibels(ctx):
    from aws.osml.image_processing.sar_complex_imageop import power_value_in_decibels

    s = shape(ctx)
    a = ctx.array("power", s, 0.001, 1e6)
    i = ctx.index("i", s)
    v = ctx.at(a, i)
    d = power_value_in_decibels(a)
    ctx.ensure("shape", ctx.same_shape(d.shape, s))
    ctx.ensure_eq("decibels", ctx.at(d, i), 10.0 * ctx.log10(v))
    untouched(ctx, a, v, i)


@harness("C23", [O + "image_pixels_to_complex"], samples=200, trusted=TRUST)
def amplitude_and_phase(ctx):
    """AMP8I_PHS8I: amplitude (through the table if there is one) and phase in 256ths of a turn."""
    from aws.osml.image_processing.sar_complex_imageop import complex_to_power_value, image_pixels_to_complex

    s = shape(ctx)
    a = ctx.array("pixels", (2,) + s, 0, 255, ctx.choice("dtype", [np.uint8, np.int16, np.int64] if not ctx.symbolic else [np.uint8, np.int64]))
    i = ctx.index("i", s)
    amp, ph = ctx.at(a, (0,) + i), ctx.at(a, (1,) + i)
    table = None
    if ctx.choice("table", [True, False]):
        table = ctx.array("table", (256,), 0, 1000)
        want = ctx.at(table, (amp,))
    else:
        want = amp
    given = table
    if table is not None and not ctx.symbolic and ctx.choice("table as", ["array", "list"]) == "list":
        given = table.tolist()
    c = image_pixels_to_complex(a, pixel_type="AMP8I_PHS8I", amplitude_table=given)
    ctx.ensure("shape", ctx.same_shape(c.shape, (2,) + s))
    turn = 2.0 * np.pi * (ph / 256.0)
    ctx.ensure_eq("real part", ctx.at(c, (0,) + i), want * ctx.cos(turn), tol=1e-6, scale=1000)
    ctx.ensure_eq("imaginary part", ctx.at(c, (1,) + i), want * ctx.sin(turn), tol=1e-6, scale=1000)
    p = complex_to_power_value(c)
    ctx.ensure_eq("the power is the amplitude squared", ctx.at(p, i), want * want, tol=1e-6)
    untouched(ctx, a, amp, (0,) + i)
    untouched(ctx, a, ph, (1,) + i)


@harness("C23", [O + "image_pixels_to_complex"], samples=10)
def unknown_type(ctx):
    from aws.osml.image_processing.sar_complex_imageop import image_pixels_to_complex

    a = ctx.array("pixels", (2,) + shape(ctx), -5, 5)
    ctx.ensure_raises("unknown pixel types are rejected", ValueError, image_pixels_to_complex, a, ctx.choice("type", ["RE64F", "", "amp8i_phs8i"]))


@harness("C23", [O + "linear_mapping", O + "get_value_bounds"], samples=200, trusted=TRUST)
def linear(ctx):
    """Linear mapping: increasing, the smallest value to 0, the largest to 1, constant images to 0.5."""
    from aws.osml.image_processing.sar_complex_imageop import get_value_bounds, linear_mapping

    s = shape(ctx)
    dt = ctx.choice("dtype", [np.float64, np.float32, np.int16, np.uint8])
    a = ctx.array("values", s, None if np.issubdtype(dt, np.integer) else -1000, None if np.issubdtype(dt, np.integer) else 1000, dt)
    i = ctx.index("i", s)
    v = ctx.at(a, i)
    lo, hi = ctx.reduce("min", a), ctx.reduce("max", a)
    b = get_value_bounds(a)
    ctx.ensure_eq("smallest value", ctx.float(b[0]), lo)
    ctx.ensure_eq("largest value", ctx.float(b[1]), hi)
    r = linear_mapping(a)
    ctx.ensure("shape", ctx.same_shape(r.shape, s))
    w = ctx.at(r, i)
    if hi == lo:
        ctx.ensure_eq("constant images are gray", w, 0.5)
    else:
        ctx.ensure_eq("mapped value", w, (ctx.float(v) - lo) / (hi - lo), tol=2e-6)
        ctx.ensure("in [0, 1]", ctx.and_(w >= 0, w <= 1))
    untouched(ctx, a, v, i)


def stretched(ctx, x, scale, mean, what, got):
    """255 x / (scale * mean) limited to [0, 255]"""
    if mean == 0:
        ctx.ensure_eq(what + ": blank images are black", got, 0.0)
    else:
        ctx.ensure_eq(what, got, ctx.max(0.0, ctx.min(255.0, 255.0 * x / (scale * mean))), tol=1e-5)
    ctx.ensure(what + " is in [0, 255]", ctx.and_(got >= 0, got <= 255))


@harness("C23", [O + "histogram_stretch_mag_values", O + "quarter_power_mag_values"], samples=300, trusted=TRUST)
def stretches(ctx):
    from aws.osml.image_processing.sar_complex_imageop import histogram_stretch_mag_values, quarter_power_mag_values

    s = shape(ctx)
    dt = ctx.choice("dtype", [np.float64, np.float32, np.uint16])
    a = ctx.array("values", s, 0, 60000 if dt is np.uint16 else 1000, dt)
    i = ctx.index("i", s)
    v = ctx.at(a, i)
    scale = ctx.choice("scale", [None, "any"])
    k = {} if scale is None else {"scale_factor": ctx.real("factor", 0.5, 10)}
    which = ctx.choice("which", ["histogram", "quarter", "quarter, mean"])
    if which == "histogram":
        mean = ctx.reduce("mean", a)
        r = histogram_stretch_mag_values(a, **k)
        x, sc = v, k.get("scale_factor", 8.0)
    else:
        x, sc = ctx.sqrt(v), k.get("scale_factor", 3.0)
        if which == "quarter":
            mean = ctx.reduce("mean", ctx.build(s, lambda *j: ctx.sqrt(ctx.at(a, j))))
            r = quarter_power_mag_values(a, **k)
        else:
            mean = ctx.real("mean", 0.5, 1000)
            r = quarter_power_mag_values(a, precomputed_mean=mean, **k)
    ctx.ensure("shape", ctx.same_shape(r.shape, s))
    stretched(ctx, x, sc, mean, which, ctx.at(r, i))
    untouched(ctx, a, v, i)


@harness("C23", [O + "histogram_stretch_mag_values", O + "quarter_power_mag_values"], sym=False, samples=60, bounded="sampled images with pixels that are not finite")
def stretches_of_images_with_gaps(ctx):
    """Pixels that are not finite do not count: the others are stretched by the mean of the others."""
    from aws.osml.image_processing.sar_complex_imageop import histogram_stretch_mag_values, quarter_power_mag_values

    s = (ctx.int("rows", 1, 6), ctx.int("columns", 2, 7))
    a = np.array(ctx.array("values", s, 0, 1000))
    bad = np.zeros(s, dtype=bool)
    for k in range(ctx.int("gaps", 1, 3)):
        j = (ctx.int(f"r{k}", 0, 5) % s[0], ctx.int(f"c{k}", 0, 6) % s[1])
        a[j], bad[j] = ctx.choice(f"gap{k}", [np.inf, np.nan, -np.inf]), True
    if bad.all():
        return
    which = ctx.choice("which", ["histogram", "quarter"])
    with np.errstate(all="ignore"):
        r = (histogram_stretch_mag_values if which == "histogram" else quarter_power_mag_values)(a.copy())
    x = a[~bad] if which == "histogram" else np.sqrt(a[~bad])
    sc = 8.0 if which == "histogram" else 3.0
    ctx.ensure("shape", r.shape == s)
    for v, g in zip(x, r[~bad]):
        stretched(ctx, float(v), sc, float(np.mean(x)), which, float(g))
    ctx.ensure("infinitely bright pixels are white", all(g == 255 for g in r[a == np.inf]) or not np.mean(x))


@harness("C23", [O + f for f in ("histogram_stretch", "quarter_power_image", "histogram_stretch_mag_values", "quarter_power_mag_values",
                                 "image_pixels_to_complex", "complex_to_power_value")], samples=300, trusted=TRUST)
def images(ctx):
    """The 8-bit images of complex pixels."""
    from aws.osml.image_processing import histogram_stretch, quarter_power_image

    s = shape(ctx)
    kind = ctx.choice("type", [None, "RE32F_IM32F", "RE16I_IM16I", "AMP8I_PHS8I"])
    k = {}
    if kind == "AMP8I_PHS8I":
        a = ctx.array("pixels", (2,) + s, 0, 255, np.uint8)
        if ctx.choice("table", [True, False]):
            k["amplitude_table"] = ctx.array("table", (256,), 0, 1000)
    elif kind == "RE16I_IM16I":
        a = ctx.array("pixels", (2,) + s, None, None, np.int16)
    else:
        a = ctx.array("pixels", (2,) + s, -1000, 1000, np.float64)
    if kind is not None:
        k["pixel_type"] = kind
    i = ctx.index("i", s)

    def pw(*j):
        x, y = ctx.float(ctx.at(a, (0,) + j)), ctx.at(a, (1,) + j)
        if kind == "AMP8I_PHS8I":
            if "amplitude_table" in k:
                x = ctx.at(k["amplitude_table"], (ctx.at(a, (0,) + j),))
            return x * x
        return x * x + ctx.float(y) * ctx.float(y)

    which = ctx.choice("which", ["histogram", "quarter", "quarter, mean"])
    if ctx.choice("scale", [None, "any"]):
        k["scale_factor"] = ctx.real("factor", 0.5, 10)
    if which == "histogram":
        f, x, sc = histogram_stretch, pw, 8.0
    else:
        f, x, sc = quarter_power_image, (lambda *j: ctx.sqrt(pw(*j))), 3.0
    mean = ctx.real("mean", 0.5, 1000) if which == "quarter, mean" else ctx.reduce("mean", ctx.build(s, x))
    if which == "quarter, mean":
        k["precomputed_mean"] = mean
    r = f(a, **k)
    ctx.ensure("shape", ctx.same_shape(r.shape, s))
    stretched(ctx, x(*i), k.get("scale_factor", sc), mean, which, ctx.at(r, i))
