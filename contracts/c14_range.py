"""C14: dynamic range adjustment parameters, pixel type ranges and scale parameters."""
import numpy as np

from pvc.ctx import harness

from .common import Rec

D = "gdal.dynamic_range_adjustment.DRAParameters."
U = "gdal.gdal_utils."


def spec(ctx, counts, lo_p, hi_p, a, b):
    """Bucket positions (suggested min, suggested max, first, last non-empty) of a histogram."""
    n = len(counts)
    first = next(i for i in range(n) if counts[i] != 0)
    last = next(i for i in reversed(range(n)) if counts[i] != 0)
    cum = [counts[0]]
    for c in counts[1:]:
        cum.append(cum[-1] + c)
    low, high = lo_p * cum[-1], hi_p * cum[-1]
    e0 = next((i for i in range(n) if cum[i] >= low), n - 1)
    e1 = next((i for i in reversed(range(n)) if cum[i] <= high), 0)
    e1 = max(e0, e1)
    return ctx.max(first, e0 - a * (e1 - e0)), ctx.min(last, e1 + b * (e1 - e0)), first, last


@harness("C14", [D + "from_counts", D + "__init__"], samples=300, bounded="histograms of up to 4 buckets (any counts); up to 60 on sampled runs",
         limits=dict(max_paths=3000, max_seconds=200))
def dra_from_counts(ctx):
    from aws.osml.gdal.dynamic_range_adjustment import DRAParameters

    n = ctx.choice("n", [1, 2, 3, 4]) if ctx.symbolic else ctx.choice("n", [1, 2, 3, 4, 7, 20, 60])
    if ctx.symbolic:
        counts = [ctx.int(f"k{i}", 0, None) for i in range(n)]
        ctx.assume(ctx.or_(*[c > 0 for c in counts]))
    else:
        counts = [ctx.int(f"k{i}", 0, 20) * ctx.choice(f"m{i}", [0, 1, 1, 50]) for i in range(n)]
        ctx.assume(any(counts))
    kw = {}
    kind = ctx.choice("buckets", ["default", "given", "first", "last"] if n < 4 else ["given"])
    f, l = 0, n
    if kind in ("given", "first"):
        f = kw["first_bucket_value"] = ctx.choice("f0", [0, None]) if not ctx.symbolic else ctx.real("f", -1000, 1000)
        if f is None:
            f = kw["first_bucket_value"] = ctx.real("f", -1000, 1000)
    if kind in ("given", "last"):
        l = kw["last_bucket_value"] = ctx.choice("l0", [0, None]) if not ctx.symbolic else ctx.real("l", -1000, 1000)
        if l is None:
            l = kw["last_bucket_value"] = ctx.real("l", -1000, 1000)
    ctx.assume(f < l)
    p0, p1, a, b = 0.02, 0.98, 0.2, 0.4
    if ctx.choice("weights", ["default", "given"] if n < 4 and kind == "given" or not ctx.symbolic else ["default"]) == "given":
        p0, p1 = ctx.choice("percent", [(0.02, 0.98), (0.1, 0.8), (0.001, 1.0), (0.3, 0.4)])
        a, b = ctx.choice("ab", [(0.0, 0.0), (0.2, 0.4), (1.0, 0.5)])
        kw.update(min_percentage=p0, max_percentage=p1, a=a, b=b)
    given = list(counts)
    p = DRAParameters.from_counts(counts, **kw)
    ctx.ensure("the histogram is not modified", len(counts) == n and all(x is y or x == y for x, y in zip(counts, given)))
    s0, s1, i0, i1 = spec(ctx, given, p0, p1, a, b)
    step = (l - f) / n
    tol = 1e-9
    ctx.ensure_eq("actual minimum: the first bucket with counts", p.actual_min_value, f + i0 * step, tol=tol)
    ctx.ensure_eq("actual maximum: the last bucket with counts", p.actual_max_value, f + i1 * step, tol=tol)
    ctx.ensure_eq("suggested minimum", p.suggested_min_value, f + s0 * step, tol=tol)
    ctx.ensure_eq("suggested maximum", p.suggested_max_value, f + s1 * step, tol=tol)
    ctx.ensure_le("the suggested range is within the actual range (low)", p.actual_min_value, p.suggested_min_value, tol=tol)
    ctx.ensure_le("the suggested range is within the actual range (high)", p.suggested_max_value, p.actual_max_value, tol=tol)
    ctx.ensure_le("the suggested minimum is not above the suggested maximum", p.suggested_min_value, p.suggested_max_value, tol=tol)


def dra_loops():
    """Loop contracts of from_counts, for histograms of any length (H: the histogram and its prefix sums, set by the contract below)."""
    from pvc.loops import ForAll, LoopSpec

    fn = "aws.osml.gdal.dynamic_range_adjustment:DRAParameters.from_counts#"

    def first(env, _):
        a = env["actual_min_value"]
        return [("range", (0 <= a) & (a <= H.n)), ("empty before", ForAll(0, a, lambda j: H.c(j) == 0))]

    def last(env, _):
        a = env["actual_max_value"]
        return [("range", (0 <= a) & (a <= H.n - 1)), ("empty after", ForAll(a + 1, H.n, lambda j: H.c(j) == 0))]

    def sums(env, i):
        a = env["cumulative_counts"]
        H.cum = a
        return [("summed", ForAll(0, i + 1, lambda j: a.at(j) == H.s(j))), ("not yet summed", ForAll(i + 1, H.n, lambda j: a.at(j) == H.c(j)))]

    def low(env, _):
        a = env["e_min"]
        return [("range", (0 <= a) & (a <= H.n - 1)), ("below", ForAll(0, a, lambda j: H.s(j) < H.p0 * H.s(H.n - 1)))]

    def high(env, _):
        a = env["e_max"]
        return [("range", (0 <= a) & (a <= H.n - 1)), ("above", ForAll(a + 1, H.n, lambda j: H.s(j) > H.p1 * H.s(H.n - 1)))]

    return [LoopSpec(fn + "w1", first, variant=lambda e: H.n - e["actual_min_value"]), LoopSpec(fn + "w2", last, variant=lambda e: e["actual_max_value"]),
            LoopSpec(fn + "1", sums), LoopSpec(fn + "w3", low, variant=lambda e: H.n - e["e_min"]), LoopSpec(fn + "w4", high, variant=lambda e: e["e_max"])]


class H:
    pass


@harness("C14", [D + "from_counts", D + "__init__"], samples=200, loops=dra_loops(), limits=dict(max_seconds=120))
def dra_from_any_counts(ctx):
    """Histograms of any length, with loop contracts; the percentages and weights are any numbers in their ranges."""
    from aws.osml.gdal.dynamic_range_adjustment import DRAParameters

    n = ctx.int("n", 1, None if ctx.symbolic else 100)
    f, l = ctx.real("f", -1000, 1000), ctx.real("l", -1000, 1000)
    ctx.assume(f < l)
    p0, p1 = ctx.real("p0", 0, 1), ctx.real("p1", 0, 1)
    ctx.assume(p0 <= p1)
    a, b = ctx.real("a", 0, 1), ctx.real("b", 0, 1)
    kw = dict(first_bucket_value=f, last_bucket_value=l, min_percentage=p0, max_percentage=p1, a=a, b=b)
    tol = 1e-9
    if not ctx.symbolic:
        counts = [ctx.int(f"k{i}", 0, 20) * ctx.choice(f"m{i}", [0, 1, 1, 50]) for i in range(n)]
        ctx.assume(any(counts))
        # rounding of the cumulative thresholds decides nothing
        cum = np.cumsum(counts)
        ctx.assume(all(abs(c - p * cum[-1]) > 1e-6 for c in cum for p in (p0, p1)))
        p = DRAParameters.from_counts(list(counts), **kw)
        s0, s1, i0, i1 = spec(ctx, counts, p0, p1, a, b)
    else:
        counts = ctx.array("c", (n,), 0, None)
        sums = ctx.array("S", (n,))
        given = counts.copy()
        H.n, H.c, H.s, H.p0, H.p1 = n, given.at, sums.at, p0, p1
        # S: the prefix sums of the histogram; they grow (by induction on the counts being at least 0)
        ctx.assume(H.s(0) == H.c(0))
        ctx.forall(1, n, lambda j: H.s(j) == H.s(j - 1) + H.c(j))
        j, = ctx.index("lemma", (n,))
        ctx.point(j, j + 1)
        ctx.ensure("lemma, base: sums are not negative", H.s(0) >= 0)
        ctx.ensure("lemma, step: sums are not negative", ctx.implies(ctx.and_(j + 1 < n, H.s(j) >= 0), H.s(j + 1) >= 0))
        ctx.ensure("lemma, step: sums grow", ctx.implies(j + 1 < n, H.s(j) <= H.s(j + 1)))
        ctx.forall(0, n, lambda j: H.s(j) >= 0)
        ctx.forall(0, n, lambda j: H.s(j) <= H.s(n - 1))
        # the specified positions, by what characterises them
        i0, i1 = ctx.int("first", 0), ctx.int("last", 0)
        ctx.assume((i0 <= i1) & (i1 < n) & (H.c(i0) > 0) & (H.c(i1) > 0))
        ctx.forall(0, i0, lambda j: H.c(j) == 0)
        ctx.forall(i1 + 1, n, lambda j: H.c(j) == 0)
        e0, e1 = ctx.int("e0", 0), ctx.int("e1", 0)
        ctx.assume((e0 < n) & (e1 < n))
        ctx.assume(H.s(e0) >= p0 * H.s(n - 1))
        ctx.forall(0, e0, lambda j: H.s(j) < p0 * H.s(n - 1))
        ctx.assume(ctx.or_(H.s(e1) <= p1 * H.s(n - 1), e1 == 0))
        ctx.forall(e1 + 1, n, lambda j: H.s(j) > p1 * H.s(n - 1))
        ctx.point(n - 1, i0, i1, e0, e1, 0)
        p = DRAParameters.from_counts(counts, **kw)
        k, = ctx.index("k", (n,))
        ctx.ensure_eq("the histogram is not modified", ctx.at(counts, (k,)), ctx.at(given, (k,)))
        e1 = ctx.max(e0, e1)
        s0, s1 = ctx.max(i0, e0 - a * (e1 - e0)), ctx.min(i1, e1 + b * (e1 - e0))
    step = (l - f) / n
    ctx.ensure_eq("actual minimum: the first bucket with counts", p.actual_min_value, f + i0 * step, tol=tol)
    ctx.ensure_eq("actual maximum: the last bucket with counts", p.actual_max_value, f + i1 * step, tol=tol)
    ctx.ensure_eq("suggested minimum", p.suggested_min_value, f + s0 * step, tol=tol)
    ctx.ensure_eq("suggested maximum", p.suggested_max_value, f + s1 * step, tol=tol)


TYPES = ["GDT_Byte", "GDT_UInt16", "GDT_Int16", "GDT_UInt32", "GDT_Int32", "GDT_UInt64", "GDT_Int64", "GDT_Float32", "GDT_Float64"]
NP = dict(zip(TYPES, ["uint8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float32", "float64"]))


def type_range(t):
    k = np.dtype(NP[t])
    i = np.iinfo(k) if k.kind in "iu" else np.finfo(k)
    return (int(i.min), int(i.max)) if k.kind in "iu" else (float(i.min), float(i.max))


@harness("C14", [U + "get_minmax_for_type"])
def type_ranges(ctx):
    from osgeo import gdalconst

    from aws.osml.gdal.gdal_utils import get_minmax_for_type

    for t in TYPES:
        lo, hi = get_minmax_for_type(getattr(gdalconst, t))
        e = type_range(t)
        if "Float" in t:
            ctx.ensure(f"range of {t}", abs(lo / e[0] - 1) < 1e-6 and abs(hi / e[1] - 1) < 1e-6)
        else:
            ctx.ensure(f"range of {t}", (lo, hi) == e)


@harness("C14", [U + "get_type_and_scales"], samples=300, bounded="datasets of 1 to 3 bands", limits=dict(max_paths=3000))
def type_and_scales(ctx):
    """Each band, with GDAL's statistics and histogram and DRAParameters.from_counts replaced by their contracts."""
    from osgeo import gdalconst

    import aws.osml.gdal.gdal_utils as mod
    from aws.osml.gdal import RangeAdjustmentType

    nb = ctx.choice("bands", [1, 2]) if ctx.symbolic else ctx.choice("bands", [1, 2, 3])
    types = [ctx.choice(f"type{k}", TYPES[:1] + TYPES[2:3] + TYPES[7:8] if ctx.symbolic else TYPES) for k in range(nb)]
    out = ctx.choice("out", [None, "GDT_Byte", "GDT_Float32"])
    adj = ctx.choice("adjust", ["NONE", "MINMAX", "DRA"])
    bands = []
    for k, t in enumerate(types):
        integer = "Float" not in t
        lo = (ctx.int if integer else ctx.real)(f"lo{k}", -100, 100)
        hi = (ctx.int if integer else ctx.real)(f"hi{k}", -100, 200)
        ctx.assume(lo <= hi)
        sug = [ctx.real(f"s{k}{j}", 0, 200) for j in range(4)]
        bands.append(Rec(lo=lo, hi=hi, sug=sug, hist=[k, 7], asked=[], t=t, integer=integer))

    class Band:
        def __init__(self, b):
            self.b = b
            self.DataType = getattr(gdalconst, b.t)

        def GetStatistics(self, approx, force):
            return [self.b.lo, self.b.hi, 0.0, 1.0]

        def ComputeStatistics(self, approx=False):
            return [self.b.lo, self.b.hi, 0.0, 1.0]

        def GetHistogram(self, min=-0.5, max=255.5, buckets=256, include_out_of_range=0, approx_ok=1, callback=None, callback_data=None):
            self.b.asked.append((min, max, buckets))
            return self.b.hist

    class Ds:
        RasterCount = nb
        RasterXSize = RasterYSize = 10

        def GetRasterBand(self, k):
            if not 1 <= k <= nb:
                return None
            return Band(bands[k - 1])

    def from_counts(counts, first_bucket_value=None, last_bucket_value=None, **kw):
        b = bands[counts[0]]
        ctx.ensure("default weights", not kw)
        ctx.ensure("histogram of this band", counts is b.hist or counts == b.hist)
        ctx.ensure_vec("the bucket values are the histogram's", [first_bucket_value, last_bucket_value], [b.lo, b.hi])
        return mod_dra(*b.sug)

    mod_dra = mod.DRAParameters
    # rest of the arguments of the constructor: suggested min / max, actual min / max
    with ctx.patch(mod.DRAParameters, "from_counts", staticmethod(from_counts)):
        typ, scales = mod.get_type_and_scales(Ds(), getattr(gdalconst, out) if out else None, RangeAdjustmentType(adj))
    ctx.ensure("output type", typ == getattr(gdalconst, out) if out else typ in [getattr(gdalconst, t) for t in types])
    ctx.ensure("scale parameters for every band", len(scales) == nb)
    for k, (b, s) in enumerate(zip(bands, scales)):
        flat = b.lo == b.hi
        o = type_range(out or b.t)
        if adj == "NONE":
            e = type_range(b.t)
        elif flat:
            e = (b.lo, b.hi)
        else:
            e = b.sug[:2] if adj == "DRA" else b.sug[2:]
            ctx.ensure("a histogram", len(b.asked) > 0)
            ctx.ensure_vec("the histogram covers the values of the band", b.asked[-1][:2], [b.lo, b.hi])
            m = ctx.max(b.hi - b.lo, 1) if b.integer else 255
            ctx.ensure_eq("one bucket per integer value, 255 for real values", b.asked[-1][2], m)
        for v, x, name in zip(s, tuple(e) + tuple(o), ("source minimum", "source maximum", "output minimum", "output maximum")):
            if isinstance(x, float) and abs(x) > 1e30:
                ctx.ensure(name, abs(v / x - 1) < 1e-6)
            else:
                ctx.ensure_eq(name, v, x, tol=1e-9)


class S:
    pass


def band_loop():
    """Loop contract of get_type_and_scales: entry j of the list is that of band j + 1."""
    from pvc.loops import ForAll, LoopSpec

    def inv(env, i):
        a, t = env["scale_params"], env["output_type"]
        out = [("an entry for every band", S.length(a) == i), ("output type", (t == S.out) | (i == 0))]
        if not isinstance(a, list):
            out += [(f"entry {k} of every band", ForAll(0, i, lambda j, k=k: S.eq(a.get(j)[k], S.want(j)[k]))) for k in range(4)]
        return out

    return [LoopSpec("aws.osml.gdal.gdal_utils:get_type_and_scales#1", inv, havoc=lambda env: {"scale_params": S.entries()})]


@harness("C14", [U + "get_type_and_scales"], samples=150, loops=band_loop(), trusted=["band statistics, histograms and DRAParameters.from_counts by contract"])
def scales_of_any_bands(ctx):
    """Any number of bands, each with its own values: entry k follows band k only."""
    from osgeo import gdalconst

    import aws.osml.gdal.gdal_utils as mod
    from aws.osml.gdal import RangeAdjustmentType

    n = ctx.int("n", 1, None if ctx.symbolic else 12)
    t = ctx.choice("type", ["GDT_Byte", "GDT_Int16", "GDT_Float32"])
    out = ctx.choice("out", [None, "GDT_Byte", "GDT_UInt16"])
    adj = ctx.choice("adjust", ["NONE", "MINMAX", "DRA"])
    lo, wide = ctx.array("lo", (n,), lo=0, hi=100), ctx.array("wide", (n,), lo=0, hi=100)
    flat = ctx.array("flat", (n,), lo=0, hi=1, dtype=np.int64)
    sug = [ctx.array(f"s{k}", (n,), lo=0, hi=200) for k in range(4)]

    def band(k):
        a = ctx.at(lo, (k,))
        same = ctx.at(flat, (k,)) == 1
        return Rec(lo=a, hi=ctx.ite(same, a, a + 1 + ctx.at(wide, (k,))), flat=same)

    class Band:
        DataType = getattr(gdalconst, t)

        def __init__(self, k):
            self.k = k

        def GetStatistics(self, approx, force):
            b = band(self.k)
            return [b.lo, b.hi, 0.0, 1.0]

        def GetHistogram(self, min=-0.5, max=255.5, buckets=256, include_out_of_range=0, approx_ok=1, callback=None, callback_data=None):
            b = band(self.k)
            ctx.ensure_vec("the histogram covers the values of the band", [min, max], [b.lo, b.hi])
            return Rec(k=self.k)

    class Ds:
        RasterCount = n
        RasterXSize = RasterYSize = 10

        def GetRasterBand(self, k):
            ctx.ensure("an existing band", ctx.and_(1 <= k, k <= n))
            return Band(k - 1)

    real = mod.DRAParameters

    def from_counts(counts, first_bucket_value=None, last_bucket_value=None, **kw):
        b = band(counts.k)
        ctx.ensure_vec("the bucket values are the histogram's", [first_bucket_value, last_bucket_value], [b.lo, b.hi])
        return real(*[ctx.at(x, (counts.k,)) for x in sug])

    o = mod.get_minmax_for_type(getattr(gdalconst, out or t))

    def want(j):
        b = band(j)
        if adj == "NONE":
            return tuple(mod.get_minmax_for_type(getattr(gdalconst, t))) + tuple(o)
        e = sug[:2] if adj == "DRA" else sug[2:]
        return tuple(ctx.ite(b.flat, v, ctx.at(x, (j,))) for v, x in zip((b.lo, b.hi), e)) + tuple(o)

    if ctx.symbolic:
        fs = [ctx.uf(f"entry{k}", 1) for k in range(4)]
        S.entries = lambda: ctx.seq("entries", ctx.fresh("length", "int"), lambda j: [f(j) for f in fs])
        S.length, S.want, S.out, S.eq = ctx.length, want, getattr(gdalconst, out or t), lambda a, b: a == b
    with ctx.patch(mod.DRAParameters, "from_counts", staticmethod(from_counts)):
        typ, scales = mod.get_type_and_scales(Ds(), getattr(gdalconst, out) if out else None, RangeAdjustmentType(adj))
        ctx.ensure("output type", typ == getattr(gdalconst, out or t))
        ctx.ensure("scale parameters for every band", ctx.length(scales) == n)
        (k,) = ctx.index("k", (n,))
        if ctx.symbolic:
            ctx.point(k)
        got = scales[k]
        ctx.ensure("four values", len(got) == 4)
        for v, x, name in zip(got, want(k), ("source minimum", "source maximum", "output minimum", "output maximum")):
            ctx.ensure_eq(name, v, x, tol=1e-8)


@harness("C14", [U + "get_type_and_scales", D + "from_counts"], sym=False, samples=80, bounded="sampled in-memory rasters")
def scales_of_rasters(ctx):
    from osgeo import gdal

    from aws.osml.gdal import RangeAdjustmentType
    from aws.osml.gdal.gdal_utils import get_type_and_scales

    t = ctx.choice("type", ["GDT_Byte", "GDT_UInt16", "GDT_Int16", "GDT_Float32"])
    nb = ctx.choice("bands", [1, 2, 3])
    rng = np.random.default_rng(ctx.int("seed", 0, 10**6))
    ds = gdal.GetDriverByName("MEM").Create("", 16, 12, nb, getattr(gdal, t))
    arr = []
    for k in range(nb):
        lo, w = ctx.int(f"lo{k}", 0, 80), ctx.choice(f"w{k}", [0, 1, 2, 30, 150])
        a = rng.integers(lo, lo + w + 1, (12, 16)).astype(NP[t])
        ds.GetRasterBand(k + 1).WriteArray(a)
        arr.append(a)
    adj = ctx.choice("adjust", ["NONE", "MINMAX", "DRA"])
    typ, sc = get_type_and_scales(ds, ctx.choice("out", [None, gdal.GDT_Byte]), RangeAdjustmentType(adj))
    ctx.ensure("bands", len(sc) == nb)
    for a, s in zip(arr, sc):
        lo, hi = float(a.min()), float(a.max())
        if adj == "NONE":
            ctx.ensure("full range", tuple(s[:2]) == type_range(t) or abs(s[1] / type_range(t)[1] - 1) < 1e-6)
        else:
            ctx.ensure("within the values of the band", lo - 1e-6 <= s[0] <= s[1] <= hi + 1e-6)
        ctx.ensure("not inverted", s[0] <= s[1] and s[2] < s[3])
