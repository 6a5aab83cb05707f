"""C27: map tiles (orthophotos) and their 8-bit display values."""
import contextlib
import math

import numpy as np

from pvc.ctx import harness

from .common import Rec

G = "image_processing.gdal_tile_factory.GDALTileFactory."
FLOW = [G + f for f in ("create_orthophoto_tile", "_read_from_rlevel_as_array", "_normalize_image_for_display")]
TRUST = ["cv2.copyMakeBorder, cv2.remap and cv2.imencode, RectBivariateSpline of degree 1 (piecewise bilinear), gdal Band.ReadAsArray / GetMinimum / GetMaximum / GetHistogram / GetStatistics by contract",
         "numpy's elementwise functions on arrays of any shape", "no rounding of coordinates to 32-bit floats"]


class Band:
    """A band with any pixels: every window of every resolution level is an array of arbitrary values."""

    def __init__(self, ctx, number, dtype, lo, hi, overviews, size):
        self.ctx, self.number, self.dtype, self.lo, self.hi, self.size = ctx, number, dtype, lo, hi, size
        self.minimum = self.maximum = None
        self.stats = None
        self.reads, self.hists = [], []
        self.overviews, self.level = overviews, 0
        self.window = None

    def GetOverviewCount(self):
        return self.overviews

    def GetOverview(self, k):
        self.ctx.ensure("an overview that exists", 0 <= k < self.overviews)
        return Rec(ReadAsArray=lambda *a, **kw: self.ReadAsArray(*a, level=k + 1, **kw), XSize=None, YSize=None)

    def GetMinimum(self):
        return self.minimum

    def GetMaximum(self):
        return self.maximum

    def GetStatistics(self, approx_ok, force):
        return self.stats

    def GetHistogram(self, min=-0.5, max=255.5, buckets=256, include_out_of_range=False, approx_ok=True):
        h = object()
        self.hists.append(Rec(min=min, max=max, buckets=buckets, counts=h))
        return h

    def ReadAsArray(self, xoff=0, yoff=0, win_xsize=None, win_ysize=None, level=0):
        r = Rec(x=xoff, y=yoff, w=win_xsize, h=win_ysize, level=level)
        # one window per band: the same arbitrary pixels
        n = f"pixels{self.number}.{len(self.reads)}"
        self.reads.append(r)
        ctx = self.ctx
        w, h = (r.w, r.h) if ctx.symbolic else (int(r.w), int(r.h))
        ctx.ensure("a window of at least one pixel", ctx.and_(w >= 1, h >= 1))
        r.pixels = ctx.array(n, (h, w), self.lo, self.hi, self.dtype)
        return r.pixels


class Dataset:
    def __init__(self, ctx, w, h, bands):
        self.RasterXSize, self.RasterYSize, self.bands = w, h, bands
        self.RasterCount = len(bands)

    def GetRasterBand(self, n):
        return self.bands[n - 1]

    def GetDriver(self):
        return Rec(ShortName="GTiff")

    def GetMetadata(self, *a):
        return None


class Cv2:
    """cv2 by contract; concretely the library itself.  Calls are recorded."""

    def __init__(self, ctx, mod):
        import cv2
        from scipy.interpolate import RectBivariateSpline

        self.ctx, self.real, self.spline = ctx, cv2, RectBivariateSpline
        self.remaps, self.pngs = [], []
        self.ok = True
        self.originals = dict(copyMakeBorder=cv2.copyMakeBorder, remap=cv2.remap, imencode=cv2.imencode)
        ctx.need(mod, "cv2", "RectBivariateSpline")
        self.st = contextlib.ExitStack()
        for n in self.originals:
            self.st.enter_context(ctx.patch(cv2, n, getattr(self, n)))
        if ctx.symbolic:
            self.st.enter_context(ctx.patch(mod, "RectBivariateSpline", self.bivariate))

    def copyMakeBorder(self, src, top, bottom, left, right, borderType, dst=None, value=None):
        ctx = self.ctx
        ctx.ensure("replicated border", borderType == self.real.BORDER_REPLICATE)
        if not ctx.symbolic:
            return self.originals["copyMakeBorder"](src, top, bottom, left, right, borderType)
        h, w = src.shape[:2]
        return ctx.build((h + top + bottom, w + left + right) + tuple(src.shape[2:]),
                         lambda y, x, *b: src.at(ctx.max(0, ctx.min(h - 1, y - top)), ctx.max(0, ctx.min(w - 1, x - left)), *b), src.dtype)

    def remap(self, src, map1, map2, interpolation, dst=None, borderMode=0, borderValue=None):
        ctx = self.ctx
        if ctx.symbolic:
            out = ctx.array(f"dst{len(self.remaps)}", tuple(map1.shape) + tuple(src.shape[2:]), 0, 255, np.uint8)
        else:
            out = self.originals["remap"](src, map1, map2, interpolation, borderMode=borderMode)
        self.remaps.append(Rec(src=src, map1=map1, map2=map2, interpolation=interpolation, out=out))
        return out

    def imencode(self, ext, img, *a):
        self.pngs.append(Rec(ext=ext, pixels=img))
        return (True, b"PNG") if self.ok else (False, None)

    def bivariate(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        """z on the grid x (rows), y (columns), bilinear in between, constant outside"""
        ctx = self.ctx
        ctx.ensure("degree 1", kx == 1 and ky == 1)
        x, y = list(x), list(y)

        class S:
            def __call__(s_, a, b, dx=0, dy=0, grid=True):
                return ctx.build((a.shape[0], b.shape[0]), lambda i, j: bilinear(ctx, x, y, z, ctx.at(a, (i,)), ctx.at(b, (j,))))

        return S()


def cell(ctx, knots, v):
    """index of the cell and the position in it"""
    k = 0
    while k + 2 < len(knots) and not bool(v < knots[k + 1]):
        k += 1
    return k, (v - knots[k]) / (knots[k + 1] - knots[k])


def bilinear(ctx, ys, xs, z, y, x):
    i, t = cell(ctx, ys, y)
    j, u = cell(ctx, xs, x)
    return (1 - t) * ((1 - u) * z[i][j] + u * z[i][j + 1]) + t * ((1 - u) * z[i + 1][j] + u * z[i + 1][j + 1])


class Model:
    """Any sensor model: pixel and location functions are arbitrary; calls are recorded."""

    def __init__(self, ctx, fx, fy, height):
        from aws.osml.photogrammetry import SensorModel

        outer = self
        self.asked, self.located, self.fail = [], [], False

        class M(SensorModel):
            def image_to_world(self, image_coordinate, elevation_model=None, options=None):
                from aws.osml.photogrammetry import GeodeticWorldCoordinate

                outer.located.append([image_coordinate.x, image_coordinate.y])
                return GeodeticWorldCoordinate([0.1, 0.2, height(image_coordinate.x, image_coordinate.y)])

            def world_to_image(self, world_coordinate):
                from aws.osml.photogrammetry import ImageCoordinate

                p = [fx(world_coordinate.longitude, world_coordinate.latitude, world_coordinate.elevation), fy(world_coordinate.longitude, world_coordinate.latitude, world_coordinate.elevation)]
                outer.asked.append((list(world_coordinate.coordinate), p))
                if outer.fail:
                    raise ValueError("outside of the domain of the model")
                return ImageCoordinate(p)

        self.model = M()


def half(ctx, border):
    """width of the border on one side, the same on both sides"""
    h = ctx.floor(border / 2)
    ctx.ensure("the same border on both sides", border == h * 2)
    return h


def sizes(ctx, name, lo=2, hi=40):
    return ctx.int(name + "_width", lo, None if ctx.symbolic else hi), ctx.int(name + "_height", lo, None if ctx.symbolic else hi)


def factory(ctx, ds, model, adjust=None, tile_format=None):
    from aws.osml.gdal import RangeAdjustmentType
    from aws.osml.image_processing import gdal_tile_factory as mod

    with ctx.patch(mod, "get_type_and_scales", lambda *a, **k: (1, [[0, 255, 0, 255]])):
        return mod.GDALTileFactory(ds, model, range_adjustment=adjust or RangeAdjustmentType.NONE)


@harness("C27", FLOW, samples=200, trusted=TRUST, limits=dict(max_paths=4000, max_seconds=400))
def geometry(ctx):
    """Every pixel of a map tile is sampled at the image location of its longitude and latitude, in the best overview."""
    from aws.osml.image_processing import gdal_tile_factory as mod

    W, H = ctx.int("raster_width", 1, None if ctx.symbolic else 200), ctx.int("raster_height", 1, None if ctx.symbolic else 200)
    tw, th = sizes(ctx, "tile")
    n = ctx.choice("overviews", [0, 1, 3])
    fx, fy, fh = ctx.uf("model_x", 3, -200, 400), ctx.uf("model_y", 3, -200, 400), ctx.uf("height", 2, 0, 100)
    m = Model(ctx, fx, fy, fh)
    band = Band(ctx, 1, np.uint8, None, None, n, (W, H))
    ds = Dataset(ctx, W, H, [band])
    lon, lat = ctx.real("min_lon", -3, 3), ctx.real("min_lat", -1.5, 1.5)
    dlon, dlat = ctx.real("dlon", 1e-6, 0.1), ctx.real("dlat", 1e-6, 0.1)
    box = (lon, lat, lon + dlon, lat + dlat)
    h0 = fh(W / 2, H / 2)
    want = [[[f(lon + dlon * i / 2, lat + dlat * (2 - j) / 2, h0) for i in range(3)] for j in range(3)] for f in (fx, fy)]
    lo = [ctx.floor(ctx.min(*[v for r in z for v in r])) for z in want]
    hi = [-ctx.floor(ctx.min(*[-v for r in z for v in r])) for z in want]
    ctx.assume(ctx.and_(hi[0] > lo[0], hi[1] > lo[1]))
    f = factory(ctx, ds, m.model)
    cv = Cv2(ctx, mod)
    with cv.st:
        r = f.create_orthophoto_tile(box, (tw, th))
    outside = ctx.or_(lo[0] >= W, lo[1] >= H, hi[0] <= 0, hi[1] <= 0)
    if r is None:
        ctx.ensure("there is a tile when its area overlaps the image", outside)
        return
    ctx.ensure("no tile when its area does not overlap the image", ctx.not_(outside))
    ctx.ensure("one image is remapped, one encoded", len(cv.remaps) == 1 and len(cv.pngs) == 1 and len(band.reads) == 1)
    q, w = cv.remaps[0], band.reads[0]
    # the level read
    k = w.level
    dim = ctx.min(hi[0] - lo[0], hi[1] - lo[1])
    ctx.ensure("levels that exist", 0 <= k <= n)
    if k > 0:
        ctx.ensure("no level coarser than the tile", tw * 2 ** k <= dim)
    if k < n:
        ctx.ensure("the coarsest of these levels", dim < tw * 2 ** (k + 1))
    s = 2 ** k
    for a, (o, c, size) in enumerate(((w.x, w.w, W), (w.y, w.h, H))):
        e = o + c
        ctx.ensure("the window lies within the level", ctx.and_(o >= 0, c >= 1, (e - 1) * s < size))
        ctx.ensure("the window covers the part of the area within the image", ctx.and_(o * s <= ctx.max(lo[a], 0), e * s >= ctx.min(hi[a], size)))
    # the image remapped: the window with a border
    by, bx = q.src.shape[0] - w.h, q.src.shape[1] - w.w
    ctx.ensure("a border on every side", ctx.and_(by >= 2, bx >= 2))
    by, bx = half(ctx, by), half(ctx, bx)
    i = ctx.index("p", (w.h, w.w))
    ctx.ensure_eq("pixel of the window", ctx.at(q.src, (i[0] + by, i[1] + bx)), ctx.at(w.pixels, i))
    # where each pixel of the tile comes from
    ctx.ensure("the tile has the size asked for", ctx.and_(q.map1.shape[0] == th, q.map1.shape[1] == tw, q.map2.shape[0] == th, q.map2.shape[1] == tw))
    ctx.ensure("linear interpolation", q.interpolation == cv.real.INTER_LINEAR)
    t = ctx.index("t", (th, tw))
    gx, gy = [[0.0, (v - 1) / 2, v - 1] for v in (tw, th)]
    got = [ctx.at(q.map1, t) - bx + w.x, ctx.at(q.map2, t) - by + w.y]
    for a in range(2):
        v = bilinear(ctx, gy, gx, want[a], t[0], t[1])
        ctx.ensure_eq(f"pixel of the image at the location of the tile's pixel, in the level [{'xy'[a]}]", got[a], v / s, tol=1e-6, scale=10)
    # the encoded image: color and alpha
    p = cv.pngs[0]
    ctx.ensure("PNG", p.ext == ".png" and r == b"PNG")
    ctx.ensure("four channels of the size asked for", ctx.same_shape(p.pixels.shape, (th, tw, 4)))
    d = ctx.at(q.out, t)
    for b in range(3):
        ctx.ensure_eq("color", ctx.at(p.pixels, t + (b,)), d)
    ctx.ensure_eq("pixels are transparent where the image is empty", ctx.at(p.pixels, t + (3,)), ctx.ite(d != 0, 255, 0))


def whole(ctx, ds, tile=(4, 3)):
    """A sensor model with which the box (0, 0, 1, 1) is exactly the image."""
    W, H = ds.RasterXSize, ds.RasterYSize
    return Model(ctx, lambda lon, lat, h: W * lon, lambda lon, lat, h: H * (1 - lat), lambda x, y: 10.0)


def shown_as(ctx, adjusts, counts):
    """The 8-bit pixels of a map tile: the range of each band mapped linearly to 0..255, clipped; power for complex images."""
    from aws.osml.gdal import RangeAdjustmentType
    from aws.osml.image_processing import gdal_tile_factory as mod

    W, H = ctx.int("raster_width", 2, None if ctx.symbolic else 9), ctx.int("raster_height", 2, None if ctx.symbolic else 9)
    nb = ctx.choice("bands", counts)
    adjust = RangeAdjustmentType[ctx.choice("adjust", adjusts)]
    none = adjust == RangeAdjustmentType.NONE
    if none:
        ctx.assume(nb in (1, 3))
    dt = np.uint8 if none else ctx.choice("dtype", [np.uint8, np.uint16, np.int16, np.float64])
    lo, hi = (None, None) if dt is not np.float64 else (-1000, 1000)
    bands = []
    for b in range(nb):
        d = Band(ctx, b + 1, dt, lo, hi, 0, (W, H))
        bands.append(d)
        if nb != 2 and not none:
            if b == 0:
                first = ctx.choice("known", [0, 1, 2, 3])
            known = ["both", "none", "minimum", "maximum"][(first + b) % 4]
            if known in ("both", "minimum"):
                d.minimum = ctx.real(f"minimum{b}", -1000, 1000)
            if known in ("both", "maximum"):
                d.maximum = ctx.real(f"maximum{b}", -1000, 1000)
        if nb == 2:
            s = ctx.choice(f"stats{b}", ["none", "empty", "known"])
            d.stats = {"none": None, "empty": [], "known": [0.0, 1.0, ctx.real(f"mean{b}", -100, 100), ctx.real(f"std{b}", 0, 100)]}[s]
    ds = Dataset(ctx, W, H, bands)
    m = whole(ctx, ds)
    f = factory(ctx, ds, m.model, adjust)
    cv = Cv2(ctx, mod)
    ranges, powers = [], []

    class DRA:
        @staticmethod
        def from_counts(counts, first_bucket_value=None, last_bucket_value=None, min_percentage=0.02, max_percentage=0.98,
                        a=0.2, b=0.4, **kw):
            k = len(ranges)
            r = Rec(counts=counts, first=first_bucket_value, last=last_bucket_value, most=max_percentage, least=min_percentage,
                    suggested_min_value=ctx.real(f"low{k}", -1000, 1000), suggested_max_value=ctx.real(f"high{k}", -1000, 1000),
                    actual_min_value=first_bucket_value, actual_max_value=last_bucket_value)
            ranges.append(r)
            return r

    def quarter(image_pixels, pixel_type=None, amplitude_table=None, scale_factor=3.0, precomputed_mean=None):
        out = ctx.array("power", tuple(image_pixels.shape[1:]), 0, 255, np.float64)
        powers.append(Rec(pixels=image_pixels, kind=pixel_type, table=amplitude_table, scale=scale_factor, mean=precomputed_mean, out=out))
        return out

    ctx.need(mod, "DRAParameters", "quarter_power_image")
    with cv.st, ctx.patch(mod, "DRAParameters", DRA), ctx.patch(mod, "quarter_power_image", quarter):
        r = f.create_orthophoto_tile((0.0, 0.0, 1.0, 1.0), (4, 3))
    ctx.ensure("a tile", r == b"PNG" and len(cv.remaps) == 1 and len(cv.pngs) == 1)
    src = cv.remaps[0].src
    rd = bands[0].reads[0]
    border = (src.shape[0] - rd.h), (src.shape[1] - rd.w)
    i = ctx.index("p", (H, W))
    j = (i[0] + half(ctx, border[0]), i[1] + half(ctx, border[1]))
    for b, d in enumerate(bands):
        ctx.ensure("every band read once, completely", len(d.reads) == 1)
        w = d.reads[0]
        ctx.ensure("window", ctx.and_(w.x == 0, w.y == 0, w.w == W, w.h == H, w.level == 0))
    pixels = [d.reads[0].pixels for d in bands]
    if nb == 2:
        ctx.ensure("the power image is shown", len(powers) == 1 and len(src.shape) == 2)
        p = powers[0]
        ctx.ensure("complex pixels, scale 3", p.scale == 3.0 and p.kind in (None, "RE32F_IM32F") and p.table is None)
        for b in range(2):
            ctx.ensure_eq("real and imaginary part", ctx.at(p.pixels, (b,) + i), ctx.at(pixels[b], i))
        have = [d.stats for d in bands if d.stats]
        ctx.ensure("mean from the statistics if there are any", (p.mean is not None) == bool(have))
        if have:
            ctx.ensure_eq("mean from the statistics", p.mean, ctx.sqrt(sum((s[3] * 50 / 68 + s[2]) ** 2 for s in have)), scale=100)
        ctx.ensure_eq("the power image", ctx.at(src, j), ctx.at(p.out, i))
    else:
        shown = min(nb, 3)
        ctx.ensure("bands shown", len(src.shape) == (2 if nb == 1 else 3) and (nb == 1 or src.shape[2] == shown))
        for b in range(shown):
            d, v = bands[b], ctx.at(pixels[b], i)
            got = ctx.at(src, j if nb == 1 else j + (b,))
            if none:
                ctx.ensure_eq("the pixel as it is", got, v)
                continue
            low = d.minimum if d.minimum is not None else ctx.reduce("min", pixels[b])
            high = d.maximum if d.maximum is not None else ctx.reduce("max", pixels[b])
            if adjust == RangeAdjustmentType.DRA:
                ctx.ensure("one range for every band shown", len(ranges) == shown and len(d.hists) == 1)
                q, h = ranges[b], d.hists[0]
                ctx.ensure("the histogram of the band", q.counts is h.counts)
                ctx.ensure_eq("the histogram begins at the minimum", h.min, low, tol=1e-9)
                ctx.ensure_eq("the histogram ends at the maximum", h.max, high, tol=1e-9)
                ctx.ensure_eq("first bucket", q.first, low, tol=1e-9)
                ctx.ensure_eq("last bucket", q.last, high, tol=1e-9)
                ctx.ensure("at least 256 buckets", ctx.and_(h.buckets >= 256, h.buckets >= high - low - 1))
                low, high = q.suggested_min_value, q.suggested_max_value
            x = ctx.max(0, ctx.min(255, (v - low) * 255 / ctx.max(high - low, 1)))
            ctx.ensure_le("scaled to the range", got, x, tol=1e-8, scale=255)
            if ctx.symbolic:
                ctx.ensure("scaled to the range, truncated", x < got + 1)
            else:
                ctx.ensure_le("scaled to the range, truncated", x, got + 1, tol=1e-8, scale=255)
    # colors and transparency of the tile
    q, p = cv.remaps[0].out, cv.pngs[0]
    t = ctx.index("t", (3, 4))
    if len(src.shape) == 2:
        cs = [ctx.at(q, t)] * 3
    else:
        cs = [ctx.at(q, t + (b,)) for b in range(3)]
    ctx.ensure("PNG with transparency", p.ext == ".png" and ctx.same_shape(p.pixels.shape, (3, 4, 4)))
    for b in range(3):
        ctx.ensure_eq("color", ctx.at(p.pixels, t + (b,)), cs[b])
    ctx.ensure_eq("opaque where no band is 0", ctx.at(p.pixels, t + (3,)), ctx.ite(ctx.and_(*[c != 0 for c in cs]), 255, 0))

NORM = FLOW + [G + "_normalize_bands"]


@harness("C27", NORM + [G + "_normalize_band_minmax"], samples=150, trusted=TRUST)
def display_minmax(ctx):
    """MINMAX: the range of each band shown is mapped linearly to 0..255, clipped."""
    shown_as(ctx, ["MINMAX"], [1, 3, 4])


@harness("C27", NORM + [G + "_normalize_band_dra"], samples=150, trusted=TRUST)
def display_dra_one(ctx):
    """DRA: the range suggested for the histogram of the band is mapped linearly to 0..255, clipped."""
    shown_as(ctx, ["DRA"], [1])


@harness("C27", NORM + [G + "_normalize_band_dra"], samples=150, trusted=TRUST)
def display_dra(ctx):
    """DRA: the range suggested for the histogram of each band shown is mapped linearly to 0..255, clipped."""
    shown_as(ctx, ["DRA"], [3, 4])


@harness("C27", FLOW, samples=50, trusted=TRUST)
def display_none(ctx):
    """NONE: 8-bit pixels as they are."""
    shown_as(ctx, ["NONE"], [1, 3])


@harness("C27", NORM + [G + "_normalize_complex_sar"], samples=100, trusted=TRUST)
def display_power(ctx):
    """The two bands of a complex image are shown as their quarter power image."""
    shown_as(ctx, ["MINMAX", "DRA"], [2])


@harness("C27", FLOW[:1], samples=30, trusted=TRUST)
def no_tile(ctx):
    """No tile where the sensor model has no answer or the tile cannot be encoded."""
    from aws.osml.image_processing import gdal_tile_factory as mod

    W, H = ctx.int("raster_width", 2, None if ctx.symbolic else 9), ctx.int("raster_height", 2, None if ctx.symbolic else 9)
    ds = Dataset(ctx, W, H, [Band(ctx, 1, np.uint8, None, None, 0, (W, H))])
    m = whole(ctx, ds)
    f = factory(ctx, ds, m.model)
    cv = Cv2(ctx, mod)
    if ctx.choice("fails", ["model", "encoder"]) == "model":
        m.fail = True
    else:
        cv.ok = False
    with cv.st:
        r = f.create_orthophoto_tile((0.0, 0.0, 1.0, 1.0), (4, 3))
    ctx.ensure("no tile", r is None)
