"""C11: digital elevation model: tile selection, interpolation, caching."""
import math
import os
import tempfile

import numpy as np

from pvc.ctx import harness

from .common import Rec

P = "photogrammetry."
D = P + "digital_elevation_model.DigitalElevationModel."
TRUST = ["scipy RectBivariateSpline(kx=1, ky=1): bilinear interpolation of z[i][j] at (x[i], y[j]), clamped to the grid",
         "cachetools.cachedmethod/LRUCache run as they are"]


def cells(ctx):
    """A location with its whole degrees (floor)."""
    lon, lat = ctx.real("lon", -math.pi, math.pi), ctx.real("lat", -math.pi / 2, math.pi / 2)
    if not ctx.symbolic:  # floating point: not within rounding error of a whole degree
        ctx.assume(all(v in (0.0, -math.pi, -math.pi / 2) or abs(math.degrees(v) - round(math.degrees(v))) > 1e-9 for v in (lon, lat)))
    o, l = ctx.floor(ctx.degrees(lon)), ctx.floor(ctx.degrees(lat))
    return lon, lat, o, l


def text(ctx, *chunks):
    if ctx.symbolic:
        from pvc.sym import SStr

        return SStr([c if isinstance(c, str) else (c[0], c[1]) for c in chunks])
    return "".join(c if isinstance(c, str) else format(c[0], c[1]) for c in chunks)


@harness("C11", [P + "srtm_dem_tile_set.SRTMTileSet.__init__", P + "srtm_dem_tile_set.SRTMTileSet.find_tile_id"], samples=400)
def srtm_tile_names(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, SRTMTileSet

    lon, lat, o, l = cells(ctx)
    pre, ver, ext = ctx.choice("names", [("", "1arc_v3", ".tif"), ("a/b_", "3arc_v2", ".dt1")])
    w = GeodeticWorldCoordinate([lon, lat, 5.0])
    t = SRTMTileSet(prefix=pre, version=ver, format_extension=ext).find_tile_id(w)
    out = ctx.or_(l > 59, l < -56)
    if out:
        ctx.ensure("no tile outside 56 S .. 60 N", t is None)
        return
    ctx.ensure("a tile for every location between 56 S and 60 N", t is not None)
    if t is None:
        return
    ns, ew = ("n" if l >= 0 else "s"), ("e" if o >= 0 else "w")
    ctx.ensure("the tile is named after the whole degrees of its south-west corner",
               t == text(ctx, pre + ns, (abs(l), "02d"), "_" + ew, (abs(o), "03d"), "_" + ver + ext))
    ctx.ensure_vec("the location is not modified", w.coordinate, [lon, lat, 5.0])


@harness("C11", [P + "generic_dem_tile_set.GenericDEMTileSet.__init__", P + "generic_dem_tile_set.GenericDEMTileSet.find_tile_id"],
         samples=400)
def generic_tile_names(ctx):
    from aws.osml.photogrammetry import GenericDEMTileSet, GeodeticWorldCoordinate

    lon, lat, o, l = cells(ctx)
    lim = ctx.choice("limits", [None, (-40.0, 50.0, -100.0, 120.0)])
    kw = {}
    out = False
    if lim:
        kw = dict(min_latitude_degrees=lim[0], max_latitude_degrees=lim[1], min_longitude_degrees=lim[2], max_longitude_degrees=lim[3])
        out = ctx.or_(l > lim[1], l < lim[0], o > lim[3], o < lim[2])
    w = GeodeticWorldCoordinate([lon, lat, 5.0])
    t = GenericDEMTileSet(**kw).find_tile_id(w)
    if out:
        ctx.ensure("no tile outside the limits", t is None)
        return
    ctx.ensure("a tile for every location inside the limits", t is not None)
    if t is None:
        return
    ns, ew = ("n" if l >= 0 else "s"), ("e" if o >= 0 else "w")
    ctx.ensure("the tile is named after the whole degrees of its south-west corner",
               t == text(ctx, (abs(o), "03d"), ew + "/", (abs(l), "02d"), ns + ".dt2"))
    ctx.ensure_vec("the location is not modified", w.coordinate, [lon, lat, 5.0])


def bilinear(ctx, z, x, y):
    """z[row][col] at the image location (x, y), clamped to the grid."""
    h, w = len(z), len(z[0])

    def cell(v, n):
        v = ctx.min(ctx.max(v, 0.0), float(n - 1))
        for i in range(n - 1):
            if i == n - 2 or v < i + 1:
                return i, v - i

    i, u = cell(x, w)
    j, v = cell(y, h)
    return (z[j][i] * (1 - u) + z[j][i + 1] * u) * (1 - v) + (z[j + 1][i] * (1 - u) + z[j + 1][i + 1] * u) * v


class Spline:
    """Contract of scipy's RectBivariateSpline of degree 1."""

    def __init__(self, x, y, z, kx=3, ky=3, **kw):
        self.x, self.y, self.z, self.k = list(x), list(y), np.asarray(z, dtype=object), (kx, ky)
        if self.z.shape != (len(self.x), len(self.y)):
            raise ValueError("x and y dimensions do not match z")
        if self.k != (1, 1) or self.x != list(range(len(self.x))) or self.y != list(range(len(self.y))):
            from pvc.sym import Unsupported

            raise Unsupported("spline outside the assumed contract")

    def __call__(self, x, y, grid=True, **kw):
        v = bilinear(self.ctx, [list(r) for r in self.z.T], x, y)
        return np.array([[v]], dtype=object) if grid else v

    def ev(self, x, y):
        return self(x, y)[0][0]


IDS = [("A", "B"), ("n10/e010.tif", "n10/w010.tif"), ("n10/e010.tif", "s10/e010.tif"), ("t/e1", "t/E1"), ("a/x.tif", "b/x.tif"),
       ("x.tif", "x.dt1"), ("e0101", "e0110"), ("n01_e001", "n01_e0010"), ("tile1", "tile2")]


@harness("C11", [D + "__init__", D + "set_elevation", D + "describe_region", D + "get_interpolation_grid"], samples=200, trusted=TRUST,
         bounded="tiles of 2 x 3 posts, histories of three calls on two tiles", limits=dict(max_paths=1500, max_seconds=250))
def elevation_history(ctx):
    """The elevation set is the interpolated elevation of the tile of the location, whatever was asked before."""
    from aws.osml.photogrammetry import DigitalElevationModel, DigitalElevationModelTileFactory, DigitalElevationModelTileSet
    from aws.osml.photogrammetry import ElevationRegionSummary, GeodeticWorldCoordinate, ImageCoordinate, SensorModel
    from aws.osml.photogrammetry import digital_elevation_model as mod

    z = {t: [[ctx.real(f"{t}{j}{i}", 0, 3000) for i in range(3)] for j in range(2)] for t in ("A", "B")}
    off = {"A": (0.0, 0.0), "B": (100.0, 50.0)}
    summ = {t: ElevationRegionSummary(min_elevation=k, max_elevation=k + 1.0, no_data_value=-1, post_spacing=30.0)
            for k, t in enumerate(("A", "B"))}
    steps = ctx.choice("history", ["A", "M", "N", "AA", "AB", "ABA", "BAB", "MA", "AMA", "NAN"])
    cur = [None]
    ids = {"A": "A", "B": "B"}
    if steps == "AB" or not ctx.symbolic:
        ids = dict(zip("AB", ctx.choice("ids", IDS)))
    tile = {v: k for k, v in ids.items()}

    class Set(DigitalElevationModelTileSet):
        def find_tile_id(self, geodetic_world_coordinate):
            return dict(ids, M="missing", N=None)[cur[0]]

    class Model(SensorModel):
        def __init__(self, t):
            self.t = t

        def image_to_world(self, *a, **k):
            raise NotImplementedError()

        def world_to_image(self, world_coordinate):
            return ImageCoordinate([world_coordinate.longitude * 1000 - off[self.t][0], world_coordinate.latitude * 1000 - off[self.t][1]])

    class Fac(DigitalElevationModelTileFactory):
        def get_tile(self, tile_path):
            if tile_path == "missing":
                return None, None, None
            t = tile[tile_path]
            return np.array(z[t], dtype=object if ctx.symbolic else float), Model(t), summ[t]

    size = ctx.choice("cache", [1, 10]) if len(steps) == 3 else 10
    Spline.ctx = ctx
    with ctx.stub(mod, "RectBivariateSpline", Spline):
        dem = DigitalElevationModel(Set(), Fac(), raster_cache_size=size)
        for n, s in enumerate(steps):
            cur[0] = s
            last = n == len(steps) - 1
            if last:
                x, y = ctx.real(f"x{n}", -0.5, 2.5), ctx.real(f"y{n}", -0.5, 1.5)
            else:
                x, y = 0.25, 0.5
            h0 = ctx.real("h", -100, 100)
            o = off.get(s, (0.0, 0.0))
            w = GeodeticWorldCoordinate([(x + o[0]) / 1000, (y + o[1]) / 1000, h0])
            before = [w.longitude, w.latitude]
            if not last and ctx.choice(f"ask{n}", ["set", "describe"]) == "describe":
                dem.describe_region(w)
                continue
            r = dem.describe_region(w)
            dem.set_elevation(w)
            ctx.ensure_vec("longitude and latitude are not modified", [w.longitude, w.latitude], before)
            if s in "AB":
                ctx.ensure_eq("bilinear interpolation of the posts of the tile that covers the location", w.elevation,
                              bilinear(ctx, z[s], x, y), tol=1e-8)
                ctx.ensure("summary of the tile", r is summ[s] or r == summ[s])
            else:
                ctx.ensure_eq("without a tile the elevation is unchanged", w.elevation, h0)
                ctx.ensure("no summary without a tile", r is None)


@harness("C11", [D + "__init__", D + "set_elevation", D + "describe_region", D + "get_interpolation_grid"], samples=100, trusted=TRUST)
def elevation_any_tile(ctx):
    """Tiles of any number of rows and columns: the spline is made of every post at its column and row, and evaluated at the tile's image location."""
    from aws.osml.photogrammetry import DigitalElevationModel, DigitalElevationModelTileFactory, DigitalElevationModelTileSet
    from aws.osml.photogrammetry import ElevationRegionSummary, GeodeticWorldCoordinate, ImageCoordinate, SensorModel
    from aws.osml.photogrammetry import digital_elevation_model as mod
    from pvc.sym import Unsupported

    H, W = ctx.int("H", 2, 12), ctx.int("W", 2, 12)
    posts = ctx.array("post", (H, W), lo=-100, hi=3000)
    summary = ElevationRegionSummary(min_elevation=0.0, max_elevation=1.0, no_data_value=-1, post_spacing=30.0)
    value = ctx.uf("interpolated", 2, -100, 3000)
    fx, fy = ctx.uf("ix", 3, 0.0, 11.0), ctx.uf("iy", 3, 0.0, 11.0)
    made = []

    class Interpolation:
        def __init__(self, x, y, z, kx=3, ky=3, **kw):
            if (kx, ky) != (1, 1) or kw or not ctx.is_array(z):
                raise Unsupported("spline outside the assumed contract")
            made.append((x, y, z))

        def __call__(self, x, y, grid=True, **kw):
            v = value(x, y)
            return np.array([[v]], dtype=object if ctx.symbolic else float) if grid else v

        def ev(self, x, y):
            return value(x, y)

    class Set(DigitalElevationModelTileSet):
        def find_tile_id(self, geodetic_world_coordinate):
            return "tile"

    class Model(SensorModel):
        def image_to_world(self, *a, **k):
            raise NotImplementedError()

        def world_to_image(self, world_coordinate):
            return ImageCoordinate([fx(world_coordinate.longitude, world_coordinate.latitude, world_coordinate.elevation), fy(world_coordinate.longitude, world_coordinate.latitude, world_coordinate.elevation)])

    class Fac(DigitalElevationModelTileFactory):
        def get_tile(self, tile_path):
            ctx.ensure("the tile of the location", tile_path == "tile")
            return posts, Model(), summary

    g = [ctx.real("lon", -3, 3), ctx.real("lat", -1.5, 1.5), ctx.real("h", -100, 100)]
    w = GeodeticWorldCoordinate(g)
    ctx.need(mod, "RectBivariateSpline")
    with ctx.patch(mod, "RectBivariateSpline", Interpolation):
        dem = DigitalElevationModel(Set(), Fac())
        dem.set_elevation(w)
        if len(made) != 1:
            from pvc.ctx import Structural

            raise Structural("another interpolation")
        x, y, z = made[0]
        ctx.ensure("columns, then rows", ctx.same_shape(z.shape, (ctx.length(x), ctx.length(y))))
        ctx.ensure("all posts", ctx.same_shape((ctx.length(y), ctx.length(x)), (H, W)))
        j, i = ctx.index("i", (H, W))
        ctx.ensure_vec("posts at their column and row", [x[i], y[j]], [i, j])
        ctx.ensure_eq("elevations of the posts", ctx.at(z, (i, j)), ctx.at(posts, (j, i)))
        ctx.ensure_vec("longitude and latitude are not modified", [w.longitude, w.latitude], g[:2])
        ctx.ensure_eq("interpolated at the image location", w.elevation, value(fx(*g), fy(*g)))
        ctx.ensure("summary of the tile", dem.describe_region(GeodeticWorldCoordinate(g)) == summary)


@harness("C11", ["gdal.gdal_dem_tile_factory.GDALDigitalElevationModelTileFactory.get_tile"], samples=60, assume_nonzero=True)
def gdal_tile(ctx):
    """Contents of a tile as read through GDAL (GDAL replaced by its contract)."""
    import aws.osml.gdal.gdal_dem_tile_factory as mod
    from aws.osml.photogrammetry import ImageCoordinate, WorldCoordinate, geodetic_to_geocentric

    case = ctx.choice("case", ["ok", "missing", "missing, with GDAL exceptions", "no geotransform"])
    root, where = ctx.choice("root", [("/data/dem", "/data/dem/t/x.tif"), ("s3://bucket/dem", "/vsis3/bucket/dem/t/x.tif"),
                                      ("s3://bucket/s3:/x", "/vsis3/bucket/s3:/x/t/x.tif")])
    gt = [ctx.real("g0", -100, 100), ctx.real("g1", 0.0002, 0.001), 0.0, ctx.real("g3", -50, 50), 0.0, ctx.real("g5", -0.001, -0.0002)]
    H, W = ctx.choice("size", [(3, 4), (2, 2)])
    a = np.arange(H * W, dtype=float).reshape(H, W) * 1.5 - 2
    lo, hi = float(a.min()), float(a.max())
    nd = ctx.choice("no data", [-32767.0, None])
    if nd is not None:
        a[1, 0] = nd
    opened = []

    class Band:
        def ReadAsArray(self, xoff=0, yoff=0, xs=None, ys=None, **k):
            xs = xs if xs is not None else k.get("win_xsize", W - xoff)
            ys = ys if ys is not None else k.get("win_ysize", H - yoff)
            return a[yoff:yoff + ys, xoff:xoff + xs].copy()

        # statistics of all pixels with data unless approximate ones will do
        def GetStatistics(self, approx_ok, force):
            return [lo + 1, hi - 1, 7.0, 8.0] if approx_ok else [lo, hi, 7.0, 8.0]

        def ComputeStatistics(self, approx_ok, *x):
            return self.GetStatistics(approx_ok, True)

        def ComputeRasterMinMax(self, approx_ok=0, *x):
            return tuple(self.GetStatistics(approx_ok, True)[:2])

        def GetMinimum(self):
            return None

        GetMaximum = GetMinimum

        def GetNoDataValue(self):
            return nd

    class Ds:
        RasterXSize, RasterYSize = W, H

        def GetGeoTransform(self, can_return_null=False):
            # without a geotransform GDAL gives the identity unless asked for None
            return list(gt) if case != "no geotransform" else None if can_return_null else [0.0, 1.0, 0.0, 0.0, 0.0, 1.0]

        def GetRasterBand(self, n):
            ctx.ensure("elevations are the first band", n == 1)
            return Band()

    def open_(p, *x):
        opened.append(p)
        if "exceptions" in case:
            raise RuntimeError(f"{p}: No such file or directory")
        return None if case == "missing" else Ds()

    ecf = [ctx.uf(f"ecf{i}", 3) for i in range(3)]
    with ctx.patch(mod, "gdal", Rec(Open=open_)), ctx.stub(
            mod, "geodetic_to_geocentric", lambda geodetic_coordinate: WorldCoordinate([f(*geodetic_coordinate.coordinate) for f in ecf])):
        r = mod.GDALDigitalElevationModelTileFactory(root).get_tile("t/x.tif")
    ctx.ensure("the tile is opened below the tile directory (S3 through GDAL's virtual file system)", opened == [where])
    if case != "ok":
        ctx.ensure("nothing for a tile that is missing or not georeferenced", tuple(r) == (None, None, None))
        return
    arr, m, s = r
    ctx.ensure("all rows and columns of the elevations", arr.shape == (H, W) and bool(np.all(np.asarray(arr, dtype=float) == a)))
    x, y = ctx.real("x", 0, 4), ctx.real("y", 0, 4)
    w = m.image_to_world(ImageCoordinate([x, y]))
    ctx.ensure_vec("georeferenced by the geotransform", [ctx.degrees(w.longitude), ctx.degrees(w.latitude)],
                   [gt[0] + x * gt[1], gt[3] + y * gt[5]], tol=1e-9)
    ctx.ensure_vec("lowest and highest elevation of the whole tile", [s.min_elevation, s.max_elevation], [lo, hi])
    ctx.ensure("no-data value", s.no_data_value == nd)
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    c = []
    for q in ((0, 0), (W, H)):
        g = [ctx.radians(gt[0] + q[0] * gt[1]), ctx.radians(gt[3] + q[1] * gt[5]), 0.0]
        if ctx.symbolic:
            ww = m.image_to_world(ImageCoordinate(list(q)))
            c.append([f(ww.x, ww.y, ww.z) for f in ecf])
        else:
            c.append(list(geodetic_to_geocentric(GeodeticWorldCoordinate(g)).coordinate))
    d = ctx.norm([c[0][i] - c[1][i] for i in range(3)])
    ctx.ensure_eq("post spacing: length of the diagonal in metres per pixel of the diagonal", s.post_spacing * math.sqrt(W * W + H * H), d)


@harness("C11", [D + "set_elevation", "gdal.gdal_dem_tile_factory.GDALDigitalElevationModelTileFactory.get_tile"], sym=False, samples=25,
         bounded="sampled GeoTIFF tiles of 5 x 7 posts")
def dem_from_files(ctx):
    from osgeo import gdal

    from aws.osml.gdal import GDALDigitalElevationModelTileFactory
    from aws.osml.photogrammetry import DigitalElevationModel, GenericDEMTileSet, GeodeticWorldCoordinate

    was = gdal.GetUseExceptions()
    (gdal.UseExceptions if ctx.choice("exceptions", [False, True]) else gdal.DontUseExceptions)()
    try:
        _dem_from_files(ctx)
    finally:
        (gdal.UseExceptions if was else gdal.DontUseExceptions)()


def _dem_from_files(ctx):
    from osgeo import gdal

    from aws.osml.gdal import GDALDigitalElevationModelTileFactory
    from aws.osml.photogrammetry import DigitalElevationModel, GenericDEMTileSet, GeodeticWorldCoordinate

    rng = np.random.default_rng(ctx.int("seed", 0, 10**6))
    with tempfile.TemporaryDirectory() as d:
        H, W = 7, 5
        tiles = {}
        for o, l, nm in ((10, 20, "010e_20n"), (-11, -21, "011w_21s")):
            a = rng.uniform(0, 500, (H, W)).astype(np.float32)
            ds = gdal.GetDriverByName("GTiff").Create(os.path.join(d, nm + ".tif"), W, H, 1, gdal.GDT_Float32)
            ds.SetGeoTransform([o, 1 / W, 0, l + 1, 0, -1 / H])
            ds.GetRasterBand(1).WriteArray(a)
            ds = None
            tiles[(o, l)] = a
        big = ctx.choice("big", [0, 0, 400, 1201])
        if big:
            # one summit and one pit in a tile of real size
            b = rng.uniform(0, 500, (big, big)).astype(np.float32)
            b[tuple(rng.integers(0, big, 2))], b[tuple(rng.integers(0, big, 2))] = 4000, -200
            ds = gdal.GetDriverByName("GTiff").Create(os.path.join(d, "030e_30n.tif"), big, big, 1, gdal.GDT_Float32)
            ds.SetGeoTransform([30, 1 / big, 0, 31, 0, -1 / big])
            ds.GetRasterBand(1).WriteArray(b)
            ds = None
            s = DigitalElevationModel(GenericDEMTileSet(format_spec="%od%oh_%ld%lh.tif"), GDALDigitalElevationModelTileFactory(d)).describe_region(
                GeodeticWorldCoordinate([math.radians(30.5), math.radians(30.5), 0.0]))
            ctx.ensure_vec("lowest and highest elevation of the tile", [s.min_elevation, s.max_elevation], [float(b.min()), float(b.max())])
        dem = DigitalElevationModel(GenericDEMTileSet(format_spec="%od%oh_%ld%lh.tif"), GDALDigitalElevationModelTileFactory(d), 1)
        for k in range(6):
            o, l = list(tiles)[k % 2]
            x, y = ctx.real(f"x{k}", 0, W - 1.01), ctx.real(f"y{k}", 0.01, H - 1.01)
            w = GeodeticWorldCoordinate([math.radians(o + x / W), math.radians(l + 1 - y / H), -7.0])
            dem.set_elevation(w)
            ctx.ensure_eq("elevation of the tile's posts", w.elevation, bilinear(ctx, tiles[(o, l)].tolist(), x, y), tol=1e-9)
            v = GeodeticWorldCoordinate([math.radians(50.5), math.radians(5.5), -7.0])
            dem.set_elevation(v)
            ctx.ensure_eq("no tile: elevation unchanged", v.elevation, -7.0)


@harness("C11", [P + "elevation_model.ConstantElevationModel.__init__", P + "elevation_model.ConstantElevationModel.set_elevation",
                 P + "elevation_model.ConstantElevationModel.describe_region"])
def constant_elevation(ctx):
    from aws.osml.photogrammetry import ConstantElevationModel, GeodeticWorldCoordinate

    h, lon, lat, z = ctx.real("h", -500, 9000), ctx.real("lon", -3, 3), ctx.real("lat", -1.5, 1.5), ctx.real("z", -500, 9000)
    m = ConstantElevationModel(h)
    w = GeodeticWorldCoordinate([lon, lat, z])
    m.set_elevation(w)
    ctx.ensure_vec("only the elevation is set, to the constant", w.coordinate, [lon, lat, h])
    s = m.describe_region(w)
    ctx.ensure_vec("the region's elevations are the constant", [s.min_elevation, s.max_elevation], [h, h])
    ctx.ensure_vec("describing a region does not modify the location", w.coordinate, [lon, lat, h])
