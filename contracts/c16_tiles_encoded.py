"""C16: encoded image tiles: what GDAL is asked for, history independence, clean-up, pixels."""
import contextlib
import copy

import numpy as np

from pvc.ctx import Structural, harness

from .common import Rec

F = "image_processing.gdal_tile_factory.GDALTileFactory."
TRUST = ["gdal.Translate writes the requested tile to the path given, or raises, or writes nothing (replaced by a recorder)",
         "tile metadata updaters (C15), NITFDESAccessor (C19), get_type_and_scales (C14) and to_dms_string (C12) by contract"]
IC = {None: "IC=C8", "J2K": "IC=C8", "JPEG": "IC=C3", "NONE": "IC=NC"}
COMPRESS = {None: "COMPRESS=LZW", "LZW": "COMPRESS=LZW", "JPEG": "COMPRESS=JPEG", "NONE": "COMPRESS=NONE"}


class Vsi:
    """A file system and Translate as seen by the factory; counts what is left over."""

    def __init__(self, mode):
        self.files, self.handles, self.asked, self.mode, self.names, self.deleted = {}, set(), [], mode, [], []

    def translate(self, destName, srcDS, **kw):
        self.asked.append((srcDS, {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}))
        self.names.append(destName)
        if self.mode == "raises":
            raise RuntimeError("translate failed")
        if self.mode != "nothing":
            self.files[destName] = b"tile %d" % len(self.asked)
            return object()
        return None

    def open(self, name, mode="r", *a, **k):
        if name not in self.files:
            return None
        h = ("handle", name, len(self.names))
        self.handles.add(h)
        return h

    def stat(self, name, *a):
        return Rec(size=len(self.files[name])) if name in self.files else None

    def read(self, size, count, h):
        if h not in self.handles:
            raise ValueError("closed")
        if self.mode == "read fails":
            raise RuntimeError("read failed")
        return bytearray(self.files[h[1]][: size * count])

    def close(self, h):
        self.handles.remove(h)
        return 0

    def unlink(self, name):
        self.deleted.append(name)
        if self.files.pop(name, None) is None:
            return -1
        return 0

    def patches(self, ctx, mod):
        st = contextlib.ExitStack()
        g = mod.gdal
        fs = self

        class Driver:
            def Delete(self, n):
                return fs.unlink(n)

        for n, f in (("Translate", self.translate), ("VSIFOpenL", self.open), ("VSIStatL", self.stat), ("VSIFReadL", self.read),
                     ("VSIFCloseL", self.close), ("Unlink", self.unlink), ("GetDriverByName", lambda n: Driver())):
            st.enter_context(ctx.patch(g, n, f))
        return st


def model(ctx, log):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, SensorModel

    class W(GeodeticWorldCoordinate):
        tag = ""

        def to_dms_string(self):
            return self.tag

        def __format__(self, spec):
            return self.tag

    class M(SensorModel):
        def image_to_world(self, image_coordinate, elevation_model=None, options=None):
            w = W([0.1, 0.2, 0.0])
            w.tag = "<corner%03d>   " % len(log)
            log.append(list(image_coordinate.coordinate))
            return w

        def world_to_image(self, world_coordinate):
            raise NotImplementedError()

    return M()


class Updater:
    def __init__(self, kind, xml, log):
        self.kind, self.xml, self.log, self.n = kind, xml, log, 0

    def update_image_data_for_chip(self, chip_bounds, output_size):
        self.n = len(self.log)
        self.log.append((self.kind, self.xml, list(chip_bounds), output_size))

    def encode_current_xml(self):
        return f"<{self.kind} {self.xml} update {self.n}>"


SEGMENTS = {"none": [], "no xml": [None], "other": ["<X/>"], "SICD": ["<SICD a/>"], "SIDD": ["<SIDD b/>"], "SIDD+SICD": ["<SIDD b/>", "<SICD a/>"],
            "other+SICD": ["<X/>", "<SICD a/>"], "no xml+SIDD": ["", "<SIDD b/>", "<SICD c/>"]}


class Dataset:
    RasterXSize, RasterYSize, RasterCount = 1000, 800, 1

    def __init__(self, driver):
        self.driver = driver

    def GetDriver(self):
        return Rec(ShortName=self.driver)

    def GetMetadata(self, domain=""):
        return ["des"]


def state(f):
    """The factory's own state."""
    return {k: copy.copy(v) if isinstance(v, (list, dict, set)) else v for k, v in f.__dict__.items()}


def _eq(a, b):
    r = a == b
    return r if isinstance(r, bool) else bool(r)


@harness("C16", [F + "__init__", F + "create_encoded_tile", F + "_create_gdal_translate_kwargs", F + "_create_new_igeolo"], samples=300, trusted=TRUST,
         limits=dict(max_paths=40000, max_seconds=400))
def encoded_tile(ctx):
    from osgeo import gdalconst

    import aws.osml.image_processing.gdal_tile_factory as mod
    from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, RangeAdjustmentType

    ctx.need(mod, "gdal", "NITFDESAccessor", "SICDUpdater", "SIDDUpdater", "get_type_and_scales")
    # one tile, with every combination; histories by induction: a tile leaves the factory as it was (frame), and besides as two tiles in a row
    S = ctx.symbolic
    aspect = ctx.choice("aspect", ["one tile", "two tiles"]) if S else "all"

    def pick(name, choices, *aspects):
        return ctx.choice(name, choices) if aspect != "two tiles" or aspect in aspects else choices[0]

    fmt = pick("format", ["NITF", "GTIFF", "PNG", "JPEG"])
    comp = pick("compression", [None] + {"NITF": ["NONE", "J2K", "JPEG"], "GTIFF": ["NONE", "LZW", "JPEG"]}.get(fmt, []))
    otype = pick("type", [gdalconst.GDT_Byte, gdalconst.GDT_Float32] + ([gdalconst.GDT_Float64] if comp in (None, "J2K") else []) if fmt == "NITF" else [gdalconst.GDT_Byte])
    segs = pick("segments", (list(SEGMENTS) if fmt == "NITF" and comp in (None, "NONE") else ["none", "SICD"]) if aspect != "two tiles" else ["SICD", "none"],
                "two tiles")
    driver = "NITF" if segs != "none" else pick("driver", ["NITF", "GTiff"])
    use_model = pick("model", [True, False], "two tiles")
    corners, updates, des = [], [], []
    scales = [[ctx.real("smin", 1, 10), ctx.real("smax", 20, 200), 0, 255]]

    class Des:
        def __init__(self, gdal_xml_des_metadata):
            ctx.ensure("the DES of the image are read", gdal_xml_des_metadata == ["des"])

        def get_segments_by_name(self, des_name):
            return [("seg", i) for i, _ in enumerate(SEGMENTS[segs])] if des_name == "XML_DATA_CONTENT" else []

        def extract_desdata_xml(self, des_element):
            return SEGMENTS[segs][des_element[1]]

        def extract_des_header(self, des_element):
            return f"HEADER{des_element[1]} "

    adj = pick("adjust", [RangeAdjustmentType.DRA, RangeAdjustmentType.NONE])
    want = pick("want", [gdalconst.GDT_UInt16, None])

    def type_and_scales(raster_dataset, desired_output_type=None, range_adjustment=RangeAdjustmentType.NONE):
        ctx.ensure("type and scales of the image as requested", raster_dataset is ds and desired_output_type == want and range_adjustment == adj)
        return otype, scales

    ds = Dataset(driver)
    mode = pick("result", ["ok", "nothing", "read fails", "raises"])
    fs = Vsi("ok")
    n = ctx.choice("tiles", [1, 2, 3]) if not S else 2 if aspect == "two tiles" else 1
    with fs.patches(ctx, mod), ctx.patch(mod, "NITFDESAccessor", Des), ctx.patch(mod, "get_type_and_scales", type_and_scales), \
            ctx.patch(mod, "SICDUpdater", lambda xml_str: Updater("SICD", xml_str, updates)), ctx.patch(mod, "SIDDUpdater", lambda xml_str: Updater("SIDD", xml_str, updates)):
        f = mod.GDALTileFactory(ds, model(ctx, corners) if use_model else None, GDALImageFormats[fmt],
                                None if comp is None else GDALCompressionOptions(comp), want, adj)
        before = state(f)
        for k in range(n):
            last = k == n - 1
            w = [ctx.int(f"x{k}", 0, 500), ctx.int(f"y{k}", 0, 500), ctx.int(f"w{k}", 1, 400), ctx.int(f"h{k}", 1, 400)]
            size = (ctx.int(f"ow{k}", 1, 400), ctx.int(f"oh{k}", 1, 400)) if ctx.choice(f"scaled{k}", [False, True]) else None
            fs.mode = mode if last else "ok"
            del fs.asked[:], fs.names[:], corners[:], updates[:], fs.deleted[:]
            given = list(w)
            if size is None and (S or ctx.choice(f"how{k}", [0, 1])):
                r, e = ctx.attempt(f.create_encoded_tile, w)
            else:
                r, e = ctx.attempt(f.create_encoded_tile, w, size)
            now = state(f)
            if S and not (set(now) == set(before) and all(now[a] is before[a] or _eq(now[a], before[a]) for a in now)):
                from pvc.sym import ST

                ST.path.run.bounded.add("the factory keeps state between tiles: histories of up to 2 tiles")
            if not last:
                continue
            ctx.ensure_vec("the window is not modified", w, given)
            ctx.ensure("one tile is written", len(fs.asked) == 1)
            src, kw = fs.asked[0]
            ctx.ensure("from this image", src is ds)
            ctx.ensure_vec("the window asked for", list(kw["srcWin"]), given)
            if size is None:
                ctx.ensure("full resolution", kw.get("width", 0) == 0 and kw.get("height", 0) == 0)
            else:
                ctx.ensure_vec("output size", [kw.get("width"), kw.get("height")], list(size))
            ctx.ensure("format", kw["format"] == GDALImageFormats[fmt].value)
            ctx.ensure("output type", kw["outputType"] == otype)
            ctx.ensure_vec("scaling", list(kw["scaleParams"][0]), scales[0])
            opts = list(kw["creationOptions"])
            exp = []
            if fmt == "NITF":
                exp.append("IC=NC" if otype != gdalconst.GDT_Byte and comp in (None, "J2K") else IC[comp])
            elif fmt == "GTIFF":
                exp.append(COMPRESS[comp])
            if fmt == "NITF" and use_model:
                x, y, ww, hh = given
                ctx.ensure("four corners", len(corners) == 4)
                for c, ec, name in zip(corners, ([x, y], [x + ww, y], [x + ww, y + hh], [x, y + hh]), ("upper left", "upper right", "lower right", "lower left")):
                    ctx.ensure_vec(f"location of the {name} corner", c, ec)
                exp += ["ICORDS=G", "IGEOLO=" + "".join("<corner%03d>   " % i for i in range(4))]
            sar = next(((i, s) for i, s in enumerate(SEGMENTS[segs]) if s and ("SICD" in s or "SIDD" in s)), None) if driver == "NITF" else None
            if fmt == "NITF" and sar:
                kind = "SIDD" if "SIDD" in sar[1] else "SICD"
                ctx.ensure("one update of the metadata", len(updates) == 1)
                u = updates[0]
                ctx.ensure("metadata of the image", u[:2] == (kind, sar[1]))
                ctx.ensure_vec("metadata of this tile", u[2], given)
                if size is None:
                    ctx.ensure("metadata of an unscaled tile", u[3] is None or [bool(a == b) for a, b in zip(u[3], given[2:])] == [True, True])
                else:
                    ctx.ensure_vec("metadata of the scaled tile", list(u[3]), list(size))
                exp += ["ICAT=SAR", "IREP=NODISPLY", "IREPBAND= , ", "ISUBCAT=I,Q",
                        f"DES=XML_DATA_CONTENT=HEADER{sar[0]} <{kind} {sar[1]} update 0>"]
            else:
                ctx.ensure("no metadata update", not updates or fmt != "NITF")
            ctx.ensure("creation options of this tile only", sorted(map(str, opts)) == sorted(exp))
            if mode == "ok":
                ctx.ensure("the encoded tile is returned", e is None and bytes(r) == b"tile 1")
            elif mode == "nothing":
                ctx.ensure("no tile, no result", e is None and r is None)
            else:
                ctx.ensure("failures are not hidden as tiles", e is not None or r is None)
            ctx.ensure("the temporary file is removed", not fs.files)
            ctx.ensure("the temporary file is closed", not fs.handles)
            ctx.ensure("only the temporary file is removed", set(fs.deleted) <= set(fs.names))
            ctx.ensure("temporary files are in memory", all(nm.startswith("/vsimem/") for nm in fs.names))


def _any(ctx, cs):
    r = False
    for c in cs:
        if not isinstance(c, bool):
            c = bool(c)
        r = r or c
    return r


@harness("C16", [F + "__init__", F + "create_encoded_tile", F + "_create_gdal_translate_kwargs"], samples=60, trusted=TRUST)
def scaling_of_all_bands(ctx):
    """Every band is scaled as computed; nothing is scaled when the pixel values map to themselves over a range double arithmetic can not hold."""
    import aws.osml.image_processing.gdal_tile_factory as mod
    from aws.osml.gdal import GDALImageFormats

    ctx.need(mod, "gdal", "get_type_and_scales")
    n = ctx.choice("bands", [1, 2, 3])
    scales = []
    for b in range(n):
        kind = ctx.choice(f"band{b}", ["same", "scaled"])
        lo, hi = ctx.real(f"lo{b}", -1e30, 0), ctx.real(f"hi{b}", 1, 1e30)
        if kind == "same":
            scales.append([lo, hi, lo, hi])
        else:
            out = ctx.real(f"out{b}", 0, 1e30)
            ctx.assume(out != hi)
            scales.append([lo, hi, lo, out])
    fs = Vsi("ok")
    with fs.patches(ctx, mod), ctx.patch(mod, "get_type_and_scales", lambda raster_dataset, desired_output_type=None, range_adjustment=None: (1, [list(p) for p in scales])):
        mod.GDALTileFactory(Dataset("GTiff"), None, GDALImageFormats.GTIFF).create_encoded_tile([0, 0, 5, 5])
    kw = fs.asked[0][1]
    got = kw.get("scaleParams")
    ctx.ensure("no other scaling", not any(k in kw for k in ("exponents", "unscale")))
    if not got:
        for p in scales:
            ctx.ensure_vec("values of the band are scaled", p[:2], p[2:], tol=0)
    else:
        ctx.ensure("bands", len(got) == n)
        # GDAL computes max - min in double arithmetic: an overflow for 64-bit floating point, a loss of digits for 64-bit integers
        exact = [p[0] != p[2] or p[1] != p[3] or p[1] - p[0] <= 2 ** 53 for p in scales]
        ctx.ensure("64-bit values that map to themselves are left alone", _any(ctx, exact))
        for p, q in zip(scales, got):
            ctx.ensure_vec("scaling of the band", list(q), p)


@harness("C16", [F + "create_encoded_tile"], samples=12, trusted=TRUST)
def tiles_of_any_size(ctx):
    """The whole encoded tile is returned, whatever its size; temporary files of tiles made at the same time are apart."""
    import aws.osml.image_processing.gdal_tile_factory as mod
    from aws.osml.gdal import GDALImageFormats

    ctx.need(mod, "gdal", "get_type_and_scales")
    size = ctx.int("size", 1, None if ctx.symbolic else 10 ** 10)
    fs, reads = Vsi("ok"), []

    def read(nSize, nCount, fp):
        reads.append((nSize, nCount))
        return bytearray(b"all of it")

    fs.stat, fs.read = (lambda name, *a: Rec(size=size)), read
    with fs.patches(ctx, mod), ctx.patch(mod, "get_type_and_scales", lambda raster_dataset, desired_output_type=None, range_adjustment=None: (1, [])):
        many = 1 if ctx.symbolic else 20
        fs_ = [mod.GDALTileFactory(Dataset("GTiff"), None, GDALImageFormats.GTIFF) for _ in range(many)]
        for f in fs_ * (1 if ctx.symbolic else 15):
            r = f.create_encoded_tile([0, 0, 5, 5])
        if not reads:
            raise Structural("read in another way")
        if len(reads) == len(fs.names):
            ctx.ensure_eq("all bytes of the tile are read", reads[-1][0] * reads[-1][1], size, tol=0)
            ctx.ensure("and returned", bytes(r) == b"all of it")
        if not ctx.symbolic:
            ctx.ensure("a temporary file for each tile", len(set(fs.names)) == len(fs.names))


@harness("C16", [F + "__init__", F + "create_encoded_tile"], sym=False, samples=60, bounded="sampled in-memory rasters and windows")
def encoded_pixels(ctx):
    """The tile holds exactly the pixels of its window (lossless formats), in any order of requests; nothing is left in /vsimem."""
    from osgeo import gdal

    was = gdal.GetUseExceptions()
    (gdal.UseExceptions if ctx.choice("exceptions", [False, True]) else gdal.DontUseExceptions)()
    try:
        _encoded_pixels(ctx)
    finally:
        (gdal.UseExceptions if was else gdal.DontUseExceptions)()


def _encoded_pixels(ctx):
    from osgeo import gdal, gdal_array

    from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats
    from aws.osml.image_processing import GDALTileFactory
    from aws.osml.photogrammetry import GDALAffineSensorModel

    fmt = ctx.choice("format", ["NITF", "GTIFF", "PNG"])
    nb = ctx.choice("bands", [1, 3])
    rng = np.random.default_rng(ctx.int("seed", 0, 10**6))
    # every pixel type the format can hold without loss, over the full range of the type
    types = ["uint8"] * 3 + ["uint16"] + ([] if fmt == "PNG" else ["int16", "uint32", "int32", "float32", "float64", "complex64"]) + (["int64", "uint64", "int8"] if fmt == "GTIFF" else [])
    dt = np.dtype(ctx.choice("pixels", types))
    ds = gdal.GetDriverByName("MEM").Create("", 120, 90, nb, {"int8": gdal.GDT_Int8, "complex64": gdal.GDT_CFloat32}.get(dt.name) or gdal_array.NumericTypeCodeToGDALTypeCode(dt))
    if dt.kind in "iu":
        info = np.iinfo(dt)
        a = rng.integers(info.min, info.max, (nb, 90, 120), dtype=dt, endpoint=True)
    else:
        big = 10.0 ** rng.uniform(-5, 300 if dt == np.float64 else 37, (nb, 90, 120))
        a = (rng.normal(0, 1, (nb, 90, 120)) * big * (1 if dt.kind == "f" else np.exp(1j * big))).astype(dt)
    for b in range(nb):
        ds.GetRasterBand(b + 1).WriteArray(a[b])
    m = GDALAffineSensorModel((10.0, 0.01, 0.0, 45.0, 0.0, -0.01)) if ctx.choice("model", [True, False]) else None
    f = GDALTileFactory(ds, m, GDALImageFormats[fmt], GDALCompressionOptions.NONE)
    before = set(gdal.ReadDirRecursive("/vsimem/") or [])
    for k in range(ctx.choice("n", [1, 2, 3])):
        x, y = ctx.int(f"x{k}", 0, 100), ctx.int(f"y{k}", 0, 70)
        w, h = ctx.int(f"w{k}", 1, 20), ctx.int(f"h{k}", 1, 20)
        buf = f.create_encoded_tile([x, y, w, h])
        ctx.ensure("a tile is returned", buf is not None)
        name = "/vsimem/pvc_check.bin"
        gdal.FileFromMemBuffer(name, bytes(buf))
        try:
            t = gdal.Open(name)
            got = t.ReadAsArray().reshape(nb, h, w)
            ctx.ensure("pixel type of the image", got.dtype == a.dtype)
            ctx.ensure("pixels of the window", bool((got == a[:, y:y + h, x:x + w]).all()))
            if m is not None and fmt == "NITF":
                meta = t.GetMetadata()
                want = "".join(m.image_to_world(_ic(c)).to_dms_string() for c in ((x, y), (x + w, y), (x + w, y + h), (x, y + h)))
                ctx.ensure("corner locations", meta.get("NITF_IGEOLO") == want)
            t = None
        finally:
            gdal.Unlink(name)
        with contextlib.suppress(RuntimeError):
            gdal.Unlink(name + ".aux.xml")
    ctx.ensure("no temporary files are left", {p for p in set(gdal.ReadDirRecursive("/vsimem/") or []) - before if not p.endswith("/")} == set())


def _ic(c):
    from aws.osml.photogrammetry import ImageCoordinate

    return ImageCoordinate([float(c[0]), float(c[1])])
