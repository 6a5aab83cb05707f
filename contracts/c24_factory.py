"""C24: which sensor model an image gets from its metadata."""
import contextlib
import inspect

from pvc.ctx import harness

from .common import Rec, Tre, record_classes, tres

F = "gdal.sensor_model_factory."
BUILDERS = ["GDALAffineSensorModelBuilder", "GDALGCPSensorModelBuilder", "RSMSensorModelBuilder", "RPCSensorModelBuilder", "ProjectiveSensorModelBuilder",
            "SICDSensorModelBuilder", "SIDDSensorModelBuilder"]
TRUST = ["the builders by contract: a model or None (C01, C18, C28)", "int(text)/float(text) give the number a field's text denotes"]
SICD = "<SICD xmlns=\"urn:SICD:1.2.1\"><A/></SICD>"
SIDD = "<SIDD xmlns=\"urn:SIDD:2.0.0\"><A/></SIDD>"


class Model:
    """A model built by a builder."""


class Builders:
    """Every builder of the module replaced by a recorder that gives the model (or None) the harness decides."""

    def __init__(self, ctx, mod, works):
        self.calls, self.models = [], {}
        self.st = contextlib.ExitStack()
        ctx.need(mod, *BUILDERS)
        for n in BUILDERS:
            self.st.enter_context(ctx.patch(mod, n, self.make(n, inspect.signature(getattr(mod, n).__init__), works)))

    def make(self, n, sig, works):
        outer = self

        class Builder:
            def __init__(self, *a, **k):
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                self.args = b.arguments

            def build(self):
                outer.calls.append((n, self.args))
                return outer.models.setdefault(n, Model()) if works[n] else None

        return Builder


def des(*docs):
    import base64

    return ["<des_list>" + "".join(f"<des name=\"XML_DATA_CONTENT\"><field name=\"DESDATA\" value=\"{base64.b64encode(d.encode()).decode()}\"/></des>" if d else
                                   "<des name=\"XML_DATA_CONTENT\"/>" for d in docs) + "</des_list>"]


POINTS = ["11", "12", "21", "22"]


def ichipb(ctx):
    t = Tre(ctx, "ICHIPB").field("XFRM_FLAG", text="00")
    for g in POINTS:
        t.all([f"{a}_{b}_{g}" for a in ("OP", "FI") for b in ("ROW", "COL")])
    return t.field("FI_ROW", "int").field("FI_COL", "int")


NAMES = ["AFFINE", "PROJECTIVE", "RPC", "RSM", "SICD"]
COVER = [F + "SensorModelFactory." + f for f in ("__init__", "build")] + [F + "ChippedImageInfoFacade.__init__"]
LIMITS = dict(max_paths=4000, max_seconds=300)


@harness("C24", COVER, samples=600, trusted=TRUST, limits=LIMITS)
def selected_types(ctx):
    """Only models of the selected types; every type by default."""
    sel = [n for n in NAMES if ctx.choice("select " + n, [True, False])]
    selection(ctx, sel, seg=ctx.choice("segments", [None, "SICD", "SIDD, SICD"]), chip=ctx.choice("chip", ["none", "good"]), default=sel == NAMES and ctx.choice("default", [True, False]))


@harness("C24", COVER, samples=600, trusted=TRUST, limits=LIMITS)
def best_source(ctx):
    """The best model the metadata give, whichever of the sources are present and readable."""
    selection(ctx, NAMES, gt=ctx.choice("geotransform", [True, False]), wkt=ctx.choice("wkt", [None, "PROJ"]), ng=ctx.choice("gcps", [None, 0, 3, 4, 5]),
              has_corners=ctx.choice("corners", [None, True, False]), broken=True)


@harness("C24", COVER, samples=600, trusted=TRUST, limits=LIMITS)
def chips(ctx):
    """Models of the full image are used through the chip's pixels; unreadable chip information is ignored."""
    selection(ctx, NAMES, has_corners=ctx.choice("corners", [True, False]), chip=ctx.choice("chip", ["none", "good", "spoiled"]), seg=ctx.choice("segments", [None, "SICD"]),
              broken=("RSMSensorModelBuilder", "RPCSensorModelBuilder", "ProjectiveSensorModelBuilder"))


@harness("C24", COVER, samples=600, trusted=TRUST, limits=LIMITS)
def segments(ctx):
    """SIDD before SICD documents; unreadable ones leave the model of the TREs."""
    selection(ctx, NAMES, seg=ctx.choice("segments", [None, "empty", "SICD", "SIDD", "SIDD, SICD", "SICD, SIDD", "none, SICD", "other", "other, SICD"]),
              has_corners=ctx.choice("corners", [None, True, False]), gt=ctx.choice("geotransform", [True, False]),
              broken=("SICDSensorModelBuilder", "SIDDSensorModelBuilder", "RSMSensorModelBuilder"))


def selection(ctx, sel, gt=True, wkt="PROJ", ng=4, has_corners=True, chip="none", seg=None, broken=(), default=False):
    import aws.osml.gdal.sensor_model_factory as mod
    from aws.osml.gdal.sensor_model_factory import SensorModelFactory, SensorModelTypes as T

    ctx.need(mod, "ChippedImageSensorModel", "CompositeSensorModel")
    st, made = record_classes(ctx, mod, "ChippedImageSensorModel", "CompositeSensorModel")
    w, h = ctx.int("width", 1, 10000), ctx.int("height", 1, 10000)
    has_tres = has_corners is not None
    works = {n: True for n in BUILDERS}
    present = {"GDALAffineSensorModelBuilder": gt, "GDALGCPSensorModelBuilder": (ng or 0) > 3, "ProjectiveSensorModelBuilder": has_corners, "RSMSensorModelBuilder": has_tres,
               "RPCSensorModelBuilder": has_tres, "SICDSensorModelBuilder": seg and "SICD" in seg, "SIDDSensorModelBuilder": seg and "SIDD" in seg}
    for n in BUILDERS:
        # with a geotransform, or four control points, those builders always give a model
        if present[n] and (broken is True and "GDAL" not in n or broken is not True and n in broken):
            works[n] = ctx.choice("works " + n, [True, False])
    ok = works.__getitem__
    gt = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0] if gt else None
    gcps = None if ng is None else [object() for _ in range(ng)]
    t = ichipb(ctx)
    if chip == "spoiled":
        t.spoil(ctx.choice("field", ["OP_ROW_11", "OP_COL_22", "FI_ROW_12", "FI_COL_21", "FI_ROW", "FI_COL"]), ctx.choice("how", ["missing", "text", "blank"]))
    docs = {None: None, "empty": [], "SICD": [SICD], "SIDD": [SIDD], "SIDD, SICD": [SIDD, SICD], "SICD, SIDD": [SICD, SIDD], "none, SICD": [None, SICD],
            "other": ["<X/>"], "other, SICD": ["<X/>", SICD]}[seg]
    kw = dict(geo_transform=gt, proj_wkt=wkt, ground_control_points=gcps)
    tre = None
    if has_tres:
        tre = tres(*([Tre(ctx, "CSCRNA")] if has_corners else []), *([t] if chip != "none" else []))
        kw["xml_tres"] = tre
    if docs is not None:
        kw["xml_dess"] = des(*docs) if docs else []
    if not default:
        kw["selected_sensor_model_types"] = [T[n] for n in sel]
    b = Builders(ctx, mod, works)
    with st, b.st:
        m = SensorModelFactory(w, h, **kw).build()

    # what the metadata give
    called = dict(b.calls)
    ctx.ensure("every builder is used at most once", len(called) == len(b.calls))

    def wrap(name):
        """the model of the builder, for the chip"""
        return ("chip", name) if chip == "good" else name

    corner = has_tres and has_corners and "PROJECTIVE" in sel and ok("ProjectiveSensorModelBuilder")
    gcp = ng is not None and ng > 3 and "PROJECTIVE" in sel and ok("GDALGCPSensorModelBuilder")
    aff = gt is not None and "AFFINE" in sel and ok("GDALAffineSensorModelBuilder")
    approx = wrap("ProjectiveSensorModelBuilder") if corner else "GDALGCPSensorModelBuilder" if gcp else "GDALAffineSensorModelBuilder" if aff else None
    rsm = has_tres and "RSM" in sel and ok("RSMSensorModelBuilder")
    rpc = has_tres and "RPC" in sel and ok("RPCSensorModelBuilder")
    precise = wrap("RSMSensorModelBuilder") if rsm else wrap("RPCSensorModelBuilder") if rpc else None
    first, xml = None, None
    for d in docs or []:
        if d and "SIDD" in d:
            first, xml = "SIDDSensorModelBuilder", d
            break
        if d and "SICD" in d and "SICD" in sel:
            first, xml = "SICDSensorModelBuilder", d
            break
    if first and ok(first):
        precise = first

    def check(what, x, want):
        if want is None:
            ctx.ensure(what + ": none", x is None)
        elif isinstance(want, tuple):
            ctx.ensure(what + ": wrapped for the chip", type(x) is made.ChippedImageSensorModel)
            check(what, x.full_image_sensor_model, want[1])
            full, own = list(x.original_image_coordinates), list(x.chipped_image_coordinates)
            ctx.ensure("four pairs of pixels", len(full) == 4 and len(own) == 4)
            left = list(zip(full, own))
            for g in POINTS:
                v = t.v
                hit = [k for k, (p, q) in enumerate(left) if ctx.same(p.x, v["FI_COL_" + g]) and ctx.same(p.y, v["FI_ROW_" + g])]
                p, q = left.pop(hit[0] if hit else 0)
                ctx.ensure_vec("full image pixel " + g, [p.x, p.y], [v["FI_COL_" + g], v["FI_ROW_" + g]])
                ctx.ensure_vec("chip pixel " + g, [q.x, q.y], [v["OP_COL_" + g], v["OP_ROW_" + g]])
        else:
            ctx.ensure(what + ": of the best metadata", x is b.models.get(want) and x is not None)

    if approx is not None and precise is not None:
        ctx.ensure("both models are combined", type(m) is made.CompositeSensorModel)
        check("approximate model", m.approximate_sensor_model, approx)
        check("precise model", m.precision_sensor_model, precise)
    else:
        check("model", m, approx if precise is None else precise)
    # what the builders were given
    a = called.get("GDALAffineSensorModelBuilder")
    if a is not None and approx == "GDALAffineSensorModelBuilder":
        ctx.ensure("geotransform and projection", a["geo_transform"] is gt and a["proj_wkt"] == wkt)
    a = called.get("GDALGCPSensorModelBuilder")
    if a is not None and approx == "GDALGCPSensorModelBuilder":
        ctx.ensure("control points", a["ground_control_points"] is gcps)
    for n in ("RSMSensorModelBuilder", "RPCSensorModelBuilder", "ProjectiveSensorModelBuilder"):
        if n in called:
            ctx.ensure("the TREs", called[n]["xml_tres"] is tre)
    if corner:
        a = called["ProjectiveSensorModelBuilder"]
        fw, fh = (t.v["FI_COL"], t.v["FI_ROW"]) if chip == "good" else (w, h)
        ctx.ensure_vec("corners are those of the full image", [a["full_image_width"], a["full_image_height"]], [fw, fh])
    if first:
        ctx.ensure("the document of the segment", called[first][{"SIDDSensorModelBuilder": "sidd_xml"}.get(first, "sicd_xml")] == xml)
    for n, s in (("GDALAffineSensorModelBuilder", "AFFINE"), ("GDALGCPSensorModelBuilder", "PROJECTIVE"), ("ProjectiveSensorModelBuilder", "PROJECTIVE"),
                 ("RSMSensorModelBuilder", "RSM"), ("RPCSensorModelBuilder", "RPC"), ("SICDSensorModelBuilder", "SICD")):
        ctx.ensure("only selected types are built", s in sel or n not in called)


@harness("C24", ["gdal.gdal_utils.load_gdal_dataset"], samples=200, limits=dict(max_paths=3000, max_seconds=200), trusted=["gdal.Open gives a dataset, None or raises RuntimeError", "defusedxml parses the TREs"])
def load(ctx):
    """A dataset is opened with the sensor model of its own metadata; images that cannot be opened are reported."""
    import aws.osml.gdal.gdal_utils as mod

    ctx.need(mod, "SensorModelFactory", "gdal")
    st, made = Rec(), []
    sig = inspect.signature(mod.SensorModelFactory.__init__)
    case = ctx.choice("case", ["good", "none", "raises"])
    tre = ctx.choice("tre", [None, [], ["<tres><tre name=\"RPC00B\"/></tres>"]])
    dess = ctx.choice("des", [None, [], ["<des_list/>"]])
    gt = ctx.choice("gt", [None, (1.0, 2.0, 0.0, 3.0, 0.0, 4.0)])
    gcps = ctx.choice("gcps", [None, (), ("p",) * 4])
    wkt = ctx.choice("wkt", ["", "PROJ"])
    built = ctx.choice("built", [None, "model"])
    w, h = ctx.int("width", 1, 10000), ctx.int("height", 1, 10000)

    class Factory:
        def __init__(self, *a, **k):
            x = sig.bind(self, *a, **k)
            x.apply_defaults()
            made.append(x.arguments)

        def build(self):
            return built

    ds = Rec(RasterXSize=w, RasterYSize=h, GetGeoTransform=lambda can_return_null=False: gt if can_return_null or gt else (0.0, 1.0, 0.0, 0.0, 0.0, 1.0), GetGCPs=lambda: gcps,
             GetProjection=lambda: wkt, GetProjectionRef=lambda: wkt, GetMetadata=lambda d="": {"xml:TRE": tre, "xml:DES": dess}.get(d))

    def open_(path, *a, **k):
        ctx.ensure("the image asked for", path == "/some/image.ntf")
        if case == "raises":
            raise RuntimeError("no such file")
        return None if case == "none" else ds

    with ctx.patch(mod.gdal, "Open", open_), ctx.patch(mod, "SensorModelFactory", Factory):
        r, x = ctx.attempt(mod.load_gdal_dataset, "/some/image.ntf")
    if case != "good":
        ctx.ensure("unreadable images are reported", isinstance(x, ValueError))
        return
    ctx.ensure("no exception", x is None)
    ctx.ensure("dataset and sensor model", r[0] is ds and r[1] == built and len(made) == 1)
    a = made[0]
    ctx.ensure_vec("size of the image", [a["actual_image_width"], a["actual_image_height"]], [w, h])
    ctx.ensure("TREs", (a["xml_tres"] is None) == (not tre) and (not tre or a["xml_tres"].find("./tre[@name='RPC00B']") is not None))
    ctx.ensure("segments", (a["xml_dess"] or None) == (dess or None))
    ctx.ensure("geotransform, projection and control points", a["geo_transform"] == gt and (a["proj_wkt"] or None) == (wkt or None) and (a["ground_control_points"] or None) == (gcps or None))
    sel = a["selected_sensor_model_types"]
    ctx.ensure("every type of model may be used", sel is None or {t.value for t in sel} == {"AFFINE", "PROJECTIVE", "RPC", "RSM", "SICD"})
