"""C15: SICD and SIDD metadata of image chips."""
import copy
import os

import numpy as np

from pvc import env
from pvc.ctx import harness

from .common import Rec

VERSIONS = ["1.0.0", "2.0.0", "3.0.0"]
S = "image_processing.sicd_updater.SICDUpdater."
D = "image_processing.sidd_updater.SIDDUpdater."
_CACHE = {}


def text(name):
    if name not in _CACHE:
        _CACHE[name] = open(os.path.join(env.REPO, "test/data", name)).read()
    return _CACHE[name]


def parsed(name):
    from xsdata.formats.dataclass.parsers import XmlParser

    import aws.osml.formats.sicd.models.sicd_v1_2_1  # noqa: F401
    import aws.osml.formats.sidd.models.sidd_v1_0_0  # noqa: F401
    import aws.osml.formats.sidd.models.sidd_v2_0_0  # noqa: F401
    import aws.osml.formats.sidd.models.sidd_v3_0_0  # noqa: F401

    k = ("parsed", name)
    if k not in _CACHE:
        _CACHE[k] = XmlParser().from_string(text(name))
    return copy.deepcopy(_CACHE[k])


SICDS = ["sicd/example.sicd121.capella.xml", "sicd/example.sicd121.pfa.xml", "sicd/example.sicd121.rma.xml"]


def chip(ctx, k):
    """An arbitrary chip: [col, row, width, height]."""
    return [ctx.int(f"x{k}", 0, 4000), ctx.int(f"y{k}", 0, 4000), ctx.int(f"w{k}", 2, 3000), ctx.int(f"h{k}", 2, 3000)]


@harness("C15", [S + "__init__", S + "update_image_data_for_chip"], samples=150, bounded="histories of up to 3 chips")
def sicd_chip_metadata(ctx):
    """After any history the image data describe the last chip relative to the original image; nothing else changes."""
    import aws.osml.image_processing.sicd_updater as mod

    doc = parsed(SICDS[0] if ctx.symbolic else ctx.choice("doc", SICDS))
    doc.image_data.first_row, doc.image_data.first_col = r0, c0 = ctx.int("r0", 0, 5000), ctx.int("c0", 0, 5000)
    ctx.need(mod, "XmlParser")
    other = copy.deepcopy(doc.image_data.full_image)
    rest = {f: getattr(doc, f) for f in doc.__dataclass_fields__ if f != "image_data"}
    restc = copy.deepcopy(rest)

    class Parser:
        def from_string(self, s, *a):
            return doc

    n = ctx.choice("n", [1, 2, 3])
    doc2 = parsed(SICDS[0])
    doc2.image_data.first_row = doc2.image_data.first_col = 77
    with ctx.patch(mod, "XmlParser", lambda *a, **k: Parser()):
        u = mod.SICDUpdater("<SICD/>")
    with ctx.patch(mod, "XmlParser", lambda *a, **k: Rec(from_string=lambda s, *a: doc2)):
        # an updater of another image, in use at the same time
        u2 = mod.SICDUpdater("<SICD />")
        u2.update_image_data_for_chip([5, 6, 7, 8], None)
        ctx.ensure_vec("another image's chip", [getattr(doc2.image_data, f) for f in ("first_row", "first_col", "num_rows", "num_cols")], [83, 82, 8, 7])
    if True:
        for k in range(n):
            b = chip(ctx, k)
            kind = ctx.choice(f"size{k}", ["none", "same", "scaled"]) if k == n - 1 else ctx.choice(f"size{k}", ["none", "scaled"])
            before = [getattr(doc.image_data, f) for f in ("first_row", "first_col", "num_rows", "num_cols")]
            if kind == "scaled":
                dw, dh = ctx.int(f"dw{k}", -1, 1), ctx.int(f"dh{k}", -1, 1)
                ctx.assume(ctx.or_(dw != 0, dh != 0))
                _, e = ctx.attempt(u.update_image_data_for_chip, b, (b[2] + dw, b[3] + dh))
                ctx.ensure("scaling is rejected", isinstance(e, ValueError))
                ctx.ensure_vec("a rejected chip changes nothing", [getattr(doc.image_data, f) for f in ("first_row", "first_col", "num_rows", "num_cols")],
                               before)
                continue
            u.update_image_data_for_chip(b, None if kind == "none" else (b[2], b[3]))
            i = u.sicd.image_data
            ctx.ensure_vec("first row and column of the chip in the full image", [i.first_row, i.first_col], [r0 + b[1], c0 + b[0]])
            ctx.ensure_vec("rows and columns of the chip", [i.num_rows, i.num_cols], [b[3], b[2]])
    ctx.ensure("size of the full image is kept", doc.image_data.full_image == other)
    ctx.ensure("the rest of the metadata is kept", all(getattr(u.sicd, f) is rest[f] or getattr(u.sicd, f) == restc[f] for f in rest)
               and all(rest[f] == restc[f] for f in ("collection_info", "geo_data", "grid", "position") if f in rest))


def private(u, doc):
    """The updater's own state: everything but the document."""
    return {k: copy.copy(v) for k, v in u.__dict__.items() if v is not doc}


def frame(ctx, u, doc, before, name):
    """Induction step of a history: the updater's own state is what it was after construction.  An updater that keeps
    other state is still covered, for histories of bounded length, by the contracts on histories."""
    now = private(u, doc)
    if not (set(now) == set(before) and all(now[k] is before[k] or _eq(now[k], before[k]) for k in now)) and ctx.symbolic:
        from pvc.sym import ST

        ST.path.run.bounded.add(f"{name} keeps state between chips: histories of any length are not covered")


def _eq(a, b):
    r = a == b
    return r if isinstance(r, bool) else bool(r)


@harness("C15", [S + "__init__", S + "update_image_data_for_chip"])
def sicd_chip_after_any_history(ctx):
    """From any image data earlier chips may have left, with the updater's own state as constructed (which every update keeps)."""
    import aws.osml.image_processing.sicd_updater as mod

    doc = parsed(SICDS[0])
    doc.image_data.first_row, doc.image_data.first_col = r0, c0 = ctx.int("r0", 0, 5000), ctx.int("c0", 0, 5000)
    ctx.need(mod, "XmlParser")

    class Parser:
        def from_string(self, s, *a):
            return doc

    with ctx.patch(mod, "XmlParser", lambda *a, **k: Parser()):
        u = mod.SICDUpdater("<SICD/>")
    own = private(u, doc)
    for f in ("first_row", "first_col", "num_rows", "num_cols"):
        setattr(doc.image_data, f, ctx.int("any_" + f, 0, 10000))
    b = chip(ctx, 0)
    u.update_image_data_for_chip(b, ctx.choice("size", [None, (b[2], b[3])]))
    i = u.sicd.image_data
    ctx.ensure_vec("first row and column of the chip in the full image", [i.first_row, i.first_col], [r0 + b[1], c0 + b[0]])
    ctx.ensure_vec("rows and columns of the chip", [i.num_rows, i.num_cols], [b[3], b[2]])
    frame(ctx, u, doc, own, "SICDUpdater")


def corners(ctx, name, lo=0.0, hi=9000.0):
    return [(ctx.real(f"{name}c{i}", lo, hi), ctx.real(f"{name}r{i}", lo, hi)) for i in range(4)]


def bilinear(c, size, x, y):
    """Full image location of chip pixel (x, y): corners UL, UR, LR, LL are the first and last pixels (SIDD 5.1.1)."""
    v, u = x / (size[0] - 1), y / (size[1] - 1)
    return [c[0][k] * (1 - u) * (1 - v) + c[1][k] * (1 - u) * v + c[2][k] * u * v + c[3][k] * u * (1 - v) for k in range(2)]


@harness("C15", [D + "chipped_coordinate_to_full"], assume_nonzero=True)
def chip_pixel_in_full_image(ctx):
    from aws.osml.image_processing.sidd_updater import SIDDUpdater

    c = corners(ctx, "o")
    w, h = ctx.int("w", 1, 5000), ctx.int("h", 1, 5000)
    x, y = ctx.real("x", 0, 5000), ctx.real("y", 0, 5000)
    one_w, one_h = w == 1, h == 1
    if ctx.symbolic:
        one_w, one_h = bool(one_w), bool(one_h)
    if one_w:
        x = 0.0
    if one_h:
        y = 0.0
    got = SIDDUpdater.chipped_coordinate_to_full((x, y), (w, h), c)
    size = (2 if one_w else w, 2 if one_h else h)
    ctx.ensure_vec("bilinear interpolation between the original corners", got, bilinear(c, size, x, y), tol=1e-8, scale=1e4)


def chip_of(g):
    o = [g.original_upper_left_coordinate, g.original_upper_right_coordinate, g.original_lower_right_coordinate, g.original_lower_left_coordinate]
    return [(p.col, p.row) for p in o], (g.chip_size.col, g.chip_size.row)


SIDDS = ["sidd/example.sidd.xml", "sidd/example.sidd-chip.xml"]


@harness("C15", [D + "__init__", D + "update_image_data_for_chip", D + "chipped_coordinate_to_full"], samples=150, assume_nonzero=True,
         bounded="histories of up to 3 chips")
def sidd_chip_metadata(ctx):
    """The geometric chip relates every pixel of the last chip to the full image, whatever chips were created before."""
    import aws.osml.image_processing.sidd_updater as mod

    ctx.need(mod, "XmlParser")
    kind = ctx.choice("doc", ["full", "chip", "other processing"])
    doc = parsed(SIDDS[1 if kind == "chip" else 0])
    ns = __import__("sys").modules[type(doc).__module__]
    orig = None
    if kind == "chip":
        cs, sz = corners(ctx, "o"), (ctx.int("ow", 2, 8000), ctx.int("oh", 2, 8000))
        p = [ns.RowColDoubleType(row=r, col=c) for c, r in cs]
        doc.downstream_reprocessing.geometric_chip = ns.GeometricChipType(
            chip_size=ns.RowColIntType(row=sz[1], col=sz[0]), original_upper_left_coordinate=p[0], original_upper_right_coordinate=p[1],
            original_lower_right_coordinate=p[2], original_lower_left_coordinate=p[3])
        orig = (cs, sz)
    elif kind == "other processing":
        doc.downstream_reprocessing = ns.DownstreamReprocessingType()
    else:
        doc.downstream_reprocessing = None
    rest = {f: copy.deepcopy(getattr(doc, f)) for f in doc.__dataclass_fields__ if f != "downstream_reprocessing"}

    class Parser:
        def from_string(self, s, *a):
            return doc

    n = ctx.choice("n", [1, 2, 3] if not ctx.symbolic else [1, 2])
    doc2 = parsed(SIDDS[0])
    doc2.downstream_reprocessing = None
    with ctx.patch(mod, "XmlParser", lambda *a, **k: Parser()):
        u = mod.SIDDUpdater("<SIDD/>")
    with ctx.patch(mod, "XmlParser", lambda *a, **k: Rec(from_string=lambda s, *a: doc2)):
        # an updater of another image, in use at the same time
        u2 = mod.SIDDUpdater("<SIDD />")
        u2.update_image_data_for_chip([5, 6, 7, 8], None)
        c2, size2 = chip_of(u2.sidd.downstream_reprocessing.geometric_chip)
        ctx.ensure_vec("another image's chip", [c2[0][0], c2[0][1], c2[2][0], c2[2][1], size2[0], size2[1]], [5, 6, 11, 13, 7, 8])
    if True:
        for k in range(n):
            b = chip(ctx, k)
            out = None
            if ctx.choice(f"scaled{k}", [False, True]):
                out = (ctx.int(f"u{k}", 2, 3000), ctx.int(f"v{k}", 2, 3000))
            u.update_image_data_for_chip(b, out)
            if k < n - 1:
                continue
            c, size = chip_of(u.sidd.downstream_reprocessing.geometric_chip)
            ow, oh = out or (b[2], b[3])
            ctx.ensure_vec("size of the chip", list(size), [ow, oh])
            # any pixel of the chip, as a position in the image it was cut from
            x, y = ctx.real("x", 0, 3000), ctx.real("y", 0, 3000)
            sx, sy = b[0] + x * (b[2] - 1) / (ow - 1), b[1] + y * (b[3] - 1) / (oh - 1)
            e = bilinear(*orig, sx, sy) if orig else [sx, sy]
            ctx.ensure_vec("pixels of the chip are related to the pixels of the full image", bilinear(c, (ow, oh), x, y), e, tol=1e-8, scale=1e6)
            # the chip's first pixel
            e = bilinear(*orig, b[0], b[1]) if orig else [b[0], b[1]]
            ctx.ensure_vec("upper left corner", c[0], e, tol=1e-8, scale=1e5)
    ctx.ensure("the rest of the metadata is kept", all(getattr(u.sidd, f) == rest[f] for f in rest))


@harness("C15", [D + "__init__", D + "update_image_data_for_chip", D + "chipped_coordinate_to_full"], assume_nonzero=True)
def sidd_chip_after_any_history(ctx):
    """From any geometric chip earlier chips may have left, with the updater's own state as constructed (which every update keeps)."""
    import aws.osml.image_processing.sidd_updater as mod

    ctx.need(mod, "XmlParser")
    kind = ctx.choice("doc", ["full", "chip", "no chip"])
    parsed(SIDDS[0])
    ns = __import__("sys").modules["aws.osml.formats.sidd.models.sidd_v" + ctx.choice("version", VERSIONS).replace(".", "_")]
    doc = ns.SIDD()

    def geo(name):
        cs, sz = corners(ctx, name), (ctx.int(name + "w", 2, 8000), ctx.int(name + "h", 2, 8000))
        p = [ns.RowColDoubleType(row=r, col=c) for c, r in cs]
        return cs, sz, ns.GeometricChipType(
            chip_size=ns.RowColIntType(row=sz[1], col=sz[0]), original_upper_left_coordinate=p[0], original_upper_right_coordinate=p[1],
            original_lower_right_coordinate=p[2], original_lower_left_coordinate=p[3])

    orig = None
    doc.downstream_reprocessing = None if kind == "full" else ns.DownstreamReprocessingType()
    if kind == "chip":
        cs, sz, doc.downstream_reprocessing.geometric_chip = geo("o")
        orig = (cs, sz)

    class Parser:
        def from_string(self, s, *a):
            return doc

    with ctx.patch(mod, "XmlParser", lambda *a, **k: Parser()):
        u = mod.SIDDUpdater("<SIDD/>")
    own = private(u, doc)
    if doc.downstream_reprocessing is None:
        doc.downstream_reprocessing = ns.DownstreamReprocessingType()
    doc.downstream_reprocessing.geometric_chip = geo("any")[2]
    b = chip(ctx, 0)
    out = (ctx.int("u", 2, 3000), ctx.int("v", 2, 3000)) if ctx.choice("scaled", [False, True]) else None
    u.update_image_data_for_chip(b, out)
    c, size = chip_of(u.sidd.downstream_reprocessing.geometric_chip)
    ow, oh = out or (b[2], b[3])
    ctx.ensure_vec("size of the chip", list(size), [ow, oh])
    x, y = ctx.real("x", 0, 3000), ctx.real("y", 0, 3000)
    sx, sy = b[0] + x * (b[2] - 1) / (ow - 1), b[1] + y * (b[3] - 1) / (oh - 1)
    e = bilinear(*orig, sx, sy) if orig else [sx, sy]
    ctx.ensure_vec("pixels of the chip are related to the pixels of the full image", bilinear(c, (ow, oh), x, y), e, tol=1e-9, scale=1e6)
    g = u.sidd.downstream_reprocessing.geometric_chip
    ctx.ensure("elements of the document's version", type(u.sidd.downstream_reprocessing) is ns.DownstreamReprocessingType and type(g) is ns.GeometricChipType
               and type(g.chip_size) is ns.RowColIntType and type(g.original_upper_left_coordinate) is ns.RowColDoubleType)
    frame(ctx, u, doc, own, "SIDDUpdater")


@harness("C15", [S + "__init__", S + "update_image_data_for_chip", S + "encode_current_xml", "gdal.sicd_sensor_model_builder.SICDSensorModelBuilder.build"],
         sym=False, samples=40, bounded="sampled chips of three SICD documents")
def sicd_chip_model_agrees(ctx):
    """The sensor model built from a chip's metadata locates the chip's pixels where the original model locates them."""
    from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
    from aws.osml.image_processing.sicd_updater import SICDUpdater
    from aws.osml.photogrammetry import ImageCoordinate

    name = ctx.choice("doc", SICDS)
    full = SICDSensorModelBuilder(text(name)).build()
    u = SICDUpdater(text(name))
    src = parsed(name)
    for k in range(ctx.choice("n", [1, 2, 3])):
        b = [ctx.int(f"x{k}", 0, 500), ctx.int(f"y{k}", 0, 500), ctx.int(f"w{k}", 1, 900), ctx.int(f"h{k}", 1, 900)]
        u.update_image_data_for_chip(b, None)
        xml = u.encode_current_xml()
    doc = SICDUpdater(xml).sicd
    i = doc.image_data
    ctx.ensure("encoded image data", (i.first_col - src.image_data.first_col, i.first_row - src.image_data.first_row, i.num_cols, i.num_rows) == tuple(b))
    i.first_row, i.first_col, i.num_rows, i.num_cols = (getattr(src.image_data, f) for f in ("first_row", "first_col", "num_rows", "num_cols"))
    ctx.ensure("the rest of the encoded metadata is kept", doc == src)
    m = SICDSensorModelBuilder(xml).build()
    ctx.ensure("a model can be built from the chip's metadata", m is not None)
    x, y = ctx.real("x", 0, 900), ctx.real("y", 0, 900)
    a = m.image_to_world(ImageCoordinate([x, y])).coordinate
    e = full.image_to_world(ImageCoordinate([x + b[0], y + b[1]])).coordinate
    ctx.ensure_vec("same location as in the original image", list(a[:2]), list(e[:2]), tol=1e-9)
    ctx.ensure_vec("same elevation as in the original image", [a[2]], [e[2]], tol=1e-6)


@harness("C15", [D + "__init__", D + "update_image_data_for_chip", D + "encode_current_xml", "gdal.sidd_sensor_model_builder.SIDDSensorModelBuilder.from_dataclass"],
         sym=False, samples=40, bounded="sampled chips of two SIDD documents")
def sidd_chip_model_agrees(ctx):
    from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
    from aws.osml.image_processing.sidd_updater import SIDDUpdater
    from aws.osml.photogrammetry import ImageCoordinate

    name = ctx.choice("doc", SIDDS)
    full = SIDDSensorModelBuilder(text(name)).build()
    u = SIDDUpdater(text(name))
    for k in range(ctx.choice("n", [1, 2, 3])):
        b = [ctx.int(f"x{k}", 0, 200), ctx.int(f"y{k}", 0, 200), ctx.int(f"w{k}", 2, 400), ctx.int(f"h{k}", 2, 400)]
        out = ctx.choice(f"out{k}", [None, (b[2], b[3]), (max(2, b[2] // 2), b[3] * 2)])
        u.update_image_data_for_chip(b, out)
        xml = u.encode_current_xml()
    ow, oh = out or (b[2], b[3])
    m = SIDDSensorModelBuilder(xml).build()
    ctx.ensure("a model can be built from the chip's metadata", m is not None)
    for fx, fy in ((0, 0), (1, 0), (1, 1), (0, 1), (0.5, 0.25)):
        a = m.image_to_world(ImageCoordinate([fx * (ow - 1), fy * (oh - 1)])).coordinate
        e = full.image_to_world(ImageCoordinate([b[0] + fx * (b[2] - 1), b[1] + fy * (b[3] - 1)])).coordinate
        ctx.ensure_vec("same location as in the original image", list(a[:2]), list(e[:2]), tol=1e-8)
    w = m.image_to_world(ImageCoordinate([1.0, 1.0]))
    p = m.world_to_image(w)
    ctx.ensure_vec("and back", [p.x, p.y], [1.0, 1.0], tol=1e-3)


def minimal(version, kind):
    si = "0.1" if version == "1.0.0" else "1.0"
    rc = f"<n:Row xmlns:n='urn:SICommon:{si}'>%d</n:Row><n:Col xmlns:n='urn:SICommon:{si}'>%d</n:Col>"
    chip_xml = "<GeometricChip>" + "".join(f"<{t}>{rc % v}</{t}>" for t, v in (
        ("ChipSize", (101, 201)), ("OriginalUpperLeftCoordinate", (10, 20)), ("OriginalUpperRightCoordinate", (10, 420)),
        ("OriginalLowerLeftCoordinate", (310, 20)), ("OriginalLowerRightCoordinate", (310, 420)))) + "</GeometricChip>"
    body = {"full": "", "no chip": "<DownstreamReprocessing/>", "chip": f"<DownstreamReprocessing>{chip_xml}</DownstreamReprocessing>"}[kind]
    return f"<SIDD xmlns='urn:SIDD:{version}'>{body}</SIDD>"


@harness("C15", [D + "__init__", D + "update_image_data_for_chip", D + "encode_current_xml"], sym=False, samples=60,
         bounded="sampled chips of documents of the three SIDD versions")
def sidd_versions(ctx):
    """Chips of documents of every supported version are encoded as documents of that version with the chip's geometry."""
    from aws.osml.image_processing.sidd_updater import SIDDUpdater

    version, kind = ctx.choice("version", VERSIONS), ctx.choice("doc", ["full", "no chip", "chip"])
    u = SIDDUpdater(minimal(version, kind))
    other = SIDDUpdater(minimal(ctx.choice("other", VERSIONS), "full"))
    for k in range(ctx.choice("n", [1, 2])):
        other.update_image_data_for_chip([1, 2, 3, 4], None)
        b = [ctx.int(f"x{k}", 0, 100), ctx.int(f"y{k}", 0, 50), ctx.int(f"w{k}", 2, 100), ctx.int(f"h{k}", 2, 50)]
        out = (7, 9) if ctx.choice(f"out{k}", [False, True]) else None
        u.update_image_data_for_chip(b, out)
    back = SIDDUpdater(u.encode_current_xml()).sidd
    ctx.ensure("a document of the same version", type(back).__module__.endswith("v" + version.replace(".", "_")))
    c, size = chip_of(back.downstream_reprocessing.geometric_chip)
    ctx.ensure_vec("size of the chip", list(size), list(out or (b[2], b[3])))
    x, y, ex, ey = b[0], b[1], b[0] + b[2] - 1, b[1] + b[3] - 1
    want = [(x, y), (ex, y), (ex, ey), (x, ey)]
    if kind == "chip":
        want = [(20 + 2 * a, 10 + 3 * d) for a, d in want]
    ctx.ensure_vec("corners of the chip in the full image", [v for p in c for v in p], [v for p in want for v in p], tol=1e-9)
