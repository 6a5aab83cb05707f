"""C28: sensor models built from SICD and SIDD metadata."""
import os
import re
from enum import Enum
from pathlib import Path

import numpy as np

from pvc.ctx import harness

from .common import Rec, record_classes

B = "gdal.sicd_sensor_model_builder."
D = "gdal.sidd_sensor_model_builder.SIDDSensorModelBuilder."
CONVERT = [B + f for f in ("xyztype_to_ndarray", "poly1d_to_native", "poly2d_to_native", "xyzpoly_to_native")]
TRUST = ["xsdata parses the XML into the dataclasses", "numpy.polynomial evaluates polynomials", "unit normals: C10"]
REPO = os.environ.get("VERIF_REPO", "/repo")
NORMALS = ["photogrammetry.sicd_sensor_model.SICDSensorModel.compute_u_spn", "photogrammetry.sicd_sensor_model.SICDSensorModel.compute_u_gpn"]


def xyz(ctx, name, lo=-10.0, hi=10.0):
    v = [ctx.real(f"{name}.{c}", lo, hi) for c in "xyz"]
    return Rec(x=v[0], y=v[1], z=v[2]), v


def terms(ctx, n, order):
    """Which exponents have a coefficient: all of them, in some order, or a few."""
    return ctx.choice("terms of " + n, [order, order[::-1], order[1:], order[:1]])


def poly1(ctx, name, order=2, vary=False):
    e = terms(ctx, name, list(range(order + 1))) if vary else list(range(order + 1))
    v = {i: ctx.real(f"{name}[{i}]") for i in e}
    return Rec(order1=order, coef=[Rec(exponent1=i, value=v[i]) for i in e]), v


def poly2(ctx, name, orders=(1, 2), vary=False):
    e = [(i, j) for i in range(orders[0] + 1) for j in range(orders[1] + 1)]
    e = terms(ctx, name, e) if vary else e
    v = {k: ctx.real(f"{name}{list(k)}") for k in e}
    return Rec(order1=orders[0], order2=orders[1], coef=[Rec(exponent1=i, exponent2=j, value=v[i, j]) for i, j in e]), v


def polyxyz(ctx, name, order=2, vary=False):
    p = {c: poly1(ctx, f"{name}.{c}", order, vary) for c in "xyz"}
    return Rec(**{c: p[c][0] for c in "xyz"}), [p[c][1] for c in "xyz"]


def value1(v, t):
    r = 0.0
    for i, c in v.items():
        r = r + c * t ** i
    return r


def value2(v, x, y):
    r = 0.0
    for (i, j), c in v.items():
        r = r + c * x ** i * y ** j
    return r


def same_poly1(ctx, what, got, v, t):
    ctx.ensure_eq(what, got(t), value1(v, t))


def same_poly2(ctx, what, got, v, x, y):
    ctx.ensure_eq(what, got(x, y), value2(v, x, y))


def same_polyxyz(ctx, what, got, v, t):
    ctx.ensure_vec(what, got(t), [value1(c, t) for c in v])


@harness("C28", CONVERT, samples=300, trusted=TRUST[1:2])
def polynomials(ctx):
    """Polynomials have the listed coefficients at their exponents and none elsewhere."""
    import aws.osml.gdal.sicd_sensor_model_builder as mod

    t, u = ctx.real("t", -2, 2), ctx.real("u", -2, 2)
    kind = ctx.choice("kind", ["xyz", "1", "2", "xyz poly"])
    if kind == "xyz":
        a, v = xyz(ctx, "a")
        ctx.ensure_vec("position", mod.xyztype_to_ndarray(a), v)
    elif kind == "1":
        p, v = poly1(ctx, "p", ctx.choice("order", [0, 1, 2, 5]), True)
        same_poly1(ctx, "polynomial of one variable", mod.poly1d_to_native(p), v, t)
    elif kind == "2":
        p, v = poly2(ctx, "p", ctx.choice("orders", [(0, 0), (1, 2), (2, 1), (0, 3), (3, 3)]), True)
        same_poly2(ctx, "polynomial of two variables", mod.poly2d_to_native(p), v, t, u)
    else:
        p, v = polyxyz(ctx, "p", ctx.choice("order", [0, 1, 3]), True)
        same_polyxyz(ctx, "position polynomial", mod.xyzpoly_to_native(p), v, t)


PROJECTIONS = ["PFAProjectionSet", "RGAZCOMPProjectionSet", "INCAProjectionSet", "PlaneProjectionSet"]


def check_converter(ctx, k, made, scp, pixel, ur, uc, rs, cs, first):
    ctx.ensure("image grid", type(k) is made.SARImageCoordConverter)
    ctx.ensure_vec("scene center", k.scp_ecf.coordinate, scp)
    ctx.ensure_vec("scene center pixel", [k.scp_pixel.c, k.scp_pixel.r], pixel)
    ctx.ensure_vec("row direction", k.u_row, ur)
    ctx.ensure_vec("column direction", k.u_col, uc)
    ctx.ensure_vec("row and column spacing", [k.row_ss, k.col_ss], [rs, cs])
    ctx.ensure_vec("first pixel", [k.first_pixel.c, k.first_pixel.r], first)


def no_corrections(ctx, q):
    for n in ("delta_arp", "delta_varp"):
        ctx.ensure_vec("no adjustment of the platform: " + n, getattr(q, n), [0.0] * 3)
    ctx.ensure_eq("no range bias", q.range_bias, 0.0)


@harness("C28", [B + "SICDSensorModelBuilder." + f for f in ("from_dataclass", "__init__", "build")] + CONVERT + NORMALS[:1], samples=200, trusted=TRUST, assume_nonzero=True)
def sicd(ctx):
    """The projection of the grid type and image formation, with every parameter from its own element; none if there is none for it."""
    import aws.osml.formats.sicd.models.sicd_v1_2_1 as s121
    import aws.osml.formats.sicd.models.sicd_v1_3_0 as s130
    import aws.osml.gdal.sicd_sensor_model_builder as mod

    st, made = record_classes(ctx, mod, "SICDSensorModel", "SARImageCoordConverter", *PROJECTIONS)
    ns = ctx.choice("version", [s121, s130])
    grid = ctx.choice("grid", ["RGAZIM", "RGZERO", "XRGYCR", "XCTYAT", "PLANE", "other"])
    algo = ctx.choice("algorithm", ["PFA", "RMA", "RGAZCOMP", "OTHER"])
    side = ctx.choice("side", ["L", "R"])
    gt = Rec(value="NEWGRID") if grid == "other" else ns.ImageGridType[grid]
    scp_, scp = xyz(ctx, "scp", -6e6, 6e6)
    ur_, ur = xyz(ctx, "row", -1, 1)
    uc_, uc = xyz(ctx, "col", -1, 1)
    arp_, arp = xyz(ctx, "arp", -7e6, 7e6)
    vel_, vel = xyz(ctx, "vel", -8e3, 8e3)
    fpn_, fpn = xyz(ctx, "fpn", -1, 1)
    los = [scp[i] - arp[i] for i in range(3)]
    c = [vel[1] * los[2] - vel[2] * los[1], vel[2] * los[0] - vel[0] * los[2], vel[0] * los[1] - vel[1] * los[0]]
    n2 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]
    ctx.assume(n2 > 0)
    rs, cs = ctx.real("row_ss", 0.05, 20), ctx.real("col_ss", 0.05, 20)
    sr, sc = ctx.int("scp_row", 0, 100000), ctx.int("scp_col", 0, 100000)
    fr, fc = ctx.int("first_row", 0, 100000), ctx.int("first_col", 0, 100000)
    az, rca = ctx.real("az_sf"), ctx.real("r_ca", 1e5, 1e6)
    coa_, coa = poly2(ctx, "coa")
    arpp_, arpp = polyxyz(ctx, "arp_poly")
    ang_, ang = poly1(ctx, "polar_ang")
    sf_, sf = poly1(ctx, "freq_sf", 3)
    ca_, ca = poly1(ctx, "time_ca", 1)
    dr_, dr = poly2(ctx, "drate", (2, 1))
    has = {"PFA": ["pfa"], "RMA": ["rma"], "RGAZCOMP": ["rg_az_comp"], "OTHER": []}[algo] + (["rma"] if grid == "RGZERO" else [])
    parts = dict(pfa=Rec(fpn=fpn_, polar_ang_poly=ang_, spatial_freq_sfpoly=sf_), rg_az_comp=Rec(az_sf=az), rma=Rec(inca=Rec(r_ca_scp=rca, time_capoly=ca_, drate_sfpoly=dr_)))
    d = Rec(geo_data=Rec(scp=Rec(ecf=scp_)), image_data=Rec(scppixel=Rec(row=sr, col=sc), first_row=fr, first_col=fc, num_rows=1000, num_cols=2000),
            grid=Rec(type_value=gt, time_coapoly=coa_, row=Rec(uvect_ecf=ur_, ss=rs), col=Rec(uvect_ecf=uc_, ss=cs)), position=Rec(arppoly=arpp_),
            image_formation=Rec(image_form_algo=ns.ImageFormAlgo[algo]), scpcoa=Rec(arppos=arp_, arpvel=vel_, side_of_track=Enum("SideOfTrackType", {"S": side}).S),
            **{k: parts[k] if k in has else None for k in parts})
    with st:
        m = mod.SICDSensorModelBuilder.from_dataclass(d)
    kind = {"RGAZIM": {"PFA": "PFAProjectionSet", "RGAZCOMP": "RGAZCOMPProjectionSet"}.get(algo), "RGZERO": "INCAProjectionSet", "other": None}.get(grid, "PlaneProjectionSet")
    if kind is None:
        ctx.ensure("no model without a projection", m is None)
        return
    ctx.ensure("a SICD model", type(m) is made.SICDSensorModel)
    check_converter(ctx, m.coord_converter, made, scp, [sc, sr], ur, uc, rs, cs, [fc, fr])
    q = m.coa_projection_set
    ctx.ensure(f"{grid} images formed by {algo} are projected by {kind}", type(q) is getattr(made, kind))
    t, u = ctx.real("t", -2, 2), ctx.real("u", -2, 2)
    same_poly2(ctx, "center of aperture time", q.coa_time_poly, coa, t, u)
    same_polyxyz(ctx, "platform position", q.arp_poly, arpp, t)
    no_corrections(ctx, q)
    if kind != "INCAProjectionSet":
        ctx.ensure_vec("scene center of the projection", q.scp_ecf.coordinate, scp)
    if kind == "PFAProjectionSet":
        same_poly1(ctx, "polar angle", q.polar_ang_poly, ang, t)
        same_poly1(ctx, "spatial frequency scale factor", q.spatial_freq_sf_poly, sf, t)
        ctx.ensure_vec("the focus plane is the ground plane", m.u_gpn, fpn)
    else:
        ctx.ensure("the ground plane is the tangent plane", m.u_gpn is None)
    if kind == "RGAZCOMPProjectionSet":
        ctx.ensure_eq("azimuth scale factor", q.az_scale_factor, az)
    if kind == "INCAProjectionSet":
        ctx.ensure_eq("range of closest approach", q.r_ca_scp, rca)
        same_poly1(ctx, "time of closest approach", q.inca_time_coa_poly, ca, t)
        same_poly2(ctx, "Doppler rate scale factor", q.drate_sf_poly, dr, t, u)
    if kind == "PlaneProjectionSet":
        ctx.ensure_vec("row direction of the plane", q.image_plane_urow, ur)
        ctx.ensure_vec("column direction of the plane", q.image_plane_ucol, uc)
    ctx.ensure("side of track", m.side_of_track == side)
    sg = -1.0 if side == "R" else 1.0
    ctx.ensure_vec("slant plane normal", m.u_spn, [sg * v / ctx.sqrt(n2) for v in c])


@harness("C28", [D + f for f in ("from_dataclass", "__init__", "build")] + CONVERT + NORMALS[1:], samples=200, trusted=TRUST, assume_nonzero=True)
def sidd(ctx):
    """The plane of the product; chips through the full image pixels of their first and last rows and columns."""
    import aws.osml.gdal.sidd_sensor_model_builder as mod

    st, made = record_classes(ctx, mod, "SICDSensorModel", "SARImageCoordConverter", "PlaneProjectionSet", "ChippedImageSensorModel")
    scp_, scp = xyz(ctx, "scp", -6e6, 6e6)
    ur_, ur = xyz(ctx, "row", -1, 1)
    uc_, uc = xyz(ctx, "col", -1, 1)
    n = [ur[1] * uc[2] - ur[2] * uc[1], ur[2] * uc[0] - ur[0] * uc[2], ur[0] * uc[1] - ur[1] * uc[0]]
    n2 = n[0] * n[0] + n[1] * n[1] + n[2] * n[2]
    ctx.assume(n2 > (0 if ctx.symbolic else 1e-3))
    rs, cs = ctx.real("row_ss", 0.05, 20), ctx.real("col_ss", 0.05, 20)
    sr, sc = ctx.real("scp_row", 0, 100000), ctx.real("scp_col", 0, 100000)
    coa_, coa = poly2(ctx, "coa")
    arpp_, arpp = polyxyz(ctx, "arp_poly")
    chip = ctx.choice("chip", ["no reprocessing", "no chip", "chip"])
    names = ["original_upper_left_coordinate", "original_upper_right_coordinate", "original_lower_right_coordinate", "original_lower_left_coordinate"]
    pos = {k: [ctx.real(f"{k}.{a}", 0, 1e5) for a in ("col", "row")] for k in names}
    h, w = ctx.int("chip_rows", 1, 5000), ctx.int("chip_cols", 1, 5000)
    gc = Rec(chip_size=Rec(row=h, col=w), **{k: Rec(col=v[0], row=v[1]) for k, v in pos.items()})
    d = Rec(measurement=Rec(plane_projection=Rec(reference_point=Rec(ecef=scp_, point=Rec(row=sr, col=sc)), time_coapoly=coa_, sample_spacing=Rec(row=rs, col=cs),
                                                 product_plane=Rec(row_unit_vector=ur_, col_unit_vector=uc_)), arppoly=arpp_, pixel_footprint=Rec(row=100, col=100)),
            downstream_reprocessing=None if chip == "no reprocessing" else Rec(geometric_chip=gc if chip == "chip" else None, processing_event=[]))
    with st:
        m = mod.SIDDSensorModelBuilder.from_dataclass(d)
    if chip == "chip":
        ctx.ensure("a chip of the full image", type(m) is made.ChippedImageSensorModel)
        full, own = [list(p.coordinate) for p in m.original_image_coordinates], [list(p.coordinate) for p in m.chipped_image_coordinates]
        ctx.ensure("four pairs of pixels", len(full) == 4 and len(own) == 4)
        want = [[0, 0], [w - 1, 0], [w - 1, h - 1], [0, h - 1]]
        left = list(zip(full, own))
        for k, o in zip(names, want):
            hit = [i for i, (f, _) in enumerate(left) if ctx.same(f[0], pos[k][0]) and ctx.same(f[1], pos[k][1])]
            f, p = left.pop(hit[0] if hit else 0)
            ctx.ensure_vec("full image pixel " + k, f, pos[k])
            ctx.ensure_vec("chip pixel " + k, p, o)
        m = m.full_image_sensor_model
    ctx.ensure("a SICD model", type(m) is made.SICDSensorModel)
    check_converter(ctx, m.coord_converter, made, scp, [sc, sr], ur, uc, rs, cs, [0, 0])
    q = m.coa_projection_set
    ctx.ensure("plane projection", type(q) is made.PlaneProjectionSet)
    t, u = ctx.real("t", -2, 2), ctx.real("u", -2, 2)
    same_poly2(ctx, "center of aperture time", q.coa_time_poly, coa, t, u)
    same_polyxyz(ctx, "platform position", q.arp_poly, arpp, t)
    no_corrections(ctx, q)
    ctx.ensure_vec("scene center of the projection", q.scp_ecf.coordinate, scp)
    ctx.ensure_vec("row direction of the plane", q.image_plane_urow, ur)
    ctx.ensure_vec("column direction of the plane", q.image_plane_ucol, uc)
    up = n[0] * scp[0] + n[1] * scp[1] + n[2] * scp[2]
    sg = 1.0 if up >= 0 else -1.0
    want = [sg * v / ctx.sqrt(n2) for v in n]
    ctx.ensure_vec("ground plane normal", m.u_gpn, want)
    ctx.ensure_vec("slant plane normal", m.u_spn, want)


@harness("C28", [B + "SICDSensorModelBuilder.build", B + "SICDSensorModelBuilder.__init__", D + "build", D + "__init__"], samples=60, trusted=TRUST)
def build(ctx):
    """The model of the parsed document; None (not an exception) for documents that cannot be used."""
    import aws.osml.gdal.sicd_sensor_model_builder as sicd_mod
    import aws.osml.gdal.sidd_sensor_model_builder as sidd_mod

    mod, cls = ctx.choice("kind", [(sicd_mod, "SICDSensorModelBuilder"), (sidd_mod, "SIDDSensorModelBuilder")])
    case = ctx.choice("case", ["good", "none", "empty", "unreadable", "incomplete"])
    ctx.need(mod, "XmlParser")
    parsed, result, seen = object(), object(), []

    class Parser:
        def __init__(self, *a, **k):
            pass

        def from_string(self, s, *a):
            ctx.ensure("the document given is parsed", s == "<xml/>")
            if case == "unreadable":
                raise ValueError("not XML")
            return parsed

    def from_dataclass(d):
        seen.append(d)
        if case == "incomplete":
            raise AttributeError("'NoneType' object has no attribute 'row'")
        return result

    C = getattr(mod, cls)
    with ctx.patch(mod, "XmlParser", Parser), ctx.patch(C, "from_dataclass", staticmethod(from_dataclass)):
        m, x = ctx.attempt(C({"none": None, "empty": ""}.get(case, "<xml/>")).build)
    ctx.ensure("no exception", x is None)
    ctx.ensure("the model of the document, else none", m is (result if case == "good" else None))
    if case == "good":
        ctx.ensure("of the parsed document", all(d is parsed for d in seen) and len(seen) > 0)


DOCS = [("sicd", "example.sicd121.capella.xml"), ("sicd", "example.sicd121.pfa.xml"), ("sicd", "example.sicd121.rma.xml"), ("sidd", "example.sidd.xml"), ("sidd", "example.sidd-chip.xml")]


@harness("C28", [B + "SICDSensorModelBuilder.build", D + "build"] + CONVERT, samples=25, sym=False, bounded="5 real documents with varied first pixels and spacings, through the real parser")
def documents(ctx):
    """Models of real documents put the scene center at its pixel, in both directions."""
    from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
    from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
    from aws.osml.photogrammetry import ImageCoordinate, WorldCoordinate, geocentric_to_geodetic

    kind, name = ctx.choice("document", DOCS)
    t = Path(REPO, "test/data", kind, name).read_text()
    e = [float(re.search(f"<(?:\\w+:)?{'SCP' if kind == 'sicd' else 'ReferencePoint'}\\b.*?<(?:\\w+:)?{a}>([^<]*)<", t, re.S).group(1)) for a in "XYZ"]
    if kind == "sicd":
        pix = [int(re.search(f"<SCPPixel>.*?<{a}>(\\d+)<", t, re.S).group(1)) for a in ("Col", "Row")]
        first = [ctx.int("first_col", 0, 500), ctx.int("first_row", 0, 500)]
        t = re.sub("<FirstCol>\\d+<", f"<FirstCol>{first[0]}<", re.sub("<FirstRow>\\d+<", f"<FirstRow>{first[1]}<", t))
        m = SICDSensorModelBuilder(t).build()
        x, y = pix[0] - first[0], pix[1] - first[1]
    else:
        m = SIDDSensorModelBuilder(t).build()
        p = [float(re.search(f"<ReferencePoint.*?<(?:\\w+:)?Point>.*?<(?:\\w+:)?{a}>([^<]*)<", t, re.S).group(1)) for a in ("Col", "Row")]
        x, y = p
        if "OriginalUpperLeft" in t:
            g = lambda n, a: float(re.search(f"<{n}>.*?<(?:\\w+:)?{a}>([^<]*)<", t, re.S).group(1))  # noqa: E731
            full = [[g(f"Original{k}Coordinate", a) for a in ("Col", "Row")] for k in ("UpperLeft", "LowerRight")]
            size = [g("ChipSize", a) - 1 for a in ("Col", "Row")]
            x, y = [(p[i] - full[0][i]) / (full[1][i] - full[0][i]) * size[i] for i in range(2)]
    ctx.ensure("a model", m is not None)
    w = geocentric_to_geodetic(WorldCoordinate(e))
    i = m.world_to_image(w)
    ctx.ensure_vec("pixel of the scene center", i.coordinate, [x, y], tol=1e-6, scale=1)
    b = m.image_to_world(ImageCoordinate([x, y]))
    ctx.ensure_vec("location of that pixel", b.coordinate[:2], w.coordinate[:2], tol=1e-8, scale=1)
    ctx.ensure_eq("height of that pixel", b.elevation, w.elevation, tol=1e-6, scale=1)
