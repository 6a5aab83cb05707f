"""C18: sensor models built from tagged record extensions, ground control points and geotransforms."""
import math

from pvc.ctx import harness

from .common import Rec, Tre, record_classes, tres

X = ["gdal.xmltre_utils.get_tre_field_value", "gdal.xmltre_utils.parse_rpc_coefficients"]
R = "gdal.rpc_sensor_model_builder.RPCSensorModelBuilder."
S = "gdal.rsm_sensor_model_builder.RSMSensorModelBuilder."
P = "gdal.projective_sensor_model_builder.ProjectiveSensorModelBuilder."
G = "gdal.gdal_sensor_model_builder."
TRUST = ["float(text) and int(text) give the number a field's text denotes", "xml.etree finds elements by name and attribute"]

RPC = dict(err_bias="ERR_BIAS", err_rand="ERR_RAND", line_off="LINE_OFF", samp_off="SAMP_OFF", lat_off="LAT_OFF", long_off="LONG_OFF",
           height_off="HEIGHT_OFF", line_scale="LINE_SCALE", samp_scale="SAMP_SCALE", lat_scale="LAT_SCALE", long_scale="LONG_SCALE",
           height_scale="HEIGHT_SCALE")
RPC_POLY = dict(line_num_poly="LINE_NUM_COEFF", line_den_poly="LINE_DEN_COEFF", samp_num_poly="SAMP_NUM_COEFF", samp_den_poly="SAMP_DEN_COEFF")


def rpc_tre(ctx):
    t = Tre(ctx, "RPC00B").field("SUCCESS", text="1").all(RPC.values())
    for n in RPC_POLY.values():
        t.repeated(n, 20, order=None if n != "LINE_DEN_COEFF" else [19] + list(range(19)))
    return t


@harness("C18", X + [R + f for f in ("__init__", "build", "build_rpc_sensor_model", "build_rpc_polynomial")], samples=150, trusted=TRUST)
def rpc_builder(ctx):
    import aws.osml.gdal.rpc_sensor_model_builder as mod

    st, made = record_classes(ctx, mod, "RPCSensorModel", "RPCPolynomial")
    t = rpc_tre(ctx)
    case = ctx.choice("case", ["good", "no TRE", "no success", "spoiled"])
    other = Tre(ctx, "RPC00A").field("SUCCESS", text="1").all(["ERR_BIAS", "LINE_OFF"])
    if case == "no success":
        t.fields["SUCCESS"].set("value", "0")
    if case == "spoiled":
        t.spoil(ctx.choice("field", ["SUCCESS"] + list(RPC.values()) + list(RPC_POLY.values())), ctx.choice("how", ["missing", "text", "blank"]))
    with st:
        m = mod.RPCSensorModelBuilder(tres(other) if case == "no TRE" else tres(other, t)).build()
    if case != "good":
        ctx.ensure("no model without complete metadata", m is None)
        return
    ctx.ensure("an RPC model is built", type(m) is made.RPCSensorModel)
    for p, n in RPC.items():
        ctx.ensure_eq(f"{p} is {n}", getattr(m, p), t.v[n])
    for p, n in RPC_POLY.items():
        q = getattr(m, p)
        ctx.ensure("a polynomial", type(q) is made.RPCPolynomial and len(q.coefficients) == 20)
        ctx.ensure_vec(f"{p} is {n}", list(q.coefficients), t.v[n])


V8 = [f"V{k}{c}" for k in range(1, 9) for c in "XYZ"]
ORIGIN = ["XUOR", "YUOR", "ZUOR"]
AXES = [c + "U" + a + "R" for a in "XYZ" for c in "XYZ"]
REF = ["GRPX", "GRPY", "GRPZ"]
DOMAIN = dict(min_row="MINR", max_row="MAXR", min_column="MINC", max_column="MAXC")
NORM = dict(row_norm_offset="RNRMO", column_norm_offset="CNRMO", x_norm_offset="XNRMO", y_norm_offset="YNRMO", z_norm_offset="ZNRMO",
            row_norm_scale="RNRMSF", column_norm_scale="CNRMSF", x_norm_scale="XNRMSF", y_norm_scale="YNRMSF", z_norm_scale="ZNRMSF")
POLY = dict(row_numerator_poly="RN", row_denominator_poly="RD", column_numerator_poly="CN", column_denominator_poly="CD")
LOW = ["0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"]
RSM = ["RSMContext", "RSMGroundDomain", "RSMImageDomain", "RSMLowOrderPolynomial", "RSMPolynomial", "RSMPolynomialSensorModel",
       "RSMSectionedPolynomialSensorModel"]


def rsmid(ctx, form, ref):
    t = Tre(ctx, "RSMIDA").field("GRNDD", text=form).all(V8)
    if form == "R":
        t.all(ORIGIN).all(AXES)
    else:
        for n in ORIGIN + AXES:
            t.field(n, text="")
    if ref:
        t.all(REF)
    else:
        for n in REF:
            t.field(n, text="                     "[: ctx.choice("blanks", [0, 21])])
    return t.all(DOMAIN.values(), "int")


def rsmpc(ctx, r, c):
    pre = f"{r}.{c}."
    t = Tre(ctx, "RSMPCA").field("RSN", text=f"{r:03d}").field("CSN", text=f"{c:03d}").all(NORM.values(), prefix=pre)
    for k, p in enumerate(POLY.values()):
        for a, w in zip("XYZ", (1, 0, k % 2)):
            t.field(p + "PWR" + a, text=str(w))
        t.repeated(p + "PCF", 2 * (1 + k % 2), prefix=pre)
    return t


def check_context(ctx, c, t, form, ref, made):
    ctx.ensure("context, ground and image domain", type(c) is made.RSMContext and type(c.ground_domain) is made.RSMGroundDomain
               and type(c.image_domain) is made.RSMImageDomain)
    g = c.ground_domain
    ctx.ensure("form of the ground domain", g.ground_domain_form.value == form)
    ctx.ensure("eight vertices", len(g.ground_domain_vertices) == 8)
    for k, w in enumerate(g.ground_domain_vertices):
        ctx.ensure_vec(f"vertex {k + 1}", list(w.coordinate), [t.v[f"V{k + 1}{a}"] for a in "XYZ"])
    if form == "R":
        ctx.ensure_vec("origin", list(g.rectangular_coordinate_origin.coordinate), [t.v[n] for n in ORIGIN])
        for a, row in zip("XYZ", g.rectangular_coordinate_unit_vectors):
            ctx.ensure_vec(f"unit vector of the {a} axis", list(row), [t.v[b + "U" + a + "R"] for b in "XYZ"])
    if ref:
        ctx.ensure_vec("reference point", list(g.ground_reference_point.coordinate), [t.v[n] for n in REF])
    else:
        ctx.ensure("no reference point", g.ground_reference_point is None)
    for p, n in DOMAIN.items():
        ctx.ensure_eq(f"{p} is {n}", getattr(c.image_domain, p), t.v[n])


def check_section(ctx, m, t, r, c, made):
    ctx.ensure("a polynomial model", type(m) is made.RSMPolynomialSensorModel)
    ctx.ensure("row and column of the section", (m.section_row, m.section_col) == (r, c))
    for p, n in NORM.items():
        ctx.ensure_eq(f"{p} is {n}", getattr(m, p), t.v[n])
    for k, (p, n) in enumerate(POLY.items()):
        q = getattr(m, p)
        ctx.ensure("a polynomial", type(q) is made.RSMPolynomial)
        ctx.ensure(f"powers of {p}", (q.max_power_x, q.max_power_y, q.max_power_z) == (1, 0, k % 2))
        ctx.ensure("coefficients", len(q.coefficients) == 2 * (1 + k % 2))
        ctx.ensure_vec(f"coefficients of {p}", list(q.coefficients), t.v[n + "PCF"])


RSM_F = X + [S + f for f in ("__init__", "build", "_build_rsm_ground_domain", "_build_rsm_image_domain", "_build_rsm_context", "_build_rsm_polynomial",
                             "_build_rsm_polynomial_sensor_model")]


@harness("C18", RSM_F, samples=150, trusted=TRUST)
def rsm_builder(ctx):
    """One section."""
    import aws.osml.gdal.rsm_sensor_model_builder as mod

    st, made = record_classes(ctx, mod, *RSM)
    form = ctx.choice("form", ["R", "G", "H"])
    ref = ctx.choice("reference", [True, False])
    t, p = rsmid(ctx, form, ref), rsmpc(ctx, 1, 1)
    case = ctx.choice("case", ["good", "no RSMIDA", "no polynomials", "bad id", "bad polynomial", "bad form"] if form == "R" and ref else ["good"])
    if case == "bad id":
        t.spoil(ctx.choice("field", ["GRNDD", "V1X", "V8Z", "XUOR", "ZUZR", "MINR", "MAXC"]), ctx.choice("how", ["missing", "text", "blank"]))
    if case == "bad polynomial":
        p.spoil(ctx.choice("field", ["RSN", "CSN", "CDPWRZ", "RNPCF", "CDPCF"] + list(NORM.values())), ctx.choice("how", ["missing", "text", "blank"]))
    if case == "bad form":
        t.fields["GRNDD"].set("value", "Q")
    ts = {"no RSMIDA": [p], "no polynomials": [t]}.get(case, [p, t] if ctx.choice("order", [0, 1]) else [t, p])
    with st:
        m = mod.RSMSensorModelBuilder(tres(*ts)).build()
    if case != "good":
        ctx.ensure("no model without complete metadata", m is None)
        return
    check_section(ctx, m, p, 1, 1, made)
    check_context(ctx, m.context, t, form, ref, made)


@harness("C18", RSM_F + [S + "_build_loworder_rsm_polynomial", S + "_build_rsm_sectioned_polynomial_sensor_model"], samples=150, trusted=TRUST,
         bounded="images of up to 2 x 3 sections")
def rsm_sections_builder(ctx):
    import aws.osml.gdal.rsm_sensor_model_builder as mod

    st, made = record_classes(ctx, mod, *RSM)
    nr, nc = ctx.choice("sections", [(1, 2), (2, 1), (2, 2), (2, 3)] + ([] if ctx.symbolic else [(3, 3), (4, 2), (1, 5)]))
    t = rsmid(ctx, "G", True)
    grid = [(r, c) for r in range(1, nr + 1) for c in range(1, nc + 1)]
    ps = {rc: rsmpc(ctx, *rc) for rc in grid}
    k = ctx.choice("rotate", list(range(len(grid))) if not ctx.symbolic else [0, 1])
    order = [ps[rc] for rc in (grid[k:] + grid[:k])[:: ctx.choice("reverse", [1, -1])]]
    pi = Tre(ctx, "RSMPIA").field("RNIS", text=str(nr)).field("CNIS", text=str(nc)).all(["RSSIZ", "CSSIZ"])
    for rc in "RC":
        pi.all([rc + s for s in LOW])
    case = ctx.choice("case", ["good", "no RSMPIA", "missing section", "bad RSMPIA"])
    ts = [t, pi] + order
    if case == "no RSMPIA":
        ts.remove(pi)
    if case == "missing section":
        ctx.assume(len(grid) > 2)
        ts.pop()
    if case == "bad RSMPIA":
        pi.spoil(ctx.choice("field", ["RNIS", "CNIS", "RSSIZ", "CSSIZ", "R0", "RZZ", "C0", "CXY", "CZZ"]), ctx.choice("how", ["missing", "text", "blank"]))
    with st:
        m = mod.RSMSensorModelBuilder(tres(*ts)).build()
    if case != "good":
        ctx.ensure("no model without complete metadata", m is None)
        return
    ctx.ensure("a sectioned model", type(m) is made.RSMSectionedPolynomialSensorModel)
    check_context(ctx, m.context, t, "G", True, made)
    ctx.ensure("number of sections", (m.row_num_image_sections, m.column_num_image_sections) == (nr, nc))
    ctx.ensure_vec("size of the sections", [m.row_section_size, m.column_section_size], [pi.v["RSSIZ"], pi.v["CSSIZ"]])
    for q, rc in ((m.row_polynomial, "R"), (m.column_polynomial, "C")):
        ctx.ensure("ten coefficients", len(q.coefficients) == 10)
        ctx.ensure_vec(f"low order polynomial {rc}", list(q.coefficients), [pi.v[rc + s] for s in LOW])
    ctx.ensure("grid of models", len(m.section_sensor_models) == nr and all(len(r) == nc for r in m.section_sensor_models))
    for r, c in grid:
        check_section(ctx, m.section_sensor_models[r - 1][c - 1], ps[r, c], r, c, made)


CORNERS = {"UL": (0, 0), "UR": (1, 0), "LR": (1, 1), "LL": (0, 1)}


@harness("C18", X[:1] + [P + f for f in ("__init__", "build", "build_projective_sensor_model")], samples=100, trusted=TRUST)
def corner_builder(ctx):
    import aws.osml.gdal.projective_sensor_model_builder as mod

    st, made = record_classes(ctx, mod, "ProjectiveSensorModel")
    names = [f"{c}CNR_{q}" for c in CORNERS for q in ("LAT", "LONG", "HT")]
    t = Tre(ctx, "CSCRNA").all(names)
    w, h = ctx.int("width", 1, 10000), ctx.int("height", 1, 10000)
    case = ctx.choice("case", ["good", "no TRE", "spoiled"])
    if case == "spoiled":
        t.spoil(ctx.choice("field", [n for n in names if "HT" not in n]), ctx.choice("how", ["missing", "text", "blank"]))
    other = Tre(ctx, "CSEPHA")
    with st:
        m = mod.ProjectiveSensorModelBuilder(tres(other) if case == "no TRE" else tres(other, t), w, h).build()
    if case != "good":
        ctx.ensure("no model without complete metadata", m is None)
        return
    ctx.ensure("a projective model", type(m) is made.ProjectiveSensorModel)
    ctx.ensure("four corners", len(m.world_coordinates) == 4 and len(m.image_coordinates) == 4)
    tie_points(ctx, m, [([t.v[c + "CNR_LONG"], t.v[c + "CNR_LAT"]], [x * w, y * h], c) for c, (x, y) in CORNERS.items()])


def tie_points(ctx, m, want):
    """The tie points of the model are those wanted (locations in degrees), in any order."""
    left = list(zip(m.world_coordinates, m.image_coordinates))
    for (lon, lat), (x, y), name in want:
        hit = None
        for k, (g, i) in enumerate(left):
            if ctx.same(g.longitude, ctx.radians(lon)) and ctx.same(g.latitude, ctx.radians(lat)) and ctx.same(i.x, x) and ctx.same(i.y, y):
                hit = k
                break
        g, i = left.pop(hit if hit is not None else 0)
        ctx.ensure_vec(f"location of tie point {name}", [g.longitude, g.latitude], [ctx.radians(lon), ctx.radians(lat)], tol=1e-12)
        ctx.ensure_vec(f"pixel of tie point {name}", [i.x, i.y], [x, y])


@harness("C18", [G + "GDALGCPSensorModelBuilder." + f for f in ("__init__", "build")], samples=80, bounded="up to 5 control points")
def gcp_builder(ctx):
    import aws.osml.gdal.gdal_sensor_model_builder as mod

    st, made = record_classes(ctx, mod, "ProjectiveSensorModel")
    n = ctx.choice("n", [0, 1, 3, 4, 5])
    pts = [Rec(GCPX=ctx.real(f"x{i}", -180, 180), GCPY=ctx.real(f"y{i}", -90, 90), GCPZ=ctx.real(f"z{i}", 0, 100), GCPPixel=ctx.real(f"p{i}", 0, 100),
               GCPLine=ctx.real(f"l{i}", 0, 100), Info="", Id=str(i)) for i in range(n)]
    if n == 0 and ctx.choice("none", [False, True]):
        pts = None
    with st:
        m = mod.GDALGCPSensorModelBuilder(pts).build()
    if n < 4:
        ctx.ensure("too few points give no model", m is None)
        return
    ctx.ensure("every point is used", len(m.world_coordinates) == n and len(m.image_coordinates) == n)
    tie_points(ctx, m, [([p.GCPX, p.GCPY], [p.GCPPixel, p.GCPLine], p.Id) for p in pts])


@harness("C18", [G + "GDALGCPSensorModelBuilder." + f for f in ("__init__", "build")], samples=60)
def any_number_of_control_points(ctx):
    """Any number of control points: tie point k is the location and the pixel of control point k."""
    import aws.osml.gdal.gdal_sensor_model_builder as mod

    st, made = record_classes(ctx, mod, "ProjectiveSensorModel")
    n = ctx.int("n", 0, None if ctx.symbolic else 12)
    a = {k: ctx.array(k, (n,), lo=-180, hi=180) for k in ("GCPX", "GCPY", "GCPZ", "GCPPixel", "GCPLine")}
    pts = ctx.seq("points", n, lambda j: Rec(Info="", Id="", **{k: ctx.at(v, (j,)) for k, v in a.items()}))
    with st:
        m = mod.GDALGCPSensorModelBuilder(pts).build()
    if n < 4:
        ctx.ensure("too few points give no model", m is None)
        return
    ctx.ensure("every point is used", ctx.and_(ctx.length(m.world_coordinates) == n, ctx.length(m.image_coordinates) == n))
    j = ctx.index("j", (n,))[0]
    w, i, p = m.world_coordinates[j], m.image_coordinates[j], {k: ctx.at(v, (j,)) for k, v in a.items()}
    ctx.ensure_vec("location of the control point", [w.longitude, w.latitude, w.elevation],
                   [ctx.radians(p["GCPX"]), ctx.radians(p["GCPY"]), p["GCPZ"]], tol=1e-12)
    ctx.ensure_vec("pixel of the control point", [i.x, i.y], [p["GCPPixel"], p["GCPLine"]])


@harness("C18", [G + "GDALAffineSensorModelBuilder." + f for f in ("__init__", "build")], samples=30)
def affine_builder(ctx):
    import aws.osml.gdal.gdal_sensor_model_builder as mod

    st, made = record_classes(ctx, mod, "GDALAffineSensorModel")
    gt = [ctx.real(f"g{i}") for i in range(6)]
    wkt = ctx.choice("wkt", [None, "PROJCS[...]", ""])
    with st:
        ctx.ensure("no geotransform, no model", mod.GDALAffineSensorModelBuilder(None, wkt).build() is None)
        m = mod.GDALAffineSensorModelBuilder(gt, wkt).build() if wkt is not None else mod.GDALAffineSensorModelBuilder(gt).build()
    ctx.ensure("projection", (m.proj_wkt or None) == (wkt or None))
    ctx.ensure_vec("geotransform", list(m.geo_transform), gt)
