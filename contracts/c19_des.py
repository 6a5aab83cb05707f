"""C19: data extension segments of NITF images."""
import base64
import re

import numpy as np

from pvc.ctx import Structural, harness

N = "gdal.nitf_des_accessor.NITFDESAccessor."
TEXT = [("DECLAS", 1), ("DESCLSY", 2), ("DESCODE", 11), ("DESCTLH", 2), ("DESREL", 20), ("DESDCTP", 2), ("DESDCDT", 8), ("DESDCXM", 4), ("DESDG", 1),
        ("DESDGDT", 8), ("DESCLTX", 43), ("DESCATP", 1), ("DESCAUT", 40), ("DESCRSN", 1), ("DESSRDT", 8), ("DESCTLN", 15)]
LETTERS = "ABC DEFGHIJKLMNOPQRSTUVWXYZ0123456789 abcdefghijklmnopqrstuvwxyz-/.<&>\"'"


def text(ctx, name, width):
    n = ctx.choice("length " + name, [0, width, 1, width // 2] if width > 1 else [0, 1])
    k = ctx.choice("letters " + name, list(range(len(LETTERS)))) if not ctx.symbolic else width
    return "".join(LETTERS[(k + i) % len(LETTERS)] for i in range(n))


def element(ver, vals, shl, shf):
    from xml.etree import ElementTree as ET

    e = ET.Element("des", {"name": "XML_DATA_CONTENT"})
    fs = [("DESID", "XML_DATA_CONTENT"), ("DESVER", ver)] + list(vals.items()) + [("DESSHL", shl)] + ([("DESSHF", shf)] if shf is not None else [])
    for k, v in fs:
        ET.SubElement(e, "field", {"name": k, "value": v})
    return e


@harness("C19", [N + "extract_des_header", N + "parse_field_value"], sym=False, samples=400, bounded="sampled field texts of every admissible length")
def header(ctx):
    """Every field of the header is written at its place with its fixed width."""
    from aws.osml.gdal import NITFDESAccessor

    vals = {k: text(ctx, k, w) for k, w in TEXT}
    ver = ctx.choice("version", ["01", "1", "02", "10", "99"])
    shl = ctx.choice("subheader", [0, 1, 5, 283, 773])
    shf = text(ctx, "DESSHF", shl) if shl or ctx.choice("empty subheader", [0, 1]) else None
    e = element(ver, vals, ctx.choice("digits", ["%d", "%04d"]) % shl, shf)
    drop = ctx.choice("missing", [None, None, None, "DESVER", "DESSHL", "DESCRSN", "DESCTLN"])
    if drop:
        e.remove(e.find(f"./field[@name='{drop}']"))
        r, x = ctx.attempt(NITFDESAccessor.extract_des_header, e)
        ctx.ensure("missing fields are reported", isinstance(x, ValueError))
        return
    h = NITFDESAccessor.extract_des_header(e)
    ctx.ensure("length of the header", len(h) == 2 + sum(w for _, w in TEXT) + 4 + shl)
    ctx.ensure("version", h[:2] == "%02d" % int(ver))
    at = 2
    for k, w in TEXT:
        # GDAL presents the fields without their trailing blanks; texts are left-justified in NITF
        ctx.ensure(f"field {k}", h[at:at + w] == vals[k].ljust(w))
        at += w
    ctx.ensure("length of the subheader", h[at:at + 4] == "%04d" % shl)
    if shl:
        cut = shf[:len(shf) // 2]
        ctx.ensure("subheader", h[at + 4:] == shf.ljust(shl))
        h = NITFDESAccessor.extract_des_header(element(ver, vals, "%d" % shl, cut))
        ctx.ensure("a subheader presented without its trailing blanks", h[at + 4:] == cut.ljust(shl))


class Token(str):
    """Any text: all that is known of it is how it is padded."""

    def __str__(self):
        return self

    def padded(self, width):
        return f"\x01{self.name}|{width}\x02"

    def ljust(self, width, fill=" "):
        if fill != " ":
            raise Structural("another padding")
        return self.padded(width)

    def __format__(self, spec):
        q = re.fullmatch(r" ?<?(\d+)s?", spec) or re.fullmatch(r" ?[<>^]?(1)s?", spec)  # one character: nothing to justify
        if not q:
            return f"\x01{self.name}|{spec}\x02"
        return self.padded(int(q.group(1)))


def token(name):
    t = Token("\x01" + name + "\x02")
    t.name = name
    return t


@harness("C19", [N + "extract_des_header", N + "parse_field_value"], samples=1)
def header_of_any_texts(ctx):
    """Whatever the texts are: the header is the version, each text padded on the right to its width, and the subheader."""
    from aws.osml.gdal import NITFDESAccessor

    vals = {k: token(k) for k, _ in TEXT}
    body = "".join(vals[k].padded(w) for k, w in TEXT)

    def good(ver, shl):
        shf = token("DESSHF")
        h = NITFDESAccessor.extract_des_header(element("%d" % ver, vals, "%d" % shl, shf))
        want = "%02d" % ver + body + "%04d" % shl + (shf.padded(shl) if shl else "")
        if h != want and (h.count("\x01") != want.count("\x01") or re.sub("\x01.*?\x02", "", h) == re.sub("\x01.*?\x02", "", want) and ">" not in h):
            raise Structural("the texts are handled in another way")
        return h == want

    ctx.ensure("every version", all(good(ver, 773) for ver in range(100)))
    ctx.ensure("every length of the subheader", all(good(1, shl) for shl in range(0 if ctx.symbolic else 73, 10000, 1 if ctx.symbolic else 100)))


@harness("C19", [N + "__init__", N + "get_segments_by_name", N + "extract_desdata_xml", N + "parse_field_value"], samples=300,
         bounded="up to 3 lists of up to 3 segments", limits=dict(max_paths=3000))
def segments(ctx):
    """Segments are found by name in order, and their XML is what was stored, however GDAL presents it."""
    from aws.osml.gdal import NITFDESAccessor

    docs = ["<SICD xmlns=\"urn:SICD:1.2.1\"><A b=\"1\">t</A></SICD>", "<SIDD><B/>tail</SIDD>", "<X><Y>\u00e9 &amp; &lt;</Y><Y/></X>"]
    nl = ctx.choice("lists", [1, 0, 2, 3] if not ctx.symbolic else [1, 0, 2])
    metas, want = [], []
    for i in range(nl):
        body = ""
        for j in range(ctx.choice(f"segments{i}", [1, 0, 2, 3] if not ctx.symbolic else [1, 2])):
            name = ctx.choice(f"name{i}{j}", ["XML_DATA_CONTENT", "TRE_OVERFLOW", "XML_DATA"] if not ctx.symbolic else ["XML_DATA_CONTENT", "TRE_OVERFLOW"] if i == 0 else ["XML_DATA_CONTENT"])
            kind = ctx.choice(f"kind{i}{j}", ["base64", "inline", "none", "empty"] if not ctx.symbolic or i == j == 0 else ["inline", "base64"])
            d = docs[(i + j) % 3]
            pro = ctx.choice(f"declaration{i}{j}", PROLOGS) if not ctx.symbolic else PROLOGS[(i + j) % 2 * (1 + i)]
            data = {"base64": "<field name=\"DESDATA\" value=\"%s\"/>" % base64.b64encode((pro + d).encode()).decode(),
                    "inline": f"<field name=\"DESDATA\"><xml_content>{pro}{d}</xml_content></field>",
                    "none": "", "empty": "<field name=\"DESDATA\" value=\"\"/>"}[kind]
            body += f"<des name=\"{name}\"><field name=\"DESVER\" value=\"{i}{j}\"/>{data}</des>"
            if name == "XML_DATA_CONTENT":
                want.append((f"{i}{j}", kind, pro, d))
        metas.append("<?xml version=\"1.0\"?>\n<des_list>" + body + "</des_list>\n")
    given = list(metas)
    a = NITFDESAccessor(metas if nl or ctx.choice("none", [0, 1]) else None)
    ctx.ensure("the metadata are not modified", metas == given)
    got = a.get_segments_by_name("XML_DATA_CONTENT")
    ctx.ensure("segments by name, in order", [a.parse_field_value(g, "DESVER", str) for g in got] == [w[0] for w in want])
    ctx.ensure("converted fields", [a.parse_field_value(g, "DESVER", int) for g in got] == [int(w[0]) for w in want])
    ctx.ensure("unknown names have no segments", list(a.get_segments_by_name("XML")) == [])
    for g, (ver, kind, pro, d) in zip(got, want):
        x = a.extract_desdata_xml(g)
        if kind == "base64":
            ctx.ensure("the stored text", x == pro + d)
        elif kind == "inline":
            ctx.ensure("an equal document", x is not None and canonical(x) == canonical(d))
        else:
            ctx.ensure("no data, no document", x is None)


# XML declarations; white space in them may be line ends
PROLOGS = ["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0'\n  encoding='UTF-8'\r\n?>\n", "<?xml\tversion=\"1.0\" standalone=\"yes\" ?>"]


def canonical(x):
    from xml.etree import ElementTree as ET

    def go(e):
        return (e.tag, sorted(e.attrib.items()), e.text or "", [go(c) for c in e], e.tail or "")

    return go(ET.fromstring(x))


@harness("C19", [N + "__init__", N + "get_segments_by_name", N + "extract_desdata_xml", N + "extract_des_header"], sym=False, samples=25,
         bounded="sampled NITF files in memory")
def header_through_gdal(ctx):
    """A segment written with an extracted header reads back with the same header and data."""
    from osgeo import gdal

    from aws.osml.gdal import NITFDESAccessor

    vals = {k: text(ctx, k, w).replace("<", "x").replace("&", "y").replace(">", "z").replace("\"", "q").replace("'", "r").rstrip() for k, w in TEXT}
    vals["DECLAS"] = vals["DECLAS"].strip() or "U"
    shl = ctx.choice("subheader", [0, 773])
    shf = ("99999XML     2020-01-01T00:00:00Z" + "s" * ctx.choice("texts", [0, 200, 740])).ljust(shl)[:shl]
    h = "01" + "".join(vals[k].ljust(w) for k, w in TEXT) + "%04d" % shl + shf
    xml = "<SICD xmlns=\"urn:SICD:1.2.1\"><A>" + "t" * ctx.int("n", 0, 50) + "</A></SICD>"
    src = gdal.GetDriverByName("MEM").Create("", 8, 8, 1, gdal.GDT_Byte)
    src.GetRasterBand(1).WriteArray(np.arange(64, dtype=np.uint8).reshape(8, 8))
    name = "/vsimem/pvc_c19.ntf"
    try:
        gdal.Translate(name, src, format="NITF", creationOptions=["IC=NC", "DES=XML_DATA_CONTENT=" + h + xml])
        ds = gdal.Open(name)
        a = NITFDESAccessor(ds.GetMetadata("xml:DES"))
        ds = None
        segs = a.get_segments_by_name("XML_DATA_CONTENT")
        ctx.ensure("one segment", len(segs) == 1)
        h2 = NITFDESAccessor.extract_des_header(segs[0])
        ctx.ensure("same length", len(h2) == len(h))
        at = 2
        for k, w in TEXT:
            ctx.ensure(f"field {k} survives", h2[at:at + w] == vals[k].ljust(w))
            at += w
        ctx.ensure("same subheader", h2[at:] == h[at:])
        ctx.ensure("an equal document", canonical(a.extract_desdata_xml(segs[0])) == canonical(xml))
    finally:
        gdal.Unlink(name)
