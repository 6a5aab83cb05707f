"""C06: sectioned RSM sensor model."""
import math

from pvc.ctx import harness

from .common import Rec, stub_elevation

P = "photogrammetry.replacement_sensor_model.RSMSectionedPolynomialSensorModel."
F = [P + x for x in ("__init__", "world_to_image", "image_to_world", "get_section_index")]


@harness("C06", F, limits={"concretize_max": 64})
def section_index(ctx):
    """Any number of sections, any section size."""
    from aws.osml.photogrammetry import ImageCoordinate, RSMImageDomain, RSMSectionedPolynomialSensorModel

    nr, nc = ctx.int("nr", 1, 256), ctx.int("nc", 1, 256)
    rs, cs = ctx.real("rs", 0.5, 5000), ctx.real("cs", 0.5, 5000)
    r0, c0 = ctx.int("r0", -1000, 1000), ctx.int("c0", -1000, 1000)
    c = Rec(image_domain=RSMImageDomain(r0, r0 + 5000, c0, c0 + 5000), ground_domain=None)
    m = RSMSectionedPolynomialSensorModel(c, nr, nc, rs, cs, None, None, None)
    x, y = ctx.real("x", -20000, 20000), ctx.real("y", -20000, 20000)
    ci, ri = m.get_section_index(ImageCoordinate([x, y]))
    for nm, i, n, v, o, s in (("row", ri, nr, y, r0, rs), ("column", ci, nc, x, c0, cs)):
        ctx.ensure(f"{nm} section is an existing section", ctx.and_(i >= 0, i < n, ctx.is_int(i)))
        ctx.ensure(f"{nm} section starts at or before the coordinate unless it is the first", ctx.or_(i == 0, o + i * s <= v + 1e-6))
        ctx.ensure(f"{nm} section ends after the coordinate unless it is the last", ctx.or_(i == n - 1, v < o + (i + 1) * s + 1e-6))


@harness("C06", F, limits={"max_paths": 800})
def section_delegation(ctx):
    """Both directions go, unmodified, to the model of the row and column section; 3 x 4 sections (the grid is data)."""
    from aws.osml.photogrammetry import (GeodeticWorldCoordinate, ImageCoordinate, RSMImageDomain, RSMSectionedPolynomialSensorModel,
                                         SensorModel, WorldCoordinate)

    NR, NC = 3, 4
    log = []

    class Sec(SensorModel):
        def __init__(self, r, c):
            self.id = (r, c)

        def image_to_world(self, image_coordinate, elevation_model=None, options=None):
            log.append(("i2w", self.id, image_coordinate, elevation_model, options))
            return GeodeticWorldCoordinate([0.1 * self.id[0], 0.1 * self.id[1], 5.0])

        def world_to_image(self, world_coordinate):
            log.append(("w2i", self.id, world_coordinate))
            return ImageCoordinate([10.0 * self.id[1], 10.0 * self.id[0]])

    secs = [[Sec(r, c) for c in range(NC)] for r in range(NR)]
    rs, cs = ctx.real("rs", 10, 500), ctx.real("cs", 10, 500)
    r0, c0 = ctx.int("r0", -10, 10), ctx.int("c0", -10, 10)
    dm = [ctx.uf(f"dom{i}", 3) for i in range(3)]
    rp, cp = ctx.uf("rowpoly", 3, -200, 2000), ctx.uf("colpoly", 3, -200, 2000)

    class Dom:
        def geodetic_to_ground_domain_coordinate(self, geodetic_coordinate):
            return WorldCoordinate([f(geodetic_coordinate.x, geodetic_coordinate.y, geodetic_coordinate.z) for f in dm])

    c = Rec(image_domain=RSMImageDomain(r0, r0 + 2000, c0, c0 + 2000), ground_domain=Dom())
    m = RSMSectionedPolynomialSensorModel(c, NR, NC, rs, cs, lambda w: rp(w.x, w.y, w.z), lambda w: cp(w.x, w.y, w.z), secs)

    def inside(i, n, v, o, s):
        return ctx.and_(ctx.or_(i == 0, o + i * s <= v + 1e-6), ctx.or_(i == n - 1, v < o + (i + 1) * s + 1e-6))

    if ctx.choice("direction", ["i2w", "w2i"]) == "i2w":
        x, y = ctx.real("x", -200, 2500), ctx.real("y", -200, 2500)
        ic = ImageCoordinate([x, y])
        opts, dem = {"a": 1}, stub_elevation(ctx)
        m.image_to_world(ImageCoordinate([c0 - 1.0, r0 - 1.0])).latitude = 9.0
        if not ctx.symbolic:
            m.image_to_world(ImageCoordinate([ctx.real("x0", -200, 2500), ctx.real("y0", -200, 2500)]))
        log.clear()
        w = m.image_to_world(ic, elevation_model=dem, options=opts)
        ctx.ensure("a section is asked", len(log) > 0)
        k, (ri, ci), a, e, o = log[-1]
        ctx.ensure_vec("with the same image coordinate", a.coordinate, [x, y])
        ctx.ensure("elevation model and options are passed on", e is dem and o == {"a": 1})
        ctx.ensure_vec("its answer is returned", w.coordinate, [0.1 * ri, 0.1 * ci, 5.0])
        ctx.ensure("the row section contains the coordinate (or is the closest)", inside(ri, NR, y, r0, rs))
        ctx.ensure("the column section contains the coordinate (or is the closest)", inside(ci, NC, x, c0, cs))
    else:
        p = [ctx.real("lon", -3, 3), ctx.real("lat", -1, 1), ctx.real("h", -10, 10)]
        g = GeodeticWorldCoordinate(p)
        if not ctx.symbolic:
            m.world_to_image(GeodeticWorldCoordinate([p[0], p[1], p[2] + 5.0]))
            m.world_to_image(GeodeticWorldCoordinate([-p[0], p[1], p[2]]))
            log.clear()
        ic = m.world_to_image(g)
        ctx.ensure("a section is asked", len(log) > 0)
        k, (ri, ci), a = log[-1]
        ctx.ensure_vec("with the same world coordinate", a.coordinate, p)
        ctx.ensure_vec("its answer is returned", ic.coordinate, [10.0 * ci, 10.0 * ri])
        d = [f(*p) for f in dm]
        ctx.ensure("the row section contains the low order estimate (or is the closest)", inside(ri, NR, rp(*d), r0, rs))
        ctx.ensure("the column section contains the low order estimate (or is the closest)", inside(ci, NC, cp(*d), c0, cs))
