"""C25: composite sensor models."""
import math

from pvc.ctx import harness

from .common import Rec, stub_elevation

P = "photogrammetry.composite_sensor_model.CompositeSensorModel."


class Recorder:
    """Any sensor model: arbitrary functions in both directions; records what it was asked."""

    def __init__(self, ctx, name):
        from aws.osml.photogrammetry import SensorModel

        fw = [ctx.uf(f"{name}_w{i}", 2, lo, hi) for i, (lo, hi) in enumerate([(-3.1, 3.1), (-1.5, 1.5), (0, 1000)])]
        fi = [ctx.uf(f"{name}_i{i}", 3, 0, 1000) for i in range(2)]
        outer = self
        self.fw, self.fi, self.log = fw, fi, []

        class M(SensorModel):
            def image_to_world(self, image_coordinate, elevation_model=None, options=None):
                from aws.osml.photogrammetry import GeodeticWorldCoordinate

                outer.log.append(Rec(at=list(image_coordinate.coordinate), dem=elevation_model, options=options, seen=None if options is None else dict(options)))
                w = GeodeticWorldCoordinate([f(image_coordinate.x, image_coordinate.y) for f in fw])
                outer.result = w
                return w

            def world_to_image(self, world_coordinate):
                from aws.osml.photogrammetry import ImageCoordinate

                outer.log.append(Rec(at=list(world_coordinate.coordinate)))
                return ImageCoordinate([f(*world_coordinate.coordinate) for f in fi])

        self.model = M()


@harness("C25", [P + "__init__", P + "image_to_world"], samples=300, trusted=["the two models by contract: any functions in both directions"])
def image_to_world(ctx):
    """The precise model answers, started at the approximate model's answer."""
    from aws.osml.photogrammetry import CompositeSensorModel, ImageCoordinate, SensorModelOptions as O

    a, p = Recorder(ctx, "approximate"), Recorder(ctx, "precise")
    m = CompositeSensorModel(approximate_sensor_model=a.model, precision_sensor_model=p.model)
    dem = stub_elevation(ctx) if ctx.choice("dem", [True, False]) else None
    given = ctx.choice("options", [None, "empty", "own", "guess"])
    mine, extra = object(), ctx.real("distance", 0.1, 1)
    options = {None: None, "empty": {}, "own": {"mine": mine}, "guess": {"mine": mine, O.INITIAL_GUESS: [extra, extra], O.INITIAL_SEARCH_DISTANCE: extra}}[given]
    before = None if options is None else dict(options)
    guesses = []
    for n in range(2):
        x, y = ctx.real(f"x{n}", 0, 1000), ctx.real(f"y{n}", 0, 1000)
        ic = ImageCoordinate([x, y])
        k = {} if dem is None else {"elevation_model": dem}
        if options is not None:
            k["options"] = options
        a.log.clear(), p.log.clear()
        w = m.image_to_world(ic, **k)
        ctx.ensure("both models are asked", len(a.log) > 0 and len(p.log) > 0)
        q, r = a.log[-1], p.log[-1]
        ctx.ensure_vec("the approximate model is asked for the pixel", q.at, [x, y])
        ctx.ensure_vec("the precise model is asked for the pixel", r.at, [x, y])
        ctx.ensure("both use the terrain given", q.dem is dem and r.dem is dem)
        ctx.ensure("the approximate model is given the caller's options", (q.seen or None) == (before or None))
        ctx.ensure_vec("the answer is the precise model's", w.coordinate, [f(x, y) for f in p.fw])
        g = r.options[O.INITIAL_GUESS]
        guesses.append(list(g)[:2])
        ctx.ensure("a guess of two components", len(g) == 2)
        ctx.ensure_vec("the search starts at the approximate location", guesses[-1], [f(x, y) for f in a.fw[:2]])
        ctx.ensure_eq("search distance", r.options[O.INITIAL_SEARCH_DISTANCE], math.radians(0.005), tol=1e-12)
        if given in ("own", "guess"):
            ctx.ensure("other options are passed on", r.options.get("mine") is mine)
        ctx.ensure_vec("the pixel is not modified", ic.coordinate, [x, y])
        ctx.ensure("the caller's options are not modified", options is None and before is None or options is not None and list(options) == list(before)
                   and all(options[key] is before[key] for key in before))


@harness("C25", [P + "world_to_image"], samples=100)
def world_to_image(ctx):
    from aws.osml.photogrammetry import CompositeSensorModel, GeodeticWorldCoordinate

    a, p = Recorder(ctx, "approximate"), Recorder(ctx, "precise")
    m = CompositeSensorModel(a.model, p.model)
    v = [ctx.real("lon", -3.1, 3.1), ctx.real("lat", -1.5, 1.5), ctx.real("h", 0, 1000)]
    w = GeodeticWorldCoordinate(v)
    i = m.world_to_image(w)
    ctx.ensure_vec("the answer is the precise model's", i.coordinate, [f(*v) for f in p.fi])
    ctx.ensure_vec("the location is not modified", w.coordinate, v)
