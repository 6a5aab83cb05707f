"""C22: spatial index of features."""
import copy

import numpy as np

from pvc.ctx import harness

from .c21_geolocation import geometries

I = "features.feature_index.STRFeature2DSpatialIndex."
TRUST = ["shapely.STRtree: query returns the indexes of the geometries that satisfy the predicate, query_nearest those nearest within max_distance; None is never found"]


@harness("C22", [I + f for f in ("__init__", "find_intersects", "find_nearest")], samples=200, trusted=TRUST, bounded="collections of up to 4 features",
         limits=dict(max_paths=2000))
def index_of_features(ctx):
    """With any tree: the tree holds the geometry of every feature in order, and answers are the features at the indexes it gives."""
    import geojson
    import shapely

    from aws.osml.features import STRFeature2DSpatialIndex

    n = ctx.choice("n", [0, 1, 2, 4])
    use = ctx.choice("image geometries", [None, True, False])
    acc = ctx.choice("accessor", ["default", "own", "none"])
    image = use is not False and acc != "none"
    fs, geo = [], []
    for i in range(n):
        f = geojson.Feature(id=str(i), geometry=geojson.Point((0.25 * i, 1.0)), properties={"imageGeometry": {"type": "Point", "coordinates": [10.0 * i, 5.0]}})
        if image and i % 3 == 2:
            del f["properties"]["imageGeometry"]
        elif not image and i % 3 == 2:
            f["geometry"] = None
        fs.append(f)

    class Own:
        def find_image_geometry(self, feature):
            return None if feature["id"] == "2" else ("own", feature["id"])

    trees, asked = [], []
    picks = [i for i in range(n) if ctx.choice(f"found{i}", [False, True])]
    if len(picks) > 1 and ctx.choice("order", [0, 1]):
        picks = picks[::-1]

    class Tree:
        def __init__(self, geoms, node_capacity=10):
            self.geoms = list(geoms)
            trees.append(self)

        def query(self, geometry, predicate=None, distance=None):
            asked.append(("query", geometry, predicate, distance))
            return np.array(picks, dtype=np.int64)

        def query_nearest(self, geometry, max_distance=None, return_distance=False, exclusive=False, all_matches=True):
            asked.append(("nearest", geometry, max_distance, (return_distance, exclusive, all_matches)))
            return np.array(picks, dtype=np.int64)

    kw = {} if use is None else {"use_image_geometries": use}
    if acc != "default":
        kw["property_accessor"] = Own() if acc == "own" else None
    coll = geojson.FeatureCollection(fs)
    q = shapely.Point(1.0, 2.0)
    with ctx.patch(shapely, "STRtree", Tree):
        ix = STRFeature2DSpatialIndex(coll, **kw)
        a = list(ix.find_intersects(q))
        dist = ctx.choice("distance", ["default", 0.5, 7])
        b = list(ix.find_nearest(q)) if dist == "default" else list(ix.find_nearest(q, dist) if ctx.choice("how", [0, 1]) else ix.find_nearest(q, max_distance=dist))
    ctx.ensure("one tree of all features", len(trees) == 1 and len(trees[0].geoms) == n)
    for i, (f, g) in enumerate(zip(fs, trees[0].geoms)):
        if acc == "own" and image:
            ctx.ensure("geometry from the accessor", g == (None if i == 2 else ("own", str(i))))
        elif image:
            ctx.ensure("image geometry", g is None if i == 2 else (g.x, g.y) == (10.0 * i, 5.0))
        else:
            ctx.ensure("geometry", g is None if i == 2 else (g.x, g.y) == (0.25 * i, 1.0))
    for name, r in (("intersecting", a), ("nearest", b)):
        ctx.ensure(f"{name}: the features found, as they are", len(r) == len(picks) and all(x is coll["features"][i] for x, i in zip(r, picks)))
    ask = {a[0]: a for a in asked}
    ctx.ensure("both are asked for", len(ask) == 2)
    ctx.ensure("intersection is asked for", ask["query"][:3] == ("query", q, "intersects") and ask["query"][3] is None)
    d = dist if dist != "default" else (50 if use is not False else 1.0)
    ctx.ensure("nearest within the distance", ask["nearest"][:3] == ("nearest", q, d) and ask["nearest"][3] == (False, False, True))


@harness("C22", [I + f for f in ("__init__", "find_intersects", "find_nearest")], sym=False, samples=200, bounded="sampled collections of up to 30 features")
def brute_force(ctx):
    """The answers are those of a search over all features."""
    import geojson
    import shapely

    from aws.osml.features import STRFeature2DSpatialIndex

    n = ctx.choice("n", [0, 1, 3, 12, 30])
    image = ctx.choice("image", [True, False])
    fs, gs = [], []
    for i in range(n):
        k = geometries(ctx.real(f"x{i}", 0, 200), ctx.real(f"y{i}", 0, 200))
        g = k[ctx.choice(f"t{i}", ["Point", "LineString", "Polygon", "MultiPoint", "Polygon with a hole"])]
        has = ctx.choice(f"has{i}", [True, True, False])
        fs.append(geojson.Feature(id=i, geometry=g if has and not image else None, properties={"imageGeometry": g} if image and has else {}))
        gs.append(shapely.geometry.shape(g) if has else None)
        if i % 4 == 1 and ctx.choice(f"again{i}", [False, True]):  # the same detection reported twice: equal features
            fs.append(copy.deepcopy(fs[-1]))
            gs.append(gs[-1])
    ids = [f["id"] for f in fs]
    x, y = ctx.real("qx", 0, 200), ctx.real("qy", 0, 200)
    q = ctx.choice("q", [shapely.Point(x, y), shapely.box(x, y, x + 40, y + 30)])
    ix = STRFeature2DSpatialIndex(geojson.FeatureCollection(fs), use_image_geometries=image)
    ctx.ensure("intersecting features", sorted(f["id"] for f in ix.find_intersects(q)) == [i for i, g in zip(ids, gs) if g is not None and q.intersects(g)])
    md = ctx.choice("distance", [None, 20.0])
    lim = md or (50 if image else 1.0)
    ds = [(q.distance(g), i) for i, g in zip(ids, gs) if g is not None]
    best = min((d for d, _ in ds), default=None)
    ctx.assume(best is None or abs(best - lim) > 1e-9)
    want = [i for d, i in ds if d == best and best <= lim] if ds else []
    got = ix.find_nearest(q) if md is None else ix.find_nearest(q, md)
    ctx.ensure("nearest features", sorted(f["id"] for f in got) == sorted(want))


@harness("C22", [I + f for f in ("__init__", "find_intersects", "find_nearest")], samples=60, trusted=TRUST)
def index_of_any_collection(ctx):
    """Collections and answers of any size: entry i of the tree is the geometry of feature i, answer k is the feature the tree's k-th index names."""
    import geojson
    import shapely
    import shapely.geometry

    from aws.osml.features import STRFeature2DSpatialIndex

    n, m = ctx.int("n", 0, 40), ctx.int("m", 0, 40)
    image = ctx.choice("image geometries", [True, False])
    find = ctx.uf("find", 1, 0, 1000)
    ctx.assume(ctx.or_(n > 0, m == 0))
    pick = [ctx.array(f"pick{a}", (m,), lo=0, hi=n - 1 if ctx.symbolic else max(int(n) - 1, 0), dtype=np.int64) for a in range(2)]

    def feature(i):
        f, g = geojson.Feature(), geojson.Point((1.0, 2.0))
        f["number"] = g["number"] = i
        f["geometry"] = g
        return f

    coll = geojson.FeatureCollection([])
    coll["features"] = ctx.seq("features", n, feature)
    trees = []

    class Tree:
        def __init__(self, geoms, node_capacity=10):
            self.geoms = geoms
            trees.append(self)

        def query(self, geometry, predicate=None, distance=None):
            return ctx.seq("found", m, lambda j: ctx.at(pick[0], (j,))) if ctx.symbolic else pick[0]

        def query_nearest(self, geometry, max_distance=None, return_distance=False, exclusive=False, all_matches=True):
            return ctx.seq("near", m, lambda j: ctx.at(pick[1], (j,))) if ctx.symbolic else pick[1]

    class Own:
        def find_image_geometry(self, feature):
            return ("image", find(feature["number"]))

    q = shapely.Point(1.0, 2.0)
    with ctx.patch(shapely, "STRtree", Tree), ctx.patch(shapely.geometry, "shape", lambda g: ("shape", find(g["number"] + 0.5))):
        ix = STRFeature2DSpatialIndex(coll, image, Own())
        answers = [ix.find_intersects(q), ix.find_nearest(q)]
        ctx.ensure("one tree", len(trees) == 1)
        ctx.ensure("an entry for every feature", ctx.length(trees[0].geoms) == n)
        for a in range(2):
            ctx.ensure("an answer for every index", ctx.length(answers[a]) == m)
        if n > 0:
            (i,) = ctx.index("i", (n,))
            kind, g = trees[0].geoms[i]
            ctx.ensure("kind of geometry", kind == ("image" if image else "shape"))
            ctx.ensure_eq("the geometry of the feature at its place", g, find(i if image else i + 0.5))
        if m > 0:
            for a in range(2):
                (j,) = ctx.index(f"j{a}", (m,))
                ctx.ensure_eq(("intersecting", "nearest")[a] + ": the feature the tree names", answers[a][j]["number"], ctx.at(pick[a], (j,)))
