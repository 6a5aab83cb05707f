"""C13: well known map tile sets (web mercator quad)."""
import contextlib
import math

from pvc.ctx import harness

from .common import Rec

W = "image_processing.map_tileset_wmq.WebMercatorQuadMapTileSet."
ALL = [W + f for f in ("__init__", "get_tile", "get_tile_for_location", "_resolution", "_pixels_to_meters", "_meters_to_pixels", "_pixels_to_tile",
                       "_calculate_tile_bounds_meters", "_calculate_tile_bounds_lle")]
R = 6378137
LEVELS = list(range(0, 25))
TRUST = ["pyproj EPSG:4326 -> EPSG:3857: x = R * longitude, y a strictly increasing function of latitude, inverse is the inverse"]


class Mercator:
    """Contract of the transformer: x = R * longitude; y strictly increasing in latitude (inverse law by monotonicity)."""

    def __init__(self, ctx):
        self.ctx, self.pairs = ctx, []
        self.k = radius(ctx)

    def _pair(self, lat, y):
        for a, b in self.pairs:
            self.ctx.assume(self.ctx.and_((lat < a) == (y < b), (lat > a) == (y > b)))
        self.pairs.append((lat, y))

    def transform(self, xx, yy, zz=None, radians=False, direction="FORWARD", **kw):
        if not radians or zz is not None or kw:
            from pvc.sym import Unsupported

            raise Unsupported("transform outside the assumed contract")
        if str(getattr(direction, "value", direction)).upper() == "FORWARD":
            y = self.ctx.fresh("y")
            self._pair(xx, y)
            return yy * self.k, y
        lat = self.ctx.fresh("lat")
        self._pair(lat, yy)
        return lat, xx / self.k


def radius(ctx):
    """The exact radius as a term, so that products with it are exact."""
    import z3

    from pvc.sym import Sym

    return Sym(z3.RealVal(R))


def tile_set(ctx):
    from aws.osml.image_processing import MapTileSetFactory

    sets = [(256, "WebMercatorQuad"), (512, "WebMercatorQuadx2")]
    size, name = ctx.choice("set", sets)
    mine = MapTileSetFactory.get_for_id(name)
    # the other well known set, used in the same process
    return mine, size, MapTileSetFactory.get_for_id([n for k, n in sets if n != name][0])


def lat_of(ctx, t, r, n):
    """Latitude of the lower edge of row r of n."""
    if ctx.symbolic:
        s = math.pi * radius(ctx)
        return t.transform(0.0, r * (2 * s / n) - s, radians=True, direction="INVERSE")[0]
    return math.atan(math.sinh(math.pi * (2.0 * r / n - 1.0)))


def setup(ctx):
    import aws.osml.image_processing.map_tileset_wmq as mod

    t = None
    if ctx.symbolic:
        ctx.need(mod, "LLE_TO_WEB_MERCATOR", "WEB_MERCATOR_PROJ")
        t = Mercator(ctx)
    st = contextlib.ExitStack()
    st.enter_context(ctx.stub(mod, "LLE_TO_WEB_MERCATOR", t))
    st.enter_context(ctx.stub(mod, "WEB_MERCATOR_PROJ", Rec(crs=Rec(ellipsoid=Rec(semi_major_metre=radius(ctx) if ctx.symbolic else None)))))
    return t, st


@harness("C13", ALL, samples=400, trusted=TRUST)
def location_is_in_its_tile(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    t, st = setup(ctx)
    lon = ctx.real("lon", -math.pi, math.pi)
    lat = ctx.real("lat", -1.4844, 1.4844)
    z = ctx.choice("level", LEVELS)
    if not ctx.symbolic and ctx.choice("edge", [False, False, False, True]):
        # just inside of a tile edge
        q = 2 * math.pi / 2**z
        lon = min(math.pi, max(-math.pi, round(lon / q) * q + 1e-10 * ctx.choice("side", [-1, 1])))
    n = 2**z
    with st:
        s, size, other = tile_set(ctx)
        if ctx.symbolic:
            # the location is inside of the map: its mercator y is within the square
            ctx.assume(ctx.and_(lat >= lat_of(ctx, t, 0, n), lat <= lat_of(ctx, t, n, n)))
        w = GeodeticWorldCoordinate([lon, lat, 12.0])
        if not ctx.symbolic:
            other.get_tile_for_location(w, z)
            s.get_tile_for_location(w, max(0, z - 1))
            s.get_tile_for_location(GeodeticWorldCoordinate([-lon, lat, 12.0]), z)
        tile = s.get_tile_for_location(w, z)
        i = tile.id
        eps = 0.0 if ctx.symbolic else 1e-12
        ctx.ensure("level asked for", i.tile_matrix == z)
        ctx.ensure("column and row are whole", ctx.and_(ctx.is_int(i.tile_col), ctx.is_int(i.tile_row)))
        ctx.ensure("column and row exist", ctx.and_(i.tile_col >= 0, i.tile_col < n, i.tile_row >= 0, i.tile_row < n))
        b = tile.bounds
        ctx.ensure("the bounds contain the location", ctx.and_(b[0] - eps <= lon, lon <= b[2] + eps, b[1] - eps <= lat, lat <= b[3] + eps))
        again = s.get_tile(i)
        ctx.ensure_vec("the tile of that id has these bounds", again.bounds, b, tol=1e-12)
        ctx.ensure("tile size", tuple(tile.size) == (size, size))
        ctx.ensure_vec("the location is not modified", w.coordinate, [lon, lat, 12.0])


@harness("C13", [W + f for f in ("get_tile", "_calculate_tile_bounds_lle", "_calculate_tile_bounds_meters", "_pixels_to_meters", "_resolution")],
         samples=200, trusted=TRUST)
def tiles_partition_the_map(ctx):
    from aws.osml.image_processing import MapTileId

    t, st = setup(ctx)
    z = ctx.choice("level", LEVELS)
    n = 2**z
    c, r = ctx.int("c", 0, n - 1), ctx.int("r", 0, n - 1)
    with st:
        s, size, other = tile_set(ctx)
        tid = MapTileId(tile_matrix=z, tile_row=r, tile_col=c)
        other.get_tile(tid)
        tile = s.get_tile(tid)
        ctx.ensure("id asked for", tile.id == tid)
        ctx.ensure("tile size", tuple(tile.size) == (size, size))
        q = 2 * math.pi / n
        b = tile.bounds
        tol = 1e-11
        # pi is a floating-point constant in the code: equality within 1e-11 of a turn
        for k, e in ((0, c * q - math.pi), (2, (c + 1) * q - math.pi)):
            d = b[k] - e
            ctx.ensure("columns divide the longitudes evenly from the west", ctx.and_(d <= tol, d >= -tol))
        ctx.ensure_eq("lower edge of the row, counted from the south", b[1], lat_of(ctx, t, r, n), tol=1e-12)
        ctx.ensure_eq("upper edge of the row", b[3], lat_of(ctx, t, r + 1, n), tol=1e-12)
        right = s.get_tile(MapTileId(tile_matrix=z, tile_row=r, tile_col=c + 1)).bounds
        up = s.get_tile(MapTileId(tile_matrix=z, tile_row=r + 1, tile_col=c)).bounds
        ctx.ensure_vec("neighbours share their edge", [right[0], right[1], right[3]], [b[2], b[1], b[3]], tol=1e-12)
        ctx.ensure_vec("neighbours share their edge (rows)", [up[1], up[0], up[2]], [b[3], b[0], b[2]], tol=1e-12)
        lo = s.get_tile(MapTileId(tile_matrix=z + 1, tile_row=2 * r, tile_col=2 * c)).bounds
        hi = s.get_tile(MapTileId(tile_matrix=z + 1, tile_row=2 * r + 1, tile_col=2 * c + 1)).bounds
        ctx.ensure_vec("the tiles of the next level divide the tile", [lo[0], lo[1], hi[2], hi[3]], list(b), tol=1e-12)


@harness("C13", ["image_processing.map_tileset.MapTileSet.get_tile_matrix_limits_for_area"])
def area_limits(ctx):
    """Limits over whatever tiles the locations (any number of them) are in: they contain every tile, and are attained."""
    from aws.osml.image_processing import MapTile, MapTileId, MapTileSet
    from aws.osml.photogrammetry import GeodeticWorldCoordinate

    n = ctx.int("n", 1, None if ctx.symbolic else 7)
    cs, rs = ctx.array("c", (n,), 0, 2**30, dtype="int64"), ctx.array("r", (n,), 0, 2**30, dtype="int64")

    def location(i):
        w = GeodeticWorldCoordinate([0.01 * i, 0.02 * i, 0.0])
        w.k = i
        return w

    ws = ctx.seq("area", n, location)
    asked = []

    class Set(MapTileSet):
        @property
        def tile_matrix_set_id(self):
            return "x"

        def get_tile(self, tile_id):
            return MapTile(id=tile_id, size=(1, 1), bounds=(0, 0, 1, 1))

        def get_tile_for_location(self, world_coordinate, tile_matrix):
            asked.append(tile_matrix)
            k = (world_coordinate.k,)
            return self.get_tile(MapTileId(tile_matrix=tile_matrix, tile_row=ctx.at(rs, k), tile_col=ctx.at(cs, k)))

    lim = Set().get_tile_matrix_limits_for_area(ws, 7)
    ctx.ensure("four limits", len(lim) == 4)
    ctx.ensure("the level asked for", all(a == 7 for a in asked))
    c0, r0, c1, r1 = lim
    k = ctx.index("k", (n,))
    ctx.point(*k)
    c, r = ctx.at(cs, k), ctx.at(rs, k)
    ctx.ensure("every tile is within the limits", ctx.and_(c0 <= c, c <= c1, r0 <= r, r <= r1))
    for v, a, name in ((c0, cs, "min col"), (r0, rs, "min row"), (c1, cs, "max col"), (r1, rs, "max row")):
        ctx.ensure_exists(f"the limit is attained: {name}", n, lambda j: ctx.at(a, (j,)) == v)


@harness("C13", ["image_processing.map_tileset_factory.MapTileSetFactory.get_for_id"])
def factory(ctx):
    from aws.osml.image_processing import MapTileId, MapTileSetFactory

    for name, size in (("WebMercatorQuad", 256), ("WebMercatorQuadx2", 512)):
        s = MapTileSetFactory.get_for_id(name)
        ctx.ensure("id of the set", s.tile_matrix_set_id == name)
        ctx.ensure("size of its tiles", tuple(s.get_tile(MapTileId(3, 1, 2)).size) == (size, size))
    for name in ("", "webmercatorquad", "WorldCRS84Quad", "WebMercatorQuadx"):
        ctx.ensure("unknown sets are not made up", MapTileSetFactory.get_for_id(name) is None)
