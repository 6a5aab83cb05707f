"""Abstract callees (contracts on interfaces) shared by the harnesses."""
import numpy as np


def stub_elevation(ctx, name="dem", outside=None):
    """Any ElevationModel: the elevation is an arbitrary function of longitude and latitude; only z is written.

    With `outside` the model does not cover the location: it writes nothing and the elevation stays what it is without a model (`outside`)."""
    from aws.osml.photogrammetry import ElevationModel, ElevationRegionSummary

    f = ctx.uf(name + "_elev", 2, 100.0, 300.0) if outside is None else lambda lon, lat: outside

    class Stub(ElevationModel):
        def __init__(self):
            self.calls = 0

        def elev(self, lon, lat):
            return f(lon, lat)

        def set_elevation(self, world_coordinate):
            self.calls += 1
            if outside is None:
                world_coordinate.elevation = f(world_coordinate.longitude, world_coordinate.latitude)

        def describe_region(self, world_coordinate):
            return ElevationRegionSummary(min_elevation=100.0, max_elevation=300.0, no_data_value=-1, post_spacing=30.0)

    return Stub()


def stub_model(ctx, name="full"):
    """Any SensorModel: arbitrary functions in both directions; calls are recorded."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel

    flon, flat, fh = ctx.uf(name + "_lon", 2, 0.1, 0.2), ctx.uf(name + "_lat", 2, 0.3, 0.4), ctx.uf(name + "_h", 2, 0, 10)
    fx, fy = ctx.uf(name + "_x", 3, 0, 100), ctx.uf(name + "_y", 3, 0, 100)

    class Stub(SensorModel):
        def __init__(self):
            self.log = []

        def spec_i2w(self, x, y):
            return [flon(x, y), flat(x, y), fh(x, y)]

        def spec_w2i(self, lon, lat, h):
            return [fx(lon, lat, h), fy(lon, lat, h)]

        def image_to_world(self, image_coordinate, elevation_model=None, options=None):
            self.log.append(("i2w", list(image_coordinate.coordinate), elevation_model, options))
            w = GeodeticWorldCoordinate(self.spec_i2w(image_coordinate.x, image_coordinate.y))
            if elevation_model is not None:
                elevation_model.set_elevation(w)
            return w

        def world_to_image(self, world_coordinate):
            self.log.append(("w2i", list(world_coordinate.coordinate), None, None))
            return ImageCoordinate(self.spec_w2i(world_coordinate.longitude, world_coordinate.latitude, world_coordinate.elevation))

    return Stub()


def lstsq_contract(ctx):
    """np.linalg.lstsq(a, b): the assumed contract for a consistent full-rank system is a @ x == b."""

    def f(a, b, rcond=None):
        n = a.shape[1]
        x = np.empty(n, dtype=object)
        for i in range(n):
            x[i] = ctx.fresh("ls")
        for i in range(a.shape[0]):
            r = 0.0
            for j in range(n):
                if not (isinstance(a[i, j], (int, float)) and a[i, j] == 0):
                    r = r + a[i, j] * x[j]
            ctx.assume(r == b[i])
        return x, None, n, None

    return f


def proj_pair(ctx, name):
    """A pyproj Transformer as an arbitrary bijection (forward F, inverse G) on 2D positions; z passes through."""
    from pyproj.enums import TransformDirection

    F = [ctx.uf(f"{name}_f{i}", 2) for i in range(2)]
    G = [ctx.uf(f"{name}_g{i}", 2) for i in range(2)]
    import math

    class T:
        log = []

        def transform(self, xx, yy, zz=None, radians=False, direction=TransformDirection.FORWARD, **kw):
            fwd = str(getattr(direction, "value", direction)).upper() == "FORWARD"
            self.log.append((fwd, radians))
            if fwd:
                a = [f(xx, yy) for f in F]
                ctx.assume(ctx.and_(G[0](*a) == xx, G[1](*a) == yy))
                r = [ctx.radians(v) for v in a] if radians else a
            else:
                if radians:
                    xx, yy = ctx.degrees(xx), ctx.degrees(yy)
                a = [g(xx, yy) for g in G]
                ctx.assume(ctx.and_(F[0](*a) == xx, F[1](*a) == yy))
                r = a
            return tuple(r) + ((zz,) if zz is not None else ())

    return T(), F, G


class Bijection:
    """Arbitrary mutually inverse functions fwd / inv on n-tuples (uninterpreted; inverse laws instantiated at the
    tuples met; arguments algebraically equal to an earlier result give back the original tuple)."""

    def __init__(self, ctx, name, n):
        self.ctx, self.n = ctx, n
        self.F = [ctx.uf(f"{name}_f{i}", n) for i in range(n)]
        self.G = [ctx.uf(f"{name}_g{i}", n) for i in range(n)]
        self.pairs = []

    def _go(self, a, k, F, G):
        a = list(a)
        for p in self.pairs:
            if all(self.ctx.same(x, y) for x, y in zip(p[k], a)):
                return list(p[1 - k])
        r = [f(*a) for f in F]
        self.ctx.assume(self.ctx.and_(*[g(*r) == v for g, v in zip(G, a)]))
        self.pairs.append((a, r) if k == 0 else (r, a))
        return r

    def fwd(self, *a):
        return self._go(a, 0, self.F, self.G)

    def inv(self, *a):
        return self._go(a, 1, self.G, self.F)


def out_of(ctx, v, lo, hi):
    return ctx.or_(v < lo, v > hi)


class Rec:
    """Plain record."""

    def __init__(self, **k):
        self.__dict__.update(k)


def minimize_contract(ctx):
    """scipy.optimize.minimize(fun, x0, bounds=..): assumed contract: the result x lies within the bounds and
    res.fun == fun(res.x); every other promise (how small fun(x) is) is left open.  Calls are recorded."""
    calls = []

    def f(fun, x0, args=(), method=None, bounds=None, options=None, **kw):
        n = len(x0)
        x = np.empty(n, dtype=object)
        for i in range(n):
            x[i] = ctx.fresh("min_x")
            if bounds is not None:
                ctx.assume(ctx.and_(x[i] >= bounds[i][0], x[i] <= bounds[i][1]))
        v = fun(x)
        calls.append(Rec(x0=list(x0), x=list(x), value=v, bounds=bounds, options=options or {}, method=method))
        return Rec(x=x, fun=v, success=True)

    return f, calls


def check_search(ctx, c, guess, dist):
    """The search starts at the guess with a triangle of the given side centred on it."""
    ctx.ensure_vec("the search starts at the initial guess", c.x0, guess)
    s = c.options.get("initial_simplex")
    if s is not None:
        s = [list(r) for r in s]
        ctx.ensure("the starting simplex has three corners", len(s) == 3)
        for k in range(2):
            dc = s[0][k] + s[1][k] + s[2][k] - 3 * guess[k]
            ctx.ensure(f"the starting simplex is centred on the guess [{k}]",
                       ctx.and_(dc <= 1e-9 * dist, dc >= -1e-9 * dist))
        for i, j in ((0, 1), (1, 2), (0, 2)):
            d2 = (s[i][0] - s[j][0]) ** 2 + (s[i][1] - s[j][1]) ** 2
            # sqrt(3) is a floating-point constant: equality within 1e-9 of the squared side
            ctx.ensure(f"side {i}{j} of the starting simplex has the search distance",
                       ctx.and_(d2 - dist * dist <= 1e-9 * dist * dist, dist * dist - d2 <= 1e-9 * dist * dist))


def recorder(real):
    """A stand-in for the constructor of a class: records the arguments by the real constructor's parameter names."""
    import inspect

    sig = inspect.signature(real.__init__)
    names = [n for n in sig.parameters if n != "self"]

    class Recorded:
        made = []

        def __init__(self, *a, **k):
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            for n in names:
                setattr(self, n, b.arguments[n])
            Recorded.made.append(self)

    for n, f in vars(real).items():
        if isinstance(f, (staticmethod, classmethod)):
            setattr(Recorded, n, f)
    Recorded.__name__ = real.__name__
    Recorded.real = real
    return Recorded


def record_classes(ctx, mod, *names):
    """Patches the named classes of the module by recorders."""
    import contextlib

    ctx.need(mod, *names)
    st = contextlib.ExitStack()
    out = Rec()
    for n in names:
        r = recorder(getattr(mod, n))
        st.enter_context(ctx.patch(mod, n, r))
        setattr(out, n, r)
    return st, out


class Tre:
    """An XML TRE with arbitrary field values; `drop` leaves a field out, makes it blank or not a number."""

    def __init__(self, ctx, name):
        from xml.etree import ElementTree as ET

        self.ctx, self.name, self.v, self.fields = ctx, name, {}, {}
        self.e = ET.Element("tre", {"name": name})

    def field(self, name, sort="real", text=None, prefix=""):
        from xml.etree import ElementTree as ET

        f = ET.SubElement(self.e, "field", {"name": name})
        if text is None:
            text, self.v[name] = self.ctx.field(prefix + self.name + "." + name, sort)
        f.set("value", text)
        self.fields[name] = f
        return self

    def all(self, names, sort="real", prefix=""):
        for n in names:
            self.field(n, sort, prefix=prefix)
        return self

    def repeated(self, name, n, prefix="", order=None):
        from xml.etree import ElementTree as ET

        r = ET.SubElement(self.e, "repeated", {"name": name, "number": str(n)})
        vals = [None] * n
        for i in order or range(n):
            g = ET.SubElement(r, "group", {"index": str(i)})
            f = ET.SubElement(g, "field", {"name": name[:-1]})
            t, vals[i] = self.ctx.field(f"{prefix}{self.name}.{name}{i}", "real")
            f.set("value", t)
        self.v[name] = vals
        self.fields[name] = r
        return self

    def spoil(self, name, how):
        f = self.fields[name]
        if how == "missing":
            self.e.remove(f)
        elif f.tag == "repeated":
            if how == "text":
                f[0][0].set("value", "abc")
            else:
                del f[0][0].attrib["value"]
        elif how == "text":
            f.set("value", "abc")
        else:
            f.set("value", "")


def tres(*ts):
    from xml.etree import ElementTree as ET

    e = ET.Element("tres")
    for t in ts:
        e.append(t.e)
    return e
