"""C17: temporary GDAL configuration."""
import contextlib

from pvc.ctx import harness

G = "gdal.gdal_config.GDALConfigEnv."
ALL = [G + f for f in ("__init__", "with_aws_credentials", "__enter__", "__exit__")]
KEYS = ["PVC_A", "AWS_SECRET_ACCESS_KEY", "AWS_SESSION_TOKEN"]
CRED = {"SecretAccessKey": "s3", "AccessKeyId": "id", "SessionToken": "tok"}
# long-lived credentials have no session token
CRED2 = dict(CRED, SessionToken="")
CONF = {"AWS_SECRET_ACCESS_KEY": "s3", "AWS_ACCESS_KEY_ID": "id", "AWS_SESSION_TOKEN": "tok"}
CONF2 = dict(CONF, AWS_SESSION_TOKEN="")


class Store:
    """GDAL's option table: None removes an option."""

    def __init__(self, start):
        self.d = {k: v for k, v in start.items() if v is not None}

    def get(self, key, default=None):
        return self.d.get(key, default)

    def set(self, key, value=None):
        if value is None:
            self.d.pop(key, None)
        elif not isinstance(value, str):
            raise TypeError("not a string")
        else:
            self.d[key] = value

    def patches(self, ctx, gdal):
        st = contextlib.ExitStack()
        st.enter_context(ctx.patch(gdal, "GetConfigOption", self.get))
        st.enter_context(ctx.patch(gdal, "SetConfigOption", self.set))
        return st


class Boom(Exception):
    pass


def options(ctx, name):
    """Options given to an environment and the texts GDAL has to hold while it is active."""
    kind = ctx.choice(name, ["none", "empty", "a", "secret", "a, number", "a, aws", "aws"])
    given = {"none": None, "empty": {}, "a": {KEYS[0]: name + "1"}, "secret": {KEYS[1]: ""}, "a, number": {KEYS[0]: 17, "PVC_B": True},
             "a, aws": {KEYS[0]: name + "3"}, "aws": None}[kind]
    return kind, given, {k: str(v) for k, v in (given or {}).items()} | (CONF2 if kind == "aws" else CONF if "aws" in kind else {})


def make(ctx, mod, kind, given):
    before = None if given is None else dict(given)
    e = mod.GDALConfigEnv(given) if given is not None or ctx.choice("how", [0, 1]) else mod.GDALConfigEnv()
    if "aws" in kind:
        cred = dict(CRED2 if kind == "aws" else CRED)
        ctx.ensure("the environment itself is returned", e.with_aws_credentials(cred) is e)
        ctx.ensure("the credentials are not modified", cred == (CRED2 if kind == "aws" else CRED))
    else:
        ctx.ensure("no credentials, no change", e.with_aws_credentials(None) is e)
    ctx.ensure("the options given are not modified", given == before)
    return e


@harness("C17", ALL, samples=300, trusted=["gdal.GetConfigOption / SetConfigOption read and write one table of options"],
         limits=dict(max_paths=100000, max_seconds=200))
def options_are_restored(ctx):
    """Whatever was set before and however the body ends, the table is afterwards as it was; nested environments unwind."""
    import aws.osml.gdal.gdal_config as mod

    start = {k: ctx.choice("before " + k, [None, "old " + k] + [""] * (k == KEYS[0])) for k in KEYS}
    st = Store(start)
    k1, g1, want1 = options(ctx, "outer")
    nested = ctx.choice("nested", ["", "another", "the same"])
    raises = ctx.choice("raises", ["no", "inner", "outer"] if nested else ["no", "outer"])
    twice = ctx.choice("uses", [1, 2])
    with st.patches(ctx, mod.gdal):
        env = make(ctx, mod, k1, g1)
        inner = None
        if nested == "the same":
            inner, want2 = env, want1
        elif nested:
            k2, g2, want2 = options(ctx, "inner")
            inner = make(ctx, mod, k2, g2)
        ctx.ensure("nothing is set before the block", st.d == {k: v for k, v in start.items() if v is not None})
        for use in range(twice):
            base = dict(st.d)
            escaped = False
            try:
                with env:
                    ctx.ensure("the options hold inside the block", st.d == base | want1)
                    if inner is not None:
                        try:
                            with inner:
                                ctx.ensure("the options of the inner block hold too", st.d == base | want1 | want2)
                                if raises == "inner":
                                    raise Boom()
                        finally:
                            ctx.ensure("the inner block is undone", st.d == base | want1)
                    if raises == "outer":
                        raise Boom()
            except Boom:
                escaped = True
            ctx.ensure("exceptions are not swallowed", escaped == (raises == "outer" or (raises == "inner" and inner is not None)))
            ctx.ensure("every option is restored", st.d == base)
            st.set("PVC_LATER", "kept")
            st.set(KEYS[0], ctx.choice("between", [None, "new"]))


@harness("C17", ALL, sym=False, samples=60, bounded="GDAL's own option table, sampled")
def options_are_restored_in_gdal(ctx):
    from osgeo import gdal

    import aws.osml.gdal.gdal_config as mod

    keys = KEYS + ["AWS_ACCESS_KEY_ID", "PVC_B"]
    saved = {k: gdal.GetConfigOption(k) for k in keys}
    try:
        start = {k: ctx.choice("before " + k, [None, "old " + k, ""]) for k in keys}
        for k, v in start.items():
            gdal.SetConfigOption(k, v)
        k1, g1, want = options(ctx, "outer")
        env = make(ctx, mod, k1, g1)
        try:
            with env:
                now = {k: gdal.GetConfigOption(k) for k in keys}
                ctx.ensure("the options hold inside the block", now == start | want)
                if ctx.choice("raises", [False, True]):
                    raise Boom()
        except Boom:
            pass
        ctx.ensure("every option is restored", {k: gdal.GetConfigOption(k) for k in keys} == start)
    finally:
        for k, v in saved.items():
            gdal.SetConfigOption(k, v)
