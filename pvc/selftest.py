"""setup_cmd: nothing is built; checks that the tools the engine needs can be imported and answer."""
import sys


def main():
    from . import env

    env.setup(False)
    import cvc5  # noqa: F401
    import numpy  # noqa: F401
    import z3

    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    from . import solve

    assert solve.cvc5_check([x > 1, x < 0], 2000)[0] == "unsat"
    import aws.osml.photogrammetry  # noqa: F401

    print("ok: z3", z3.get_version_string(), "cvc5", cvc5.__version__)


if __name__ == "__main__":
    sys.exit(main())
