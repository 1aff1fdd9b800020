import glob
import sys

# z3 comes from the verification tools' environment; numpy, pandas etc. from
# the environment the repository itself uses.
for p in glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages'):
    sys.path.append(p)


def selftest():
    """The solver and the engine load; the solver decides two queries."""
    import z3
    from symx import loader, poly, runner, shims  # noqa: F401
    x = z3.Real('x')
    s = z3.Solver()
    s.add((x + 1) * (x - 1) - x * x != -1)
    assert s.check() == z3.unsat
    s = z3.Solver()
    s.add(x * x == 4, x < 0)
    assert s.check() == z3.sat
    print('ok, z3', z3.get_version_string())
    return 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['selftest']:
        sys.exit(selftest())
    from symx import runner
    sys.exit(runner.main(sys.argv[1:]))
