"""setup_cmd: nothing is built; shows that the tools the checks need answer, and that a wrong obligation is refuted."""
import z3


def main():
    import cvc5  # noqa: F401
    import numpy, pylops, scipy, sympy  # noqa: F401,E401
    from . import core, prover
    C = core.Ctx([])
    core.push(C) if hasattr(core, 'push') else None
    x = z3.Real('x')
    assert prover.prove(C, x * x >= 0).status == 'proved'
    assert prover.prove(C, x * x > 0).status == 'refuted'
    print('selftest: solvers answer; a true obligation is proved and a false one refuted')
    return 0
