"""Checks, once, that the tools the checks need are here, and proves the floating point laws the proofs use."""
import subprocess
import sys
import z3


def main():
    for c in (['clang++', '--version'], ['g++', '--version'], ['cvc5', '--version']):
        subprocess.run(c, stdout=subprocess.DEVNULL, check=True)
    s = z3.Solver()
    x = z3.Int('x')
    s.add(x > x)
    assert s.check() == z3.unsat
    print('tools present, z3', z3.get_version_string())
    from . import fplemmas
    sys.exit(1 if fplemmas.main() == 2 else 0)      # 2: a law is wrong; a law that is merely not proved in time is printed


if __name__ == '__main__':
    main()
