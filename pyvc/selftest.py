"""python3-vt -m pyvc.selftest: the solvers answer and the package loads (used as setup_cmd; builds nothing)"""
import shutil
import sys
import z3
sys.dont_write_bytecode = True


def main():
    x, y = z3.Reals('x y')
    s = z3.Solver()
    s.add(x * x + y * y < 2 * x * y)
    if s.check() != z3.unsat:
        print('z3 does not answer')
        return 1
    print('z3', z3.get_version_string(), 'cvc5', shutil.which('cvc5'))
    return 0


if __name__ == '__main__':
    sys.exit(main())
