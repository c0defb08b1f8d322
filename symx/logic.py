"""Logic helpers usable by harnesses in both modes (symbolic and native)."""

try:
    from symx import proxies as P
    AND = P.land
    OR = P.lor
    NOT = P.lnot
    ITE = P.ite
    SYMBOLIC = True

    def text(x):
        """harness-side: turn into ordinary string (forces symbolic text)"""
        return P.concrete(x)

    def is_symbolic(x):
        return P.deep_sym(x)
except ImportError:
    SYMBOLIC = False

    def AND(*xs):
        return all(xs)

    def OR(*xs):
        return any(xs)

    def NOT(x):
        return not x

    def ITE(c, a, b):
        return a if c else b

    def text(x):
        return x

    def is_symbolic(x):
        return False


def IMPLIES(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))
