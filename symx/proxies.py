"""Symbolic stand-ins for bool, int, Fraction and str."""

import fractions
import math
import z3

from symx import engine as E

Fraction = fractions.Fraction
EMPTY = frozenset()


def eng():
    return E.CURRENT


def is_sym(x):
    return type(x) in SYM_TYPES


def deep_sym(x, depth=3):
    t = type(x)
    if t in SYM_TYPES:
        return True
    if depth and (t is tuple or t is list or t is set or t is frozenset):
        return any(deep_sym(i, depth - 1) for i in x)
    if depth and t is dict:
        return any(deep_sym(i, depth - 1) for i in x.keys()) or \
            any(deep_sym(i, depth - 1) for i in x.values())
    return False


def concrete(x, depth=3):
    """Force a value to an ordinary Python value (forks over its values)."""
    t = type(x)
    if t in SYM_TYPES:
        return x.force()
    if depth:
        if t is list:
            return [concrete(i, depth - 1) for i in x]
        if t is tuple:
            return tuple(concrete(i, depth - 1) for i in x)
        if t is set:
            return {concrete(i, depth - 1) for i in x}
        if t is dict:
            return {concrete(k, depth - 1): concrete(v, depth - 1)
                    for k, v in x.items()}
    return x


# ----------------------------------------------------------------------
# booleans
# ----------------------------------------------------------------------
class SymBool:
    __slots__ = ("_e", "mem", "base")
    __hash__ = None

    def __init__(self, e=None, mem=None, base=None):
        self._e = e
        self.mem = mem    # (var name, frozenset)
        self.base = base  # SymChar the membership is about

    __class__ = property(lambda self: bool)

    @property
    def e(self):
        if self._e is None:
            self._e = self.base.member_expr(self.mem[1])
        return self._e

    def __bool__(self):
        en = eng()
        if self.mem is not None:
            cur = en.dom.get(self.mem[0])
            if cur is not None:
                if cur <= self.mem[1]:
                    return True
                if cur.isdisjoint(self.mem[1]):
                    return False
            return en.fork(self.e, self.mem)
        return en.fork(self.e)

    force = __bool__

    def __hash__(self):
        return hash(bool(self))

    def neg(self):
        if self.mem is not None:
            cur = self.base.basedom
            return SymBool(None, (self.mem[0], cur - self.mem[1]), self.base)
        return SymBool(z3.Not(self._e))

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return self.neg()
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if isinstance(o, (int, float)):
            return self.as_int() == o
        if type(o) is SymInt:
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return lnot(self == o)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        return land(self, o) if is_boolish(o) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return lor(self, o) if is_boolish(o) else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return lnot(self == o) if is_boolish(o) else NotImplemented
    __rxor__ = __xor__

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_boolish(x):
    return type(x) is bool or type(x) is SymBool


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(x):
    if type(x) is SymBool:
        return x.e
    return z3.BoolVal(bool(x))


def lnot(x):
    if type(x) is SymBool:
        return x.neg()
    return not x


def land(*xs):
    es = []
    single = None
    for x in xs:
        if type(x) is SymBool:
            es.append(x)
        elif not x:
            return False
    if not es:
        return True
    if len(es) == 1:
        return es[0]
    return SymBool(z3.And([x.e for x in es]))


def lor(*xs):
    es = []
    for x in xs:
        if type(x) is SymBool:
            es.append(x)
        elif x:
            return True
    if not es:
        return False
    if len(es) == 1:
        return es[0]
    first = es[0]
    if first.mem is not None and all(x.mem is not None and
                                     x.mem[0] == first.mem[0] for x in es):
        u = first.mem[1]
        for x in es[1:]:
            u = u | x.mem[1]
        return SymBool(None, (first.mem[0], u), first.base)
    return SymBool(z3.Or([x.e for x in es]))


def ite(c, a, b):
    """Merge two values without forking where possible."""
    if type(c) is not SymBool:
        return a if c else b
    if is_boolish(a) and is_boolish(b):
        return mkbool(z3.If(c.e, bexpr(a), bexpr(b)))
    if is_intish(a) and is_intish(b):
        return SymInt(z3.If(c.e, iexpr(a), iexpr(b)))
    if is_realish(a) and is_realish(b) and not (is_flt(a) or is_flt(b)):
        return SymReal(z3.If(c.e, rexpr(a), rexpr(b)))
    return a if bool(c) else b


# ----------------------------------------------------------------------
# integers
# ----------------------------------------------------------------------
def is_intish(x):
    t = type(x)
    return t is int or t is bool or t is SymInt or t is SymBool


def is_realish(x):
    return is_intish(x) or type(x) is Fraction or type(x) is SymReal


def iexpr(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is SymBool:
        return x.as_int().e
    return z3.IntVal(int(x))


def rexpr(x):
    t = type(x)
    if t is SymReal:
        return x.e
    if t is SymInt:
        return z3.ToReal(x.e)
    if t is SymBool:
        return z3.ToReal(x.as_int().e)
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkreal(e):
    if z3.is_rational_value(e):
        return e.as_fraction()
    return SymReal(e)


def py_floordiv(a, b):
    """Python floor division on z3 integers, b known to be non-zero."""
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
        return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: int)

    def force(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        return eng().concretise_int(self.e)

    def __hash__(self):
        return hash(self.force())

    def __index__(self):
        return self.force()

    def __int__(self):
        return self.force()

    def __float__(self):
        return float(self.force())

    def __bool__(self):
        return eng().fork(self.e != 0)

    def __str__(self):
        return str(self.force())
    __repr__ = __str__

    def __format__(self, spec):
        return format(self.force(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # comparisons
    def _cmp(self, o, f):
        if is_intish(o):
            return mkbool(f(self.e, iexpr(o)))
        if is_realish(o):
            return mkbool(f(z3.ToReal(self.e), rexpr(o)))
        if type(o) is float:
            return mkbool(f(z3.ToReal(self.e), rexpr(Fraction(o))))
        return None

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is None else r

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return NotImplemented if r is None else r

    # arithmetic
    def _bin(self, o, f, swap=False):
        if is_intish(o):
            a, b = self.e, iexpr(o)
            if swap:
                a, b = b, a
            return SymInt(f(a, b))
        if is_flt(o):
            return SymReal(z3.ToReal(self.e), True)._bin(o, f, swap)
        if is_realish(o):
            a, b = z3.ToReal(self.e), rexpr(o)
            if swap:
                a, b = b, a
            return SymReal(f(a, b))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and not is_intish(o):
            return o * self.force()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        return int_floordiv(self, o)

    def __rfloordiv__(self, o):
        return int_floordiv(o, self)

    def __mod__(self, o):
        return int_mod(self, o)

    def __rmod__(self, o):
        return int_mod(o, self)

    def __divmod__(self, o):
        return int_floordiv(self, o), int_mod(self, o)

    def __rdivmod__(self, o):
        return int_floordiv(o, self), int_mod(o, self)

    def __truediv__(self, o):
        if type(o) in (Fraction, SymReal, float):
            return real_div(self, o)
        return real_div(self, o).as_float()

    def __rtruediv__(self, o):
        if type(o) in (Fraction, SymReal, float):
            return real_div(o, self)
        return real_div(o, self).as_float()

    def __pow__(self, o, mod=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self.force())

    def __lshift__(self, o):
        return self * (2 ** concrete(o))

    def __rshift__(self, o):
        return self // (2 ** concrete(o))

    def __and__(self, o):
        return self.force() & concrete(o)
    __rand__ = __and__

    def __or__(self, o):
        return self.force() | concrete(o)
    __ror__ = __or__

    def __xor__(self, o):
        return self.force() ^ concrete(o)
    __rxor__ = __xor__

    def __invert__(self):
        return SymInt(-self.e - 1)

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return self.force().bit_length()

    def is_integer(self):
        return True


def nonzero(b):
    e = rexpr(b) if type(b) is SymReal else iexpr(b)
    if eng().fork(e == 0):
        raise ZeroDivisionError("division by zero")


def int_floordiv(a, b):
    if not (is_intish(a) and is_intish(b)):
        if is_realish(a) and is_realish(b):
            return real_floor(real_div(a, b))
        return NotImplemented
    if not is_sym(b):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
    else:
        nonzero(b)
    return SymInt(py_floordiv(iexpr(a), iexpr(b)))


def int_mod(a, b):
    if not (is_intish(a) and is_intish(b)):
        if is_realish(a) and is_realish(b):
            q = real_floor(real_div(a, b))
            return a - b * q
        return NotImplemented
    if not is_sym(b):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
    else:
        nonzero(b)
    ae, be = iexpr(a), iexpr(b)
    return SymInt(ae - be * py_floordiv(ae, be))


def power(a, b):
    if type(b) is SymInt:
        b = b.force()
    if type(b) is SymReal or type(b) is Fraction:
        b = concrete(b)
        if b != int(b):
            raise E.Undecided("fractional exponent")
        b = int(b)
    if type(b) is bool or type(b) is SymBool:
        b = int(b)
    if b < 0:
        if type(a) is SymReal:
            r = power(a, -b)
            return real_div(1, r)
        raise E.Undecided("negative exponent")
    if b > 64:
        raise E.Undecided("exponent above 64")
    if not is_sym(a):
        return a ** b
    r = Fraction(1) if type(a) is SymReal else 1
    for _ in range(b):
        r = a * r
    return r


# ----------------------------------------------------------------------
# rationals
# ----------------------------------------------------------------------
def is_flt(x):
    return type(x) is float or type(x) is SymReal and x.flt


def pow2(k):
    return z3.RealVal(2 ** k) if k >= 0 else z3.RealVal("1/%d" % 2 ** -k)


def flround(e):
    """the binary64 number nearest to the rational e (ties to even), without
    overflow and subnormal numbers; one fork for every binade"""
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        f = Fraction(float(s.as_fraction()))
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    en = eng()
    r = en.floats.get(s.get_id())
    if r is not None:
        return r[1]
    for _ in range(100):
        v = en.pick(s, "float").as_fraction()
        if v == 0:
            if en.fork(s == 0):
                r = z3.RealVal(0)
                break
            continue
        a = abs(v)
        k = a.numerator.bit_length() - a.denominator.bit_length()
        while Fraction(2) ** k > a:
            k -= 1
        while Fraction(2) ** (k + 1) <= a:
            k += 1
        neg = v < 0
        m = -s if neg else s
        if en.fork(z3.And(m >= pow2(k), m < pow2(k + 1))):
            n = z3.Int(en.fresh_name("mant"))
            x = m * pow2(52 - k)
            d = x - z3.ToReal(n)
            half = z3.RealVal("1/2")
            en.assume(z3.And(d >= -half, d <= half,
                             z3.Implies(z3.Or(d == half, d == -half),
                                        n % 2 == 0)), check=False)
            r = z3.ToReal(n) * pow2(k - 52)
            if neg:
                r = -r
            break
    else:
        raise E.Undecided("too many binades")
    en.floats[s.get_id()] = (s, r)
    return r


class SymReal:
    """a rational number, or (flt) a binary64 number; rounding of the latter
    is delayed until the value is needed"""
    __slots__ = ("_e", "flt", "raw")

    def __init__(self, e, flt=False):
        self.flt = flt
        self.raw = e if flt else None
        self._e = None if flt else e

    @property
    def e(self):
        if self._e is None:
            self._e = flround(self.raw)
        return self._e

    @property
    def __class__(self):
        return float if self.flt else Fraction

    def as_float(self):
        return self if self.flt else SymReal(self.e, True)

    def force(self):
        v = eng().concretise_real(self.e)
        return float(v) if self.flt else v

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        return eng().fork(self.e != 0)

    def __float__(self):
        return float(self.force())

    def __int__(self):
        return int(self.force())

    def __str__(self):
        return str(self.force())
    __repr__ = __str__

    def __format__(self, spec):
        return format(self.force(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _cmp(self, o, f):
        if type(o) is SymReal and self.flt and o.flt and \
           z3.simplify(self.raw).eq(z3.simplify(o.raw)):
            return bool(f(0, 0))
        if is_realish(o):
            return mkbool(f(self.e, rexpr(o)))
        if type(o) is float:
            return mkbool(f(self.e, rexpr(Fraction(o))))
        return None

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is None else r

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return NotImplemented if r is None else r

    def _bin(self, o, f, swap=False):
        if not is_realish(o) and type(o) is not float:
            return NotImplemented
        flt = self.flt or is_flt(o)
        a, b = (self.as_float(), to_float(o)) if flt else (self, o)
        a, b = rexpr(a), rexpr(b)
        if swap:
            a, b = b, a
        return SymReal(f(a, b), flt)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if not is_realish(o) and type(o) is not float:
            return NotImplemented
        return real_div(self, o)

    def __rtruediv__(self, o):
        return real_div(o, self)

    def __floordiv__(self, o):
        return real_floor(real_div(self, o))

    def __rfloordiv__(self, o):
        return real_floor(real_div(o, self))

    def __mod__(self, o):
        return int_mod(self, o)

    def __pow__(self, o, mod=None):
        return power(self, o)

    def __neg__(self):
        return SymReal(-(self.raw if self.flt else self.e), self.flt)

    def __pos__(self):
        return self

    def __abs__(self):
        e = self.raw if self.flt else self.e
        return SymReal(z3.If(e >= 0, e, -e), self.flt)

    def __floor__(self):
        return real_floor(self)

    def __ceil__(self):
        return -real_floor(-self)

    def __trunc__(self):
        f = real_floor(self)
        c = -real_floor(-self)
        return SymInt(z3.If(self.e >= 0, f.e, c.e))

    def __round__(self, n=None):
        if n is not None:
            return round(self.force(), n)
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return SymInt(z3.If(d < half, f,
                            z3.If(d > half, f + 1,
                                  z3.If(f % 2 == 0, f, f + 1))))

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def limit_denominator(self, n=1000000):
        return Fraction(self.force()).limit_denominator(n)

    @property
    def numerator(self):
        return Fraction(self.force()).numerator

    @property
    def denominator(self):
        return Fraction(self.force()).denominator

    def as_integer_ratio(self):
        return Fraction(self.force()).as_integer_ratio()


def real_div(a, b):
    if not is_sym(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
    else:
        nonzero(b)
    if is_flt(a) or is_flt(b):
        return SymReal(rexpr(to_float(a)) / rexpr(to_float(b)), True)
    return SymReal(rexpr(a) / rexpr(b))


def to_float(x):
    if type(x) is SymReal:
        return x.as_float()
    if type(x) in (SymInt, SymBool):
        return SymReal(rexpr(x), True)
    return float(x)


def real_floor(a):
    if is_intish(a):
        return a
    if not is_sym(a):
        return math.floor(a)
    return SymInt(z3.ToInt(a.e))


# ----------------------------------------------------------------------
# characters and strings
# ----------------------------------------------------------------------
def intervals(s):
    out = []
    for c in sorted(s):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


_PRED = {}


def pred_set(dom, key, fn):
    k = (dom, key)
    r = _PRED.get(k)
    if r is None:
        r = frozenset(c for c in dom if fn(chr(c)))
        _PRED[k] = r
    return r


_MEMBER = {}


class SymChar:
    """A character: a base variable, optionally mapped (e.g. lower-cased)."""
    __slots__ = ("name", "var", "basedom", "map")

    def __init__(self, name, var, basedom, cmap=None):
        self.name = name
        self.var = var
        self.basedom = basedom
        self.map = cmap

    def member_expr(self, s):
        """z3 formula: base variable is in s (a subset of the base domain)"""
        self.link()
        k = (self.name, s, self.basedom)
        r = _MEMBER.get(k)
        if r is None:
            if len(s) * 2 > len(self.basedom):
                inv = self.basedom - s
                r = z3.Not(self._or(inv))
            else:
                r = self._or(s)
            _MEMBER[k] = r
        return r

    def _or(self, s):
        parts = []
        for lo, hi in intervals(s):
            if lo == hi:
                parts.append(self.var == lo)
            else:
                parts.append(z3.And(self.var >= lo, self.var <= hi))
        if not parts:
            return z3.BoolVal(False)
        if len(parts) == 1:
            return parts[0]
        return z3.Or(parts)

    def link(self):
        en = eng()
        if en.links:
            ln = en.links.get(self.name)
            if ln is not None:
                for n in ln[1]:
                    en.links.pop(n, None)
                en.assume(ln[0], check=False)

    def dom_now(self):
        return eng().dom.get(self.name, self.basedom)

    def val(self, c):
        return self.map[c] if self.map is not None else c

    def member(self, s):
        """Is the (mapped) character in s: returns bool or SymBool"""
        cur = self.dom_now()
        if self.map is None:
            b = self.basedom & s
        else:
            b = frozenset(c for c in self.basedom if self.map[c] in s)
        if cur.isdisjoint(b):
            return False
        if cur <= b:
            return True
        return SymBool(None, (self.name, b), self)

    def pred(self, key, fn):
        cur = self.dom_now()
        if self.map is None:
            b = pred_set(self.basedom, key, fn)
        else:
            b = frozenset(c for c in self.basedom if fn(chr(self.map[c])))
        if cur.isdisjoint(b):
            return False
        if cur <= b:
            return True
        return SymBool(None, (self.name, b), self)

    def expr(self):
        """z3 integer: the code point"""
        self.link()
        if self.map is None:
            return self.var
        r = self.var
        groups = {}
        for c in self.basedom:
            d = self.map[c] - c
            if d:
                groups.setdefault(d, set()).add(c)
        e = r
        for d, s in groups.items():
            e = z3.If(self._or(s), r + d, e)
        return e

    def mapped(self, fn):
        """Apply a char->char function; None when some image is not 1 char"""
        m = {}
        for c in self.basedom:
            img = fn(chr(self.val(c)))
            if len(img) != 1:
                if c in self.dom_now():
                    return None
                img = chr(c)
            m[c] = ord(img)
        if all(k == v for k, v in m.items()):
            return SymChar(self.name, self.var, self.basedom)
        return SymChar(self.name, self.var, self.basedom, m)

    def same(self, o):
        return self.name == o.name and self.map == o.map


def char_eq(a, b):
    """equality of two elements (str of length 1 or SymChar)"""
    ta, tb = type(a) is SymChar, type(b) is SymChar
    if not ta and not tb:
        return a == b
    if ta and not tb:
        return a.member(frozenset((ord(b),)))
    if tb and not ta:
        return b.member(frozenset((ord(a),)))
    if a.same(b):
        return True
    da = {a.val(c) for c in a.dom_now()}
    db = {b.val(c) for c in b.dom_now()}
    if da.isdisjoint(db):
        return False
    if len(da) == 1 and da == db:
        return True
    return mkbool(a.expr() == b.expr())


def char_ord_expr(a):
    if type(a) is SymChar:
        return a.expr()
    return z3.IntVal(ord(a))


def elems_of(s):
    if type(s) is SymStr:
        return s.el
    if type(s) is str:
        return list(s)
    raise TypeError("expected str, got %s" % type(s).__name__)


def mkstr(el):
    """Normalise an element list to str when fully concrete."""
    for c in el:
        if type(c) is SymChar:
            return SymStr(el)
    return "".join(el)


WS = frozenset(c for c in range(0x3001) if chr(c).isspace())


class SymStr:
    __slots__ = ("_el", "thunk", "cache", "rawhash")

    def __init__(self, el=None, thunk=None):
        self._el = el
        self.thunk = thunk
        self.cache = None
        self.rawhash = None

    __class__ = property(lambda self: str)

    @property
    def el(self):
        if self._el is None:
            self._el = self.thunk()
            self.thunk = None
        return self._el

    # -- forcing
    def force(self):
        if self.cache is None:
            out = []
            for c in self.el:
                if type(c) is SymChar:
                    dom = c.dom_now()
                    while len(dom) > 1:
                        v = eng().pick(c.var, "character")
                        v = v.as_long()
                        if eng().fork(c.member_expr(frozenset((v,))),
                                      (c.name, frozenset((v,)))):
                            dom = frozenset((v,))
                            break
                        dom = c.dom_now()
                    out.append(chr(c.val(next(iter(dom)))))
                else:
                    out.append(c)
            self.cache = "".join(out)
        return self.cache

    def __hash__(self):
        if RAW_HASH[0]:
            if self.rawhash is None:
                eng().uid += 1
                self.rawhash = 0x5eed0000 + eng().uid
            return self.rawhash
        if self.rawhash is not None and self.cache is None:
            return self.rawhash
        return hash(self.force())

    def __str__(self):
        return self.force()

    def __repr__(self):
        return repr(self.force())

    def __format__(self, spec):
        return format(self.force(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __len__(self):
        return len(self.el)

    def __bool__(self):
        return len(self.el) > 0

    def __iter__(self):
        for c in list(self.el):
            yield mkstr([c])

    def __reversed__(self):
        for c in reversed(self.el):
            yield mkstr([c])

    def __getitem__(self, i):
        if type(i) is slice:
            i = slice(concrete(i.start), concrete(i.stop), concrete(i.step))
            return mkstr(self.el[i])
        if type(i) is SymInt:
            i = index_of(i, len(self.el))
        c = self.el[i]
        return SymStr([c]) if type(c) is SymChar else c

    # -- comparison
    def __eq__(self, o):
        if type(o) is not SymStr and type(o) is not str:
            return False
        if o is self:
            return True
        b = elems_of(o)
        a = self.el
        if len(a) != len(b):
            return False
        return land(*[char_eq(x, y) for x, y in zip(a, b)])

    def __ne__(self, o):
        return lnot(self == o)

    def _lex(self, o, strict):
        a, b = self.el, elems_of(o)
        r = len(a) < len(b) if strict else len(a) <= len(b)
        e = z3.BoolVal(r)
        for x, y in reversed(list(zip(a, b))):
            xe, ye = char_ord_expr(x), char_ord_expr(y)
            e = z3.Or(xe < ye, z3.And(xe == ye, e))
        return mkbool(z3.simplify(e))

    def __lt__(self, o):
        if type(o) not in (SymStr, str):
            return NotImplemented
        return self._lex(o, True)

    def __le__(self, o):
        if type(o) not in (SymStr, str):
            return NotImplemented
        return self._lex(o, False)

    def __gt__(self, o):
        if type(o) not in (SymStr, str):
            return NotImplemented
        return lnot(self._lex(o, False))

    def __ge__(self, o):
        if type(o) not in (SymStr, str):
            return NotImplemented
        return lnot(self._lex(o, True))

    # -- construction
    def __add__(self, o):
        if type(o) is str or type(o) is SymStr:
            if self._el is None or (type(o) is SymStr and o._el is None):
                return SymStr(None, lambda: self.el + elems_of(o))
            return mkstr(self.el + elems_of(o))
        return NotImplemented

    def __radd__(self, o):
        if type(o) is str or type(o) is SymStr:
            if self._el is None:
                return SymStr(None, lambda: elems_of(o) + self.el)
            return mkstr(elems_of(o) + self.el)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.el * concrete(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return self.force() % concrete(args)

    # -- search
    def match_at(self, needle, i):
        """bool / SymBool: needle occurs at offset i"""
        el = self.el
        nd = elems_of(needle)
        if i < 0 or i + len(nd) > len(el):
            return False
        return land(*[char_eq(el[i + k], nd[k]) for k in range(len(nd))])

    def __contains__(self, needle):
        return bool(self.contains(needle))

    def contains(self, needle):
        if type(needle) not in (SymStr, str):
            raise TypeError("'in <string>' requires string as left operand,"
                            " not %s" % type(needle).__name__)
        n = len(elems_of(needle))
        return lor(*[self.match_at(needle, i)
                     for i in range(0, len(self.el) - n + 1)])

    def _bounds(self, start, end):
        n = len(self.el)
        start, end, _ = slice(concrete(start), concrete(end)).indices(n)
        return start, end

    def find(self, needle, start=None, end=None):
        s, e = self._bounds(start, end)
        n = len(elems_of(needle))
        for i in range(s, e - n + 1):
            if self.match_at(needle, i):
                return i
        return -1

    def rfind(self, needle, start=None, end=None):
        s, e = self._bounds(start, end)
        n = len(elems_of(needle))
        for i in range(e - n, s - 1, -1):
            if self.match_at(needle, i):
                return i
        return -1

    def index(self, needle, start=None, end=None):
        r = self.find(needle, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, needle, start=None, end=None):
        r = self.rfind(needle, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, needle, start=None, end=None):
        s, e = self._bounds(start, end)
        n = len(elems_of(needle))
        if n == 0:
            return e - s + 1
        k = 0
        i = s
        while i + n <= e:
            if self.match_at(needle, i):
                k += 1
                i += n
            else:
                i += 1
        return k

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return lor(*[self.startswith(x, start, end) for x in p])
        s, e = self._bounds(start, end)
        if len(elems_of(p)) > e - s:
            return False
        return self.match_at(p, s)

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return lor(*[self.endswith(x, start, end) for x in p])
        s, e = self._bounds(start, end)
        n = len(elems_of(p))
        if n > e - s:
            return False
        return self.match_at(p, e - n)

    # -- predicates
    def _all(self, key, fn):
        if not self.el:
            return False
        return land(*[c.pred(key, fn) if type(c) is SymChar else fn(c)
                      for c in self.el])

    def isalpha(self):
        return self._all("alpha", str.isalpha)

    def isdigit(self):
        return self._all("digit", str.isdigit)

    def isdecimal(self):
        return self._all("decimal", str.isdecimal)

    def isnumeric(self):
        return self._all("numeric", str.isnumeric)

    def isalnum(self):
        return self._all("alnum", str.isalnum)

    def isspace(self):
        return self._all("space", str.isspace)

    def isascii(self):
        if not self.el:
            return True
        return self._all("ascii", str.isascii)

    def isprintable(self):
        if not self.el:
            return True
        return self._all("printable", str.isprintable)

    def isupper(self):
        if len(self.el) == 1:
            return self._all("upper", str.isupper)
        return self.force().isupper()

    def islower(self):
        if len(self.el) == 1:
            return self._all("lower", str.islower)
        return self.force().islower()

    def isidentifier(self):
        if not self.el:
            return False
        head = SymStr(self.el[:1])._all("ident1", str.isidentifier)
        tail = land(*[(c.pred("identn", lambda x: ("a" + x).isidentifier())
                       if type(c) is SymChar else ("a" + c).isidentifier())
                      for c in self.el[1:]])
        return land(head, tail)

    # -- mapping
    def _map(self, fn):
        out = []
        for c in self.el:
            if type(c) is SymChar:
                m = c.mapped(fn)
                if m is None:
                    one = SymStr([c]).force()
                    out += list(fn(one))
                else:
                    out.append(m)
            else:
                out += list(fn(c))
        return mkstr(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def swapcase(self):
        return self._map(str.swapcase)

    def capitalize(self):
        if not self.el:
            return ""
        return mkstr(elems_of(mkstr(self.el[:1]) .upper())) + \
            (mkstr(self.el[1:]).lower() if len(self.el) > 1 else "")

    def title(self):
        return self.force().title()

    def translate(self, table):
        return self.force().translate(table)

    def encode(self, *a, **k):
        return self.force().encode(*a, **k)

    def expandtabs(self, n=8):
        return self.force().expandtabs(n)

    # -- stripping
    def _in_set(self, c, chars):
        if chars is None:
            return c.pred("space", str.isspace) if type(c) is SymChar \
                else c.isspace()
        return lor(*[char_eq(c, x) for x in elems_of(chars)])

    def lstrip(self, chars=None):
        i = 0
        el = self.el
        while i < len(el) and self._in_set(el[i], chars):
            i += 1
        return mkstr(el[i:])

    def rstrip(self, chars=None):
        el = self.el
        i = len(el)
        while i > 0 and self._in_set(el[i - 1], chars):
            i -= 1
        return mkstr(el[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        if self.startswith(p):
            return mkstr(self.el[len(elems_of(p)):])
        return self

    def removesuffix(self, p):
        if len(elems_of(p)) and self.endswith(p):
            return mkstr(self.el[:-len(elems_of(p))])
        return self

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        maxsplit = concrete(maxsplit)
        el = self.el
        out = []
        if sep is None:
            i = 0
            n = len(el)
            while True:
                while i < n and self._in_set(el[i], None):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(el[i:]).rstrip())
                    break
                j = i
                while j < n and not self._in_set(el[j], None):
                    j += 1
                out.append(mkstr(el[i:j]))
                i = j
            return out
        k = len(elems_of(sep))
        if k == 0:
            raise ValueError("empty separator")
        i = start = 0
        while i + k <= len(el):
            if (maxsplit < 0 or len(out) < maxsplit) and self.match_at(sep, i):
                out.append(mkstr(el[start:i]))
                i += k
                start = i
            else:
                i += 1
        out.append(mkstr(el[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if concrete(maxsplit) < 0:
            return self.split(sep)
        return self.force().rsplit(concrete(sep), concrete(maxsplit))

    def splitlines(self, keepends=False):
        el = self.el
        out = []
        start = 0
        i = 0
        brk = "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"
        while i < len(el):
            if self._in_set(el[i], brk):
                end = i
                nxt = i + 1
                if nxt < len(el) and char_eq(el[i], "\r") and \
                   char_eq(el[nxt], "\n"):
                    nxt += 1
                out.append(mkstr(el[start:nxt if keepends else end]))
                start = nxt
                i = nxt
            else:
                i += 1
        if start < len(el):
            out.append(mkstr(el[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        n = len(elems_of(sep))
        return mkstr(self.el[:i]), sep, mkstr(self.el[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        n = len(elems_of(sep))
        return mkstr(self.el[:i]), sep, mkstr(self.el[i + n:])

    def replace(self, old, new, count=-1):
        if self._el is None:
            return SymStr(None, lambda: elems_of(
                mkstr(self.el).replace(old, new, count)))
        count = concrete(count)
        el = self.el
        o = elems_of(old)
        nw = elems_of(new)
        k = len(o)
        if k == 0:
            return self.force().replace("", concrete(new), count)
        if k == 1 and len(nw) == 1 and count < 0 and type(o[0]) is str and \
           type(nw[0]) is str:
            return self._map(lambda c: nw[0] if c == o[0] else c)
        out = []
        i = 0
        done = 0
        while i < len(el):
            if (count < 0 or done < count) and self.match_at(old, i):
                out += nw
                i += k
                done += 1
            else:
                out.append(el[i])
                i += 1
        return mkstr(out)

    def join(self, items):
        return join(self, items)

    def ljust(self, n, c=" "):
        pad = concrete(n) - len(self.el)
        return mkstr(self.el + list(c) * max(0, pad))

    def rjust(self, n, c=" "):
        pad = concrete(n) - len(self.el)
        return mkstr(list(c) * max(0, pad) + self.el)

    def center(self, n, c=" "):
        return self.force().center(concrete(n), c)

    def zfill(self, n):
        return self.rjust(n, "0")

    def format(self, *a, **k):
        return self.force().format(*concrete(a), **concrete(k))

    def format_map(self, m):
        return self.force().format_map(m)

    def maketrans(self, *a):
        return str.maketrans(*a)


RAW_HASH = [False]
SYM_TYPES = {SymBool, SymInt, SymReal, SymStr}


def join(sep, items):
    items = list(items)
    out = []
    for n, it in enumerate(items):
        if type(it) not in (str, SymStr):
            raise TypeError("sequence item %u: expected str instance, %s found"
                            % (n, type(it).__name__))
        if n:
            out += elems_of(sep)
        out += elems_of(it)
    return mkstr(out)


def index_of(i, n):
    """Turn a symbolic index into a concrete one, forking over in-range
    values; raises IndexError when it is out of range."""
    e = i.e
    en = eng()
    if en.fork(z3.Or(e >= n, e < -n)):
        raise IndexError("index out of range")
    for k in range(-n, n):
        if en.fork(e == k):
            return k
    raise E.Infeasible()


# ----------------------------------------------------------------------
# conversions
# ----------------------------------------------------------------------
DIGITS = {c: int(c) for c in "0123456789"}


def digit_value(c, base):
    """value (int or z3 expr) of an element as digit, forks on validity"""
    if type(c) is not SymChar:
        try:
            return int(c, base)
        except ValueError:
            return None
    key = ("digit", base)

    def ok(ch):
        try:
            int(ch, base)
            return True
        except ValueError:
            return False
    if not c.pred(key, ok):
        return None
    cur = c.dom_now()
    lo = 48
    if c.map is None and cur <= frozenset(range(48, 58)):
        return c.var - lo
    e = None
    for cp in sorted(cur):
        v = int(chr(c.val(cp)), base)
        e = z3.IntVal(v) if e is None else z3.If(c.var == cp, z3.IntVal(v), e)
    return e


def str_to_int(s, base=10):
    base = concrete(base)
    if type(s) is str:
        return int(s, base)
    t = s.strip()
    if type(t) is str:
        return int(t, base)
    el = t.el
    sign = 1
    i = 0
    if el and char_eq(el[0], "-"):
        sign = -1
        i = 1
    elif el and char_eq(el[0], "+"):
        i = 1
    if base in (2, 16, 8, 0) and i + 1 < len(el) and char_eq(el[i], "0"):
        ltr = {2: "bB", 16: "xX", 8: "oO"}.get(base)
        if ltr is None:
            return int(s.force(), 0)
        if lor(char_eq(el[i + 1], ltr[0]), char_eq(el[i + 1], ltr[1])):
            i += 2
    digs = el[i:]
    # whole-number hole?
    en = eng()
    lead = 0
    while lead < len(digs) and digs[lead] == "0":
        lead += 1
    core = digs[lead:]
    if base == 10 and core and type(core[0]) is SymChar:
        h = en.int_holes.get(core[0].name)
        if h is not None and len(h[1]) == len(core) and \
           all(type(c) is SymChar and c.name == n and c.map is None
               for c, n in zip(core, h[1])):
            return SymInt(h[0] if sign == 1 else -h[0])
    acc = z3.IntVal(0)
    seen = False
    last_us = False
    for n, c in enumerate(digs):
        us = char_eq(c, "_")
        if us is True or (type(us) is SymBool and bool(us)):
            if last_us or n == 0 and not seen:
                raise ValueError("invalid literal for int()")
            last_us = True
            continue
        last_us = False
        v = digit_value(c, base)
        if v is None:
            raise ValueError("invalid literal for int() with base %u" % base)
        seen = True
        if type(c) is SymChar:
            c.link()
        acc = acc * base + v
    if not seen or last_us:
        raise ValueError("invalid literal for int() with base %u" % base)
    return mkint(z3.simplify(acc * sign))


def str_to_fraction(s):
    if type(s) is str:
        return Fraction(s)
    t = s.strip()
    if type(t) is str:
        return Fraction(t)
    if t.find("/") >= 0:
        a, _, b = t.partition("/")
        return fraction(str_to_int(a), str_to_int(b))
    if t.find("e") >= 0 or t.find("E") >= 0:
        return Fraction(t.force())
    sign = 1
    if t.startswith("-"):
        sign = -1
        t = t[1:]
    elif t.startswith("+"):
        t = t[1:]
    a, dot, b = t.partition(".")
    if not len(a) and not len(b):
        raise ValueError("Invalid literal for Fraction")
    for part in (a, b):
        if len(part) and not part[0] != "_":
            raise ValueError("Invalid literal for Fraction")
    whole = str_to_int(a) if len(a) else 0
    r = whole
    if len(b):
        nb = len(b) if type(b) is str else \
            sum(1 for c in b if not c == "_")
        if type(b) is str:
            nb = len(b.replace("_", ""))
        fr = str_to_int(b)
        r = SymReal(rexpr(whole) + rexpr(fr) / z3.RealVal(10 ** nb))
    else:
        r = SymReal(rexpr(whole))
    return -r if sign < 0 else r


def fraction(a=0, b=None):
    if type(a) is SymStr:
        return str_to_fraction(a)
    if type(a) is SymReal and b is None:
        return SymReal(a.e)
    if b is None:
        return SymReal(rexpr(a))
    r = real_div(a, b)
    return r


def int_to_str(x):
    """Decimal representation of a SymInt as (lazy) SymStr"""
    e = x.e

    def thunk():
        en = eng()
        neg = en.fork(e < 0)
        m = -e if neg else e
        nd = 1
        while nd < 30 and en.fork(m >= 10 ** nd):
            nd += 1
        if nd >= 30:
            raise E.Undecided("number too long to print")
        out = ["-"] if neg else []
        dom = frozenset(range(48, 58))
        names = []
        vs = []
        for k in range(nd):
            name = en.fresh_name("dig")
            v = z3.Int(name)
            en.dom[name] = dom
            names.append(name)
            vs.append(v)
        en.assume(z3.And([z3.And(v >= 48, v <= 57) for v in vs] +
                         [m == z3.Sum([(v - 48) * (10 ** (nd - 1 - k))
                                       for k, v in enumerate(vs)])]),
                  check=False)
        out += [SymChar(n, v, dom) for n, v in zip(names, vs)]
        return out
    return SymStr(None, thunk)


def repr_text(x):
    """repr(x), also where the text of an object is symbolic"""
    t = type(x)
    if t in (list, tuple) and any(
            type(y) in (list, tuple) or
            t.__repr__ is not type(y).__repr__ and
            type(y).__module__ != "builtins" for y in x):
        r = ""
        for k, y in enumerate(x):
            r = r + (", " if k else "") + repr_text(y)
        if t is tuple:
            return "(" + r + (",)" if len(x) == 1 else ")")
        return "[" + r + "]"
    if t.__module__ != "builtins":
        return t.__repr__(x)
    return repr(x)


def to_str(x):
    """str(x) that keeps symbolic content"""
    t = type(x)
    if t is SymStr or t is str:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool or t is SymReal:
        return SymStr(None, lambda: list(str(x.force())))
    if t.__str__ is object.__str__:
        r = t.__repr__(x)
    elif deep_sym(x):
        return SymStr(None, lambda: list(str(concrete(x))))
    elif t in (int, float, Fraction, bool, bytes, list, tuple, dict, set,
               type(None), type, frozenset):
        return str(x)
    elif issubclass(t, BaseException):
        if deep_sym(list(x.args)):
            return SymStr(None, lambda: list(str(t(*concrete(x.args)))))
        return str(x)
    else:
        r = t.__str__(x)
    return r


def percent_format(fmt, args):
    """fmt % args keeping symbolic arguments"""
    if type(fmt) is SymStr:
        fmt = fmt.force()
    if type(args) is not tuple:
        if type(args) is dict:
            return fmt % concrete(args)
        args = (args,)

    args = tuple(pre_text(a) for a in args)
    if not any(has_sym_text(a) for a in args):
        return fmt % args

    pieces = []
    i = 0
    ai = 0
    n = len(fmt)
    lit = []
    while i < n:
        c = fmt[i]
        if c != "%":
            lit.append(c)
            i += 1
            continue
        j = i + 1
        while j < n and fmt[j] in "#0- +.0123456789hlL":
            j += 1
        if j >= n:
            raise ValueError("incomplete format")
        conv = fmt[j]
        spec = fmt[i:j + 1]
        i = j + 1
        if conv == "%":
            lit.append("%")
            continue
        if lit:
            pieces.append("".join(lit))
            lit = []
        if ai >= len(args):
            raise TypeError("not enough arguments for format string")
        a = args[ai]
        ai += 1
        pieces.append((spec, conv, a))
    if lit:
        pieces.append("".join(lit))
    if ai != len(args):
        raise TypeError("not all arguments converted during string formatting")
    for p in pieces:
        if type(p) is tuple and p[1] in "diuxXo" and type(p[2]) is SymStr:
            raise TypeError("%d format: a real number is required, not str")

    def thunk():
        out = []
        for p in pieces:
            if type(p) is str:
                out += list(p)
                continue
            spec, conv, a = p
            if conv == "s" and spec == "%s":
                out += elems_of(to_str(a))
            elif conv in "diu" and type(a) is SymInt and len(spec) == 2:
                out += int_to_str(a).el
            elif conv == "s":
                s = to_str(a)
                width = spec[1:-1]
                if width.isdigit():
                    out += elems_of(SymStr(elems_of(s)).rjust(int(width)))
                elif width.startswith("-") and width[1:].isdigit():
                    out += elems_of(SymStr(elems_of(s)).ljust(int(width[1:])))
                else:
                    out += list(spec % (concrete(s),))
            else:
                out += list(spec % (concrete(a),))
        return out
    return SymStr(None, thunk)


def has_sym_text(a):
    t = type(a)
    if t in SYM_TYPES:
        return True
    if t in (int, str, float, bool, type(None), Fraction):
        return False
    if t in (list, tuple, dict, set):
        return deep_sym(a)
    return False


INSTRUMENTED = set()


def pre_text(a):
    """Objects of instrumented classes are rendered right away: their string
    form may contain symbolic text."""
    t = type(a)
    if t in PLAIN or t in SYM_TYPES:
        return a
    if getattr(t, "__module__", "") in INSTRUMENTED:
        return to_str(a)
    return a


PLAIN = {int, str, float, bool, type(None), Fraction, list, tuple, dict, set}


def fstring(parts):
    parts = [p if type(p) is str or p[1] == 114 else
             (pre_text(p[0]), p[1], p[2]) for p in parts]
    if not any(type(p) is tuple and has_sym_text(p[0]) for p in parts):
        out = []
        for p in parts:
            if type(p) is str:
                out.append(p)
            else:
                v, conv, spec = p
                if conv == 115:
                    v = str(v)
                elif conv == 114:
                    v = repr(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, concrete(spec)))
        return "".join(out)

    def thunk():
        out = []
        for p in parts:
            if type(p) is str:
                out += list(p)
                continue
            v, conv, spec = p
            if conv == 114:
                out += list(format(repr(concrete(v)), concrete(spec)))
            elif not len(spec):
                out += elems_of(to_str(v))
            else:
                out += list(format(concrete(v), concrete(spec)))
        return out
    return SymStr(None, thunk)
