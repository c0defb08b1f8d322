"""Reference model of the expression language: grammar, typing rules and
evaluation, written from the language reference manual.

Types are "Integer", "Decimal", "Boolean", "String", "Markup_String",
("enum", N), ("tuple", N), ("record", N), ("array", element) or "null".
Values are numbers, strings, booleans, ("lit", enum, literal), dicts (tuples),
("ref", name), lists or None (null).  All of them may be symbolic.
"""

import re
from fractions import Fraction

from symx.logic import AND, OR, NOT, ITE


class Reject(Exception):
    """the expression is not legal"""


class Fault(Exception):
    """evaluation is a run-time error"""


NUM = ("Integer", "Decimal")
STR = ("String", "Markup_String")
REL = ("==", "!=", "<", "<=", ">", ">=")


class Env:
    """what names mean

    comps: name -> type; tuples: name -> {field: type};
    records: name -> {component: type}; extends: name -> parent;
    enums: name -> literals; objects: name -> {component: value}
    """
    def __init__(self, comps, tuples=None, records=None, extends=None,
                 enums=None, objects=None):
        self.comps = comps
        self.tuples = tuples or {}
        self.records = records or {}
        self.extends = extends or {}
        self.enums = enums or {}
        self.objects = objects or {}

    def is_ext(self, a, b):
        while a is not None:
            if a == b:
                return True
            a = self.extends.get(a)
        return False


class Parser:
    """tokens: object with peek() and next(); a token is a string"""
    def __init__(self, tokens, env):
        self.t = tokens
        self.env = env
        self.qvars = {}

    def peek(self):
        return self.t.peek()

    def take(self, *options):
        x = self.t.peek()
        if x in options:
            self.t.next()
            return x
        return None

    def need(self, x):
        if self.take(x) is None:
            raise Reject("expected " + x)

    # grammar: each method returns (node, type)
    def expression(self):
        lhs = self.relation()
        first = None
        while self.peek() in ("and", "or", "xor", "implies"):
            op = self.peek()
            if first is not None and (op != first or
                                      first in ("xor", "implies")):
                return lhs
            first = op
            self.t.next()
            rhs = self.relation()
            lhs = self.mk_bin(op, lhs, rhs)
        return lhs

    def relation(self):
        lhs = self.simple()
        x = self.peek()
        if x in REL:
            self.t.next()
            return self.mk_bin(x, lhs, self.simple())
        if x in ("not", "in"):
            neg = x == "not"
            if neg:
                self.t.next()
                if self.peek() != "in":
                    raise Reject("not without in")
            self.need("in")
            a = self.simple()
            if self.take(".."):
                b = self.simple()
                r = self.mk_range(lhs, a, b)
            else:
                r = self.mk_in(lhs, a)
            if neg:
                r = (("un", "not", r[0]), "Boolean")
            return r
        return lhs

    def simple(self):
        sign = self.take("+", "-")
        lhs = self.term()
        if sign:
            if lhs[1] not in NUM:
                raise Reject("sign of a non-number")
            lhs = (("un", sign, lhs[0]), lhs[1])
        while True:
            op = self.take("+", "-")
            if not op:
                return lhs
            lhs = self.mk_bin(op, lhs, self.term())

    def term(self):
        lhs = self.factor()
        while True:
            op = self.take("*", "/", "%")
            if not op:
                return lhs
            lhs = self.mk_bin(op, lhs, self.factor())

    def factor(self):
        if self.take("not"):
            a = self.primary()
            if a[1] != "Boolean":
                raise Reject("not of a non-Boolean")
            return (("un", "not", a[0]), "Boolean")
        if self.take("abs"):
            a = self.primary()
            if a[1] not in NUM:
                raise Reject("abs of a non-number")
            return (("un", "abs", a[0]), a[1])
        a = self.primary()
        if self.take("**"):
            b = self.primary()
            if a[1] not in NUM or b[1] != "Integer" or dynamic(b[0]):
                raise Reject("power")
            try:
                v = evaluate(b[0], self.env, {})
            except Fault:
                raise Reject("exponent") from None
            if v < 0:
                raise Reject("negative exponent")
            return (("bin", "**", a[0], b[0]), a[1])
        return a

    def primary(self):
        x = self.peek()
        if x is None:
            raise Reject("end of expression")
        if x == "(":
            self.t.next()
            if self.peek() in ("forall", "exists"):
                r = self.quantified()
            elif self.peek() == "if":
                r = self.conditional()
            else:
                r = self.expression()
            self.need(")")
            return r
        if x == "true" or x == "false":
            self.t.next()
            return (("lit", x == "true"), "Boolean")
        if x == "null":
            self.t.next()
            return (("lit", None), "null")
        lit = self.t.literal(x)
        if lit is not None:
            self.t.next()
            return (("lit", lit[0]), lit[1])
        if x[0:1].isalpha():
            return self.name()
        raise Reject("not a primary: " + x)

    def quantified(self):
        uni = self.t.next() == "forall"
        var = self.t.next()
        if var in self.env.comps or var in self.qvars:
            raise Reject("shadowing")
        self.need("in")
        src = self.t.next()
        typ = self.env.comps.get(src)
        if not (type(typ) is tuple and typ[0] == "array"):
            raise Reject("quantification over something else")
        self.need("=>")
        self.qvars[var] = typ[1]
        body = self.expression()
        del self.qvars[var]
        if body[1] != "Boolean":
            raise Reject("body not Boolean")
        return (("q", uni, var, src, body[0]), "Boolean")

    def conditional(self):
        acts = []
        typ = None
        while True:
            self.t.next()       # if / elsif
            cond = self.expression()
            if cond[1] != "Boolean":
                raise Reject("condition not Boolean")
            self.need("then")
            e = self.expression()
            if e[1] == "null" or typ is not None and e[1] != typ:
                raise Reject("types of branches")
            typ = e[1]
            acts.append((cond[0], e[0]))
            if self.peek() != "elsif":
                break
        self.need("else")
        e = self.expression()
        if e[1] != typ:
            raise Reject("types of branches")
        return (("if", acts, e[0]), typ)

    def name(self):
        x = self.t.next()
        if self.peek() == "(":
            return self.call(x)
        if x in self.env.enums:
            self.need(".")
            lit = self.t.next()
            if lit not in self.env.enums[x]:
                raise Reject("not a literal")
            return (("lit", ("lit", x, lit)), ("enum", x))
        if x in self.qvars:
            r = (("name", x), self.qvars[x])
        elif x in self.env.comps:
            r = (("name", x), self.env.comps[x])
        else:
            raise Reject("unknown name")
        while self.peek() in (".", "["):
            if self.take("."):
                f = self.t.next()
                t = r[1]
                fields = None
                if type(t) is tuple and t[0] == "tuple":
                    fields = self.env.tuples[t[1]]
                elif type(t) is tuple and t[0] == "record":
                    fields = self.env.records[t[1]]
                if fields is None or f not in fields:
                    raise Reject("no such field")
                r = (("field", r[0], f), fields[f])
            else:
                self.need("[")
                i = self.expression()
                self.need("]")
                if not (type(r[1]) is tuple and r[1][0] == "array") or \
                   i[1] != "Integer":
                    raise Reject("index")
                r = (("index", r[0], i[0]), r[1][1])
        return r

    def call(self, fn):
        if fn not in ("len", "startswith", "endswith", "matches", "oneof",
                      "Integer", "Decimal"):
            raise Reject("not a function")
        self.need("(")
        args = []
        while self.peek() != ")":
            args.append(self.expression())
            if not self.take(","):
                break
        self.need(")")
        ts = [a[1] for a in args]
        if fn == "oneof":
            ok = len(ts) >= 1 and all(t == "Boolean" for t in ts)
            typ = "Boolean"
        elif fn == "len":
            ok = len(ts) == 1 and (ts[0] in STR or type(ts[0]) is tuple and
                                   ts[0][0] == "array")
            typ = "Integer"
        elif fn in ("Integer", "Decimal"):
            ok = len(ts) == 1 and ts[0] in NUM
            typ = fn
        else:
            ok = len(ts) == 2 and all(t in STR for t in ts)
            typ = "Boolean"
            if fn == "matches" and ok:
                if dynamic(args[1][0]):
                    raise Reject("pattern not static")
                pat = evaluate(args[1][0], self.env, {})
                try:
                    re.compile(pat)
                except re.error:
                    raise Reject("invalid pattern") from None
        if not ok:
            raise Reject("arguments")
        return (("call", fn, [a[0] for a in args]), typ)

    # typing of operators
    def same(self, a, b):
        if a == b:
            return True
        if type(a) is tuple and type(b) is tuple and a[0] == "record" and \
           b[0] == "record":
            return self.env.is_ext(a[1], b[1]) or self.env.is_ext(b[1], a[1])
        return False

    def mk_bin(self, op, l, r):
        a, b = l[1], r[1]
        typ = "Boolean"
        if op in ("and", "or", "xor", "implies"):
            ok = a == "Boolean" and b == "Boolean"
        elif op in ("==", "!="):
            ok = a == "null" or b == "null" or self.same(a, b)
        elif op in ("<", "<=", ">", ">="):
            ok = a in NUM and a == b
        elif op == "+":
            ok = a in NUM and a == b or a in STR and b in STR
            typ = "String" if a in STR else a
        elif op in ("-", "*", "/"):
            ok = a in NUM and a == b
            typ = a
        elif op == "%":
            ok = a == "Integer" and b == "Integer"
            typ = a
        if not ok:
            raise Reject("operands of " + op)
        return (("bin", op, l[0], r[0]), typ)

    def mk_range(self, x, a, b):
        if not (x[1] in NUM and a[1] == x[1] and b[1] == x[1]):
            raise Reject("range test")
        return (("range", x[0], a[0], b[0]), "Boolean")

    def mk_in(self, x, a):
        if a[1] in STR:
            if not x[1] in STR:
                raise Reject("substring test")
            return (("bin", "insub", x[0], a[0]), "Boolean")
        if type(a[1]) is tuple and a[1][0] == "array":
            if not (x[1] == a[1][1]):
                raise Reject("element test")
            return (("bin", "inarr", x[0], a[0]), "Boolean")
        raise Reject("membership in something else")


def dynamic(n):
    """does the value depend on a component or quantified variable?"""
    k = n[0]
    if k == "lit":
        return False
    if k == "name" or k == "q":
        return True
    if k == "un":
        return dynamic(n[2])
    if k == "bin":
        return dynamic(n[2]) or dynamic(n[3])
    if k == "range":
        return dynamic(n[1]) or dynamic(n[2]) or dynamic(n[3])
    if k == "if":
        return any(dynamic(c) or dynamic(e) for c, e in n[1]) or dynamic(n[2])
    if k == "call":
        return any(dynamic(x) for x in n[2])
    return True


def floor_div(x, y):
    return x // y


def rem(x, y):
    """x = y*N + r, |r| < |y|, r zero or with the sign of x (so that
    -(a % b) and (-a) % b are the same)"""
    ax = ITE(x >= 0, x, -x)
    ay = ITE(y >= 0, y, -y)
    m = ax % ay
    return ITE(x >= 0, m, -m)


def round_away(v):
    """nearest integer, ties away from zero"""
    two = v * 2
    pos = (two + 1) // 2
    neg = -((1 - two) // 2)
    return ITE(v >= 0, int_of(pos), int_of(neg))


def int_of(v):
    """an integral rational as an integer"""
    return v.numerator if isinstance(v, Fraction) else v


def equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, list):
        return len(a) == len(b) and AND(*[equal(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return AND(*[equal(a[k], b[k]) for k in a])
    return a == b


def need(v):
    if v is None:
        raise Fault("null")
    return v


def evaluate(n, env, vals):
    k = n[0]
    if k == "lit":
        return n[1]
    if k == "name":
        return vals[n[1]]
    if k == "un":
        v = need(evaluate(n[2], env, vals))
        if n[1] == "-":
            return -v
        if n[1] == "+":
            return v
        if n[1] == "not":
            return NOT(v)
        return ITE(v >= 0, v, -v)
    if k == "range":
        x = need(evaluate(n[1], env, vals))
        a = need(evaluate(n[2], env, vals))
        b = need(evaluate(n[3], env, vals))
        return AND(x >= a, x <= b)
    if k == "if":
        for cond, e in n[1]:
            if need(evaluate(cond, env, vals)):
                return evaluate(e, env, vals)
        return evaluate(n[2], env, vals)
    if k == "q":
        arr = need(vals[n[3]])
        for x in arr:
            inner = dict(vals)
            inner[n[2]] = x
            v = need(evaluate(n[4], env, inner))
            if v:
                if not n[1]:
                    return True
            elif n[1]:
                return False
        return n[1]
    if k == "field":
        v = need(evaluate(n[1], env, vals))
        if isinstance(v, dict):
            return v[n[2]]
        return env.objects[v[1]][n[2]]
    if k == "index":
        arr = need(evaluate(n[1], env, vals))
        i = need(evaluate(n[2], env, vals))
        if OR(i < 0, i >= len(arr)):
            raise Fault("index")
        for j in range(len(arr) - 1):
            if i == j:
                return arr[j]
        return arr[len(arr) - 1]
    if k == "call":
        a = [need(evaluate(x, env, vals)) for x in n[2]]
        fn = n[1]
        if fn == "len":
            return len(a[0])
        if fn == "startswith":
            return a[0][:len(a[1])] == a[1]
        if fn == "endswith":
            return len(a[0]) >= len(a[1]) and \
                a[0][len(a[0]) - len(a[1]):] == a[1]
        if fn == "oneof":
            return sum([ITE(x, 1, 0) for x in a]) == 1
        if fn == "Integer":
            if isinstance(a[0], Fraction):
                return round_away(a[0])
            return a[0]
        if fn == "Decimal":
            return Fraction(a[0])
        if fn == "matches":
            return re.match(a[1], a[0]) is not None
        raise AssertionError(fn)
    op = n[1]
    if op in ("==", "!="):
        r = equal(evaluate(n[2], env, vals), evaluate(n[3], env, vals))
        return r if op == "==" else NOT(r)
    a = need(evaluate(n[2], env, vals))
    if op == "and":
        if not a:
            return False
        return need(evaluate(n[3], env, vals))
    if op == "or":
        if a:
            return True
        return need(evaluate(n[3], env, vals))
    if op == "implies":
        if not a:
            return True
        return need(evaluate(n[3], env, vals))
    b = need(evaluate(n[3], env, vals))
    if op == "xor":
        return NOT(a == b)
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        if b == 0:
            raise Fault("division by zero")
        if isinstance(a, int):
            return floor_div(a, b)
        return a / b
    if op == "%":
        if b == 0:
            raise Fault("division by zero")
        return rem(a, b)
    if op == "**":
        r = 1
        for _ in range(b):
            r = r * a
        return r
    if op == "insub":
        la, lb = len(a), len(b)
        return OR(*[b[i:i + la] == a for i in range(lb - la + 1)])
    if op == "inarr":
        return OR(*[equal(x, a) for x in b])
    raise AssertionError(op)


class Tokens:
    """fixed list of tokens; literals: token -> (value, type)"""
    def __init__(self, toks, literals=None):
        self.toks = toks
        self.i = 0
        self.end_seen = False       # has the parser looked at the end?
        self.literals = literals or {}

    def literal(self, x):
        if x in self.literals:
            return self.literals[x]
        if x.isdigit():
            return (int(x), "Integer")
        if x[0] in "\"'":
            return (x[1:-1], "String")
        if x[0].isdigit():
            return (Fraction(x), "Decimal")
        return None

    def peek(self):
        if self.i < len(self.toks):
            return self.toks[self.i]
        self.end_seen = True
        return None

    def next(self):
        x = self.peek()
        if x is None:
            raise Reject("end of expression")
        self.i += 1
        return x


def analyse(text, env, literals=None):
    """(node, type) of an expression given as tokens separated by blanks, or
    Reject"""
    t = Tokens(text.split(), literals)
    n = Parser(t, env).expression()
    if t.peek() is not None:
        raise Reject("trailing " + t.peek())
    return n


def viable(toks, env):
    """can the tokens be continued to (or be) a legal expression?  False only
    if the parser gives up before it has looked at the end of the tokens"""
    t = Tokens(toks)
    try:
        Parser(t, env).expression()
    except Reject:
        return t.end_seen
    return t.peek() is None
