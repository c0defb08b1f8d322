"""C04 to C09: the expression language, decided against refexpr.py.

Every case is a check expression over record components.  The component values
are symbolic (digits, characters, presence, lengths); the real lexer, parser
and evaluator run on the resulting program text, and the outcome of the check
(holds / fails / run-time error / rejected) has to agree with the reference
model for every value.
"""

from fractions import Fraction

from symx import common
from symx.logic import AND, OR, NOT, ITE
from props import refexpr as R

ENUMS = {"Col": ["RED", "GREEN", "BLUE"], "Lvl": ["LOW", "HIGH"]}
TUPLES = {"Pt": {"a": "Integer", "b": "Integer"}, "Qt": {"a": "Integer"}}
RECORDS = {"Rec": {"v": "Integer", "w": "Integer", "nxt": ("record", "Rec")},
           "Sub": {"v": "Integer", "w": "Integer", "nxt": ("record", "Rec"),
                   "extra": "Integer"},
           "Oth": {"v": "Integer"}, "Emp": {}, "Frz": {"v": "Integer"}}
EXTENDS = {"Sub": "Rec", "Frz": "Oth"}

PREAMBLE = """package P
enum Col { RED GREEN BLUE }
enum Lvl { LOW HIGH }
tuple Pt { a Integer separator @ b optional Integer }
tuple Qt { a Integer }
type Rec { v Integer w optional Integer nxt optional Rec }
type Sub extends Rec { extra Integer }
type Oth { v Integer }
type Emp { }
type Frz extends Oth { freeze v = 7 }
"""

# name -> (declaration, type)
VOCABULARY = {
    "x": ("Integer", "Integer"), "y": ("Integer", "Integer"),
    "z": ("Integer", "Integer"), "q": ("Integer", "Integer"),
    "d": ("Decimal", "Decimal"), "e": ("Decimal", "Decimal"),
    "f": ("Decimal", "Decimal"),
    "b": ("Boolean", "Boolean"), "c": ("Boolean", "Boolean"),
    "s": ("String", "String"), "t": ("String", "String"),
    "u": ("String", "String"),
    "m": ("Markup_String", "Markup_String"),
    "k": ("Col", ("enum", "Col")), "l": ("Col", ("enum", "Col")),
    "o": ("Lvl", ("enum", "Lvl")),
    "p": ("Pt", ("tuple", "Pt")), "g": ("Pt", ("tuple", "Pt")),
    "vq": ("Qt", ("tuple", "Qt")),
    "r": ("Rec", ("record", "Rec")), "h": ("Rec", ("record", "Rec")),
    "j": ("Sub", ("record", "Sub")), "i": ("Oth", ("record", "Oth")),
    "ve": ("Emp", ("record", "Emp")), "we": ("Emp", ("record", "Emp")),
    "vf": ("Frz", ("record", "Frz")), "wf": ("Frz", ("record", "Frz")),
    "ax": ("Integer [0 .. *]", ("array", "Integer")),
    "ay": ("Integer [0 .. 3]", ("array", "Integer")),
    "ad": ("Decimal [0 .. *]", ("array", "Decimal")),
    "ab": ("Boolean [0 .. *]", ("array", "Boolean")),
    "as": ("String [0 .. *]", ("array", "String")),
    "ak": ("Col [0 .. *]", ("array", ("enum", "Col"))),
    "ap": ("Pt [0 .. *]", ("array", ("tuple", "Pt"))),
    "ar": ("Rec [0 .. *]", ("array", ("record", "Rec"))),
    "ae": ("Emp [0 .. *]", ("array", ("record", "Emp"))),
}
# n_<name>: the same, optional
for _n in list(VOCABULARY):
    VOCABULARY["n" + _n] = ("optional " + VOCABULARY[_n][0],
                            VOCABULARY[_n][1])


class Program:
    def __init__(self, c, digits=2, strlen=2, arrlen=2, alphabet="ab",
                 signed=True, extra=(), subrefs=False, frac=1, longarr=0,
                 longstr=0):
        self.c = c
        self.digits = digits
        self.strlen = strlen
        self.arrlen = arrlen
        self.alphabet = alphabet
        self.signed = signed
        self.extra = extra
        self.subrefs = subrefs
        self.frac = frac            # digits of decimals
        self.longarr = longarr      # length of arrays, one element symbolic
        self.longstr = longstr      # length of strings, one character is
        self.objects = {}
        self.object_text = ""
        self.vals = {}
        self.decls = []
        self.assigns = []
        self.comps = {}

    def number(self, name, typ):
        if typ == "Integer":
            t, v = self.c.int_text(name, self.digits)
        else:
            t, v = self.c.dec_text(name, self.digits, self.frac)
        if self.signed and self.c.choice(name + ".neg", 2):
            return "-" + t, -v
        return t, v

    def make_object(self, name, typ="Rec"):
        """a record other components can refer to"""
        if name in self.objects:
            return
        c = self.c
        if typ in ("Emp", "Frz"):
            self.objects[name] = {"v": 7} if typ == "Frz" else {}
            self.object_text = self.object_text + "%s %s { }\n" % (typ, name)
            return
        t, v = self.number(name + ".v", "Integer")
        val = {"v": v, "w": None, "nxt": None}
        text = "%s %s { v = " % (typ, name) + t
        if typ != "Oth":
            if not c.choice(name + ".w.null", 2):
                t, w = self.number(name + ".w", "Integer")
                text = text + " w = " + t
                val["w"] = w
        if typ == "Sub":
            text = text + " extra = 1"
            val["extra"] = 1
        self.objects[name] = val
        self.object_text = self.object_text + text + " }\n"

    def value(self, name, typ):
        """(text, value) of a fresh value of the type"""
        c = self.c
        if typ in R.NUM:
            return self.number(name, typ)
        if typ == "Boolean":
            v = c.choice(name, 2) == 1
            return ("true" if v else "false"), v
        if typ in R.STR and self.longstr:
            base = ("abc" * self.longstr)[:self.longstr]
            pos = c.choice(name + ".pos", self.longstr)
            base = base[:c.pick(name + ".end", [None, -1])]
            v = base[:pos] + c.string(name, 1, self.alphabet) + \
                base[pos + 1:]
            return '"' + v + '"', v
        if typ in R.STR:
            v = c.string_upto(name, self.strlen, self.alphabet)
            return '"' + v + '"', v
        if typ[0] == "enum":
            lits = ENUMS[typ[1]]
            l = c.pick(name, lits)
            return typ[1] + "." + l, ("lit", typ[1], l)
        if typ == ("tuple", "Qt"):
            t, a = self.number(name + ".a", "Integer")
            return "(" + t + ")", {"a": a}
        if typ[0] == "tuple":
            t, a = self.number(name + ".a", "Integer")
            if c.choice(name + ".b.null", 2):
                return t, {"a": a, "b": None}
            t2, b = self.number(name + ".b", "Integer")
            return t + " @ " + t2, {"a": a, "b": b}
        if typ[0] == "record":
            cand = {"Rec": ["o1", "o2"], "Sub": ["s1"], "Oth": ["h1"],
                    "Emp": ["e1", "e2"], "Frz": ["f1", "f2"]}[typ[1]]
            if typ[1] == "Rec" and self.subrefs:
                cand = ["o1", "s1", "s2"]
            l = c.pick(name, cand)
            self.make_object(l, {"o": "Rec", "s": "Sub", "h": "Oth",
                                 "e": "Emp", "f": "Frz"}[l[0]])
            return l, ("ref", l)
        if typ[0] == "array" and self.longarr:
            n = self.longarr
            pos = c.choice(name + ".pos", n)
            fill = c.pick(name + ".fill", self.fillers(typ[1]))
            el = [fill] * n
            el[pos] = self.value(name + ".el", typ[1])
            text = "["
            for k in range(n):
                text = text + (", " if k else "") + el[k][0]
            return text + "]", [v for _, v in el]
        if typ[0] == "array":
            n = c.choice(name + ".len", self.arrlen + 1)
            text = "["
            vs = []
            for k in range(n):
                t, v = self.value("%s.%u" % (name, k), typ[1])
                text = text + (", " if k else "") + t
                vs.append(v)
            return text + "]", vs
        raise AssertionError(typ)

    def fillers(self, typ):
        """two values that fill long arrays"""
        if typ == "Integer":
            return [("1", 1), ("7", 7)]
        if typ == "Decimal":
            return [("1.5", Fraction(3, 2)), ("7.5", Fraction(15, 2))]
        if typ == "Boolean":
            return [("true", True), ("false", False)]
        if typ in R.STR:
            return [('""', ""), ('"ab"', "ab")]
        if typ[0] == "enum":
            return [("%s.%s" % (typ[1], x), ("lit", typ[1], x))
                    for x in ENUMS[typ[1]][:2]]
        if typ[0] == "tuple":
            return [("1", {"a": 1, "b": None}), ("7 @ 7", {"a": 7, "b": 7})]
        out = []
        for x in ("o1", "o2"):
            self.make_object(x)
            out.append((x, ("ref", x)))
        return out

    def component(self, name):
        if name in self.comps:
            return
        decl, typ = VOCABULARY[name]
        self.comps[name] = typ
        self.decls.append("%s %s" % (name, decl))
        if decl.startswith("optional") and self.c.choice(name + ".null", 2):
            self.vals[name] = None
            return
        t, v = self.value(name, typ)
        self.vals[name] = v
        self.assigns.append(name + " = " + t)

    def env(self):
        return R.Env(self.comps, TUPLES, RECORDS, EXTENDS, ENUMS,
                     self.objects)

    def texts(self, expr):
        rsl = PREAMBLE + "type T { keep optional Integer " + \
            " ".join(self.decls) + " }\nchecks T {\n  " + expr + \
            ', "msg"\n}\n'
        trlc = "package P\n" + self.object_text + "T obj {\n"
        for a in self.assigns:
            trlc = trlc + " " + a + "\n"
        return {"a.rsl": rsl, "a.trlc": trlc + "}\n"}


def names_in(tokens):
    out = []
    qv = set()
    for k, t in enumerate(tokens):
        if k and tokens[k - 1] in ("forall", "exists"):
            qv.add(t)
    for k, t in enumerate(tokens):
        if t in VOCABULARY and t not in qv and t not in out and \
           not (k and tokens[k - 1] == "."):
            out.append(t)
    return out


def judge(c, prog, expr, literals=None, lit_text=None):
    """run the program and compare with the model"""
    for n in names_in(expr.split()):
        prog.component(n)
    for n in prog.extra:
        prog.component(n)
    text = ""
    for tok in expr.split():
        text = text + " " + ((lit_text or {}).get(tok, tok))
    text = text[1:]
    try:
        node, typ = R.analyse(expr, prog.env(), literals)
        legal = typ == "Boolean"
    except R.Reject:
        legal = False
    res = common.run(prog.texts(text))
    c.check(res.crash is None, "internal failure for %s: %s", expr,
            res.summary())
    if res.crash is not None:
        return
    if not legal:
        c.reach("illegal")
        c.check(not res.accepted, "illegal expression %s accepted", expr)
        c.check(len(res.user) == 0, "illegal expression %s evaluated", expr)
        return
    try:
        v = R.evaluate(node, prog.env(), prog.vals)
        if v is None:
            raise R.Fault("null")
        fault = False
    except R.Fault:
        fault = True
    if fault:
        c.reach("fault")
        c.check(not res.accepted and len(res.errors) >= 1,
                "run-time error in %s is not reported: %s", expr,
                res.summary())
        c.check(len(res.user) == 0, "check %s reported although its "
                "evaluation is an error", expr)
        return
    c.check(len(res.errors) == 0, "%s: unexpected error: %s", expr,
            res.summary())
    if len(res.user) == 0:
        c.reach("holds")
        c.check(v, "%s is false but the check passes", expr)
        c.check(res.accepted, "%s: holds but rejected", expr)
    else:
        c.reach("fails")
        c.check(NOT(v), "%s is true but the check fails", expr)
        c.check(not res.accepted, "%s: fails but accepted", expr)
        c.check(len(res.user) == 1, "one message per failing check")


def fixed(c, expr, opts=None, lits=0):
    """one expression; #1 #2 .. are literals with symbolic digits"""
    prog = Program(c, **(opts or {}))
    literals = {}
    texts = {}
    for tok in expr.split():
        if tok[0] == "#" and tok not in literals:
            kind = "Decimal" if tok[1] == "." else "Integer"
            if kind == "Decimal":
                t, v = c.dec_text(tok, prog.digits, 1)
            else:
                t, v = c.int_text(tok, prog.digits)
            literals[tok] = (v, kind)
            texts[tok] = t
    judge(c, prog, expr, literals, texts)


def template(c, parts, opts=None):
    """expression with alternatives: every element of parts is a text or a
    list of texts one of which is chosen"""
    toks = []
    for k, p in enumerate(parts):
        if isinstance(p, list):
            toks.append(c.pick("part%u" % k, p))
        else:
            toks.append(p)
    fixed(c, " ".join(toks), opts)


def sequence(c, pre, vocab, n, post, opts=None):
    """every sequence of up to n tokens of the vocabulary after pre and before
    post (a sequence that no continuation can make legal is not continued)"""
    env = R.Env({k: v[1] for k, v in VOCABULARY.items()}, TUPLES, RECORDS,
                EXTENDS, ENUMS, {})
    toks = pre.split()
    for k in range(n):
        if not R.viable(toks, env):
            break
        t = c.pick("token%u" % k, [""] + vocab)
        if t == "":
            break
        toks = toks + t.split()
    fixed(c, " ".join(toks + post.split()), opts)


# ---------------------------------------------------------------------------
def case(name, pid, parts, expect, bounds, w=1, **opts):
    if isinstance(parts, str):
        return {"name": name, "property": pid, "func": "fixed",
                "params": {"args": {"expr": parts, "opts": opts}},
                "expect": list(expect), "bounds": bounds, "weight": w,
                "replay": 0.5}
    return {"name": name, "property": pid, "func": "template",
            "params": {"args": {"parts": parts, "opts": opts}},
            "expect": list(expect), "bounds": bounds, "weight": w,
            "replay": 0.5}


HF = ("holds", "fails")
HFX = ("holds", "fails", "fault")


def arithmetic(th):
    """C04"""
    dg = 3 if th else 2
    out = []

    def add(name, parts, expect=HF, w=1, **o):
        o.setdefault("digits", dg)
        out.append(case(name, "C04", parts, expect,
                        "signed operands of up to %u digits" % o["digits"],
                        w, **o))
    for op in "+-*":
        add("int " + op, "x %s y == z" % op, digits=4 if op != "*" else dg)
        add("dec " + op, "d %s e == f" % op, digits=3 if op != "*" else dg)
        add("int literals " + op, "#1 %s #2 == z" % op)
        add("dec literals " + op, "#.1 %s #.2 == f" % op)
    for op in "/%":
        add("int " + op, "x %s y == z" % op, HFX, digits=3)
        add("int literals " + op, "#1 %s #2 == z" % op, HFX)
        add("order " + op, "x %s y >= z" % op, HFX)
    add("dec /", "d / e == f", HFX)
    add("dec literals /", "#.1 / #.2 == f", HFX, digits=1)
    for k in range(0, 5 if th else 4):
        add("int ** %u" % k, "x ** %u == z" % k,
            digits=2 if k < 3 else 1)
        add("dec ** %u" % k, "d ** %u == f" % k,
            HF, digits=1)
    add("int ** expr", "x ** ( 1 + 1 ) == z")
    add("neg exponent", "x ** ( - 1 ) == z", ("illegal",))
    add("dynamic exponent", "x ** y == z", ("illegal",))
    add("quantified exponent", "( forall v in ax => 2 ** v == z )",
        ("illegal",))
    add("int abs", "abs x == z", digits=4)
    add("dec abs", "abs d == f", digits=3)
    add("int minus", "- x == z", digits=4)
    add("dec minus", "- d == f", digits=3)
    add("int plus", "+ x == z", digits=4)
    add("dec plus", "+ d == f", digits=3)
    add("abs of difference", "abs ( x - y ) == z")
    add("round", "Integer ( d ) == x", digits=3)
    add("round half", "Integer ( d + #.1 ) == x", digits=1)
    add("round quotient", "Integer ( d / e ) == x", HFX, digits=2 if th
        else 1, w=3)
    add("round int", "Integer ( x ) == y", digits=3)
    add("to decimal", "Decimal ( x ) == d", digits=3)
    add("dec to decimal", "Decimal ( d ) == e", digits=3)
    add("decimal quotient", "Decimal ( x ) / Decimal ( y ) == d", HFX)
    add("round trip", "Integer ( Decimal ( x ) ) == x", ("holds",), digits=4)
    add("division identity", "( x / y ) * y <= x or y < 0",
        ("holds", "fault"))
    add("remainder identity", "- x % y == ( - x ) % y",
        ("holds", "fault"))
    add("remainder bound", "abs ( x % y ) < abs y", ("holds", "fault"))
    # beyond the range in which binary64 numbers are exact
    for ex in ("x / 3 == z", "x % 7 == z", "x * 9 == z", "x + y == z",
               "x - y == z", "- x == z", "abs x == z", "x ** 1 == z",
               "1000000000000000000000 / 7 == z"):
        add("wide " + ex, ex, digits=22)
    add("wide quotient", "9999999999999999999 / x == z", HFX, digits=20,
        signed=False)
    for ex in ("d + e == f", "d - e == f", "d * 3.0 == f", "d / 4.0 == f",
               "- d == f", "abs d == f"):
        add("wide " + ex, ex, digits=17)
    for ex in ("d * 0.00012 == f", "d / 8.0 == f", "d + e == f",
               "d - e == f", "abs d == f", "- d == f",
               "d * 1.00000000000001 == f"):
        add("fine " + ex, ex, digits=2, frac=4 if "14" in ex else
            20 if "00000" in ex else 9)
    add("fine round", "Integer ( d ) == x", digits=1, frac=20)
    add("wide round", "Integer ( d ) == x", digits=18)
    add("wide to decimal", "Decimal ( x ) == d", digits=18)
    add("wide round trip", "Integer ( Decimal ( x ) ) == x", ("holds",),
        digits=20)
    add("big", "x * x * x * x + y == z", digits=2, signed=False, w=2)
    return out


def booleans(th):
    """C05"""
    out = []

    def add(name, parts, expect=HF, w=1, **o):
        o.setdefault("digits", 1)
        o.setdefault("signed", False)
        out.append(case(name, "C05", parts, expect,
                        "operands of up to %u digits, arrays of up to %u "
                        "elements" % (o["digits"], o.get("arrlen", 2)),
                        w, **o))
    ops = ["and", "or", "xor", "implies"]
    for rel in R.REL:
        add("int " + rel, "x %s y" % rel, digits=3, signed=True)
        add("dec " + rel, "d %s e" % rel, digits=2, signed=True)
        add("literal " + rel, "#1 %s x" % rel, digits=2, signed=True)
    # leaves: a symbolic condition, one that can fail, one that can be null
    for op in ops:
        add(op, ["x > 4", op, ["y > 4", "9 / y > 2", "ny > 4"]],
            HFX)
        add(op + " null", ["x > 4", op, "nb"], HFX)
        add("null " + op, ["nb", op, "x > 4"], HFX)
        add("fault " + op, ["9 / x > 2", op, ["y > 4", "9 / y > 2"]], HFX)
        for op2 in ops:
            add("%s (%s)" % (op, op2),
                ["x > 4", op, "( y > 4", op2, ["z > 4 )", "9 / z > 2 )"]],
                HFX, w=2)
            add("(%s) %s" % (op, op2),
                [["( x > 4", "( 9 / x > 2"], op, "y > 4 )", op2,
                 ["z > 4", "9 / z > 2"]], HFX, w=2)
        for neg in ("not ( x > 4 ) %s y > 4", "x > 4 %s not ( y > 4 )",
                    "not ( x > 4 %s y > 4 )"):
            add(neg % op, neg % op)
    for op in ("and", "or"):
        add("chain " + op, ["x > 4", op, ["y > 4", "9 / y > 2"], op,
                            ["z > 4", "9 / z > 2"]], HFX)
        add("chain4 " + op, "x > 4 %s y > 4 %s z > 4 %s q > 4" %
            (op, op, op))
    for k in (1, 2, 3, 4):
        add("oneof %u" % k, "oneof ( %s )" %
            " , ".join("%s > 4" % n for n in "xyzq"[:k]))
    add("long if", "( if x > 8 then y " + " ".join(
        "elsif x > %u then y + %u" % (8 - k, k) for k in range(1, 8)) +
        " else 99 ) > 9")
    for op in ("and", "or"):
        add("long " + op, (" %s " % op).join(
            "x %s %u" % ("!=" if op == "and" else "==", k)
            for k in range(9)))
    for q in ("forall", "exists"):
        for arr, pred in (("ax", "v > 4"), ("ax", "9 / v > 2"),
                          ("ad", "v > 4.0"),
                          ("as", 'v %s "b"' % ("!=" if q == "forall"
                                               else "==")),
                          ("ak", "v == Col . RED"), ("ab", "v"),
                          ("ap", "v . a > 4"), ("ar", "v . v > 4")):
            add("long %s %s %s" % (q, arr, pred), "( %s v in %s => %s )" %
                (q, arr, pred), HFX if "/" in pred else HF, longarr=12,
                strlen=1)
    add("oneof fault", "oneof ( x > 4 , 9 / y > 2 )", HFX)
    add("not", "not b")
    add("not null", "not nb", HFX)
    add("constants", [["true", "false"], ops, ["true", "false"]])
    add("if", ["( if", ["x > 4", "9 / x > 2", "nx > 4"], "then",
               ["y > 4", "9 / y > 2"], "else", ["z > 4", "9 / z > 2"], ")"],
        HFX, w=2)
    add("if elsif", "( if x > 4 then y > 4 elsif z > 4 then y > 2 else "
        "y > 7 )")
    add("if elsif fault", "( if x > 4 then y > 4 elsif 9 / x > 3 then y > 2 "
        "else 9 / y > 2 )", HFX)
    add("if elsif2", "( if x > 7 then y elsif x > 5 then z elsif x > 3 then "
        "q else x ) > 4")
    add("if number", "( if x > y then x else y ) == z")
    add("if null condition", "( if nb then x > 4 else y > 4 )", HFX)
    add("if null branch", "( if x > 4 then ny else 3 ) > 4", HFX)
    add("if in arithmetic", "1 + ( if b then x else y ) > z")
    for q in ("forall", "exists"):
        n = 3 if th else 2
        add(q, "( %s v in ax => v > 4 )" % q, arrlen=n + 1)
        add(q + " rel", "( %s v in ax => v > x )" % q, arrlen=n)
        add(q + " null array", "( %s v in nax => v > 4 )" % q, HFX, arrlen=n)
        add(q + " fault", "( %s v in ax => 9 / v > 2 )" % q, HFX, arrlen=n)
        add("not " + q, "not ( %s v in ax => v > 4 )" % q, arrlen=n)
        add(q + " decimal", "( %s v in ad => v > d )" % q, arrlen=n)
        add(q + " string", "( %s v in as => v == s )" % q, arrlen=n, strlen=1)
        add(q + " enum", "( %s v in ak => v == Col . RED )" % q, arrlen=n)
        add(q + " boolean", "( %s v in ab => v )" % q, arrlen=n)
        add(q + " tuple", "( %s v in ap => v . a > 4 )" % q, arrlen=n)
        add(q + " tuple null", "( %s v in ap => v . b > 4 )" % q, HFX,
            arrlen=n)
        add(q + " record", "( %s v in ar => v . v > 4 )" % q, arrlen=n)
        add(q + " guard", "( %s v in ax => v != 0 and 9 / v > 2 )" % q,
            arrlen=n)
        for q2 in ("forall", "exists"):
            add("%s %s" % (q, q2), "( %s v in ax => ( %s w in ay => "
                "v < w ) )" % (q, q2), arrlen=2, w=2)
        add(q + " twice", "( %s v in ax => v > 4 ) and ( %s v in ay => "
            "v > 2 )" % (q, q), arrlen=1)
    return out


def equality(th):
    """C06"""
    out = []

    def add(name, parts, expect=HF, w=1, **o):
        o.setdefault("digits", 1)
        out.append(case(name, "C06", parts, expect,
                        "numbers of up to %u signed digits, strings of up to "
                        "%u characters over %r, arrays of up to %u elements" %
                        (o["digits"], o.get("strlen", 2),
                         o.get("alphabet", "ab"), o.get("arrlen", 2)),
                        w, **o))
    pairs = {"integer": "x y", "decimal": "d e", "boolean": "b c",
             "string": "s t", "enum": "k l", "tuple": "p g",
             "record": "r h"}
    for nm, ab in pairs.items():
        a, b = ab.split()
        for op in ("==", "!="):
            add("%s %s" % (nm, op), "%s %s %s" % (a, op, b))
            add("optional %s %s" % (nm, op), "n%s %s n%s" % (a, op, b), w=2)
            add("%s %s null" % (nm, op), "n%s %s null" % (a, op))
            add("null %s %s" % (op, nm), "null %s n%s" % (op, a))
            add("mandatory %s %s null" % (nm, op), "%s %s null" % (a, op),
                ("holds",) if op == "!=" else ("fails",))
    for arr in ("ax", "ad", "as", "ab", "ak", "ap", "ar"):
        add("self " + arr, "%s == %s" % (arr, arr), ("holds",), arrlen=1)
        add("null " + arr, "n%s == null" % arr, arrlen=1)
    add("null null", ["null", ["==", "!="], "null"])
    for op in ("==", "!="):
        add("extension " + op, [["r " + op + " j", "j " + op + " r"]],
            subrefs=True, signed=False)
        add("references " + op, ["r", op, "nr"], subrefs=True, signed=False)
        add("empty records " + op, ["ve", op, "we"])
        add("frozen records " + op, ["vf", op, "wf"])
        add("object fields " + op, ["r . v", op, "h . v"], signed=False)
    add("empty record in array", "ve in ae")
    add("reference in array", "r in ar", subrefs=True, signed=False, w=2)
    for v in ("matches ( s , '^ab' )", "matches ( s , 'b' )",
              "matches ( s , '[a]+$' )", "matches ( s , 'a|ab' )",
              "matches ( s , '.b' )", "matches ( s , '' )",
              "matches ( s , '(a' )", "matches ( s , '[' )",
              "matches ( s , t )"):
        add(v, v.replace("'", '"'), (), strlen=4)
    # membership
    for nm, (a, arr) in {"integer": ("x", "ax"), "decimal": ("d", "ad"),
                         "string": ("s", "as"), "enum": ("k", "ak"),
                         "boolean": ("b", "ab"), "tuple": ("p", "ap"),
                         "record": ("r", "ar")}.items():
        add("%s in array" % nm, ["%s" % a, ["in", "not in"], arr],
            strlen=1, signed=nm == "integer", w=3)
        add("null %s in array" % nm, "n%s in n%s" % (a, arr), HFX, strlen=1,
            arrlen=1, signed=False, w=2)
    add("in range", "x in y .. z", digits=2)
    add("not in range", "x not in y .. z", digits=2)
    add("decimal in range", ["d", ["in", "not in"], "e .. f"], digits=2)
    add("in literal range", ["x", ["in", "not in"], "#1 .. #2"], digits=2)
    add("null in range", ["nx", ["in", "not in"], "ny .. nz"], HFX,
        signed=False)
    add("in computed range", "x in y - 1 .. y + z", digits=1)
    n = 3 if th else 2
    add("substring", ["s", ["in", "not in"], "t"], strlen=3, w=4)
    add("literal substring", ["'''ab'''".replace("'''", '"'), "in", "s"],
        strlen=4)
    add("markup substring", ["m", "in", "s"], strlen=n)
    add("null substring", "ns in nt", HFX, strlen=1)
    add("case substring", "s in t", alphabet="aA", strlen=n)
    add("startswith", "startswith ( s , t )", strlen=3, w=4)
    add("endswith", "endswith ( s , t )", strlen=3, w=4)
    add("null startswith", "startswith ( ns , nt )", HFX, strlen=1)
    add("null endswith", "endswith ( ns , nt )", HFX, strlen=1)
    add("len string", "len ( s ) == x", strlen=4, alphabet='ab')
    add("len array", "len ( ax ) == x", arrlen=3, signed=False)
    add("null len", ["len (", ["ns", "nax"], ") == x"], HFX, signed=False)
    add("concat", "s + t == u", strlen=2, w=3)
    add("concat len", "len ( s + t ) == len ( s ) + len ( t )", ("holds",),
        strlen=3)
    add("markup concat", 's + m == t', strlen=1)
    for k in (1, 2, 3, 4):
        ar = " , ".join("%s > 4" % n for n in "xyzq"[:k])
        add("oneof %u" % k, "oneof ( %s )" % ar, signed=False)
    add("oneof null", "oneof ( x > 4 , nb )", HFX, signed=False)
    for arr, a in (("ax", "x"), ("ad", "d"), ("as", "s"), ("ak", "k"),
                   ("ab", "b"), ("ap", "p"), ("ar", "r")):
        add("long in " + arr, "%s in %s" % (a, arr), longarr=12, strlen=1,
            signed=False)
        if arr in ("ax", "as", "ak"):
            add("long self " + arr, "%s == %s" % (arr, arr), ("holds",),
                longarr=9, strlen=1, signed=False)
    add("long index", "ax [ x ] == y", HFX, longarr=12, digits=2,
        signed=False)
    add("long len", "len ( ax ) == x", longarr=12, digits=2, signed=False)
    for op in ("s in t", "startswith ( s , t )", "endswith ( s , t )",
               "s == t"):
        add("long " + op, op, longstr=9)
    for ex in ("'cabcab' in s", "startswith ( s , 'abcabc' )",
               "endswith ( s , 'cabcabc' )", "s in 'aaabcabcabcccc'",
               "startswith ( 'abcabcabcabc' , s )", "len ( s ) == 9",
               "'z' + s + 'x' == 'zabcabcabcx'"):
        add("long " + ex, ex.replace("'", '"'), longstr=9)
    add("long oneof", "oneof ( " + " , ".join(
        "%s > %u" % (n, k) for k in (4, 6, 8) for n in "xyz") + " )",
        signed=False)
    # access
    add("index", "ax [ x ] == y", HFX, arrlen=3, signed=True, w=2)
    add("index literal", "ax [ 1 ] == y", HFX, arrlen=3, signed=False)
    add("index bounded", "ay [ x ] == y", HFX, arrlen=3, w=2)
    add("index sum", "ax [ x + y ] == ax [ y ]", HFX, arrlen=2,
        signed=False, w=2)
    add("index len", "ax [ len ( ax ) ] == 1", ("fault",), arrlen=3,
        signed=False)
    add("index last", "ax [ len ( ax ) - 1 ] == y", HFX, arrlen=3,
        signed=False)
    add("index null", "nax [ nx ] == 1", HFX, signed=False, arrlen=1)
    add("index tuple", "ap [ x ] . a == y", HFX, signed=False, arrlen=1)
    add("tuple field", ["p .", ["a", "b"], "== x"])
    add("null tuple field", ["np .", ["a", "b"], "== nx"], HFX, signed=False)
    add("record field", ["r .", ["v", "w"], "== x"])
    add("null record field", ["nr .", ["v", "w"], "== nx"], HFX,
        signed=False)
    add("null record component", "r . nxt . v == 1", ("fault",))
    add("record through array", "ar [ x ] . v == y", HFX, arrlen=2,
        signed=False)
    return out


def nulls(th):
    """C07"""
    out = []

    def add(name, parts, expect=HFX, w=1, **o):
        o.setdefault("digits", 1)
        o.setdefault("signed", False)
        o.setdefault("strlen", 1)
        o.setdefault("arrlen", 1)
        out.append(case(name, "C07", parts, expect,
                        "every combination of present and absent optional "
                        "components; numbers of %u digit" % o["digits"], w,
                        **o))
    for op in "+-*/%":
        add("int " + op, "nx %s ny == 4" % op)
        if op != "%":
            add("dec " + op, "nd %s ne == 4.0" % op)
    for op in ("<", "<=", ">", ">="):
        add("int " + op, "nx %s ny" % op)
        add("dec " + op, "nd %s ne" % op)
    for op in ("and", "or", "xor", "implies"):
        add(op, "nb %s nc" % op)
        add("(%s) == null" % op, "( b %s nc ) == null" % op, ("fails",
                                                            "fault"))
        add("(%s) != null" % op, "( nb %s c ) != null" % op, ("holds",
                                                            "fault"))
        add("not (%s)" % op, "not ( b %s nc )" % op)
        add("if (%s)" % op, "( if b %s nc then x > 4 else x < 3 )" % op)
    add("power", "nx ** 2 == 4")
    for op in ("-", "+", "abs"):
        add("unary " + op, "%s nx == 4" % op, signed=True)
        add("unary dec " + op, "%s nd == 4.0" % op, signed=True)
    add("not", "not nb")
    add("bare", "nb")
    add("Integer", "Integer ( nd ) == 4")
    add("Decimal", "Decimal ( nx ) == 4.0")
    add("len", ["len (", ["ns", "nax"], ") == 1"])
    add("concat", 'ns + nt == "a"')
    for fn in ("startswith", "endswith"):
        add(fn, "%s ( ns , nt )" % fn)
    add("matches", 'matches ( ns , "a" )', ("holds", "fails", "fault"))
    add("substring", "ns in nt")
    add("element", "nx in nax")
    add("range", ["nx", ["in", "not in"], "ny .. nz"])
    add("oneof", "oneof ( nb , nc )")
    add("oneof1", "oneof ( nb )")
    add("if cond", "( if nb then x > 4 else y > 4 )")
    add("if branch", "( if b then nx > 4 else ny > 4 )")
    add("if value", "( if b then nx else ny ) == null", HF)
    add("if bool", "( if b then nc else true )")
    add("quantifier source", "( forall v in nax => v > 4 )")
    add("quantifier body", "( forall v in ax => nb )")
    add("exists body", "( exists v in ax => nb )")
    add("quantifier field", "( exists v in ap => v . b > 4 )")
    add("index array", "nax [ 0 ] == 4")
    add("index value", "ax [ nx ] == 4", arrlen=2)
    add("tuple field", "np . a == 4")
    add("tuple optional field", "p . b > 4")
    add("record field", "nr . v == 4")
    add("record optional", "r . w > 4")
    add("chain", "r . nxt . v > 4", ("fault",))
    add("guarded and", "nx != null and nx > 4", HF)
    add("guarded or", "nx == null or nx > 4", HF)
    add("guarded implies", "nx != null implies nx > 4", HF)
    add("guarded if", "( if nx == null then true else nx > 4 )", HF)
    add("not guarded xor", "nx == null xor nx > 4")
    add("wrong guard", "nx == null and nx > 4", ("fails", "fault"))
    add("guard other", "nx != null implies ny > 4", HFX)
    add("guarded record", "nr != null implies nr . v > 4", HF)
    add("guarded chain", "( nr != null and nr . w != null ) implies "
        "nr . w > 4", HF)
    add("equal nulls", ["nx", ["==", "!="], "ny"], HF)
    for bad in ("null + 1 == 1", "x + null == 1", "- null == 1",
                "not null", "null and b", "b or null", "x < null",
                "null > x", "x in null", "null in ax", "x in null .. 3",
                "x in 1 .. null", "len ( null ) == 1", "abs null == 1",
                "oneof ( null )", "oneof ( b , null )",
                "startswith ( null , s )", "endswith ( s , null )",
                "matches ( null , s )", 'matches ( s , null )',
                "( if null then b else c )", "( if b then null else c )",
                "( if b then c else null )", "Integer ( null ) == 1",
                "Decimal ( null ) == 1.0", "ax [ null ] == 1",
                "( forall v in ax => null )", "null", "null implies b",
                "x ** null == 1", "null ** 2 == 1",
                "x ** ( forall v in ax => v > 1 ) == 1",
                "x ** ( if b then 1 else 2 ) == 1", "x ** b == 1",
                "x ** len ( ax ) == 1", "x ** r . v == 1",
                'x ** ( "a" ) == 1', "x ** ( 1 < null ) == 1",
                "x ** ( 1 / 0 ) == 1", "matches ( s , 1 )",
                "matches ( 1 , s )", "matches ( s , ( 1 == 1 ) )",
 "x * null == 1",
                "null % x == 1", "s + null == s", "null in s", "s in null",
                "b xor null"):
        add("literal: " + bad, bad, ("illegal",))
    return out


def precedence(th):
    """C08"""
    out = []

    def add(name, parts, expect=(), w=1, **o):
        o.setdefault("digits", 1)
        o.setdefault("signed", False)
        out.append(case(name, "C08", parts, expect,
                        "all operand values of %u digit(s)" % o["digits"],
                        w, **o))
    ar = ["+", "-", "*", "/", "%"]
    for op in ar:
        add("chain %s ?" % op, ["x", op, "y", ar, "z == q"], HF, digits=1,
            w=3)
        add("dec chain %s ?" % op, ["d", op, "e", ar[:4], "f == 2.0"],
            HF if op != "%" else ("illegal",), w=2)
        add("long chain %s ?" % op, ["x", op, "y", ar, "z", ar, "2 == q"],
            HF, w=6)
        add("minus %s" % op, ["- x", op, "y", "==", ["z", "- z"]], HF, w=2)
        add("bracket %s" % op, ["x", op, "( y", ar, "z ) == q"], HF, w=3)
        add("power %s" % op, ["x ** 2", op, "y == z"], HF)
        add("%s power" % op, ["x", op, "y ** 2 == z"], HF)
        add("abs %s" % op, ["abs ( x - y )", op, "z == q"], HF, w=2)
        add("compare %s" % op, ["x", op, "y", list(R.REL), "z", op, "q"], HF,
            w=4)
        add("sign %s" % op, ["x", op, ["- y == z", "+ y == z",
                                       "( - y ) == z"]], ("illegal",))
        add("range %s" % op, ["x in y", op, "z .. y", op, "q"], HF, w=2)
        add("range after %s" % op, ["x", op, "y", ["in", "not in"],
                                    "z .. q"], HF, w=2)
    add("minus power", "- x ** 2 == y")
    add("power of minus", "( - x ) ** 2 == y", HF)
    add("power power", "x ** 2 ** 2 == y", ("illegal",))
    add("abs power", "abs x ** 2 == y", ("illegal",))
    add("not not", "not not b", ("illegal",))
    add("abs abs", "abs abs x == y", ("illegal",))
    add("minus minus", "- - x == y", ("illegal",))
    add("plus minus", ["x", ["+", "-"], ["+", "-"], "y == z"], ("illegal",))
    add("minus in exponent", "x ** - 1 == y", ("illegal",))
    ops = ["and", "or", "xor", "implies"]
    for op in ops:
        add("logic %s ?" % op, ["b", op, "c", ops, "x > 4"], (), w=2)
        add("logic3 %s ?" % op, ["b", op, "c", op, "x > 4", ops, "y > 4"],
            (), w=2)
        add("logic nest %s ?" % op, ["b", op, "( c", ops, "x > 4 )"], HF,
            w=2)
        add("logic nest2 %s ?" % op, ["( b", op, "c )", ops, "x > 4"], HF,
            w=2)
        add("not %s" % op, ["not b", op, ["c", "not c"]], HF)
        add("not compare %s" % op, ["not x > 4", op, "b"], ("illegal",))
        add("compare %s" % op, ["b == c", op, "x < y"], HF)
        add("if %s" % op, ["( if b", op, "c then x > 4 else y > 4 )"], HF)
    add("not ==", ["not b", ["==", "!="], "c"], HF)
    add("== not", ["b", ["==", "!="], "not c"], HF)
    for rel in R.REL:
        add("two relations %s" % rel, ["x", rel, "y", list(R.REL), "z"],
            ("illegal",))
        add("bracket relation %s" % rel, ["( x", rel, "y ) == b"], HF)
    add("in in", "x in ax in b", ("illegal",))
    add("in compare", "( x in 1 .. 5 ) == b", HF)
    add("in and", "x in 1 .. 5 and b", HF)
    add("not in", ["not x in 1 .. 5"], ("illegal",))
    add("naked quantifier", "forall v in ax => v > 4", ("illegal",))
    add("naked if", "if b then c else b", ("illegal",))
    add("quantifier scope", "( forall v in ax => v > 4 or b ) and c", HF,
        arrlen=1)
    add("if scope", "( if b then c else x > 4 or y > 4 )", HF)
    add("if no else", "( if b then c )", ("illegal",))
    add("empty brackets", "( )", ("illegal",))
    add("unbalanced", ["( x > 4", "x > 4 )", "( ( x > 4 )"][0],
        ("illegal",))
    add("unbalanced2", "x > 4 )", ("illegal",))
    add("double range", "x in 1 .. 3 .. 4", ("illegal",))
    add("assign", "x = 4", ("illegal",))
    add("arrow", "x => b", ("illegal",))
    add("missing operand", ["x", ar + list(R.REL)], ("illegal",))
    add("missing operand2", ["b", ops], ("illegal",))
    add("leading operator", [["*", "/", "%", "**", "==", "<", "and", "or",
                             "xor", "implies", "in", "."], "x == y"],
        ("illegal",))
    add("two operands", ["x", ["y", "b", "1", '"a"', "true", "null"],
                        "== 1"], ("illegal",))
    for op in ops:
        add("relations %s ?" % op, [["x > 4", "x in 1 .. y", "x in ax",
                                     "( x > 4 )", "not b"], op,
                                    ["y > 4", "y not in 1 .. x", "not c"],
                                    ops, ["z > 4", "z in ay", "c"]], (), w=3,
            arrlen=1)
    for nm, (vocab, post, n, nt) in VOCABS.items():
        for first in vocab:
            out.append({
                "name": "sequences %s: %s" % (nm, first), "property": "C08",
                "func": "sequence",
                "params": {"args": {
                    "pre": first, "vocab": vocab, "n": (nt if th else n) - 1,
                    "post": post,
                    "opts": {"digits": 1, "signed": False, "strlen": 1,
                             "arrlen": 1}}},
                "expect": [], "weight": 2, "replay": 0.3,
                "bounds": "every sequence of up to %u tokens of %s, followed "
                "by %r" % (nt if th else n, " ".join(vocab), post)})
    return out


# vocabulary, rest, tokens (quick, thorough)
VOCABS = {
    "arithmetic": (["x", "2", "+", "-", "*", "/", "**", "abs", "(", ")"],
                   "== q", 4, 5),
    "logic": (["b", "c", "not", "and", "or", "xor", "implies", "(", ")"],
              "", 4, 6),
    "mixed": (["x", "1", "-", "<", "not", "in", "..", "ax", "and", "b", "(",
               ")"], "", 4, 5),
    "names": (["p", "r", ".", "a", "nxt", "v", "ax", "[", "]", "0", "len (",
               ")"], "!= null", 4, 5),
    "brackets": (["( forall v in", "( exists v in", "( if", "then", "else",
                  "elsif", "ax", "=>", "v", "b", ")"], "", 5, 7),
}

OPERANDS = ["x", "d", "b", "s", "m", "k", "o", "p", "vq", "r", "j", "i", "ax",
            "as", "ar", "ak", "null", "1", "2.5", "true", '"a"', "Col . RED",
            "( x + 1 )", "p . a", "r . v", "ax [ 0 ]", "len ( s )"]


def typing(th):
    """C09"""
    out = []

    def add(name, parts, expect=(), w=1, **o):
        o.setdefault("digits", 1)
        o.setdefault("signed", False)
        o.setdefault("strlen", 1)
        o.setdefault("arrlen", 1)
        out.append(case(name, "C09", parts, expect,
                        "every combination of the listed operands", w, **o))
    few = OPERANDS if th else \
        ["x", "d", "b", "s", "m", "k", "o", "p", "vq", "r", "j", "i", "ax",
         "as", "ar", "null", "2.5", '"a"', "Col . RED"]
    for op in ("==", "!=", "<", ">="):
        for a in few:
            add("%s %s ?" % (a, op), [a, op, few])
    for op in ("+", "-", "*", "/", "%"):
        for a in few:
            add("%s %s ?" % (a, op), [a, op, few, "!= null"])
    for a in few:
        add("%s in ?" % a, [a, ["in", "not in"],
                            few + ["ad", "ab", "ak", "ap"]])
        add("%s in range" % a, [a, "in", ["x", "d", "1", "s"], "..",
                                ["y", "2.5", "b"]])
        add("%s ** ?" % a, [a, "**", ["0", "1", "2.0", "true", "null", "y",
                                      '"a"', "( - 1 )", "( 1 + 1 )"],
                            "!= null"])
        add("unary %s" % a, [["-", "+", "abs", "not"], a, "!= null"])
        for fn in ("len", "Integer", "Decimal", "oneof"):
            add("%s(%s)" % (fn, a), [fn, "(", a, ")", "!= null"])
        add("starts(%s)" % a, [["startswith", "endswith"], "(", a, ",", few,
                               ")"])
        add("starts2(%s)" % a, [["startswith", "endswith"], "(", few, ",", a,
                                ")"], w=0.5)
        add("field %s" % a, [a, ". a != null"])
        add("index %s" % a, [a, "[", ["0", "x", "2.5", "b", "null"],
                             "] != null"])
        add("index by %s" % a, ["ax [", a, "] != null"])
        add("if %s" % a, ["( if", a, "then", few, "else", ["b", "x", "s"],
                          ") != null"], w=2)
        add("if branches %s" % a, ["( if b then", a, "else", few,
                                   ") != null"])
        add("elsif branches %s" % a, ["( if b then", a, "elsif c then", few,
                                      "else", a, ") != null"])
        add("quantify %s" % a, ["( forall v in", a, "=> true )"])
        add("body %s" % a, ["( forall v in ax =>", a, ")"])
        add("bare %s" % a, a)
        for op in ("and", "or", "xor", "implies"):
            add("%s %s ?" % (a, op), [a, op, few])
    for fn in ("len", "Integer", "Decimal", "oneof", "startswith",
               "endswith", "matches"):
        add("arity " + fn, [fn, ["( )", '( "a" )', '( "a" , "b" )',
                                 "( 1 )", "( 1 , 2 )", "( 1 , 2 , 3 )",
                                 '( "a" , "b" , "c" )', "( b )",
                                 "( b , b , b )", "( 1 , )"], "!= null"])
        add("not called " + fn, [fn, "!= null"])
    add("shadow component", "( forall x in ax => x > 1 )", ("illegal",),
        extra=["x"])
    add("shadow nested", "( forall v in ax => ( exists v in ay => v > 1 ) )",
        ("illegal",))
    add("variable outside", "( forall v in ax => v > 1 ) and v > 1",
        ("illegal",))
    add("quantify literal", "( forall v in 3 => true )", ("illegal",))
    add("literal of other enum", "k == Lvl . LOW", ("illegal",))
    add("unknown literal", "k == Col . LOW", ("illegal",))
    add("enum only", "k == Col", ("illegal",))
    add("unknown field", [["p . c", "r . zz", "r . extra"], "== 1"],
        ("illegal",))
    add("inherited field", ["j .", ["v", "extra"], "== 1"], HF)
    add("unknown name", [["zz", "Pt", "Rec", "T", "P", "Integer"], "== 1"],
        ("illegal",))
    add("chained fields", ["r .", ["nxt . v", "nxt . nxt . v", "v . v",
                                   "nxt"], "!= null"])
    add("call of component", "x ( 1 ) == 1", ("illegal",))
    return out


def cases(tier):
    th = tier != "quick"
    return arithmetic(th) + booleans(th) + equality(th) + nulls(th) + \
        precedence(th) + typing(th)
