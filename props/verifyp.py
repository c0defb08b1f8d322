"""C21: the static verification of user defined checks (--verify).

The verification conditions are generated by the code under test and decided
by its own solver, natively, for the model at hand.  The claim it makes -- no
object can make this check fail to evaluate, or this check is always true --
is then decided against the evaluator, symbolically, for all objects."""

import multiprocessing.util

from symx import common

_HELPER = None
_CACHE = {}
FILE = "p.rsl"


LIB = """package Lib
enum E { A B }
tuple Tu { e E separator @ n Integer }
type R { e E n Integer }
checks R { n > 1, fatal "small" }
"""


def sources(rsl):
    files = {FILE: rsl}
    if "import Lib" in rsl:
        files["lib.rsl"] = LIB
    return files


def verify_model(c, rsl, verify=True, trlc=None):
    """runs natively; hands the messages back as a note"""
    import json
    c.note(json.dumps(_verify(rsl, verify, trlc)))


def _verify(rsl, verify, trlc=None):
    files = sources(rsl)
    if trlc is not None:
        files["q.trlc"] = trlc
    res = common.run(files, lint=True, verify=verify)
    return {"crash": None if res.crash is None else res.summary(),
            "accepted": res.symbols is not None,
            "messages": [[m.kind, m.line, m.col, m.message, m.category,
                          m.extra] for m in res.messages]}


def verify(c, rsl, on=True, trlc=None):
    global _HELPER
    key = (rsl, on, trlc)
    if key not in _CACHE:
        if c.symbolic:
            import json
            from symx import runner
            if _HELPER is None:
                _HELPER = runner.Native()
                multiprocessing.util.Finalize(None, _HELPER.stop,
                                              exitpriority=10)
            r = _HELPER.run(module="props.verifyp", func="verify_model",
                            params={"args": {"rsl": rsl, "verify": on,
                                             "trlc": trlc}},
                            inputs={}, timeout=55)
            if r.get("notes"):
                r = json.loads(r["notes"][0])
            else:
                r = {"crash": str(r), "accepted": False, "messages": []}
        else:
            r = _verify(rsl, on, trlc)
        _CACHE[key] = r
    return _CACHE[key]


# ------------------------------------------------------------------ the model

PRELUDE = """package P
enum E { A B }
enum F { X Y }
tuple Tu { x Integer separator ; y optional Integer }
type R { i optional Integer j Integer nx optional R }
type Z { j Integer k Integer }
"""
TARGETS = """R r1 { i = 1 j = 2 nx = r2 }
R r2 { j = 0 }
Z z1 { j = 3 k = 0 }
"""

DECL = {
    "a": "Integer", "b": "optional Integer", "c": "Integer",
    "d": "Decimal", "dn": "optional Decimal", "f": "Boolean", "f2": "Boolean",
    "g": "optional Boolean", "s": "String", "so": "optional String",
    "e": "E", "eo": "optional E", "e2": "F", "ar": "Integer [0 .. 3]",
    "ao": "optional Integer [1 .. *]", "t": "Tu", "tn": "optional Tu",
    "r": "R", "ro": "optional R", "un": "[R, Z]", "uo": "optional [R, Z]",
    "ta": "Tu [0 .. 2]", "ra": "R [0 .. 2]",
}


def integer(c, n):
    text, _ = c.int_text(n, 1)
    return c.pick(n + ".sign", ["", "-"]) + text


def value(c, name):
    """source text of a value of the component, None for null"""
    decl = DECL[name]
    if decl.startswith("optional") and not c.choice(name + ".given", 2):
        return None
    decl = decl.replace("optional ", "")
    if decl == "Integer":
        return integer(c, name)
    if decl == "Decimal":
        text, _ = c.dec_text(name, 1, 1)
        return c.pick(name + ".sign", ["", "-"]) + text
    if decl == "Boolean":
        return c.pick(name, ["false", "true"])
    if decl == "String":
        return '"' + c.string_upto(name, 1, "ab") + '"'
    if decl == "E":
        return c.pick(name, ["E.A", "E.B"])
    if decl == "F":
        return c.pick(name, ["F.X", "F.Y"])
    if decl == "Tu":
        return tuple_value(c, name)
    if decl == "R":
        return c.pick(name, ["r1", "r2"])
    if decl == "[R, Z]":
        return c.pick(name, ["r1", "r2", "z1"])
    base, bounds = decl.split(" [")
    low = int(bounds[0])
    n = low + c.choice(name + ".len", 3 - low)
    parts = [c.int_text("%s%u" % (name, k), 1)[0]
             if base == "Integer" else
             tuple_value(c, "%s%u" % (name, k)) if base == "Tu" else
             c.pick("%s%u" % (name, k), ["r1", "r2"])
             for k in range(n)]
    return "[" + ", ".join(parts) + "]"


def tuple_value(c, name):
    x, _ = c.int_text(name + ".x", 1)
    if c.choice(name + ".y?", 2):
        return x + " ; " + c.int_text(name + ".y", 1)[0]
    return x


def names_in(text):
    out = []
    word = ""
    prev = ""
    for ch in text + " ":
        if ch.isalnum() or ch == "_":
            word += ch
        else:
            if word in DECL and not prev.endswith(".") and word not in out:
                out.append(word)
            if word:
                prev = word
            word = ""
            prev = (prev + ch)[-1:]
    return out


def declare(names):
    return "".join("  %s %s\n" % (n, DECL[n]) for n in DECL if n in names)


def instance(c, names, typ="T"):
    parts = []
    for n in DECL:
        if n in names:
            v = value(c, n)
            if v is not None:
                parts.append("  " + n + " = " + v + "\n")
    text = "package P\n" + TARGETS + typ + " o {\n"
    for p in parts:
        text = text + p
    return text + "}\n"


FORMS = ["plain", "implies", "and", "or", "if", "elsif", "fatal", "error",
         "parent", "late"]


class Model:
    """source text that knows which lines belong to which check"""

    def __init__(self, text=PRELUDE):
        self.text = text
        self.lines = {}

    def add(self, text):
        self.text += text

    def check(self, parts, message, severity="error"):
        """a check, every part of its expression on a line of its own"""
        first = self.text.count("\n") + 1
        self.text += "\n".join(p for p in parts if p)
        self.text += ", " + severity + ' "' + message + '"\n'
        last = self.text.count("\n")
        self.lines[message] = list(range(first, last + 1))


def model(form, use, guard):
    m = Model()
    m.typ = "T"
    m.add("type T {\n" + declare(names_in(use + " " + guard)) + "}\n")
    g = "(" + guard + ")"
    if form == "parent":
        m.add("checks T {\n")
        m.check([g], "guard", "fatal")
        m.add("}\ntype S extends T { }\n")
        m.typ = "S"
    m.add("checks " + m.typ + " {\n")
    if form in ("fatal", "error"):
        m.check([g], "guard", form)
    m.check({"implies": [g + " implies", "(" + use + ")"],
             "and": [g + " and", "(" + use + ")"],
             "or": [g + " or", "(" + use + ")"],
             "if": ["(if " + g + " then", use, " else true)"],
             "elsif": ["(if " + g + " then true elsif", use,
                       " then true else false)"]}.get(form, [use]), "use")
    if form == "late":
        m.check([g], "late", "fatal")
    m.add("}\n")
    return m


PROBLEMS = [
    ("vcg-evaluation-of-null", ["null"]),
    ("vcg-div-by-zero", ["division by zero", "divide by zero", "by 0"]),
    ("vcg-array-index", ["index", "not big enough"]),
]


def problem(message):
    for cat, words in PROBLEMS:
        if any(w in message for w in words):
            return cat
    return None


def static_part(c, rsl):
    """what must hold of the verification itself; None if it failed"""
    ver = verify(c, rsl)
    c.check(ver["crash"] is None, "verification failed: %s", ver["crash"])
    if ver["crash"] is not None:
        return None
    c.check(ver["accepted"], "verification issues do not reject the model")
    return ver


def judge(c, ver, res, lines, what):
    """compare the outcome for one object with what was reported;
    lines: message of a check -> lines of its expression"""
    c.check(res.crash is None, "evaluation: %s", res.summary())
    if res.crash is not None:
        return
    issues = {}
    for m in ver["messages"]:
        if m[0] == "issue":
            issues.setdefault(m[1], set()).add(m[4])
    spread = {}
    for ls in lines.values():
        got = set()
        for n in ls:
            got |= issues.get(n, set())
        for n in ls:
            spread[n] = got
    for m in res.errors:
        cat = problem(m.message)
        line = None
        if m.file == FILE:
            line = m.line
        for n in spread:
            if ("(" + FILE + ":%u)" % n) in m.message:
                line = n
        c.check(line in spread, "error without a check: %s", m.message)
        if line in spread:
            c.check(cat in spread[line] or
                    (cat is None and any(k in spread[line]
                                         for k, _ in PROBLEMS)),
                    "verification misses a problem of %s: %s", what,
                    m.message)
            c.reach("problem")
    for text, ls in lines.items():
        mine = [m for m in res.user if m.message == text]
        if mine:
            c.check("vcg-always-true" not in spread[ls[0]],
                    "%s (%s) is not always true", what, text)
            c.reach("violated")
        elif "vcg-always-true" in spread[ls[0]]:
            c.reach("always")
    if not any(x.startswith("vcg-") for s in issues.values() for x in s):
        c.reach("proved")


def follows_reference(use):
    return any(p + "." in use for p in ("r", "ro", "un", "uo", "ra[0]",
                                        "nx"))


def sound(c, uses, guards, forms, some=None):
    """a check nothing is reported about can be evaluated for every object
    that reaches it; a check reported as always true is never violated"""
    use = c.pick("use", uses)
    mine = [g for g in guards if set(names_in(g)) & set(names_in(use))]
    form = c.pick("form", forms)
    if form == "late" and follows_reference(use):
        # assumes also the fatal checks behind it (see DESIGN.md)
        form = "fatal"
    if some is not None:
        # many guards with one form, all forms with some guards
        mine = mine[::2 if form == "implies" and len(mine) > 3 else
                    max(1, len(mine) // some)]
    guard = "true" if form == "plain" else c.pick("guard", mine)
    m = model(form, use, guard)
    ver = static_part(c, m.text)
    if ver is None:
        return
    if any("not yet supported" in x[3] for x in ver["messages"]):
        c.reach("unsupported")
        return
    names = names_in(use + " " + guard)
    res = common.run({FILE: m.text, "q.trlc": instance(c, names, m.typ)})
    judge(c, ver, res, m.lines, (use, form, guard))


LATE = [("10 / a + r.j > 1", "a != 0"), ("r.j > 0 and b > 1", "b != null"),
        ("ar[1] > r.j", "len(ar) > 1")]


def later_fatal(c):
    """a check that follows a reference, before a fatal check that does
    not: it is evaluated first"""
    use, guard = c.pick("pair", LATE)
    m = model("late", use, guard)
    ver = static_part(c, m.text)
    if ver is None:
        return
    names = names_in(use + " " + guard)
    res = common.run({FILE: m.text, "q.trlc": instance(c, names, m.typ)})
    judge(c, ver, res, m.lines, (use, guard))


NULLS = ["b > 1", "abs b > 0", "-b < 3", "b + a > 1", "a * b > 1",
         "b in 0 .. 3", "a in b .. 3", "a in 0 .. b", "b in ar",
         "ar[b] > 1", "10 / b > 1", "10 % b > 1", "b ** 2 > 4",
         "Decimal(b) > 1.0", "(forall x in ar => x > b)",
         "(exists x in ar => b > x)", "b == a and b > 1",
         "(if b > 1 then f else true)"]
LOGIC = ["g", "g and f", "f and g", "g or f", "f or g", "f implies g",
         "g implies f", "f xor g", "g xor f", "not g", "oneof(g, f)",
         "oneof(f, g)", "oneof(f, f, g)", "(if g then f else true)",
         "(if f then g else true)", "(if f then true else g)",
         "(if f then true elsif g then true else false)",
         "(forall x in ar => g)", "(exists x in ar => x > 0 and g)"]
TEXTS = ["len(so) > 1", 'so + s == "a"', '"a" in so', "so in s",
         'startswith(so, "a")', "endswith(s, so)", 'matches(so, "a")',
         "so + so != s"]
ARRAYS = ["len(ao) > 1", "ao[0] > 1", "a in ao", "(forall x in ao => x > 1)",
          "(exists x in ao => x > a)", "ao[1] > 1", "ar[0] > 1",
          "ar[1] > 1", "ar[a] > 1", "ar[len(ar) - 1] > 1", "ar[ar[0]] > 1",
          "ar[-1] > 1", "(forall x in ar => ar[x] > 1)",
          "ar[3] > 1", "ao[len(ao) - 1] > 0", "ar[len(ar)] > 1",
          "ar[abs a] > 1", "ar[a * 2] > 1"]
DIVS = ["10 / a > 1", "10 % a > 1", "10 / (a - 3) > 1", "a / c > 1",
        "10 / len(ar) > 1", "(forall x in ar => 10 / x > 1)",
        "(exists x in ar => 10 / (x - a) > 1)", "10 / a / c > 1",
        "10 / (a * c) > 1", "10 / (a ** 2) > 1", "10 / abs a > 1",
        "10 / (-a) > 1"]
DECS = ["1.0 / d > 1.0", "d / (d - 1.5) > 1.0", "dn > 1.0", "dn / d > 1.0",
        "Integer(dn) > 1", "10 / Integer(d) > 1", "1.0 / (d * d) > 0.1",
        "d in 0.0 .. dn"]
TUPLES = ["t.y > 1", "tn.x > 1", "tn.y > 1", "10 / t.x > 1", "10 / t.y > 1",
          "ta[0].x > 1", "ta[0].y > 1", "(forall x in ta => x.y > 1)",
          "(exists x in ta => 10 / x.x > 1)", "tn.x == t.x",
          "tn.y == t.y", "ar[t.x] > 1"]
REFS = ["ro.j > 1", "r.i > 1", "ro.i > 1", "ro.i == null", "r.nx.j > 1",
        "r.nx.nx == null", "un.j > 1", "uo.j > 1", "un.k > 1", "un.i > 1",
        "un.k == null", "10 / r.j > 1", "10 / un.j > 1",
        "(forall x in ra => x.i > 1)", "ra[0].j > 1", "ro.j == r.j",
        "(exists x in ra => x.nx.j > 1)"]

GUARDS = [
    "b != null", "b == null", "b == a", "b != a", "not (b == null)",
    "b != null and b > 0", "b != null or f", "b == null or b == 1",
    "a > 0", "a != 0", "a in 1 .. 2", "a < 0 or a > 0", "a * a > 0",
    "len(ar) > a and a >= 0", "a != 3", "a > c", "a >= c and c > 0",
    "a >= 0 and a < 2 and len(ar) >= 2", "abs a > 1", "a % 2 == 1",
    "len(ar) > 0", "len(ar) >= 2", "len(ar) != 0", "len(ar) == 2",
    "ar[0] == 0", "len(ar) > 0 and ar[0] in 0 .. len(ar) - 1",
    "(forall x in ar => x > 0)", "(exists x in ar => x == 2)",
    "(forall x in ar => x != a)", "a in ar", "not (0 in ar)",
    "(forall x in ar => x >= 0 and x < len(ar))",
    "ao != null", "ao == null", "ao != null and len(ao) > 1",
    "g != null", "g == true", "g != f", "not f", "f", "g == null",
    "g", "so != null", 'so == "a"', "so != s", "so == s", "so == null",
    "d > 0.0", "d != 0.0", "d != 1.5", "dn != null", "dn == d",
    "Integer(d) != 0", "d >= 0.5", "abs d > 0.4",
    "t.y != null", "tn != null", "tn == t", "t.x != 0", "t.x > 0",
    "tn != null and tn.y != null", "len(ta) > 0", "len(ta) == 2",
    "(forall x in ta => x.y != null)", "t.y == null", "t.x == t.y",
    "t.x in 0 .. 1 and len(ar) > 1",
    "ro != null", "ro == r", "r.i != null", "ro != null and ro.i != null",
    "r.nx != null", "r.nx != r", "un != null", "uo != null", "uo == un",
    "un.k != null", "un == r", "un.i != null", "r.j > 0", "un.j != 0",
    "(forall x in ra => x.i != null)", "len(ra) > 0",
    "(forall x in ra => x.nx != null)", "r.nx == ro"]

# what is known by a fatal check, and statements that are then always true
# or always false
KNOWN = {
    "floor": (["a == %s and c == %s" % (x, y) for x in ("7", "(-7)", "6")
               for y in ("2", "(-2)", "3", "(-3)")],
              ["a / c == %s" % k for k in ("2", "3", "(-2)", "(-3)",
                                           "(-4)")] +
              ["a %% c == %s" % k for k in ("0", "1", "(-1)", "2", "(-2)")]),
    "powers": (["a == 2", "a == (-2)", "a == 0", "a == (-1)"],
               ["a ** 2 == 4", "a ** 3 == 8", "a ** 0 == 1", "a ** 1 == a",
                "a ** 3 == (-8)", "-a ** 2 == 4", "a ** 2 == a * a",
                "abs a == a", "abs a == -a", "abs a == 2", "+a == a"]),
    "orders": (["a > c", "a >= c", "a == c", "a < c", "a in c .. 3",
                "not (a in 0 .. c)", "a != c"],
               ["a > c", "a >= c", "a == c", "a < c", "a <= c", "c < a",
                "a != c", "a in c .. 9", "c in a .. a", "a - c > 0",
                "a in a .. c"]),
    "rounding": (["d == 0.5", "d == -0.5", "d == 1.5", "d == 0.4",
                  "d == -1.5", "d == 2.5", "d == -0.6"],
                 ["Integer(d) == %s" % k for k in (
                     "0", "1", "(-1)", "2", "(-2)", "3")] +
                 ["Decimal(Integer(d)) == d", "d / 2.0 == 0.25",
                  "d * 2.0 == 1.0", "abs d == -d", "d > 1.0", "-d < 0.0"]),
    "logic": (["f", "not f", "f == f2", "f and f2", "f or f2",
               "f xor f2", "f implies f2"],
              ["f and f2", "f or f2", "f xor f2", "f implies f2", "f == f2",
               "oneof(f, f2)", "oneof(f, f2, f)", "oneof(f)", "oneof(f, f)",
               "(if f then f2 else f)", "(if f then f2 else not f2)",
               "oneof(f, f2, f, f2)", "f2 implies f"]),
    "nulls": (["b == null", "b != null", "b == a", "b != a",
               "b == null or b == 1", "g == null", "g == f", "g != f"],
              ["b == null", "b != null", "b == a", "a == b", "g == null",
               "g != null", "g == f", "null == b", "b != 1",
               "null == null"]),
    "texts": (['s == "a"', 's == ""', 's != "a"', "so == s", "so == null",
               "len(s) == 1"],
              ['"a" in s', 's in "ab"', 'startswith(s, "a")',
               'endswith("ba", s)', 'startswith("ab", s)', "len(s) == 1",
               's + "b" == "ab"', '"" in s', 'endswith(s, "a")',
               'startswith(s + "b", "ab")', 'endswith(s, s + "b")',
               "so == s", "so != null", 'matches(s, "a")']),
    "arrays": (["len(ar) == 2 and ar[0] == 1 and ar[1] == 2",
                "len(ar) == 0", "len(ar) == 1", "len(ar) > 1",
                "(forall x in ar => x > 1)", "1 in ar", "not (1 in ar)",
                "(exists x in ar => x == 1)", "ao == null"],
               ["1 in ar", "3 in ar", "(forall x in ar => x > 0)",
                "(exists x in ar => x == 2)", "(forall x in ar => x == 1)",
                "(exists x in ar => x > 5)", "len(ar) <= 3", "len(ar) >= 1",
                "len(ar) in 0 .. 3", "len(ar) == 2", "ao == null",
                "ao != null", "(forall x in ar => x in ar)",
                "(exists x in ar => x in ar)"]),
    "tuples": (["t.x == 1 and t.y == null", "t.x == 1 and t.y == 2",
                "t == tn", "tn == null", "t != tn", "t.y == null",
                "len(ta) == 1"],
               ["t.x == 1", "t.y == null", "t.y == 2", "t == tn",
                "tn != null", "t in ta", "t != tn", "t.y == t.x",
                "len(ta) > 2", "(forall x in ta => x != t)"]),
    "enums": (["e == E.A", "e != E.A", "eo == null", "eo == e",
               "eo != null"],
              ["e == E.A", "e == E.B", "e == E.A or e == E.B", "eo == e",
               "eo == E.B", "eo != e", "eo != null"]),
    "refs": (["r == ro", "ro == null", "r != ro", "un == r", "uo == null",
              "r.i == null", "r.i == r.j", "un.k == null", "ro == un"],
             ["r == ro", "ro != null", "r == un", "un == uo", "r.i == null",
              "r.j == r.i", "un.k != null", "r == r.nx", "un.j == r.j",
              "r in ra", "r.nx == null"]),
}


def always(c, known, exprs):
    """a statement reported as always true, under a fatal check, is"""
    guard = c.pick("guard", known)
    use = c.pick("use", exprs)
    if c.choice("negated", 2):
        use = "not (" + use + ")"
    m = model("fatal", use, guard)
    ver = static_part(c, m.text)
    if ver is None:
        return
    names = names_in(use + " " + guard)
    res = common.run({FILE: m.text, "q.trlc": instance(c, names, m.typ)})
    judge(c, ver, res, m.lines, (use, guard))


FROZEN = [
    ("a Integer", "a = 2", "10 / (a - 2) > 1"),
    ("a Integer", "a = 2", "10 / (a - 3) > 1"),
    ("a Integer", "a = -3", "a < 0"),
    ("b optional Integer", "b = 1", "b > 0"),
    ("b optional Integer", "b = 1", "b != null"),
    ("b optional Integer", "b = 0", "10 / b > 0"),
    ("d Decimal", "d = -1.5", "d < -1.0"),
    ("f Boolean", "f = true", "f"),
    ("f Boolean", "f = false", "f"),
    ("s String", 's = "ab"', 'startswith(s, "a")'),
    ("s String", 's = "ab"', "10 / (len(s) - 2) > 1"),
    ("e E", "e = E.B", "e == E.B"),
    ("e E", "e = E.A", "e == E.B"),
]


def frozen(c, depth=2):
    """frozen components have their value, in the freezing type and below,
    and only there"""
    decl, frz, use = c.pick("case", FROZEN)
    level = c.choice("frozen at", depth)
    at = c.choice("checked at", depth + 1)
    of = c.choice("object of", depth + 1)
    m = Model()
    m.add("type T0 {\n  " + decl + "\n  x Integer\n}\n")
    for k in range(depth):
        m.add("type T%u extends T%u {\n%s}\n" % (
            k + 1, k, "  freeze " + frz + "\n" if k == level else ""))
    m.add("checks T%u {\n" % at)
    m.check(["x > 3"], "x", "fatal")
    m.check([use, " or 10 / (x - 3) < 0"], "use")
    m.add("}\n")
    ver = static_part(c, m.text)
    if ver is None:
        return
    text = "package P\nT%u o {\n  x = " % of + integer(c, "x") + "\n"
    name, _ = decl.split(" ", 1)
    if of <= level:
        v = value(c, name)
        if v is not None:
            text = text + "  " + name + " = " + v + "\n"
    res = common.run({FILE: m.text, "q.trlc": text + "}\n"})
    judge(c, ver, res, m.lines, (use, frz, level, at))


TUPLE_CHECKS = [
    "x > 0", "y != null implies y > x", "10 / x > 0", "y > 1",
    "y == null or 10 / y > 0", "x in 0 .. 5", "oneof(x > 1, y == null)",
    "y in x .. 4", "x != 0 and 10 / x > y", "x != null",
    "(if x > 1 then y == null else true)", "x > 2 or x < 4",
]


def prefixed(text, prefix):
    """x and y as fields"""
    out = ""
    for k, ch in enumerate(text):
        if ch in "xy" and not text[k - 1:k].isalpha() and \
           not text[k + 1:k + 2].isalpha():
            out += prefix
        out += ch
    return out


def of_tuple(c, checks, seconds):
    """checks of tuple types; an object gets as far as the checks of the
    record if its tuples pass (see DESIGN.md)"""
    first = c.pick("first", checks)
    sev = c.pick("severity", ["error", "fatal", "warning"])
    second = c.pick("second", seconds)
    where = c.pick("where", ["tuple", "record", "optional", "element"])
    m = Model("package P\ntuple Tu { x Integer separator ; "
              "y optional Integer }\n")
    m.add("checks Tu {\n")
    m.check([first], "first", sev)
    if where == "tuple":
        m.check([second], "second")
        m.add("}\ntype T { t Tu }\n")
        text = "t = " + tuple_value(c, "t")
    else:
        p, decl = {"record": ("t.", "t Tu"),
                   "optional": ("tn.", "tn optional Tu"),
                   "element": ("ta[0].", "ta Tu [1 .. 2]")}[where]
        m.add("}\ntype T { " + decl + " }\nchecks T {\n")
        m.check([prefixed(second, p)], "second")
        m.add("}\n")
        text = ""
        if where == "optional":
            if c.choice("given", 2):
                text = "tn = " + tuple_value(c, "t")
        elif where == "element":
            text = "ta = [" + tuple_value(c, "t") + "]"
        else:
            text = "t = " + tuple_value(c, "t")
    ver = static_part(c, m.text)
    if ver is None:
        return
    res = common.run({FILE: m.text, "q.trlc": "package P\nT o { " + text +
                      " }\n"})
    if where != "tuple" and \
       any(x.message == "first" and x.kind == "check error"
           for x in res.user):
        c.reach("tuple rejected")
        return
    judge(c, ver, res, m.lines, (first, second, where))


ABSENT = ["x < 0 and x > 0", "x > y and y > x", "false", "x > 1"]


def absent(c, checks, uses):
    """what limits an optional component says nothing if it is not there"""
    limit = c.pick("limit", ["array"] + checks)
    use = c.pick("use", uses)
    sev = c.pick("severity", ["error", "fatal"])
    m = Model("package P\ntuple Tu { x Integer separator ; "
              "y optional Integer }\n")
    if limit != "array":
        m.add("checks Tu {\n")
        m.check([limit], "limit", sev)
        m.add("}\n")
    m.add("type T {\n  o optional %s\n  n optional Integer\n"
          "  k Integer\n}\nchecks T {\n" %
          ("Integer [2 .. 1]" if limit == "array" else "Tu"))
    m.check([use], "use")
    m.add("}\n")
    ver = static_part(c, m.text)
    if ver is None:
        return
    text = "package P\nT e { k = " + integer(c, "k")
    if c.choice("n.given", 2):
        text = text + " n = " + integer(c, "n")
    if limit != "array" and c.choice("o.given", 2):
        text = text + " o = " + tuple_value(c, "o")
    res = common.run({FILE: m.text, "q.trlc": text + " }\n"})
    if any(x.message == "limit" for x in res.user) or \
       any(("(" + FILE + ":%u)" % n) in e.message
           for e in res.errors for n in m.lines.get("limit", [])):
        # the tuple itself is wrong
        c.reach("limited")
        return
    judge(c, ver, res, {"use": m.lines["use"]}, (use, limit))


QUOTES = ["s == '''\"'''", "s == '''\"\"'''", "e2 == F.X", "e2 != F.X"]


def example(extra, typ):
    """object text of a counterexample, None if it is not a definite one"""
    if extra is None or "unreliable" in extra or "???" in extra or \
       "instance_" in extra:
        return None
    i = extra.find(typ + " bad_potato {")
    if i < 0:
        return None
    return "package P\n" + extra[i:].replace("bad_potato", "o", 1)


def counterexample(c, uses, guards, forms):
    """an example shown with a problem has that problem"""
    use = c.pick("use", uses)
    mine = [g for g in guards if set(names_in(g)) & set(names_in(use))]
    form = c.pick("form", forms)
    guard = "true" if form == "plain" else c.pick("guard", mine)
    m = model(form, use, guard)
    ver = static_part(c, m.text)
    if ver is None:
        return
    for kind, line, _, message, cat, extra in ver["messages"]:
        if kind != "issue" or not cat.startswith("vcg-") or \
           cat == "vcg-always-true":
            continue
        text = example(extra, m.typ)
        if text is None:
            c.reach("no example")
            continue
        # errors in the checks of a parent concern its objects
        c.reach("example")
        res = common.run({FILE: m.text, "q.trlc": text})
        spread = [ls for ls in m.lines.values() if line in ls]
        ok = False
        for e in res.errors:
            if problem(e.message) in (cat, None) and \
               any(("(" + FILE + ":%u)" % n) in e.message or
                   (e.file == FILE and e.line == n)
                   for ls in spread for n in ls):
                ok = True
        c.check(ok, "the example for %s (%s, %s, %s) does not show it: %s",
                message, use, form, guard, text + res.summary())


IMPORTED = ["10 / a > 1", "e == Lib.E.A and 10 / a > 1",
            "t.e == Lib.E.B implies 10 / t.n > 1", "b != null and b > a",
            "o.e == e", "10 / (a - len(ae)) > 1", "ae[1] == e",
            "10 / n > 1", "e == Lib.E.A implies b > 1"]


def imported(c, exprs):
    """types of other packages in examples and checks"""
    use = c.pick("use", exprs)
    ext = c.choice("extension", 2)
    m = Model("package P\nimport Lib\n")
    # the base type gives the extension its components
    m.add("type T " + ("extends Lib.R " if ext else "") + "{\n" +
          ("" if ext else "  e Lib.E\n  n Integer\n") +
          "  a Integer\n  b optional Integer\n  t Lib.Tu\n"
          "  o optional Lib.Tu\n  ae Lib.E [1 .. 2]\n}\nchecks T {\n")
    m.check([use], "use")
    m.add("}\n")
    ver = static_part(c, m.text)
    if ver is None:
        return
    for kind, line, _, message, cat, extra in ver["messages"]:
        text = example(extra, "T")
        if cat is None or not cat.startswith("vcg-") or text is None:
            continue
        c.reach("example")
        files = sources(m.text)
        files["q.trlc"] = text.replace("package P", "package P import Lib")
        res = common.run(files)
        c.check(any(problem(e.message) in (cat, None) and
                    ("(" + FILE + ":%u)" % line) in e.message
                    for e in res.errors) or
                any(e.file == FILE and e.line == line for e in res.errors),
                "the example for %s (%s) does not show it: %s", message, use,
                text + res.summary())
    # any object
    text = "package P import Lib\nT x {\n e = Lib.E." + \
        c.pick("e", ["A", "B"]) + " n = " + integer(c, "n") + \
        " a = " + integer(c, "a") + " t = Lib.E.B@" + \
        c.int_text("t.n", 1)[0]
    if c.choice("b.given", 2):
        text = text + " b = " + integer(c, "b")
    if c.choice("o.given", 2):
        text = text + " o = Lib.E.A@3"
    text = text + " ae = [Lib.E.A" + \
        (", Lib.E.B" if c.choice("ae.len", 2) else "") + "] }\n"
    files = sources(m.text)
    files["q.trlc"] = text
    res = common.run(files)
    if ext and any(x.message == "small" for x in res.user):
        c.check(not any(x.message == "use" for x in res.user),
                "the check of the base type is fatal")
        return
    judge(c, ver, res, m.lines, (use, ext))


ODD = [
    "10 / a > 1", "10 % b == 1", "ar[a] > 1", "ar == ar", "ta == ta",
    "(forall x in ar => oneof(x > 1, x > 2))",
    "(forall x in ar => (if x > 1 then true else false))",
    "(forall x in ar => (exists y in ar => x == y))",
    "(exists x in ta => x.y in 1 .. 3)", "(forall x in ta => x == t)",
    "(forall x in ra => x == r)", "(exists x in ra => x.nx == null)",
    "u == t", "un == r", "r in ra", "a in ar", "t in ta", "null == null",
    "true", "false", "f implies false", "d ** 3 > 1.0", "a ** 0 == 1",
    "a in a .. a", "Integer(d) in 0 .. len(s)", "len(m) > 2", "m == s",
    'm + s == "x"', 'startswith(m, "a")', "m != null",
    "oneof(f, f2, g)", "(if f then g elsif f2 then f else g) == null",
    "(if f then b else a) == null", "(a > 1) == f", "e == eo",
    "s + so == s", "r.nx.nx.j > 1", "un.i == null", "(f) xor (g)",
    "not not f", "abs -a > 1", "a == b", "t.x == tn.y", "uo == ro",
    'matches(s, "^[a-z]*$")', "unknown > 1", "a", "f and", "a + f > 1",
    "t.z > 1", "ar[f] > 1", "a / 0 > 1", "a % 0 == 1", "10 / (a - a) > 1",
    "1.0 / 0.0 > d", "ar[-1] > 1", "b > null", "null",
]


def harmless(c, exprs):
    """verification never fails and influences nothing else"""
    expr = c.pick("expression", exprs)
    typ = c.pick("type", ["type", "extension", "tuple field"])
    DECL2 = dict(DECL, m="Markup_String", u="optional Tu")
    decl = "".join("  %s %s\n" % x for x in DECL2.items())
    m = PRELUDE
    if typ == "tuple field":
        m += "tuple Q { a Integer separator : t Tu separator @ " \
            "b optional Integer }\nchecks Q { " + expr + ', "use" }\n'
        m += "type T { q Q }\n"
        obj = "T o { q = 1:2@3 }"
    else:
        m += "type T {\n" + decl + "}\n"
        if typ == "extension":
            m += "checks T { a > 0, fatal \"first\" }\n"
        m += "type S extends T { freeze a = 1 freeze f = true }\n"
        m += "checks %s { " % ("T" if typ == "type" else "S") + expr + \
            ', "use" }\n'
        obj = "T o { a = 1 c = 2 d = 1.5 f = true f2 = false s = \"a\" " \
            "e = E.A ar = [] t = 1 r = r1 un = z1 ta = [] ra = [] " \
            "m = \"b\" }"
    trlc = "package P\n" + TARGETS + obj
    with_it = verify(c, m, True, trlc)
    without = verify(c, m, False, trlc)
    c.check(with_it["crash"] is None, "verification of %s in %s failed: %s",
            expr, typ, with_it["crash"])
    c.check(with_it["accepted"] == without["accepted"],
            "verification changes acceptance of %s", expr)
    rest = [x for x in with_it["messages"]
            if not (x[4] or "").startswith("vcg-") and
            "not yet supported" not in x[3]]
    c.check(rest == without["messages"],
            "verification changes the messages for %s: %s instead of %s",
            expr, rest, without["messages"])
    if len(rest) != len(with_it["messages"]):
        c.reach("issue")


GROUPS = {"nulls": NULLS, "logic": LOGIC, "texts": TEXTS, "arrays": ARRAYS,
          "divs": DIVS, "decs": DECS, "tuples": TUPLES, "refs": REFS}


def cases(tier):
    seconds = TUPLE_CHECKS[::2 if tier == "quick" else 1]
    some = 1 if tier == "quick" else None
    out = []
    for name, uses in GROUPS.items():
        for k in range(0, len(uses), 3):
            out.append({
                "name": "sound %s %u" % (name, k // 3), "property": "C21",
                "func": "sound", "group": "sound " + name,
                "params": {"args": {"uses": uses[k:k + 3], "guards": GUARDS,
                                    "forms": FORMS, "some": some}},
                "expect": ["problem", "violated"], "replay": 0.1,
                "weight": 3 if name in ("decs", "divs") else 1,
                "bounds": "checks %s, alone and with guards about the "
                "same components in %s of %u forms; integers and decimals of "
                "one digit and sign, arrays up to 2 elements, strings up to "
                "1 character" % ("; ".join(uses[k:k + 3]),
                                 "some" if some else "each", len(FORMS))})
    for name, (known, exprs) in KNOWN.items():
        for k in range(0, len(known), 4):
            out.append({
                "name": "always %s %u" % (name, k // 4), "property": "C21",
                "func": "always", "group": "always " + name,
                "params": {"args": {"known": known[k:k + 4],
                                    "exprs": exprs}},
                "expect": ["always", "violated"], "replay": 0.1,
                "bounds": "fatal checks %s followed by each of %s and its "
                "negation" % ("; ".join(known[k:k + 4]), "; ".join(exprs))})
    out.append({
        "name": "later fatal", "property": "C21", "func": "later_fatal",
        "expect": ["violated"], "replay": 0.1,
        "bounds": "checks that follow a reference before a fatal check that "
        "does not: %s" % "; ".join("%s before %s" % x for x in LATE)})
    out.append({
        "name": "frozen", "property": "C21", "func": "frozen",
        "expect": ["always", "violated", "problem"], "replay": 0.1,
        "bounds": "%u frozen values and checks at each of 3 levels of a "
        "hierarchy, objects of each level" % len(FROZEN)})
    for k in range(0, len(TUPLE_CHECKS), 3):
        out.append({
            "name": "tuple checks %u" % (k // 3), "property": "C21",
            "func": "of_tuple", "group": "tuple checks", "replay": 0.1,
            "params": {"args": {"checks": TUPLE_CHECKS[k:k + 3],
                                "seconds": seconds}},
            "expect": ["always", "violated", "problem", "tuple rejected"],
            "bounds": "%s in a tuple type, followed by each of %s there or "
            "in a record" % ("; ".join(TUPLE_CHECKS[k:k + 3]),
                             "; ".join(seconds))})
    out.append({
        "name": "absent", "property": "C21", "func": "absent", "replay": 0.1,
        "params": {"args": {"checks": ABSENT, "uses": [
            "n > 1", "10 / k > 1", "o == null", "o != null", "k > 3",
            "o != null implies n > 1", "o == null implies 10 / k > 1"]}},
        "expect": ["always", "violated", "problem", "limited"],
        "bounds": "an optional tuple with checks %s or an optional array "
        "[2 .. 1], given or not, and checks about it and other "
        "components" % "; ".join(ABSENT)})
    for name, uses in GROUPS.items():
        out.append({
            "name": "examples " + name, "property": "C21", "weight": 2,
            "func": "counterexample", "replay": 0.1,
            # in a quantifier a problem is shown that may hide behind the
            # element that decides it (see DESIGN.md)
            "params": {"args": {"uses": [u for u in uses if "=>" not in u],
                                "guards": GUARDS + QUOTES,
                                "forms": ["plain", "implies", "fatal"]}},
            "expect": ["example"] if name != "refs" else [],
            "bounds": "every example shown for checks %s, alone and with "
            "each guard" % "; ".join(uses)})
    for k in range(0, len(ODD), 10):
        out.append({
            "name": "harmless %u" % (k // 10), "property": "C21",
            "func": "harmless", "group": "harmless", "replay": 0.1,
            "params": {"args": {"exprs": ODD[k:k + 10]}},
            "expect": ["issue"],
            "bounds": "%s as a check of a type, an extension and a tuple "
            "type" % "; ".join(ODD[k:k + 10])})
    for k in range(0, len(IMPORTED), 3):
        out.append({
            "name": "imported %u" % (k // 3), "property": "C21",
            "func": "imported", "group": "imported", "replay": 0.1,
            "params": {"args": {"exprs": IMPORTED[k:k + 3]}},
            "expect": ["example", "problem", "violated"],
            "bounds": "%s with types of another package, with or without "
            "extending one" % "; ".join(IMPORTED[k:k + 3])})
    return out
