"""C12 record objects, C13 value typing and array sizes, C14 tuples,
C17 inheritance, C18 union types."""

from symx import common
from symx.logic import AND, OR, NOT, text


def judge(c, res, ok, what=""):
    """accepted iff ok; never an internal failure; rejection is explained"""
    c.check(res.crash is None, "internal failure: %s", res.summary())
    if res.crash is not None:
        return False
    if ok:
        c.reach("legal")
        c.check(res.accepted, "legal %s rejected: %s", what, res.summary())
        c.check(len(res.errors) == 0, "legal %s has errors: %s", what,
                res.summary())
        return res.accepted
    c.reach("illegal")
    c.check(not res.accepted, "illegal %s accepted: %s", what, res.summary())
    c.check(len(res.errors) >= 1, "rejected %s without error: %s", what,
            res.summary())
    return False


def same(a, b):
    """equal values, also for nested lists and dictionaries of symbolic
    values"""
    if isinstance(b, dict):
        if not isinstance(a, dict) or list(a) != list(b):
            return False
        return AND(True, *[same(a[k], b[k]) for k in b])
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return False
        return AND(True, *[same(x, y) for x, y in zip(a, b)])
    if b is None or a is None:
        return a is None and b is None
    if isinstance(b, bool) or isinstance(a, bool):
        return a is b
    return a == b


# ---------------------------------------------------------------- C12

def components(c, n=3, split=False):
    """mandatory, optional, missing, repeated components in any order"""
    names = ["aa", "bb", "cc"][:n]
    opt = [c.choice("opt%u" % k, 2) == 1 for k in range(n)]
    decl = [" %s %sInteger\n" % (names[k], "optional " if opt[k] else "")
            for k in range(n)]
    if split:
        rsl = "package P\ntype B {\n" + decl[0] + "}\ntype T extends B {\n" \
            + "".join(decl[1:]) + "}\n"
    else:
        rsl = "package P\ntype T {\n" + "".join(decl) + "}\n"
    m = c.choice("assignments", n + 2)
    trlc = "package P\nT obj {\n"
    want = {x: None for x in names}
    dup = False
    for k in range(m):
        i = c.choice("which%u" % k, n)
        t, v = c.int_text("v%u" % k, 2)
        trlc = trlc + " %s = " % names[i] + t + "\n"
        if want[names[i]] is not None:
            dup = True
        else:
            want[names[i]] = v
    res = common.run({"a.rsl": rsl, "a.trlc": trlc + "}\n"})
    ok = not dup and all(opt[k] or want[names[k]] is not None
                         for k in range(n))
    if judge(c, res, ok, "object"):
        c.check(res.obj("obj") is not None, "object is in the symbol table")
        c.check(same(res.fields("obj"), want), "values of the object: %s",
                repr(list(want)))


def many_components(c, n=8, levels=4):
    """the same for many components spread over a chain of extensions"""
    names = ["c%u" % k if k % 2 else "c%u%s" % (k, "x" * k)
             for k in range(n)]
    opt = c.choice("optional", n + 1)
    missing = c.choice("missing", n + 1)
    twice = c.choice("twice", n + 1)
    turn = c.pick("order", [0, 1, n // 2, n - 1, -1])
    per = (n + levels - 1) // levels
    rsl = "package P\n"
    for k in range(levels):
        rsl += "type T%u %s{\n" % (k, "extends T%u " % (k - 1) if k else "")
        for j in range(k * per, min(n, (k + 1) * per)):
            rsl += " %s %sInteger\n" % (names[j],
                                        "optional " if j == opt else "")
        rsl += "}\n"
    order = list(range(n))
    order = order[::-1] if turn == -1 else order[turn:] + order[:turn]
    trlc = "package P\nT%u obj {\n" % (levels - 1)
    want = {x: None for x in names}
    for k in order:
        if k == missing:
            continue
        t, v = c.int_text("v%u" % k, 1)
        trlc = trlc + " %s = " % names[k] + t + "\n"
        want[names[k]] = v
        if k == twice:
            trlc = trlc + " %s = 1\n" % names[k]
    res = common.run({"a.rsl": rsl, "a.trlc": trlc + "}\n"})
    ok = missing in (n, opt) and twice in (n, missing)
    if judge(c, res, ok, "object"):
        c.check(same(res.fields("obj"), want), "values of the object")


def component_name(c, n=2):
    """components are named exactly as declared"""
    nm = c.string_upto("name", n, "aAb_1", minlen=1)
    c.assume(OR(nm[0] == "a", nm[0] == "A", nm[0] == "b"))
    t, v = c.int_text("v", 1)
    res = common.run({
        "a.rsl": "package P\ntype T { ab optional Integer a1 optional "
        "Integer }\n",
        "a.trlc": "package P\nT obj { " + nm + " = " + t + " }\n"})
    ok = bool(OR(nm == "ab", nm == "a1"))
    if judge(c, res, ok, "component name"):
        f = res.fields("obj")
        first = bool(nm == "ab")
        c.check(same(f, {"ab": v if first else None,
                         "a1": None if first else v}), "value")


def object_type(c, n=2):
    """objects can be declared for visible non-abstract record types only"""
    nm = c.string_upto("name", n, "RATEPrx", minlen=1)
    pk = c.pick("prefix", ["", "P.", "Q.", "Integer."])
    res = common.run({
        "a.rsl": "package P\ntype R { }\nabstract type A { }\n"
        "tuple T { v Integer }\nenum E { r }\ntype Rr extends A { }\n"
        "final type Px { }\n",
        "b.rsl": "package Q\ntype Rx { }\n",
        "a.trlc": "package P\n" + pk + nm + " obj { }\n"})
    ok = False
    for good in ("R", "Rr", "Px"):
        ok = OR(ok, nm == good)
    ok = bool(ok) and pk in ("", "P.")
    if judge(c, res, ok, "object type"):
        c.check(res.obj("obj").n_typ.name == nm, "type of the object")


def python_values(c):
    """the API shows the value written for every kind of type"""
    it, iv = c.int_text("i", 2)
    ineg = c.choice("ineg", 3)
    dt, dv = c.dec_text("d", 1, 1)
    s = c.string_upto("s", 2, "ab ")
    b = c.choice("b", 2) == 1
    lit = c.pick("lit", ["RED", "BLUE"])
    n = c.choice("n", 3)
    at, av = [], []
    for k in range(n):
        t, v = c.int_text("e%u" % k, 1)
        at.append(t)
        av.append(v)
    t2, v2 = c.int_text("t2", 1)
    has2 = c.choice("has2", 2)
    rsl = "package P\nenum Col { RED BLUE }\n" \
        "tuple Tu { x Integer separator ; y optional Integer }\n" \
        "tuple Ge { x Integer y Tu }\ntype R { }\n" \
        "type T extends R { i Integer d Decimal s String m Markup_String " \
        "b Boolean e Col a Integer [0 .. *] t Tu g Ge r R u [R, T] " \
        "ra R [1 .. *] o optional Integer }\n"
    tup = t2 + (" ; " + it if has2 else "")
    sign = ["", "-", "+"][ineg]
    trlc = "package P\nR other { }\nT obj { i = " + sign + it + " d = -" + \
        dt + ' s = "' + s + '" m = "' + s + '" b = ' + \
        ("true" if b else "false") + " e = Col." + lit + " a = ["
    for k in range(n):
        trlc = trlc + (", " if k else "") + at[k]
    trlc = trlc + "] t = " + tup + " g = (1, " + tup + ")\n" \
        " r = other u = P.obj ra = [other, obj] }\n"
    res = common.run({"a.rsl": rsl, "a.trlc": trlc})
    if not judge(c, res, True, "object"):
        return
    tu = {"x": v2, "y": iv if has2 else None}
    f = res.fields("obj")
    want = {"i": -iv if ineg == 1 else iv, "s": s, "m": s, "b": b,
            "e": "Col." + lit, "a": av, "t": tu,
            "g": {"x": 1, "y": tu}, "r": "P.other", "u": "P.obj",
            "ra": ["P.other", "P.obj"], "o": None}
    names = list(f)
    d = f.pop("d")
    e = f.pop("e")
    c.check(sorted(names) == sorted(list(want) + ["d"]),
            "components %s", repr(names))
    c.check(e == "Col." + lit or e == lit, "enumeration value %s", repr(e))
    want.pop("e")
    c.check(same({k: f[k] for k in want}, want), "values %s", repr(names))
    c.check(d == float(-dv), "decimal value")
    c.check(res.number("obj", "d") == -dv, "exact decimal value")
    o = res.obj("obj")
    c.check(o.fully_qualified_name() == "P.obj" and o.n_typ.name == "T",
            "name and type of the object")


# ---------------------------------------------------------------- C13

def value_forms(c):
    """(form, text): a symbolic selection of a value"""
    forms = ["int", "-int", "+int", "--int", "dec", "-dec", "str", "-str",
             "true", "false", "null", "not", "enum", "enum2", "enumq", "lit",
             "badlit", "ref", "refq", "ext", "base", "other", "undef",
             "self", "type", "empty", "[int]", "[dec]", "[[int]]", "(int)",
             "(int,int)", "int,int", "markup", "word int"]
    return c.pick("form", forms)


def typing(c, typ="Integer"):
    """a value is accepted iff it has the type of the component"""
    form = value_forms(c)
    i, iv = c.int_text("i", 1)
    d, dv = c.dec_text("d", 1, 1)
    st = c.string_upto("s", 1, "a[]")
    text = {"int": i, "-int": "-" + i, "+int": "+" + i, "--int": "- -" + i,
            "dec": d, "-dec": "-" + d, "str": '"' + st + '"',
            "-str": '-"' + st + '"', "true": "true", "false": "false",
            "null": "null", "not": "not true", "enum": "E.A",
            "enum2": "F.A", "enumq": "P.E.B", "lit": "A", "badlit": "E.C",
            "ref": "rec", "refq": "P.rec", "ext": "sub", "base": "bas",
            "other": "oth", "undef": "nosuch", "self": "obj", "type": "R",
            "empty": "[]", "[int]": "[" + i + "]", "[dec]": "[" + d + "]",
            "[[int]]": "[[" + i + "]]", "(int)": "(" + i + ")",
            "(int,int)": "(" + i + ", 2)", "int,int": i + ", 2",
            "markup": '"[[rec]]"', "word int": "w " + i}[form]
    num = {"Integer": ("int", "-int", "+int"), "Decimal": ("dec", "-dec")}
    good = {"Integer": num["Integer"], "Decimal": num["Decimal"],
            "Boolean": ("true", "false"), "String": ("str", "markup"),
            "Markup_String": ("str", "markup"), "E": ("enum", "enumq"),
            "R": ("ref", "refq", "ext", "self"),
            "S": ("ext",), "Integer [0 .. *]": ("empty", "[int]"),
            "Decimal [0 .. *]": ("empty", "[dec]"),
            "R [0 .. *]": ("empty",), "Tu": ("(int,int)",),
            "One": ("(int)",), "[S, O]": ("ext", "other")}[typ]
    rsl = "package P\nenum E { A B }\nenum F { A C }\n" \
        "tuple Tu { x Integer y Integer }\ntuple One { x Integer }\n" \
        "type Ba { }\ntype R extends Ba { }\ntype S extends R { }\n" \
        "type O { }\ntype T extends R { v " + typ + " }\n"
    objs = "Ba bas { }\nR rec { }\nS sub { }\nO oth { }\n"
    order = c.choice("declared_after", 2)
    use = "T obj { v = " + text + " }\n"
    res = common.run({"a.rsl": rsl, "a.trlc": "package P\n" +
                      (use + objs if order else objs + use)})
    ok = form in good
    if typ == "Markup_String" and form == "str":
        ok = True       # one character cannot be a reference list
    if judge(c, res, ok, "value %s for %s" % (form, typ)):
        f = res.fields("obj")["v"]
        want = {"int": iv, "-int": -iv, "+int": iv, "dec": float(dv),
                "-dec": float(-dv), "str": st, "markup": "[[rec]]", "true": True, "false": False,
                "ref": "P.rec", "refq": "P.rec", "ext": "P.sub",
                "other": "P.oth", "self": "P.obj", "empty": [],
                "[int]": [iv], "[dec]": [float(dv)],
                "(int)": {"x": iv}, "(int,int)": {"x": iv, "y": 2}}
        if form in want:
            c.check(same(f, want[form]), "value of %s", form)
        if form in ("dec", "-dec"):
            c.check(res.number("obj", "v") == (dv if form == "dec" else -dv),
                    "exact value of %s", form)


def enum_literal(c, n=2):
    """only literals of the enumeration, spelled exactly"""
    nm = c.string_upto("name", n, "aAbB_", minlen=1)
    c.assume(OR(*[nm[0] == x for x in "aAbB"]))
    en = c.pick("enum", ["E", "F", "P.E", "P.F", "e"])
    res = common.run({
        "a.rsl": "package P\nenum E { aB b_ A }\nenum F { a B }\n"
        "type T { v E }\n",
        "a.trlc": "package P\nT obj { v = " + en + "." + nm + " }\n"})
    ok = bool(OR(nm == "aB", nm == "b_", nm == "A")) and en in ("E", "P.E")
    if judge(c, res, ok, "literal"):
        v = res.fields("obj")["v"]
        c.check(OR(v == "E." + nm, v == nm), "value of the literal")


def array_bounds(c, nmax=3, elem="Integer", inherited=False, digits=1):
    """number of elements is within the declared bounds, both inclusive"""
    lt, lo = c.int_text("lo", digits)
    star = c.choice("star", 2)
    ht, hi = c.int_text("hi", digits)
    n = c.choice("n", nmax + 1)
    c.assume(lo <= nmax + 1)
    c.assume(hi <= nmax + 1)
    if star:
        ht = "*"
    el = {"Integer": "7", "R": "rec", "Tu": "(1)", "E": "E.A",
          "String": '"x"'}[elem]
    vals = ", ".join([el] * n)
    rsl = "package P\nenum E { A }\ntype R { }\ntuple Tu { x Integer }\n" \
        "type T { v " + elem + " [" + lt + " .. " + ht + "] }\n" + \
        ("type S extends T { }\n" if inherited else "")
    res = common.run({"a.rsl": rsl, "a.trlc": "package P\nR rec { }\n" +
                      ("S" if inherited else "T") + " obj {\n v = [" + vals +
                      "] }\n"})
    ok = bool(lo <= n) and (star == 1 or bool(n <= hi))
    if judge(c, res, ok, "array"):
        c.check(len(res.fields("obj")["v"]) == n, "all elements kept")
    elif res.crash is None:
        c.check(all(m.file == "a.trlc" and m.line == 4 for m in res.errors),
                "error is at the array: %s", res.summary())


def array_form(c, n=3):
    """elements are separated by exactly one comma"""
    toks = [c.pick("t%u" % k, ["", "1", ",", "2"]) for k in range(n)]
    toks = [t for t in toks if t]
    res = common.run({"a.rsl": "package P\ntype T { v Integer [0 .. *] }\n",
                      "a.trlc": "package P\nT obj { v = [ " +
                      " ".join(toks) + " ] }\n"})
    # a trailing comma is tolerated by the implementation and not settled by
    # the manual's prose, so it is not judged
    body = toks[:-1] if toks and toks[-1] == "," and len(toks) > 1 else toks
    ok = all((t == ",") == (k % 2 == 1) for k, t in enumerate(body)) and \
        (len(body) % 2 == 1 or not body)
    if ok and body is not toks:
        c.check(res.crash is None, "internal failure: %s", res.summary())
        return
    if judge(c, res, ok, "array aggregate"):
        c.check(res.fields("obj")["v"] == [int(t) for t in toks
                                           if t != ","], "elements")


# ---------------------------------------------------------------- C14

SEPS = ["@", ":", ";", "x", "to"]


def tuple_value(c, n=3, seps=None, noise=True):
    """a value of a tuple with separators has them all, in order; optional
    fields may be left out from some point on"""
    names = "abcd"[:n]
    sep = [c.pick("sep%u" % k, seps or SEPS[:3] + SEPS[4:])
           for k in range(n - 1)]
    first_opt = c.choice("first_optional", n) + 1       # n: none
    rsl = "package P\ntuple Tu { a Integer"
    for k in range(1, n):
        rsl += " separator %s %s %sInteger" % (
            sep[k - 1], names[k], "optional " if k >= first_opt else "")
    rsl += " }\ntype T { v Tu w optional Integer }\n"
    given = c.choice("given", n) + 1
    bad = c.choice("wrong", 3) if noise else 0
    text = ""
    vals = []
    where = 0
    if bad and given > 1:
        where = 1 + c.choice("where", given - 1)
    for k in range(given):
        if k:
            s = sep[k - 1]
            if k == where:
                s = "" if bad == 1 else [x for x in ("@", ";", "x", "to",
                                                     ":") if x != s][
                    c.choice("other", 2)]
            text = text + " " + s + " "
        t, v = c.int_text("v%u" % k, 1)
        text = text + t
        vals.append(v)
    last = c.choice("last", 2)
    res = common.run({"a.rsl": rsl, "a.trlc":
                      "package P\nT obj { " + ("w = 5 " if last else "") +
                      "v = " + text + (" }\n" if last else " w = 5 }\n")})
    ok = not where and given >= min(first_opt, n)
    if judge(c, res, ok, "tuple value"):
        want = {names[k]: vals[k] if k < given else None for k in range(n)}
        c.check(same(res.fields("obj"), {"v": want, "w": 5}), "value")


def tuple_generic(c, n=3):
    """generic form: brackets, commas, one value for each field in order"""
    names = "abcd"[:n]
    kinds = [c.pick("typ%u" % k, ["Integer", "String"]) for k in range(n)]
    rsl = "package P\ntuple Tu { " + " ".join(
        "%s %s" % (names[k], kinds[k]) for k in range(n)) + \
        " }\ntype T { v Tu }\n"
    m = c.choice("given", n + 2)
    form = c.choice("form", 4)
    text = ""
    vals = []
    kinds_ok = True
    for k in range(m):
        if k:
            text = text + (", " if form != 2 else " ")
        if c.choice("string%u" % k, 2):
            s = c.string_upto("s%u" % k, 1, "ab")
            text = text + '"' + s + '"'
            vals.append(s)
            kinds_ok = kinds_ok and k < n and kinds[k] == "String"
        else:
            t, v = c.int_text("v%u" % k, 1)
            text = text + t
            vals.append(v)
            kinds_ok = kinds_ok and k < n and kinds[k] == "Integer"
    if form != 1:
        text = "(" + text + (",)" if form == 3 else ")")
    res = common.run({"a.rsl": rsl, "a.trlc":
                      "package P\nT obj { v = " + text + " }\n"})
    ok = kinds_ok and m == n and (form == 0 or (form == 2 and n == 1))
    if judge(c, res, ok, "tuple value"):
        c.check(same(res.fields("obj")["v"], dict(zip(names, vals))),
                "value")


def separator_text(c, n=2, common_part=""):
    """the separator has to be repeated exactly as declared"""
    if common_part:
        decl = common_part + c.string_upto("declared", n, "a_1")
        used = common_part[:len(common_part) -
                           c.choice("shorter", 2)] + \
            c.string_upto("used", n, "aA_1")
    else:
        decl = c.string("declared", n, "aBb_1")
        used = c.string("used", n, "aABb_1")
        for w in (decl, used):
            c.assume(NOT(OR(w[0] == "_", w[0] == "1")))
    decl = text(decl)
    t1, v1 = c.int_text("v1", 1)
    t2, v2 = c.int_text("v2", 1)
    res = common.run({"a.rsl": "package P\ntuple Tu { x Integer separator " +
                      decl + " y Integer }\ntype T { v Tu }\n",
                      "a.trlc": "package P\nT obj { v = " + t1 + " " + used +
                      " " + t2 + " }\n"})
    if judge(c, res, bool(used == decl), "separator"):
        c.check(same(res.fields("obj"), {"v": {"x": v1, "y": v2}}), "value")


def tuple_reference(c):
    """record references, enumerations and texts as fields of tuples"""
    sep = c.choice("separators", 2)
    use = c.choice("value_with_separators", 2)
    wrap = c.choice("place", 3)         # component, array, nested tuple
    ref = c.pick("reference", ["early", "late", "sub", "other", "P.late",
                               "Q.qq", "Q.other", "nosuch", "Tu", "null",
                               "Late", "1"])
    lit = c.pick("literal", ["E.A", "P.E.B", "F.A", "E.C", "A"])
    t, v = c.int_text("v", 1)
    rsl = "package P\nimport Q\nenum E { A B }\nenum F { A }\n" \
        "type R extends Q.R { }\ntype S extends R { }\ntype O { }\n" \
        "tuple Tu { k Q.R %s l E %s n Integer }\n" \
        "tuple Ou { tu Tu z Integer }\n" \
        "type T { v %s }\n" % (
            "separator @" if sep else "", "separator ;" if sep else "",
            ["Tu", "Tu [1 .. 2]", "Ou"][wrap])
    if use:
        val = ref + " @ " + lit + " ; " + t
    else:
        val = "(" + ref + ", " + lit + ", " + t + ")"
    if wrap == 1:
        val = "[" + val + ", " + val + "]"
    elif wrap == 2:
        val = "(" + val + ", 7)"
    trlc = "package P\nimport Q\nR early { }\nT obj { v = " + val + \
        " }\nR late { }\nS sub { }\nO other { }\n"
    res = common.run({"a.rsl": rsl, "q.rsl": "package Q\ntype R { }\n"
                      "type O { }\n", "a.trlc": trlc,
                      "q.trlc": "package Q\nR qq { }\nO other { }\n"})
    full = {"early": "P.early", "late": "P.late", "sub": "P.sub",
            "P.late": "P.late", "Q.qq": "Q.qq"}
    ok = use == sep and ref in full and lit in ("E.A", "P.E.B")
    if judge(c, res, ok, "reference in a tuple"):
        one = {"k": full[ref], "l": lit[-1], "n": v}
        want = [one, [one, one], {"tu": one, "z": 7}][wrap]
        c.check(same(res.fields("obj"), {"v": want}), "value %s",
                repr(res.fields("obj")))


def tuple_nested(c):
    """tuples in tuples, arrays of tuples and tuples with several types"""
    outer_sep = c.choice("outer_sep", 2)
    inner_sep = c.choice("inner_sep", 2)
    rsl = "package P\ntuple In { a Integer %s b Integer }\n" \
        "tuple Ou { c Integer %s d In %s e Decimal }\n" \
        "type T { v Ou w In [1 .. *] }\n" % (
            "separator :" if inner_sep else "",
            "separator @" if outer_sep else "",
            "separator ;" if outer_sep else "")
    ts, vs = [], []
    for k in range(3):
        t, v = c.int_text("v%u" % k, 1)
        ts.append(t)
        vs.append(v)
    use = c.choice("value_with_inner_separator", 2)
    useo = c.choice("value_with_outer_separator", 2)
    inner = ts[1] + ":" + ts[2] if use else "(" + ts[1] + ", " + ts[2] + ")"
    outer = ts[0] + "@" + inner + ";1.5" if useo else \
        "(" + ts[0] + ", " + inner + ", 1.5)"
    res = common.run({"a.rsl": rsl, "a.trlc": "package P\nT obj { v = " +
                      outer + " w = [" + inner + ", " + inner + "] }\n"})
    ok = not (outer_sep and inner_sep) and use == inner_sep and \
        useo == outer_sep
    if judge(c, res, ok, "nested tuple"):
        inn = {"a": vs[1], "b": vs[2]}
        f = res.fields("obj")
        c.check(same(f["w"], [inn, inn]), "array of tuples")
        c.check(same({k: f["v"][k] for k in "cd"}, {"c": vs[0], "d": inn}),
                "nested value")


def tuple_declaration(c, n=3):
    """separators between all fields or none; optional fields need
    separators and come last; unique field names; complete field types"""
    names = [c.pick("name%u" % k, ["aa", "b%u" % k, "A_a"])
             for k in range(n)]
    sep = [c.choice("sep%u" % k, 2) == 1 for k in range(n - 1)]
    opt = [c.choice("opt%u" % k, 2) == 1 for k in range(n)]
    rsl = "package P\ntuple Tu {"
    for k in range(n):
        if k and sep[k - 1]:
            rsl += " separator @"
        rsl += " %s %sInteger" % (names[k], "optional " if opt[k] else "")
    res = common.run({"a.rsl": rsl + " }\n"})
    simple = [x.lower().replace("_", "") for x in names]
    ok = len(set(simple)) == n and (all(sep) or not any(sep)) and \
        not opt[0] and (not any(opt) or n == 1 or all(sep)) and \
        not any(opt[k] and not opt[k + 1] for k in range(n - 1))
    judge(c, res, ok, "tuple declaration")


def tuple_types(c):
    """field types: any complete type, never the tuple itself"""
    typ = c.pick("type", ["Integer", "E", "R", "Tu", "Ot", "Late", "Nope",
                          "P.E", "Q.E", "len", "[R, S]", "[R, E]",
                          "Integer [1 .. 2]", "S_", "P"])
    res = common.run({"a.rsl": "package P\nenum E { A }\ntype R { }\n"
                      "type S { }\ntuple Ot { a Integer }\ntuple Tu { v " +
                      typ + " }\ntuple Late { a Integer }\n",
                      "b.rsl": "package Q\nenum E { A }\n"})
    judge(c, res, typ in ("Integer", "E", "R", "Ot", "P.E", "[R, S]"),
          "tuple field type")


# ---------------------------------------------------------------- C17

def final_types(c):
    """final is inherited, and final types take no new components"""
    q = [c.pick("qual%u" % k, ["", "final ", "abstract "])
         for k in range(3)]
    comp = [c.choice("comp%u" % k, 2) == 1 for k in range(3)]
    names = ["A", "B", "C"]
    rsl = "package P\n"
    for k in range(3):
        rsl += "%stype %s %s{ %s}\n" % (
            q[k], names[k], "extends %s " % names[k - 1] if k else "",
            "v%u Integer " % k if comp[k] else "")
    ok = True
    fin = False
    for k in range(3):
        if fin and comp[k]:
            ok = False
        fin = fin or q[k] == "final "
    which = c.choice("object", 3)
    trlc = "package P\n" + names[which] + " obj {"
    vals = {}
    for k in range(which + 1):
        if comp[k]:
            t, v = c.int_text("v%u" % k, 1)
            trlc = trlc + " v%u = " % k + t
            vals["v%u" % k] = v
    ok = ok and q[which] != "abstract "
    res = common.run({"a.rsl": rsl, "a.trlc": trlc + " }\n"})
    if judge(c, res, ok, "final types"):
        c.check(same(res.fields("obj"), vals), "components of all levels")
        t = res.obj("obj").n_typ
        c.check(t.is_final == any(x == "final " for x in q[:which + 1]),
                "final is inherited")


def final_deep(c, levels=5):
    """the same over more levels, with one final type and one component"""
    fin = c.choice("final", levels + 1)
    comp = c.choice("component", levels)
    abst = c.choice("abstract", levels + 1)
    which = c.choice("object", levels)
    names = "ABCDEF"
    c.assume(abst != fin or fin == levels)
    t, v = c.int_text("v", 1)
    rsl = "package P\n"
    for k in range(levels):
        rsl += "%stype %s %s{ %s}\n" % (
            "final " if k == fin else "abstract " if k == abst else "",
            names[k], "extends %s " % names[k - 1] if k else "",
            "v Integer " if comp == k else "")
    trlc = "package P\n" + names[which] + " obj {"
    if which >= comp:
        trlc = trlc + " v = " + t
    res = common.run({"a.rsl": rsl, "a.trlc": trlc + " }\n"})
    if judge(c, res, not fin < comp and which != abst, "final types"):
        c.check(same(res.fields("obj"), {"v": v} if which >= comp else {}),
                "components of all levels")
        n_typ = res.obj("obj").n_typ
        c.check(n_typ.is_final == (which >= fin), "final is inherited")
        for k in range(levels):
            other = n_typ
            while other is not None and other.name != names[k]:
                other = other.parent
            c.check((other is not None) == (k <= which), "ancestors")
            if other is not None:
                c.check(n_typ.is_subclass_of(other), "is a subclass")


def freezing(c, typ="Integer", levels=3):
    """a frozen component has its value in every object and cannot be
    assigned or frozen again; a frozen mandatory component is defined"""
    at = [c.choice("freeze%u" % k, 2) == 1 for k in range(levels)]
    opt = c.choice("optional", 2)
    assign = c.choice("assign", 2)
    which = c.choice("object", levels)
    # types above the one of the object may be abstract, extensions final
    abstract = c.choice("abstract", 2) if which else 0
    vals = []
    texts = []
    for k in range(levels + 1):
        if typ == "Integer":
            t, v = c.int_text("v%u" % k, 1)
        elif typ == "Tu":
            t, v = c.int_text("v%u" % k, 1)
            t, v = t + " @ 3", {"x": v, "y": 3}
        else:
            t, v = c.int_text("v%u" % k, 1)
            t, v = "[1, " + t + "]", [1, v]
        texts.append(t)
        vals.append(v)
    decl = {"Integer": "Integer", "Tu": "Tu", "array": "Integer [0 .. *]"}
    names = "ABCDE"
    rsl = "package P\ntuple Tu { x Integer separator @ y Integer }\n"
    for k in range(levels):
        rsl = rsl + "%stype %s %s{ " % (
            "" if not abstract else "abstract " if k < which else "final ",
            names[k], "extends %s " % names[k - 1] if k else "")
        if k == 0:
            rsl = rsl + "v %s%s " % ("optional " if opt else "", decl[typ])
        if at[k]:
            rsl = rsl + "freeze v = " + texts[k] + " "
        rsl = rsl + "}\n"
    if typ == "Integer":
        rsl = rsl + 'checks A { v != null implies v > 4, warning "low" }\n'
    trlc = "package P\n" + names[which] + " obj { "
    if assign:
        trlc = trlc + "v = " + texts[levels] + " "
    res = common.run({"a.rsl": rsl, "a.trlc": trlc + "}\n"})
    frozen = [k for k in range(which + 1) if at[k]]
    ok = at.count(True) <= 1 and not (frozen and assign) and \
        (bool(frozen) or assign or opt)
    if judge(c, res, ok, "frozen components"):
        v = vals[frozen[0]] if frozen else vals[levels] if assign else None
        c.check(same(res.fields("obj"), {"v": v}), "frozen value")
        if typ == "Integer":
            low = v is not None and bool(v <= 4)
            c.check(len(res.user) == int(low), "checks see the frozen "
                    "value: %s", res.summary())


def freeze_what(c):
    """only a previously declared component, with a value of its type"""
    name = c.pick("name", ["i", "e", "r", "s", "zz", "late", "A"])
    val = c.pick("value", ["1", "1.5", "E.X", "F.X", '"x"', "true", "robj",
                           "nosuch", "null", "i", "E", "[1]", "1 + 1"])
    same_type = c.choice("same", 2)
    body = "freeze %s = %s" % (name, val)
    rsl = "package P\nenum E { X }\nenum F { X }\ntype R { }\n" \
        "type A { i optional Integer e optional E r optional R s optional " \
        "String %s late optional Integer }\ntype B extends A { %s }\n" % (
            body if same_type else "", "" if same_type else body)
    res = common.run({"a.rsl": rsl, "a.trlc":
                      "package P\nR robj { }\nB obj { }\n"})
    good = {"i": ("1",), "e": ("E.X",), "r": ("robj",), "s": ('"x"',),
            "late": ("1",) if not same_type else ()}
    ok = val in good.get(name, ())
    if judge(c, res, ok, "freeze"):
        v = res.fields("obj")[name]
        c.check(v in {"1": (1,), "E.X": ("E.X", "X"), "robj": ("P.robj",),
                      '"x"': ("x",)}[val], "frozen value %s", repr(v))


def extension_names(c, n=2):
    """an extension cannot redeclare an inherited component; sibling
    extensions are independent"""
    a = c.string("a", n, "aA_b")
    b = c.string("b", n, "aA_b")
    c.assume(AND(a[0] != "_", b[0] != "_"))
    sib = c.choice("sibling", 2)
    rsl = "package P\ntype A { " + a + " Integer }\n" + \
        ("type Z { " if sib else "type Z extends A { ") + b + " String }\n"
    res = common.run({"a.rsl": rsl})
    clash = a.lower().replace("_", "") == b.lower().replace("_", "")
    ok = sib == 1 or not bool(clash)
    judge(c, res, ok, "component names")


def extends_what(c):
    """only a record type that is declared before and visible"""
    root = c.pick("root", ["A", "P.A", "Q.A", "R.A", "Tu", "E", "Integer",
                           "B", "Late", "Nope", "Q", "A_", "a", "Ab"])
    t, v = c.int_text("v", 1)
    res = common.run({
        "a.rsl": "package P\nimport Q\nenum E { X }\ntuple Tu { v Integer "
        "}\ntype A { v Integer }\nabstract type Ab { v Integer }\n"
        "type B extends " + root + " { }\ntype Late { v Integer }\n",
        "b.rsl": "package Q\ntype A { v Integer }\n",
        "c.rsl": "package R\ntype A { v Integer }\n",
        "a.trlc": "package P\nB obj { v = " + t + " }\n"})
    ok = root in ("A", "P.A", "Q.A", "Ab")
    if judge(c, res, ok, "root type"):
        c.check(same(res.fields("obj"), {"v": v}), "inherited component")
        par = res.obj("obj").n_typ.parent
        c.check(par.fully_qualified_name() == {
            "A": "P.A", "P.A": "P.A", "Q.A": "Q.A", "Ab": "P.Ab"}[root],
            "parent type")


# ---------------------------------------------------------------- C18

UNION_RSL = "package P\nenum E { X }\n" \
    "type A { a Integer s Integer x String l optional Integer n Nn }\n" \
    "type B { b Integer s Integer x Integer l optional Integer }\n" \
    "type A2 extends A { c Integer }\ntype Z { z Integer }\n"


def union_members(c, m=3):
    """a union lists distinct record types"""
    names = ["A", "B", "A2", "E", "Tu", "Integer", "Late", "P.A", "Q.A",
             "T"]
    n = c.choice("n", m) + 1
    mem = [c.pick("m%u" % k, names) for k in range(n)]
    form = c.choice("form", 3)
    opt, arr, intuple = form == 0, form == 1, form == 2
    rsl = "package P\nimport Q\nenum E { X }\ntype A { }\ntype B { }\n" \
        "type A2 extends A { }\ntuple Tu { v Integer }\n"
    decl = "v %s[%s]%s" % ("optional " if opt and not intuple else "",
                           ", ".join(mem),
                           " [0 .. *]" if arr and not intuple else "")
    rsl += "%s T { %s }\ntype Late { }\n" % (
        "tuple" if intuple else "type", decl)
    res = common.run({"a.rsl": rsl, "b.rsl": "package Q\ntype A { }\n"})
    full = ["P.A" if m == "A" else m for m in mem]
    good = ("A", "B", "A2", "P.A", "Q.A") + (() if intuple else ("T",))
    judge(c, res, all(m in good for m in mem) and
          len(set(full)) == len(full), "union")


def union_value(c):
    """a reference must be to an object of a member or an extension"""
    n = c.choice("n", 2) + 1
    mem = [c.pick("m%u" % k, ["A", "B", "A2", "Q.A"]) for k in range(n)]
    c.assume(n == 1 or mem[0] != mem[-1])
    val = c.pick("value", ["oa", "ob", "oa2", "oa3", "oz", "P.oa", "Q.qa",
                           "self", "nosuch", "A"])
    arr = c.choice("array", 2)
    order = c.choice("order", 2)
    rsl = "package P\nimport Q\ntype A { }\ntype B { }\n" \
        "type A2 extends A { }\ntype A3 extends A2 { }\ntype Z { }\n" \
        "type T { v [%s]%s }\n" % (", ".join(mem), " [1 .. *]" if arr else
                                   "")
    objs = "A oa { }\nB ob { }\nA2 oa2 { }\nA3 oa3 { }\nZ oz { }\n"
    use = "T self { v = %s }\n" % ("[%s]" % val if arr else val)
    res = common.run({"a.rsl": rsl, "b.rsl": "package Q\ntype A { }\n",
                      "a.trlc": "package P\nimport Q\n" +
                      (use + objs if order else objs + use),
                      "b.trlc": "package Q\nA qa { }\n"})
    typ = {"oa": ["A"], "ob": ["B"], "oa2": ["A", "A2"],
           "oa3": ["A", "A2"], "P.oa": ["A"], "Q.qa": ["Q.A"]}.get(val, [])
    ok = any(m in typ for m in mem)
    if judge(c, res, ok, "union reference"):
        v = res.fields("self")["v"]
        full = val if "." in val else "P." + val
        c.check(v == ([full] if arr else full), "target %s", repr(v))


def union_access(c):
    """field access through a union: statically checked, null when the
    referenced object lacks the field"""
    # who: members of the union that have the field, type conflict?
    fld = c.pick("field", ["a", "s", "x", "l", "b", "c", "nope"])
    # the order of the alternatives must not matter
    mem = c.pick("members", [["A", "B"], ["B", "A"], ["A"], ["A2", "B"],
                             ["B", "A2"], ["A", "Z"]])
    val = c.pick("value", ["oa", "ob", "oa2"])
    av, bv = {}, {}
    t1, v1 = c.int_text("v1", 1)
    t2, v2 = c.int_text("v2", 1)
    opt = c.choice("opt", 2)
    rsl = "package P\ntype A { a Integer s Integer x String l optional " \
        "Integer }\ntype B { b Integer s Integer x Integer }\n" \
        "type A2 extends A { c Integer }\ntype Z { z Integer }\n" \
        "type T { v [%s] }\nchecks T { v.%s != null, \"isnull\"\n" \
        'v.%s != null implies v.%s > 4, "low" }\n' % (
            ", ".join(mem), fld, fld, fld)
    trlc = "package P\nA oa { a = " + t1 + " s = " + t2 + ' x = "k"' + \
        (" l = " + t1 if opt else "") + " }\nB ob { b = " + t1 + " s = " + \
        t2 + " x = 3 }\nA2 oa2 { a = " + t1 + " s = " + t2 + \
        ' x = "k" c = ' + t2 + (" l = " + t2 if opt else "") + \
        " }\nT obj { v = " + val + " }\n"
    res = common.run({"a.rsl": rsl, "a.trlc": trlc})
    comp = {"A": {"a": "I", "s": "I", "x": "S", "l": "I"},
            "B": {"b": "I", "s": "I", "x": "I"}, "Z": {"z": "I"}}
    comp["A2"] = dict(comp["A"], c="I")
    types = {comp[m][fld] for m in mem if fld in comp[m]}
    sub = {"oa": ("A",), "ob": ("B",), "oa2": ("A", "A2")}[val]
    ok = types == {"I"} and any(s in mem for s in sub)
    obj = {"oa": {"a": v1, "s": v2, "l": v1 if opt else None},
           "ob": {"b": v1, "s": v2, "x": 3},
           "oa2": {"a": v1, "s": v2, "c": v2, "l": v2 if opt else None}
           }[val]
    c.check(res.crash is None, "internal failure: %s", res.summary())
    if res.crash is not None:
        return
    if not ok:
        c.reach("illegal")
        c.check(not res.accepted and len(res.errors) >= 1,
                "illegal access accepted: %s", res.summary())
        c.check(len(res.user) == 0, "not evaluated: %s", res.summary())
        return
    c.reach("legal")
    f = obj.get(fld)
    c.check(len(res.errors) == 0, "legal access rejected: %s", res.summary())
    want = ["isnull"] if f is None else ["low"] if f <= 4 else []
    c.check([m.message for m in res.user] == want,
            "evaluation: %s, expected %s", res.summary(), repr(want))


FIELD_TYPES = ["Integer", "Decimal", "E", "Q.E", "F", "Q.R", "R", "Tu",
               "Q.Tu", "Integer [0 .. 2]", "Integer [0 .. 1]",
               "Decimal [0 .. 2]", "[R, Q.R]", "String", "Markup_String"]


def union_field_types(c):
    """a field can be accessed if all members agree in its type"""
    types = [c.pick("type%u" % k, FIELD_TYPES) for k in range(2)]
    third = c.choice("third_member", 2)
    inherit = c.choice("inherited", 2)
    rsl = "package P\nimport Q\nenum E { X }\nenum F { X }\ntype R { }\n" \
        "tuple Tu { a Integer }\n"
    for k in range(2):
        rsl += "type %s { f optional %s }\n" % (("M0", "N")[k], types[k])
    rsl += "type M1 %s{ }\n" % ("extends N " if inherit else "")
    if not inherit:
        rsl = rsl.replace("type M1 ", "").replace("type N ", "type M1 ")
        rsl = rsl.replace("{ }\n{ }\n", "{ }\n") if False else \
            rsl[:-len("{ }\n")]
    rsl += "type M2 { g Integer }\n"
    mem = ["M0", "M1"] + (["M2"] if third else [])
    rsl += "type T { v [%s] }\nchecks T { v.f == null, \"set\" }\n" % \
        ", ".join(mem)
    res = common.run({"p.rsl": rsl, "q.rsl": "package Q\nenum E { X }\n"
                      "type R { }\ntuple Tu { a Integer }\n",
                      "p.trlc": "package P\nM1 o { }\nT obj { v = o }\n"})
    # arrays with equal elements and bounds are the same type as well, but
    # the manual does not say so
    c.assume(types[0] != types[1] or "[" not in types[0])
    if judge(c, res, types[0] == types[1], "union field access"):
        c.check(len(res.user) == 0, "value is null: %s", res.summary())


def union_many(c, m=6):
    """the same for unions of many members with deep extensions"""
    odd = c.choice("conflict", m + 1)
    without = c.choice("without", m + 1)
    k = c.choice("member", m + 1)
    depth = c.choice("depth", 4)
    c.assume(k < m or depth == 0)
    arr = depth % 2 == 1
    text, v = c.int_text("v", 1)
    rsl = "package P\n"
    for i in range(m + 1):
        typ = "Integer" if i != odd or i == m else "String"
        rsl += "type M%u { %sg optional Integer }\n" % (
            i, "" if i == without else "f %s " % typ)
        for d in range(1, 4 if i == k else 1):
            rsl += "type X%u extends %s { }\n" % (
                d, "X%u" % (d - 1) if d > 1 else "M%u" % i)
    name = "X%u" % depth if depth else "M%u" % k
    use = "w[1]" if arr else "v"
    rsl += "type T { v [%s] w optional [%s] [2 .. 2] }\nchecks T { %s.f " \
        '!= null implies %s.f > 4, "low" %s.f != null, "null" }\n' % (
            ", ".join("M%u" % i for i in range(m)),
            ", ".join("M%u" % i for i in range(m)), use, use, use)
    if k == without:
        give = ""
    elif k == odd and k < m:
        give = 'f = "a"'
    else:
        give = "f = " + text
    trlc = "package P\n" + name + " obj { " + give + " }\n"
    other = "M0 base { %s }\n" % ("" if without == 0 else 'f = "x"'
                                  if odd == 0 else "f = 9")
    trlc = trlc + other + "T user { v = " + ("base w = [base, obj]" if arr
                                          else "obj") + " }\n"
    res = common.run({"a.rsl": rsl, "a.trlc": trlc})
    c.check(res.crash is None, "internal failure: %s", res.summary())
    if res.crash is not None:
        return
    if not ((odd >= m or odd == without) and k < m):
        c.reach("illegal")
        c.check(not res.accepted and len(res.errors) >= 1,
                "illegal union access accepted: %s", res.summary())
        c.check(len(res.user) == 0, "not evaluated: %s", res.summary())
        return
    c.reach("legal")
    want = ["null"] if k == without else ["low"] if v <= 4 else []
    c.check(len(res.errors) == 0, "rejected: %s", res.summary())
    c.check([x.message for x in res.user] == want, "evaluation: %s, expected "
            "%s", res.summary(), repr(want))


def union_equality(c):
    """equality on unions: identity; only compatible types"""
    mem = c.pick("members", [["A"], ["B"], ["A", "B"], ["A2", "B"],
                             ["A2"]])
    other = c.pick("other", ["A", "B", "A2", "Z", "[A, B]", "[Z]", "[A2, Z]",
                             "Integer"])
    op = c.pick("op", ["==", "!="])
    objs = {"oa": "A", "oa2": "A2", "ob": "B", "oz": "Z"}
    sup = {"A": ["A"], "A2": ["A", "A2"], "B": ["B"], "Z": ["Z"]}
    left = c.pick("left", list(objs))
    right = c.pick("right", list(objs))
    t, v = c.int_text("v", 1)
    omem = [x.strip() for x in other.strip("[]").split(",")]
    val = right
    if other == "Integer":
        val = "1"
    rsl = "package P\ntype A { a optional Integer }\ntype B { b optional " \
        "Integer }\ntype A2 extends A { }\ntype Z { z optional Integer }\n" \
        "type T { v [%s] w %s }\nchecks T { v %s w, \"no\" }\n" % (
            ", ".join(mem), other, op)
    res = common.run({"a.rsl": rsl, "a.trlc": "package P\nA oa { a = " + t +
                      " }\nA2 oa2 { a = " + t + " }\nB ob { b = " + t +
                      " }\nZ oz { z = " + t + " }\nT obj { v = " + left +
                      " w = " + val + " }\n"})

    def related(x, y):
        return other != "Integer" and (x in sup[y] or y in sup[x])
    ok = any(related(x, y) for x in mem for y in omem)
    ok = ok and any(m in sup[objs[left]] for m in mem) and \
        any(m in sup[objs[right]] for m in omem)
    c.check(res.crash is None, "internal failure: %s", res.summary())
    if res.crash is not None:
        return
    if not ok:
        c.reach("illegal")
        c.check(not res.accepted and len(res.errors) >= 1,
                "illegal comparison accepted: %s", res.summary())
        return
    c.reach("legal")
    c.check(len(res.errors) == 0, "legal comparison rejected: %s",
            res.summary())
    holds = (left == right) == (op == "==")
    c.check(len(res.user) == (0 if holds else 1), "result: %s",
            res.summary())


def cases(tier):
    th = tier != "quick"
    out = []

    def add(pid, name, func, bounds, w=1, expect=("legal", "illegal"),
            replay=0.3, **args):
        out.append({"name": name, "property": pid, "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    add("C12", "components", "components", "2 components, up to 3 "
        "assignments in any order", 3, n=2)
    add("C12", "inherited components", "components", "2 components, one "
        "inherited", 3, n=2, split=True)
    if th:
        add("C12", "three components", "components", "3 components, up to 4 "
            "assignments", 30, n=3, split=True, replay=0.02)
    add("C12", "many components", "many_components", "%u components over "
        "4 types, one optional, one missing, one assigned twice, 5 orders" %
        (10 if th else 8), 12, n=10 if th else 8, replay=0.02)
    add("C12", "component name", "component_name", "names of up to 3 "
        "characters", 3, n=3)
    add("C12", "object type", "object_type", "names of up to 2 characters, "
        "4 prefixes", 5, n=2)
    add("C12", "values", "python_values", "all component kinds", 5,
        expect=("legal",))
    for t in ("Integer", "Decimal", "Boolean", "String", "Markup_String",
              "E", "R", "S", "Integer [0 .. *]", "Decimal [0 .. *]",
              "R [0 .. *]", "Tu", "One", "[S, O]"):
        add("C13", "value for " + t, "typing", "34 forms of value, numbers "
            "of one digit, strings of up to one character", 2, typ=t)
    add("C13", "enum literal", "enum_literal", "literal names of up to 2 "
        "characters", 4, n=3 if th else 2)
    for e in ("Integer", "R", "Tu", "E", "String"):
        add("C13", "bounds " + e, "array_bounds", "bounds 0..%u, up to %u "
            "elements" % (5 if th else 4, 4 if th else 3), 2, elem=e,
            nmax=4 if th else 3)
    add("C13", "bounds inherited", "array_bounds", "the same, inherited", 2,
        inherited=True)
    add("C13", "large bounds", "array_bounds", "bounds 0..%u, up to %u "
        "elements" % (17 if th else 13, 16 if th else 12), 8,
        nmax=16 if th else 12, digits=2)
    add("C13", "large bounds of references", "array_bounds", "bounds 0..13, "
        "up to 12 elements", 8, elem="R", nmax=12, digits=2)
    add("C13", "array form", "array_form", "up to %u tokens" %
        (5 if th else 4), 3, n=5 if th else 4)
    add("C14", "separator form", "tuple_value", "3 fields, separators @ : ; "
        "to, one error", 6, n=3, replay=0.1)
    add("C14", "two fields", "tuple_value", "2 fields, all separators", 2,
        n=2, seps=SEPS)
    if th:
        add("C14", "four fields", "tuple_value", "4 fields", 40, n=4,
            seps=["@", ";", "to"], replay=0.02)
    for k in (1, 2, 3) if th else (1, 2):
        add("C14", "generic form %u" % k, "tuple_generic", "%u fields" % k,
            3 * k, n=k, replay=0.1)
    add("C14", "nested", "tuple_nested", "every combination of separators",
        2)
    for k in (2, 3):
        add("C14", "declaration %u" % k, "tuple_declaration", "%u fields" %
            k, 3 * k, n=k, replay=0.1)
    add("C14", "separator text", "separator_text", "separators of %u "
        "characters" % (3 if th else 2), 4, n=3 if th else 2, replay=0.05)
    add("C14", "long separator text", "separator_text", "separators of 7 "
        "characters and more, 2 of them free", 6, n=2, replay=0.05,
        common_part="separ_B")
    add("C14", "references", "tuple_reference", "12 references, 5 literals "
        "in tuples, arrays of tuples and nested tuples", 4, replay=0.1)
    add("C14", "field types", "tuple_types", "15 field types")
    add("C17", "final", "final_types", "three levels, all qualifiers", 6,
        replay=0.2)
    for t in ("Integer", "Tu", "array"):
        add("C17", "freeze " + t, "freezing", "three levels", 3, typ=t)
    add("C17", "freeze deep", "freezing", "five levels", 8, levels=5,
        replay=0.05)
    add("C17", "final deep", "final_deep", "five levels, one final, one "
        "abstract type, one component", 4, levels=5, replay=0.1)
    add("C17", "freeze what", "freeze_what", "7 names, 13 values", 2)
    add("C17", "extension names", "extension_names", "names of 2 characters "
        "over a A _ b", 3, n=3 if th else 2)
    add("C17", "extends what", "extends_what", "14 root types")
    add("C18", "members", "union_members", "up to %u members from 10" %
        (3 if th else 2), 20, m=3 if th else 2, replay=0.1)
    add("C18", "value", "union_value", "up to 2 members, 10 references", 8,
        replay=0.1)
    add("C18", "field access", "union_access", "6 unions, 7 fields, 3 "
        "objects", 5, replay=0.2)
    add("C18", "many members", "union_many", "6 members, 3 levels of "
        "extensions, one conflict, one member without the field, values "
        "0..9", 8, replay=0.05)
    add("C18", "field types", "union_field_types", "15 x 15 types of the "
        "same field in two members", 5, replay=0.1)
    add("C18", "equality", "union_equality", "5 unions against 8 types, 4 x "
        "4 objects", 12, replay=0.1)
    return out
