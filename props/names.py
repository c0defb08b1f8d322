"""C15 names: sufficiently distinct declarations, exact references."""

from symx import common
from symx.logic import AND, OR, NOT

from props.objects import judge, same


def simple(s):
    return s.lower().replace("_", "")


def ident(c, name, n, alpha="aA_b"):
    """identifier of up to n characters (does not start with _)"""
    s = c.string_upto(name, n, alpha, minlen=1)
    c.assume(OR(*[s[0] == x for x in alpha if x.isalpha()]))
    return s


DECL = {
    # kind: (declaration in package P, expression to tell whether visible)
    "type": "type {} {{ }}\n",
    "abstract": "abstract type {} {{ }}\n",
    "enum": "enum {} {{ ZZ }}\n",
    "tuple": "tuple {} {{ q Integer }}\n",
}


def declare(kind, name):
    a, b = DECL[kind].format("\0").split("\0")
    return a + name + b


def two_types(c, n=2, where="same", alpha="aA_b", kinds=None):
    """two types of one package clash if their simplified names are equal;
    types of different packages never do"""
    a = ident(c, "a", n, alpha)
    b = ident(c, "b", n, alpha)
    ka = c.pick("kind_a", kinds or sorted(DECL))
    kb = c.pick("kind_b", kinds or sorted(DECL))
    if where == "same":
        files = {"p.rsl": "package P\n" + declare(ka, a) + declare(kb, b)}
    else:
        files = {"p.rsl": "package P\n" + declare(ka, a),
                 "q.rsl": "package Q\nimport P\n" + declare(kb, b)}
    res = common.run(files)
    clash = bool(simple(a) == simple(b)) and where == "same"
    judge(c, res, not clash, "pair of types")


RESERVED = ["Integer", "Decimal", "Boolean", "String", "Markup_String", "len",
            "startswith", "endswith", "matches", "oneof", "P", "Qq", "Lt"]


def reserved(c):
    """types and objects cannot shadow builtins or packages"""
    name = c.pick("name", ["Integer", "integer", "Int_eger", "MarkupString",
                           "Markup_string", "LEN", "Len", "len", "one_of",
                           "oneof", "P", "p", "P_", "Qq", "QQ", "q_q", "Lt",
                           "LT", "lt_", "Integers", "le", "Pp", "Boolean",
                           "decimal", "STRING", "Starts_With", "ends_with",
                           "Matches", "X", "matches"])
    what = c.pick("what", sorted(DECL) + ["object", "package", "late"])
    files = {"p.rsl": "package P\ntype Tt { }\n",
             "q.rsl": "package Qq\n", "l.trlc": "package Lt\n"}
    if what in DECL:
        files["p.rsl"] = files["p.rsl"] + declare(what, name)
    elif what == "object":
        files["p.trlc"] = "package P\nTt " + name + " { }\n"
    elif what == "package":
        files["z.rsl"] = "package " + name + "\n"
    else:
        files["z.trlc"] = "package " + name + "\n"
    s = simple(name)
    clash = s in [simple(x) for x in RESERVED]
    if what == "late" and name in ("P", "Qq", "Lt") or \
            what == "package" and name == "Lt":
        clash = False               # contributes to the existing package
    if what in DECL and s == "lt":
        # the package is declared later, by the requirement file
        clash = True
        res = common.run(files)
        c.check(res.crash is None, "internal failure: %s", res.summary())
        c.check(res.accepted or len(res.errors) > 0, "no explanation")
        return
    res = common.run(files)
    judge(c, res, not clash, "name " + name)


def literals(c, n=2, alpha="aA_b", only=None):
    """literals are unique in their enumeration; other enumerations, types
    and components may use the same name"""
    a = ident(c, "a", n, alpha)
    b = ident(c, "b", n, alpha)
    where = c.pick("where", only or ["same", "other enum", "type", "component"])
    if where == "same":
        rsl = "enum E { " + a + " " + b + " }\n"
    elif where == "other enum":
        rsl = "enum E { " + a + " }\nenum F { " + b + " }\n"
    elif where == "type":
        rsl = "enum E { " + a + " }\ntype " + b + " { }\n"
    else:
        rsl = "enum E { " + a + " }\ntype T { " + b + " E }\n"
    res = common.run({"p.rsl": "package P\n" + rsl})
    clash = where == "same" and bool(simple(a) == simple(b))
    judge(c, res, not clash, "literals")


def members(c, n=2, alpha="aA_b", only=None):
    """components of a record and fields of a tuple are sufficiently
    distinct; different types are independent"""
    a = ident(c, "a", n, alpha)
    b = ident(c, "b", n, alpha)
    where = c.pick("where", only or ["record", "tuple", "extension", "deep",
                             "sibling", "other"])
    if where == "record":
        rsl = "type T { " + a + " Integer " + b + " Integer }\n"
    elif where == "tuple":
        rsl = "tuple T { " + a + " Integer " + b + " Integer }\n"
    elif where == "extension":
        rsl = "type T { " + a + " Integer }\ntype U extends T { " + b + \
            " Integer }\n"
    elif where == "deep":
        rsl = "type T { " + a + " Integer }\ntype M extends T { }\n" \
            "type U extends M { " + b + " Integer }\n"
    elif where == "sibling":
        rsl = "type T { }\ntype M extends T { " + a + " Integer }\n" \
            "type U extends T { " + b + " Integer }\n"
    else:
        rsl = "type T { " + a + " Integer }\ntuple U { " + b + " Integer }\n"
    res = common.run({"p.rsl": "package P\n" + rsl})
    clash = where in ("record", "tuple", "extension", "deep") and \
        bool(simple(a) == simple(b))
    judge(c, res, not clash, "members")


def two_objects(c, n=2, alpha="aA_b", only=None):
    """objects of one package, possibly in different files and sections"""
    a = ident(c, "a", n, alpha)
    b = ident(c, "b", n, alpha)
    where = c.pick("where", only or ["file", "files", "section", "packages", "type",
                             "component"])
    t, v = c.int_text("v", 1)
    files = {"p.rsl": "package P\ntype T { v Integer }\n",
             "p.trlc": "package P\nT " + a + " { v = " + t + " }\n"}
    second = "T " + b + " { v = 1 }\n"
    if where == "file":
        files["p.trlc"] = files["p.trlc"] + second
    elif where == "section":
        files["p.trlc"] = files["p.trlc"] + 'section "s" { ' + second + "}\n"
    elif where == "files":
        files["q.trlc"] = "package P\n" + second
    elif where == "packages":
        files["q.trlc"] = "package Q\nimport P\nP." + second
    elif where == "type":
        files["p.rsl"] = files["p.rsl"] + "type " + b + " { }\n"
    else:
        files["p.rsl"] = files["p.rsl"] + "type U { " + b + " T }\n"
    res = common.run(files)
    clash = where in ("file", "files", "section", "type") and \
        bool(simple(a) == simple(b))
    if judge(c, res, not clash, "objects"):
        first = [o for o in res.objects()
                 if o.n_package.name == "P" and bool(o.name == a)]
        c.check(len(first) == 1, "object found under its name")
        if first:
            c.check(first[0].to_python_dict()["v"] == v, "value")


REFS = {
    # use of a name {} where the declared name is "aA_b"
    "type": ("type aA_b {{ }}\ntype U {{ v {} }}\n", ""),
    "root": ("type aA_b {{ }}\ntype U extends {} {{ }}\n", ""),
    "enum": ("enum aA_b {{ X }}\ntype U {{ v {} }}\n", ""),
    "enum in check": ("enum aA_b {{ X }}\ntype U {{ v aA_b }}\n"
                      'checks U {{ v == {}.X, "m" }}\n', ""),
    "literal in check": ("enum E {{ aA_b }}\ntype U {{ v E }}\n"
                         'checks U {{ v == E.{}, "m" }}\n', ""),
    "component in check": ("type U {{ aA_b Integer }}\n"
                           'checks U {{ {} > 0, "m" }}\n', ""),
    "field in check": ("tuple U {{ q Integer aA_b Integer }}\n"
                       'type V {{ v U }}\nchecks V {{ v.{} > 0, "m" }}\n',
                       ""),
    "checks for": ('type aA_b {{ v Integer }}\nchecks {} {{ v > 0, "m" }}\n',
                   ""),
    "anchor": ('type U {{ v Integer aA_b Integer }}\nchecks U {{ v > 0, "m",'
               ' {} }}\n', ""),
    "freeze": ("type U {{ aA_b Integer }}\ntype V extends U {{ freeze {} = 1"
               " }}\n", ""),
    "union": ("type aA_b {{ }}\ntype U {{ v [{}, U] }}\n", ""),
    "object type": ("type aA_b {{ }}\n", "{} o {{ }}\n"),
    "component": ("type U {{ aA_b Integer }}\n", "U o {{ {} = 1 }}\n"),
    "literal": ("enum E {{ aA_b }}\ntype U {{ v E }}\n",
                "U o {{ v = E.{} }}\n"),
    "enumeration": ("enum aA_b {{ X }}\ntype U {{ v aA_b }}\n",
                    "U o {{ v = {}.X }}\n"),
    "reference": ("type U {{ v optional U }}\n",
                  "U aA_b {{ }}\nU o {{ v = {} }}\n"),
    "qualified": ("type U {{ v optional U }}\n",
                  "U aA_b {{ }}\nU o {{ v = P.{} }}\n"),
    "markup": ("type U {{ v optional Markup_String }}\n",
               "U aA_b {{ }}\nU o {{ v = \"[[{}]]\" }}\n"),
    "package": ("type U {{ v optional aA_b.T }}\n",
                "U o {{ v = {}.obj }}\n"),
    "import": ("type U {{ }}\n", "import {}\nU o {{ }}\n"),
    "quantified": ("type U {{ v Integer [1 .. 2] }}\nchecks U {{ (forall "
                   'aA_b in v => {} > 0), "m" }}\n', ""),
    "quantified over": ("type U {{ aA_b Integer [1 .. 2] }}\nchecks U {{ "
                        '(forall q in {} => q > 0), "m" }}\n', ""),
    "builtin": ("", ""),
}


def exact(c, use="type"):
    """a reference matches the declared name exactly"""
    nm = c.string("name", 4, "aA_b")
    c.assume(OR(nm[0] == "a", nm[0] == "A", nm[0] == "b"))
    extra = c.choice("similar_length", 2)
    if extra:
        nm = nm + "_"
    rsl, trlc = [x.format("\0") for x in REFS[use]]
    imp = "import aA_b\n" if use == "package" else ""
    if "\0" in rsl:
        x, y = rsl.split("\0")
        rsl = x + nm + y
    files = {"p.rsl": "package P\n" + imp + rsl}
    if trlc:
        if "\0" in trlc:
            x, y = trlc.split("\0")
            trlc = x + nm + y
        files["p.trlc"] = "package P\n" + imp + trlc
    if use in ("package", "import"):
        files["q.rsl"] = "package aA_b\ntype T { }\n"
        files["q.trlc"] = "package aA_b\nT obj { }\n"
    res = common.run(files)
    ok = bool(nm == "aA_b")
    judge(c, res, ok, "reference to a name")


def builtin_names(c):
    """builtin types and functions are referred to by their exact names"""
    kind = c.choice("kind", 3)
    if kind == 0:
        nm = c.pick("type", ["Integer", "integer", "Inte_ger", "INTEGER"])
        rsl = "type U { v " + nm + " }\n"
        ok = nm == "Integer"
    elif kind == 1:
        nm = c.pick("function", ["len", "Len", "le_n", "LEN", "oneof"])
        rsl = 'type U { v String }\nchecks U { ' + nm + '(v) > 1, "m" }\n'
        ok = nm == "len"
    else:
        nm = c.pick("function2", ["startswith", "startsWith", "starts_with",
                                  "endswith", "matches", "Matches",
                                  "one_of"])
        rsl = 'type U { v String }\nchecks U { ' + nm + '(v, "a"), "m" }\n'
        ok = nm in ("startswith", "endswith", "matches")
    judge(c, common.run({"p.rsl": "package P\n" + rsl}), ok, "builtin")


def cases(tier):
    th = tier != "quick"
    n = 3 if th else 2
    out = []

    def add(name, func, bounds, w=1, expect=("legal", "illegal"), replay=0.1,
            **args):
        out.append({"name": name, "property": "C15", "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    up = "names of up to %u characters over a A _ b" % n
    add("types", "two_types", up, 10, n=n)
    add("types of two packages", "two_types", up, 8, expect=("legal",), n=n,
        where="other")
    add("reserved", "reserved", "30 names, 7 kinds of declarations", 3)
    add("literals", "literals", up, 6, n=n)
    add("members", "members", up, 8, n=n)
    add("objects", "two_objects", up, 8, n=n)
    k = 6 if th else 5
    long = "names of up to %u characters over a _" % k
    add("long types", "two_types", long, 6, n=k, alpha="a_",
        kinds=["type"])
    add("long literals", "literals", long, 6, n=k, alpha="a_",
        only=["same"])
    add("long members", "members", long, 6, n=k, alpha="a_",
        only=["deep", "tuple"])
    add("long objects", "two_objects", long, 6, n=k, alpha="a_",
        only=["files"])
    for u in sorted(REFS):
        if u != "builtin":
            add("exact " + u, "exact", "names of 4 characters over a A _ b",
                1, use=u)
    add("builtin names", "builtin_names", "16 names")
    return out
