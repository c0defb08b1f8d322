"""C22 the API shows exactly what is declared."""

import importlib

from symx import common
from symx.logic import AND
from props.cli import cli
from props.objects import same


class Text:
    """source text that remembers where things are"""

    def __init__(self, name, start=""):
        self.name = name
        self.s = ""
        self.line = 1
        self.col = 1
        self.marks = {}
        self.put(start)

    def put(self, s, mark=None):
        """append; s contains line ends only if it is not symbolic"""
        if mark is not None:
            self.marks[mark] = (self.name, self.line, self.col)
        if type(s) is str and "\n" in s:
            self.line += s.count("\n")
            self.col = len(s) - s.rfind("\n")
        else:
            self.col += len(s)
        self.s = self.s + s
        return self


def at(c, node, mark, what):
    loc = node.location
    c.check(loc.file_name == mark[0] and loc.line_no == mark[1] and
            loc.col_no == mark[2], "location of %s: %s:%s:%s, expected %s",
            what, loc.file_name, str(loc.line_no), str(loc.col_no),
            repr(mark))


def kind(x):
    return x.__class__.__name__


def load(c, files, **kw):
    res = common.run(files, **kw)
    c.check(res.crash is None and res.accepted, "rejected: %s", res.summary())
    c.check(len(res.messages) == 0, "messages: %s", res.summary())
    if res.crash is not None or not res.accepted:
        return None
    c.reach("legal")
    return res


def package(res, name):
    return res.symbols.lookup_assuming(res.mh, name)


def names(table):
    return sorted(x.name for x in table.values())


DESCR = [None, "sym", ""]


def descr(c, name, w):
    """an optional description; returns its value"""
    k = c.choice(name, 2)
    if k == 0:
        return None
    s = c.string(name + ".s", 1, "ab \\x")
    if bool(s == "\\"):
        # an escaped quote
        w.put(' "\\""')
        return '"'
    w.put(' "' + s + '"')
    return s


def indent(c, w):
    w.put(["", "\n", " ", "\t\n  "][c.choice("indent", 4)])


BASE = "package P\n" \
    "enum E { one two }\n" \
    "tuple Tu { a Integer separator : b Integer }\n" \
    "type B { x optional Integer }\n" \
    "type C { }\n"


def type_of(c, n):
    """(text, predicate over the type found)"""
    k = c.choice("type%u" % n, 8)
    if k < 4:
        return ["Integer", "Markup_String", "E", "Tu"][k], None
    if k == 4:
        return "B", None
    if k == 5:
        return "[B, C]", ["B", "C"]
    lo, lov = c.int_text("lo%u" % n, 1)
    if k == 6:
        return "String [" + lo + " .. *]", ("String", lov, None)
    hi, hiv = c.int_text("hi%u" % n, 1)
    return "E [" + lo + " .. " + hi + "]", ("E", lov, hiv)


def check_type(c, typ, text, want):
    if want is None:
        c.check(typ.name == text, "type %s, expected %s", typ.name, text)
        k = {"E": "Enumeration_Type", "Tu": "Tuple_Type", "B": "Record_Type",
             "Integer": "Builtin_Integer",
             "Markup_String": "Builtin_Markup_String"}[text]
        c.check(kind(typ) == k, "kind of type: %s", kind(typ))
    elif isinstance(want, list):
        c.check(kind(typ) == "Union_Type" and
                [t.name for t in typ.types] == want, "members of the union")
    else:
        c.check(kind(typ) == "Array_Type" and
                typ.element_type.name == want[0], "element type")
        c.check(typ.lower_bound == want[1], "lower bound")
        if want[2] is None:
            c.check(typ.upper_bound is None, "no upper bound")
        else:
            c.check(typ.upper_bound == want[2], "upper bound")


def record_type(c):
    """qualifiers, parent, descriptions, location"""
    w = Text("a.rsl", BASE)
    indent(c, w)
    qual = c.pick("qualifier", ["", "abstract ", "final "])
    parent = c.choice("parent", 2)
    w.put(qual).put("type ").put("Ty", "T")
    d = descr(c, "d", w)
    if parent:
        w.put(" extends B")
    w.put(" {\n")
    opt = c.choice("optional", 2)
    w.put("  ").put("y", "y")
    dy = descr(c, "dy", w)
    w.put(" optional" if opt else "").put(" Integer\n}\n")
    # something that extends it
    if qual != "final ":
        w.put("type U extends Ty { z Integer }\n")
    else:
        w.put("type U extends Ty { }\n")
    res = load(c, {"a.rsl": w.s})
    if res is None:
        return
    p = package(res, "P")
    c.check(kind(p) == "Package" and p.declared_late is False, "package")
    c.check(names(p.symbols) == ["B", "C", "E", "Tu", "Ty", "U"],
            "symbols of the package: %s", repr(names(p.symbols)))
    ty = p.symbols.lookup_assuming(res.mh, "Ty")
    u = p.symbols.lookup_assuming(res.mh, "U")
    b = p.symbols.lookup_assuming(res.mh, "B")
    at(c, ty, w.marks["T"], "the type")
    c.check(kind(ty) == "Record_Type", "kind")
    c.check(ty.fully_qualified_name() == "P.Ty", "qualified name")
    c.check(ty.n_package is p, "package of the type")
    c.check(ty.is_abstract is (qual == "abstract "), "abstract")
    c.check(ty.is_final is (qual == "final "), "final")
    c.check(u.is_abstract is False, "abstract is not inherited")
    c.check(u.is_final is (qual == "final "), "final is inherited")
    c.check(ty.parent is (b if parent else None), "parent")
    c.check(u.parent is ty and b.parent is None, "parents")
    c.check(same(ty.description, d), "description")
    c.check(u.description is None, "no description")
    want = (["x"] if parent else []) + ["y"]
    comps = ty.all_components()
    c.check([x.name for x in comps] == want, "components: %s",
            repr([x.name for x in comps]))
    c.check([x.name for x in u.all_components()] ==
            want + ([] if qual == "final " else ["z"]),
            "components of the extension")
    c.check(names(ty.components) == sorted(want), "component table")
    y = comps[-1]
    c.check(y.optional is bool(opt), "optional")
    c.check(same(y.description, dy), "description of the component")
    c.check(y.member_of is ty and u.all_components()[len(want) - 1] is y,
            "owner of the component")
    at(c, y, w.marks["y"], "the component")
    if parent:
        c.check(comps[0] is b.all_components()[0] and
                comps[0].member_of is b and comps[0].optional is True,
                "inherited component")
    c.check(ty.is_subclass_of(b) is bool(parent) and u.is_subclass_of(ty) and
            not ty.is_subclass_of(u) and ty.is_subclass_of(ty) and
            u.is_subclass_of(b) is bool(parent), "subclasses")
    c.check(list(ty.iter_checks()) == [] and ty.frozen == {}, "nothing else")


def component_types(c, n=2):
    """type, order and optional of components"""
    w = Text("a.rsl", BASE + "type T {\n")
    order = c.choice("order", 2)
    nm = ["m", "k"] if order else ["k", "m"]
    nm = nm[:n]
    described = c.choice("described", n + 1)
    info = []
    for i in range(n):
        opt = c.choice("opt%u" % i, 2)
        txt, want = type_of(c, i)
        w.put("  ").put(nm[i], nm[i])
        w.put(' "says"' if described == i else "")
        w.put(" optional " if opt else " ").put(txt).put("\n")
        info.append((bool(opt), txt, want))
    res = load(c, {"a.rsl": w.s + "}\n"})
    if res is None:
        return
    ty = package(res, "P").symbols.lookup_assuming(res.mh, "T")
    comps = ty.all_components()
    c.check([x.name for x in comps] == nm, "order of components")
    for i, (x, (opt, txt, want)) in enumerate(zip(comps, info)):
        c.check(x.optional is opt, "optional of %s", x.name)
        c.check(x.description == ("says" if described == i else None),
                "description")
        check_type(c, x.n_typ, txt, want)
        at(c, x, w.marks[x.name], x.name)


def enumeration(c, n=3):
    """literals, their order and descriptions"""
    w = Text("a.rsl", "package P\n")
    indent(c, w)
    w.put("enum ").put("Color", "E")
    d = descr(c, "d", w)
    w.put(" {")
    k = c.choice("literals", n) + 1
    want = []
    pool = ["mm", "a_b", "Z"]
    first = c.choice("first", 3)
    pool = pool[first:] + pool[:first]
    for i in range(k):
        w.put("\n ").put(pool[i], pool[i])
        want.append((pool[i], descr(c, "d%u" % i, w)))
    res = load(c, {"a.rsl": w.s + " }\n"})
    if res is None:
        return
    p = package(res, "P")
    en = p.symbols.lookup_assuming(res.mh, "Color")
    c.check(kind(en) == "Enumeration_Type" and en.name == "Color" and
            en.n_package is p and en.fully_qualified_name() == "P.Color",
            "enumeration")
    at(c, en, w.marks["E"], "the enumeration")
    c.check(same(en.description, d), "description")
    lits = list(en.literals.table.values())
    c.check([x.name for x in lits] == [x[0] for x in want],
            "literals in order: %s", repr([x.name for x in lits]))
    c.check(names(en.literals) == sorted(x[0] for x in want), "literal table")
    for x, (nm, dd) in zip(lits, want):
        c.check(same(x.description, dd), "description of %s", nm)
        c.check(x.n_typ is en, "type of the literal")
        at(c, x, w.marks[nm], nm)


SEP = ["@", ":", ";", "to"]


def tuple_type(c, n=3):
    """fields, separators, descriptions of tuples"""
    w = Text("a.rsl", BASE + "tuple ")
    w.put("Tx", "T")
    d = descr(c, "d", w)
    w.put(" {\n")
    k = c.choice("fields", n) + 1
    sep = c.choice("separators", 2) if k > 1 else 0
    nopt = c.choice("optional", k) if sep else 0
    want, seps = [], []
    pool = ["zz", "a", "m_n"]
    for i in range(k):
        if i and sep:
            s = c.pick("sep%u" % i, SEP)
            seps.append(s)
            w.put("  separator ").put(s, "sep%u" % i).put("\n")
        w.put(" ").put(pool[i], pool[i])
        dd = descr(c, "d%u" % i, w)
        opt = i >= k - nopt
        ft = c.pick("type%u" % i, ["String", "Integer", "B"])
        if sep and ft == "String":
            ft = "Decimal"
        w.put(" optional " if opt else " ").put(ft).put("\n")
        want.append((pool[i], dd, opt, ft))
    res = load(c, {"a.rsl": w.s + "}\n"})
    if res is None:
        return
    p = package(res, "P")
    t = p.symbols.lookup_assuming(res.mh, "Tx")
    c.check(kind(t) == "Tuple_Type" and t.n_package is p, "tuple type")
    at(c, t, w.marks["T"], "the tuple type")
    c.check(same(t.description, d), "description")
    comps = t.all_components()
    c.check([x.name for x in comps] == [x[0] for x in want],
            "order of the fields: %s", repr([x.name for x in comps]))
    for x, (nm, dd, opt, ft) in zip(comps, want):
        c.check(same(x.description, dd), "description of %s", nm)
        c.check(x.optional is opt, "optional of %s", nm)
        c.check(x.n_typ.name == ft and x.member_of is t, "type of %s", nm)
        at(c, x, w.marks[nm], nm)
    c.check(t.has_separators() is bool(sep), "has separators")
    c.check([s.to_string() for s in t.iter_separators()] == seps,
            "separators: %s", repr([s.to_string() for s in t.separators]))
    for i, s in enumerate(t.separators):
        at(c, s, w.marks["sep%u" % (i + 1)], "separator")
    seq = []
    for i in range(k):
        if i and sep:
            seq.append(seps[i - 1])
        seq.append(want[i][0])
    got = [s.to_string() if kind(s) == "Separator" else s.name
           for s in t.iter_sequence()]
    c.check(got == seq, "sequence: %s", repr(got))


def checks(c, n=2):
    """severity, message, explanation, anchor and order of checks"""
    where = c.pick("where", ["T", "S", "Tu"])
    typ = {"T": "T", "S": "T", "Tu": "Tu"}[where]
    comp = {"T": ["v", "w"], "S": ["v", "w"], "Tu": ["a", "b"]}[where]
    w = Text("a.rsl", BASE + "type T { v Integer w Integer }\n"
             "type S extends T { u Integer }\n")
    want = []
    two = c.choice("two blocks", 2)
    w.put("checks " + typ + " {\n")
    for i in range(n):
        if i and two:
            w.put("}\nchecks " + typ + " {\n")
        x = c.pick("operand%u" % i, comp)
        w.put("  " + x + " ").put("!=", "op%u" % i).put(" 1, ")
        sev = c.pick("severity%u" % i, ["", "warning ", "error ", "fatal "]
                     if n == 1 else ["", "warning "])
        m = c.string("m%u" % i, 1, "ab %")
        w.put(sev).put('"' + m + '"')
        extra = None
        if n == 1 and c.choice("extra%u" % i, 2):
            extra = c.string("e%u" % i, 1, "ab %")
            w.put(', "' + extra + '"')
        anchor = c.pick("anchor%u" % i, [None] + comp[:3 - n])
        if anchor:
            w.put(", " + anchor)
        w.put("\n")
        want.append((x, sev.strip() or "error", m, extra, anchor))
    res = load(c, {"a.rsl": w.s + "}\n"})
    if res is None:
        return
    ty = package(res, "P").symbols.lookup_assuming(res.mh, typ)
    got = list(ty.iter_checks())
    c.check(len(got) == n and list(ty.checks) == got, "number of checks")
    if where == "S":
        sub = package(res, "P").symbols.lookup_assuming(res.mh, "S")
        c.check(sub.checks == [] and list(sub.iter_checks()) == got,
                "inherited checks")
    for i, (k, (x, sev, m, extra, anchor)) in enumerate(zip(got, want)):
        c.check(k.severity == sev, "severity: %s", k.severity)
        c.check(k.message == m, "message")
        c.check(same(k.extrainfo, extra), "explanation")
        c.check(k.n_type is ty, "type of the check")
        c.check((k.n_anchor.name if k.n_anchor else None) == anchor,
                "anchor")
        e = k.n_expr
        c.check(kind(e) == "Binary_Expression" and
                e.operator.name == "COMP_NEQ" and
                e.n_lhs.entity.name == x and e.n_rhs.value == 1 and
                e.typ.name == "Boolean", "expression")
        at(c, e, w.marks["op%u" % i], "the expression")


def values(c):
    """type, kind and location of the values of an object"""
    w = Text("a.trlc", "package P\n")
    indent(c, w)
    w.put("C other { }\nT ").put("obj", "obj").put(" {\n")
    comps = ["i", "d", "b", "s", "m", "e", "a", "t", "g", "r", "u"]
    rsl = BASE + "tuple Ge { x Integer y Tu }\n" \
        "type T { i optional Integer d optional Decimal b optional Boolean " \
        "s optional String m optional Markup_String e optional E " \
        "a optional Integer [0 .. *] t optional Tu g optional Ge " \
        "r optional C u optional [C, T] }\n"
    given = c.pick("component", comps)
    v = None
    x, xv = c.int_text("x", 2)
    y, yv = c.int_text("y", 1)
    sign = c.pick("sign", ["", "-", "+"]) if given in ("i", "d", "a") else ""
    if c.choice("second line", 2):
        w.put("\n\t")
    w.put(given + " =").put(" ")
    cls, py, typ = None, None, None
    sg = {"": 1, "-": -1, "+": 1}[sign]
    if given == "i":
        w.put(sign + x, "v")
        cls = "Unary_Expression" if sign else "Integer_Literal"
        py, typ = sg * xv, "Integer"
    elif given == "d":
        w.put(sign + "1.5", "v")
        cls = "Unary_Expression" if sign else "Decimal_Literal"
        py, typ = sg * 1.5, "Decimal"
    elif given == "b":
        bv = c.choice("bv", 2) == 1
        w.put("true" if bv else "false", "v")
        cls, py, typ = "Boolean_Literal", bv, "Boolean"
    elif given in "sm":
        s = c.string("str", 2, "ab ")
        w.put('"' + s + '"', "v")
        cls, py = "String_Literal", s
        typ = "String" if given == "s" else "Markup_String"
    elif given == "e":
        lit = c.pick("lit", ["one", "two"])
        w.put("E.", "v").put(lit, "lit")
        cls, py, typ = "Enumeration_Literal", lit, "E"
    elif given == "a":
        w.put("[", "v").put(sign + x + ", " + y + "]")
        cls, py, typ = "Array_Aggregate", [sg * xv, yv], None
    elif given == "t":
        w.put(x, "v").put(" : " + y)
        cls, py, typ = "Tuple_Aggregate", {"a": xv, "b": yv}, "Tu"
    elif given == "g":
        w.put("(", "v").put(x + ", " + y + " : 7)")
        cls, typ = "Tuple_Aggregate", "Ge"
        py = {"x": xv, "y": {"a": yv, "b": 7}}
    else:
        q = c.choice("qualified", 2)
        w.put("P." if q else "", "v").put("other", "ref")
        cls, py = "Record_Reference", "P.other"
        typ = "C" if given == "r" else None
    w.put("\n}\n")
    res = load(c, {"a.rsl": rsl, "a.trlc": w.s})
    if res is None:
        return
    p = package(res, "P")
    c.check(sorted(o.name for o in res.objects()) == ["obj", "other"],
            "objects")
    o = p.symbols.lookup_assuming(res.mh, "obj")
    c.check(o is res.obj("obj"), "the same object")
    c.check(kind(o) == "Record_Object" and o.n_typ.name == "T" and
            o.n_package is p and o.fully_qualified_name() == "P.obj" and
            o.section is None, "object")
    at(c, o, w.marks["obj"], "the object")
    c.check(list(o.field) == comps, "components in order: %s",
            repr(list(o.field)))
    for nm in comps:
        val = o.field[nm]
        if nm != given:
            c.check(kind(val) == "Implicit_Null" and
                    val.to_python_object() is None, "no value for %s", nm)
    val = o.field[given]
    c.check(kind(val) == cls, "kind of value: %s, expected %s", kind(val),
            cls)
    c.check(same(val.to_python_object(), py), "value")
    c.check(same(o.to_python_dict(),
                 {nm: py if nm == given else None for nm in comps}),
            "python view")
    if typ is not None:
        c.check(val.typ.name == typ, "type of the value: %s", val.typ.name)
    if given == "g" or given == "a":
        at(c, val, w.marks["v"], "the value")
    elif given == "e":
        c.check(val.value.name == py and val.value.n_typ is
                p.symbols.lookup_assuming(res.mh, "E"), "literal")
        at(c, val, w.marks["lit"], "the value")
    elif given in ("r", "u"):
        at(c, val, w.marks["ref"], "the value")
        c.check(val.target is res.obj("other") and val.name == "other" and
                val.package is p, "target")
        if given == "r":
            c.check(val.typ is res.obj("other").n_typ, "type of reference")
    else:
        at(c, val, w.marks["v"], "the value")


def frozen(c):
    """frozen components in the type and in the object"""
    level = c.choice("level", 2)
    x, xv = c.int_text("x", 2)
    y, yv = c.int_text("y", 2)
    rsl = "package P\ntype A { n optional Integer k Integer }\n" \
        "type B extends A { "
    if level == 0:
        rsl = rsl + "freeze k = " + x
    rsl = rsl + " }\ntype D extends B { "
    if level == 1:
        rsl = rsl + "freeze k = " + x
    both = c.choice("both", 2)
    if both:
        rsl = rsl + " freeze n = " + y
    res = load(c, {"a.rsl": rsl + " }\n",
                   "a.trlc": "package P\nD obj { }\n"})
    if res is None:
        return
    p = package(res, "P")
    a, b, d = [p.symbols.lookup_assuming(res.mh, nm) for nm in "ABD"]
    n, k = a.all_components()
    c.check(not a.is_frozen(k) and b.is_frozen(k) is (level == 0) and
            d.is_frozen(k) and not b.is_frozen(n) and
            d.is_frozen(n) is bool(both), "is_frozen")
    c.check(list(b.frozen) == (["k"] if level == 0 else []) and
            sorted(d.frozen) == (["n"] if both else []) * 0 +
            sorted((["k"] if level == 1 else []) + (["n"] if both else [])),
            "frozen components")
    c.check(d.get_freezing_expression(k).to_python_object() == xv, "value")
    o = res.obj("obj")
    c.check(same(o.to_python_dict(), {"n": yv if both else None, "k": xv}),
            "values of the object")


def packages(c):
    """packages, objects and nothing else"""
    late = c.choice("late", 2)
    imp = c.choice("import", 2)
    name = c.string_upto("name", 2, "xyY", minlen=1)
    v, vv = c.int_text("v", 1)
    files = {"a.rsl": "package P\ntype T { v Integer }\nenum E { e }\n",
             "b.rsl": "package Q\nimport P\ntype S extends P.T { }\n",
             "a.trlc": "package " + ("L\nimport P\nP." if late else "P\n") +
             "T " + name + " { v = " + v + " }\n"}
    if imp:
        files["b.trlc"] = "package Q\nimport P\nP.T " + name + \
            " { v = " + v + " }\nS other { v = 3 }\n"
    res = load(c, files)
    if res is None:
        return
    pk = [x for x in res.symbols.values() if kind(x) == "Package"]
    c.check([x.name for x in pk] == (["L"] if late else []) + ["P", "Q"],
            "packages: %s", repr([x.name for x in pk]))
    c.check([x.declared_late for x in pk] == ([True] if late else []) +
            [False, False], "declared late")
    ast = importlib.import_module("trlc.ast")
    for x in pk:
        objs = list(x.symbols.values(ast.Record_Object))
        types = sorted(t.name for t in x.symbols.values(ast.Concrete_Type))
        want = {"L": [], "P": ["E", "T"], "Q": ["S"]}[x.name]
        c.check(types == want, "types of %s: %s", x.name, repr(types))
        nobj = (1 if x.name == ("L" if late else "P") else 0) + \
            (2 if imp and x.name == "Q" else 0)
        c.check(len(objs) == nobj, "objects of %s", x.name)
        c.check(len(list(x.symbols.values())) == nobj + len(want),
                "nothing else in %s", x.name)
        c.check(list(x.symbols.iter_record_objects()) ==
                [o for o in res.objects() if o.n_package is x],
                "objects by package")
        for o in objs:
            c.check(o.n_package is x, "package of the object")
            if bool(o.name == "other") and x.name == "Q":
                c.check(o.n_typ.name == "S", "type of other")
            else:
                c.check(o.name == name and o.n_typ.n_package.name == "P" and
                        o.n_typ.name == "T", "object")
                c.check(same(o.to_python_dict(), {"v": vv}), "value")
    c.check(len(res.objects()) == 1 + 2 * imp, "all objects")
    others = sorted(x.name for x in res.symbols.values()
                    if kind(x) != "Package")
    c.check(others == BUILTINS, "builtins: %s", repr(others))


BUILTINS = ["Integer", "Decimal", "Boolean", "String", "Markup_String",
            "len", "startswith", "endswith", "matches", "oneof"]


def lookup_builtin(c):
    """builtin types and functions are visible from every package"""
    ast = importlib.import_module("trlc.ast")
    errors = importlib.import_module("trlc.errors")
    ask = c.pick("ask", BUILTINS + ["integer", "MarkupString", "Len", "T",
                                    "Col"])
    pkg = c.pick("package", ["P", "Q"])
    want = c.pick("class", [None, "Builtin_Type", "Builtin_Function",
                            "Entity"])
    res = load(c, {"a.rsl": "package P\ntype T { }\n",
                   "b.rsl": "package Q\nimport P\nenum Col { a }\n"})
    if res is None:
        return
    cls = None if want is None else getattr(ast, want)
    tab = package(res, pkg).symbols
    builtin = ask in BUILTINS
    own = ask == ("T" if pkg == "P" else "Col")
    fits = want in (None, "Entity") or \
        builtin and (want == "Builtin_Type") == (ask[0].isupper())
    for direct in (False, True):
        err = False
        rv = None
        try:
            if direct:
                rv = tab.lookup_direct(res.mh, ask,
                                       errors.Location("nowhere", 3, 5), cls)
            else:
                rv = tab.lookup_assuming(res.mh, ask, cls)
        except errors.TRLC_Error:
            err = True
        c.check(err is (not fits if builtin or own else direct),
                "error of the lookup of %s", ask)
        c.check((rv is not None) == (fits and (builtin or own)),
                "lookup of %s from %s", ask, pkg)
        if rv is not None:
            c.check(rv.name == ask, "name")
    # without search in other tables
    c.check((ask in tab) == (builtin or own), "membership")


def lookup(c, n=2):
    """finding things by their name"""
    ast = importlib.import_module("trlc.ast")
    errors = importlib.import_module("trlc.errors")
    # the names
    one = c.string_upto("one", n, "aA_1", minlen=1)
    c.assume(one[0] in "aA")
    ask = c.string_upto("ask", n, "aA_1", minlen=1)
    what = c.choice("what", 5)
    rsl = "package P\n"
    cls = ast.Entity
    if what == 0:
        rsl = rsl + "type " + one + " { }\n"
        cls = ast.Record_Type
    elif what == 1:
        rsl = rsl + "enum " + one + " { b }\n"
        cls = ast.Enumeration_Type
    elif what == 2:
        rsl = rsl + "type T { }\n"
        cls = ast.Record_Object
    elif what == 3:
        rsl = rsl + "type T { zz Integer " + one + " Boolean }\n" \
            "type U extends T { y Integer }\n"
        cls = ast.Composite_Component
    else:
        rsl = rsl + "enum T { zz " + one + " }\n"
        cls = ast.Enumeration_Literal_Spec
    files = {"a.rsl": rsl}
    if what == 2:
        files["a.trlc"] = "package P\nT " + one + " { }\n"
    res = load(c, files)
    if res is None:
        return
    p = package(res, "P").symbols
    tabs = [p]
    if what == 3:
        tabs = [p.lookup_assuming(res.mh, t).components for t in "TU"]
        c.check(tabs[0].all_names() == {"zz", str(one)} if
                isinstance(one, str) else True, "all names")
        c.check(len(tabs[0].all_names()) == 2 and
                len(tabs[1].all_names()) == 3, "number of names")
    elif what == 4:
        tabs = [p.lookup_assuming(res.mh, "T").literals]
    ok = True if one == ask else False
    c.reach("found" if ok else "not found")
    want = c.pick("class", [None, "right", "base", "wrong"])
    sub = {None: None, "right": cls, "base": ast.Entity,
           "wrong": ast.Tuple_Type}[want]
    for tab in tabs:
        c.check((ask in tab) == ok and tab.contains(ask) == ok,
                "membership")
        err = False
        rv = None
        try:
            rv = tab.lookup_assuming(res.mh, ask, sub)
        except errors.TRLC_Error:
            err = True
        c.check(err is (ok and want == "wrong"), "error for the wrong class")
        if ok and not err:
            c.check(rv is not None and rv.name == one and
                    isinstance(rv, cls), "lookup of a declared name")
        else:
            c.check(rv is None, "lookup of another name: %s", repr(rv))
        loc = errors.Location("nowhere", 3, 5)
        before = len(res.messages)
        err = False
        try:
            rv = tab.lookup_direct(res.mh, ask, loc, sub)
        except errors.TRLC_Error as e:
            err = True
            c.check(e.location is loc, "location of the error")
        c.check(err is (not ok or want == "wrong"), "error of the lookup")
        c.check(len(res.messages) == before + err, "one message")
        if not err:
            c.check(rv.name == one and isinstance(rv, cls), "found")
        for k, typ in enumerate((None, cls, ast.Entity, ast.Tuple_Type,
                                 ast.Typed_Entity)):
            vals = list(tab.values(typ))
            hit = [v for v in vals if v.name == one]
            exp = typ is not ast.Tuple_Type and \
                (typ is not ast.Typed_Entity or
                 issubclass(cls, ast.Typed_Entity))
            c.check(len(hit) == int(exp), "values of class %s: %s",
                    str(typ), repr(vals))


BUILTINS = sorted(["Integer", "Decimal", "Boolean", "String",
                   "Markup_String", "len", "startswith", "endswith",
                   "matches", "oneof"])


DUMPED = {
    "i": ("Integer", "number"), "d": ("Decimal", "decimal"),
    "b": ("Boolean", [("true", True), ("false", False)]),
    "s": ("String", "text"), "m": ("Markup_String", [
        ('"see [[a]]"', "see [[a]]"), ('"[[Q.z, a]]"', "[[Q.z, a]]")]),
    "e": ("E", [("E.A", "A"), ("E.B", "B")]),
    "r": ("T", [("a", "P.a"), ("o", "P.o"), ("Q.z", "Q.z")]),
    "t": ("U", [("1 @ 2.5", {"x": 1, "y": 2.5}), ("-3", {"x": -3,
                                                          "y": None})]),
    "l": ("Decimal [0 .. 2]", [("[]", []), ("[1.5]", [1.5]),
                               ("[2.0, -0.5]", [2.0, -0.5])]),
    "k": ("U [0 .. 2]", [("[1]", [{"x": 1, "y": None}]),
                         ("[1, 2@0.5]", [{"x": 1, "y": None},
                                         {"x": 2, "y": 0.5}])]),
    "q": ("T [0 .. 2]", [("[a, o]", ["P.a", "P.o"]), ("[]", [])]),
}


def dumped(c, name):
    """(text, value) of a component"""
    kind = DUMPED[name][1]
    if kind == "number":
        t, v = c.int_text(name, 2)
        if c.choice(name + ".sign", 2):
            return "-" + t, -v
        return t, v
    if kind == "decimal":
        sign = c.pick(name + ".sign", ["", "-"])
        whole = c.pick(name + ".whole", ["0", "7", "12"])
        frac = c.pick(name + ".frac", ["0", "5", "25", "1"])
        return sign + whole + "." + frac, float(sign + whole + "." + frac)
    if kind == "text":
        v = c.string_upto(name, 2, "a \u00e9'[")
        return '"' + v + '"', v
    return c.pick(name, kind)


def api_dump(c, twin=False):
    """--debug-api-dump shows the values of all objects"""
    trlc = importlib.import_module("trlc.trlc")
    name = c.pick("component", list(DUMPED)[:1 if twin else None])
    first = c.choice("given", 2) == 1
    frozen = not twin and c.choice("frozen", 2) == 1
    split = not twin and c.choice("packages", 2) == 1
    skip = c.choice("skip_trlc_files", 2) == 1
    text, value = dumped(c, name)
    rsl = "package P\nenum E { A B }\n"
    rsl += "tuple U { x Integer separator @ y optional Decimal }\n" \
        "type T { n Integer %s optional %s }\n" % (name, DUMPED[name][0])
    z = "a" if twin else "z"
    foreign = isinstance(text, str) and "Q.z" in text
    lines = "T a { n = 1"
    if first:
        lines = lines + " " + name + " = " + text
    lines = lines + " }\nT o { n = 2 }\n"
    files = {"q.rsl": "package Q\nimport P\ntype S extends P.T { }\n",
             "q.trlc": "package Q\nimport P\nS %s { n = 3 }\n" % z}
    want = {"a": {"n": 1, name: value if first else None},
            "o": {"n": 2, name: None}}
    if frozen:
        rsl += "type F extends T { freeze n = 7 }\n"
        lines = lines + "F g { }\n"
        want["g"] = {"n": 7, name: None}
    if not split and not twin and not foreign:
        files = {}
    else:
        want[z] = {"n": 3, name: None}
        if foreign:
            lines = "import Q\n" + lines
    files["p.rsl"] = rsl
    files["p.trlc"] = "package P\n" + lines
    got = []

    def record(data, **kwargs):
        got.append(data)
        return "{}"
    real = trlc.json.dumps
    trlc.json.dumps = record
    try:
        r = cli(files, sorted(files) + ["--debug-api-dump", "--no-lint"] +
                (["--skip-trlc-files"] if skip else []))
    finally:
        trlc.json.dumps = real
    c.check(r.crash is None, "crash %s", repr(r.crash))
    if r.crash is not None:
        return
    c.check(r.rc == 0, "exit status %s: %s", r.rc, r.text)
    c.check(len(got) == 1, "one dump")
    if len(got) != 1:
        return
    got = got[0]
    if skip:
        want = {}
    c.check(len(got) == (len(want) + int(twin and not skip)),
            "%u objects shown for %u", len(got),
            len(want) + int(twin and not skip))
    if twin:
        return
    c.check(sorted(got) == sorted(want), "objects %s", repr(sorted(got)))
    for key in want:
        c.check(key in got and same(dict(sorted(got[key].items())),
                                    dict(sorted(want[key].items()))),
                "%s is shown as %s", key, repr(got.get(key)))
    c.reach("legal")


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, func, bounds, w=1, expect=("legal",), replay=0.3, **args):
        out.append({"name": name, "property": "C22", "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    add("record type", "record_type", "all qualifiers, parent, descriptions "
        "of one character, one component", 5, replay=0.1)
    add("components", "component_types", "2 components, 8 kinds of type, "
        "bounds of one digit", 5, replay=0.1)
    add("enumeration", "enumeration", "up to 3 literals", 4, replay=0.2)
    for n in (2, 3) if th else (2,):
        add("tuple type %u" % n, "tuple_type", "up to %u fields, 4 "
            "separators" % n, 3 ** n, n=n, replay=0.1 if n == 2 else 0.01)
    for n in (1, 2):
        add("checks %u" % n, "checks", "%u checks" % n, 4 * n ** 4, n=n,
            replay=0.2 if n == 1 else 0.02)
    add("values", "values", "11 kinds of value, numbers of 2 digits", 4)
    add("dump", "api_dump", "%u kinds of component, numbers of 2 digits, "
        "texts of up to 2 characters, one or two packages" % len(DUMPED), 3)
    add("known dump", "api_dump", "two packages with an object of the same "
        "name", 1, expect=(), twin=True)
    add("frozen", "frozen", "2 components, 3 levels", 1)
    add("packages", "packages", "2 or 3 packages, names of up to 2 "
        "characters", 3)
    add("lookup of builtins", "lookup_builtin", "15 names from 2 packages, "
        "4 classes", 1)
    add("lookup", "lookup", "names and questions of up to %u characters" %
        (3 if th else 2), 4, n=3 if th else 2, replay=0.05,
        expect=("found", "not found"))
    return out
