"""C26 the linter: no influence on the outcome, issues exactly when due."""

from symx import common
from symx.logic import AND, OR, NOT, text


def issues(res, category):
    return [m for m in res.of("issue") if m.category == category]


def lint(c, files, **kw):
    res = common.run(files, lint=True, **kw)
    c.check(res.crash is None, "internal failure: %s", res.summary())
    return res


def due(c, res, category, want):
    """want: list of (line, column) in source order"""
    got = [(m.line, m.col) for m in issues(res, category)]
    c.reach("issue" if want else "none")
    c.check(len(got) == len(want), "%u %s issues, expected %u", len(got),
            category, len(want))
    if len(got) == len(want):
        c.check(sorted(got) == sorted(want), "%s reported at %s, expected %s",
                category, repr(got), repr(want))


# ------------------------------------------------- no influence

def shape(c, a, b):
    """outcome with and without lint is the same"""
    for r, what in ((a, "off"), (b, "on")):
        c.check(r.crash is None, "internal failure with lint %s: %s", what,
                r.summary())
    if a.crash is not None or b.crash is not None:
        return
    c.check((a.symbols is None) == (b.symbols is None),
            "lint changes acceptance: %s / %s", a.summary(), b.summary())
    ma = [m for m in a.messages if m.kind != "issue"]
    mb = [m for m in b.messages if m.kind != "issue"]
    c.check(len(a.of("issue")) == 0, "issue without lint")
    c.check(len(ma) == len(mb), "lint changes the messages: %s / %s",
            a.summary(), b.summary())
    if len(ma) == len(mb):
        for x, y in zip(ma, mb):
            c.check(AND(x.kind == y.kind, x.message == y.message,
                        x.file == y.file, x.line == y.line, x.col == y.col),
                    "lint changes a message: %s / %s", repr(x), repr(y))
    if a.symbols is None or b.symbols is None:
        c.reach("rejected")
        return
    c.reach("accepted")
    if b.of("issue"):
        c.reach("issue")
    oa, ob = a.objects(), b.objects()
    c.check([o.name for o in oa] == [o.name for o in ob],
            "lint changes the objects")
    if len(oa) == len(ob):
        for x, y in zip(oa, ob):
            c.check(str(sorted(x.field)) == str(sorted(y.field)),
                    "lint changes the components")
            dx, dy = x.to_python_dict(), y.to_python_dict()
            for k in dx:
                c.check(dx[k] == dy[k], "lint changes component %s", k)


BAD = ["x optional Integer[10 .. 3]", "x Integer[0 .. 0]",
       "x Integer[1 .. 1]", "x optional Integer[0 .. 1]", "x optional [A]",
       "x [A, B]", "x optional [B, A] [0 .. 2]", "x Integer",
       "x optional W", "x optional Integer", "x optional [A, C]"]
VALS = ["", "x = @", "x = [@]", "x = bb", "x = [bb, cc]", "x = 0x@",
        "x = (@, 1)"]
CHK = ["x != null, \"m\"", "-@ * 2 < 0, \"m\"", "@ > 4, \"m\"",
       "@ > 4, fatal \"m\", x", "x != null implies x.i > @, \"m\"",
       "x == null or x.q == null, \"m\"",
       "x != null implies len(x) > @, warning \"m\"",
       "x != null implies x > @, \"m\""]


def neutral(c):
    """all combinations of a component, a value and a check"""
    comp = c.pick("component", BAD)
    val = c.pick("value", VALS)
    chk = c.pick("check", CHK)
    t, v = c.int_text("v", 1)

    def fill(s):
        k = s.find("@")
        return s if k < 0 else s[:k] + t + s[k + 1:]
    files = {
        "a.rsl": "package P\nimport Q\nabstract type L { }\n"
        "final type F { }\ntype G extends F { }\ntype A { i Integer }\ntype B extends A { q optional Integer }\n"
        "type C { q Integer }\n"
        "tuple W { v Integer separator x w optional Integer }\n"
        "type T { " + comp + " }\nchecks T { " + fill(chk) + " }\n",
        "q.rsl": "package Q\n",
        "a.trlc": "package P\nimport Q\nB bb { i = 3 }\nC cc { q = 1 }\n"
        "T tt { " + fill(val) + " }\n"}
    shape(c, common.run(files), common.run(files, lint=True))


# ------------------------------------------------- issues

def arrays(c, digits=2, where="record"):
    """array bounds that make no or little sense"""
    tl, lo = c.int_text("lo", digits)
    star = where != "record" and c.choice("star", 2) == 1
    tu, up = c.int_text("up", digits)
    el = c.pick("element", ["Integer", "M", "[M, N]"])
    files = {"a.rsl": "package P\ntype M { }\ntype N { }\ntype T {\n  x " +
             el + " [" + tl + " .. " + ("*" if star else tu) + "]\n}\n"}
    res = lint(c, files)
    if res.crash is not None:
        return
    c.check(not res.errors, "rejected: %s", res.summary())
    got = res.of("issue")
    col = len("  x " + el + " [" + tl + " .. ") + 1
    imp = OR(up < lo, up == 0)
    weird = AND(up == 1, lo <= 1)
    if star:
        want = ""
    elif imp:
        want = "impossible_array_types"
    elif weird:
        want = "weird_array_types"
    else:
        want = ""
    c.reach(want or "none")
    c.check(len(got) == (1 if want else 0), "%u issues for these bounds",
            len(got))
    if want and len(got) == 1:
        c.check(got[0].category == want, "issue %s, expected %s",
                got[0].category, want)
        c.check(got[0].line == 5 and got[0].col == col,
                "position of the issue")


HIER = "package P\ntype A { }\ntype B extends A { }\ntype C extends B { }\n" \
    "type D { }\ntype E extends A { }\n"
SUB = {"A": "A", "B": "AB", "C": "ABC", "D": "D", "E": "AE"}


def unions(c, n=3, where="record"):
    """single member unions and members that are subtypes of others"""
    k = c.choice("members", n) + 1
    ts = [c.pick("m%u" % i, "ABCDE") for i in range(k)]
    c.assume(len(set(ts)) == k)
    body = "[" + ", ".join(ts) + "]"
    if where == "record":
        decl = c.pick("form", ["x %s", "x optional %s", "x %s [2 .. 3]",
                               "x %s [0 .. *]"])
        t = "type T { " + decl % body + " }\n"
    else:
        decl = c.pick("form", ["x %s", "y Integer separator : x %s"])
        t = "tuple T { " + decl % body + " }\n"
        c.assume(decl == "x %s" or True)
    res = lint(c, {"a.rsl": HIER + t})
    if res.crash is not None:
        return
    c.check(not res.errors, "rejected: %s", res.summary())
    pos = (7, t.index("[") + 1)
    due(c, res, "union_single_type", [pos] if k == 1 else [])
    red = [(a, b) for a in ts for b in ts if a != b and b in SUB[a]]
    due(c, res, "union_redundant_subtype", [pos] * len(red))
    got = [m.message for m in issues(res, "union_redundant_subtype")]
    for a, b in red:
        c.check("%s is a subtype of %s which is already in this union" %
                (a, b) in got, "%s below %s not named", a, b)


ELS = ["Integer", "Decimal", "Boolean", "String", "En", "M"]


def separators(c, n=3):
    """x and b after an integer component"""
    els = [c.pick("e%u" % i, ELS[:3] if i else ELS) for i in range(n)]
    seps = [c.pick("s%u" % i, ["x", "b", ":", "@", "y"])
            for i in range(n - 1)]
    opt = c.choice("optional", n)       # components from here on optional
    lines = ["package P", "enum En { a }", "type M { }", "tuple T {"]
    want = []
    for i in range(n):
        if i:
            lines.append("  separator " + seps[i - 1])
            if seps[i - 1] in "xb" and els[i - 1] == "Integer":
                want.append((len(lines), 13))
        lines.append("  c%u %s%s" % (i, "optional " if opt and i >= opt
                                     else "", els[i]))
    lines.append("}\n")
    res = lint(c, {"a.rsl": "\n".join(lines)})
    if res.crash is not None:
        return
    c.check(not res.errors, "rejected: %s", res.summary())
    due(c, res, "separator_based_literal_ambiguity", want)


def leaves(c, n=4, files=1):
    """abstract types without concrete extension, unmarked final types"""
    par = [c.choice("parent%u" % i, i + 1) for i in range(n)]   # 0: none
    abst = [c.choice("abstract%u" % i, 2) == 1 for i in range(n)]
    fin = [c.choice("final%u" % i, 2) == 1 for i in range(n)]
    c.assume(not any(a and f for a, f in zip(abst, fin)))
    root_final = []
    err = False
    for i in range(n):
        if par[i]:
            p = par[i] - 1
            # an abstract type may only extend abstract types
            if abst[i] and not abst[p]:
                err = True
            if abst[i] and root_final[p]:
                err = True
            root_final.append(fin[i] or root_final[p])
        else:
            root_final.append(fin[i])
    c.assume(not err)
    text_ = ""
    pos = []
    for i in range(n):
        pre = ("abstract " if abst[i] else "") + \
            ("final " if fin[i] else "") + "type "
        pos.append((i + 2, len(pre) + 1))
        text_ += pre + "T%u%s { }\n" % (
            i, " extends T%u" % (par[i] - 1) if par[i] else "")
    res = lint(c, {"a.rsl": "package P\n" + text_})
    if res.crash is not None:
        return
    if res.errors:
        c.reach("error")
        return
    used = set()
    for i in range(n):
        if not abst[i]:
            p = par[i]
            while p:
                used.add(p - 1)
                p = par[p - 1]
    due(c, res, "abstract_leaf_types",
        [pos[i] for i in range(n) if abst[i] and i not in used])
    due(c, res, "clarify_final",
        [pos[i] for i in range(n) if root_final[i] and not fin[i]])


def across(c):
    """an extension in another package or file counts"""
    n = c.choice("extension", 3)
    order = c.choice("order", 2)
    top, low, leaf = c.pick("names", [("P", "Q", "R"), ("Q", "P", "R"),
                                      ("R", "Q", "P"), ("Q", "R", "P"),
                                      ("P", "R", "Q")])
    third = c.choice("third", 3)
    c.assume(n or not third)
    files = {"p.rsl": "package %s\nabstract type A { }\n" % top}
    if n:
        files["q.rsl"] = "package %s\nimport %s\n%stype B extends %s.A " \
            "{ }\n" % (low, top, "abstract " if n == 2 else "", top)
    if third:
        # below the first or the second type
        par = (top, "A") if third == 1 else (low, "B")
        files["r.rsl"] = "package %s\nimport %s\ntype C extends %s.%s { }\n" \
            % ((leaf, par[0]) + par)
    if order:
        files = dict(reversed(list(files.items())))
    res = lint(c, files)
    want = []
    if n != 1 and not third:
        want.append((2, 15))
    if n == 2 and third != 2:
        want.append((3, 15))
    due(c, res, "abstract_leaf_types", want)


def minus(c):
    """sign before an operator that binds stronger"""
    un = c.pick("sign", ["-", "+", ""])
    form = c.pick("form", ["x", "(x)", "abs x", "xs[0]", "len(xs)", "@",
                           "(x * 2)", "t.v"])
    op = c.pick("operator", ["*", "/", "%", "+", "-", "**", ""])
    t, v = c.int_text("v", 1)
    c.assume(v > 0)
    k = form.find("@")
    f = form if k < 0 else form[:k] + t + form[k + 1:]
    # brackets around the first operand only: not specified
    c.assume(not (form[0] == "(" and op in ("*", "/", "%", "**")))
    c.assume(not (form == "abs x" and op == "**"))
    chk = "  " + un + f + (" " + op + " 2" if op else "") + " < 50"
    res = lint(c, {"a.rsl": "package P\ntuple Y { v Integer }\ntype T {\n x "
                   "Integer\n xs Integer [2 .. 3]\n t Y\n}\nchecks T {\n" +
                   chk + ", warning \"m\"\n}\n"})
    if res.crash is not None:
        return
    c.check(not res.errors, "rejected: %s", res.summary())
    due(c, res, "unary_minus_precedence",
        [(9, 3)] if un and op in ("*", "/", "%", "**") else [])


USES = ["", "r optional Q.M", "r optional Q.E", "r optional [Q.M, N]",
        "r Q.M [0 .. 3]", "r Integer[0 .. 9]", "Q optional Integer",
        "r optional Q.T"]
CHKS = ["", "x != 1, \"Q\"", "e != Q.E.a, warning \"m\"",
        "s != \"Q\", warning \"m\"", "startswith(s, \"Q\") or true, \"m\""]


def imports_rsl(c):
    """imports of type files"""
    use = c.pick("use", USES)
    chk = c.pick("check", CHKS)
    ext = c.choice("extends", 2)
    c.assume("Q.E" not in chk or use[:2] != "Q ")
    comp = " ".join(["x Integer s String", "e Q.E" if "Q.E" in chk else "",
                     use])
    body = "type N { }\ntype T %s { %s }\nchecks T { %s }\n" % (
        "extends Q.M" if ext else "", comp, chk)
    res = lint(c, {"q.rsl": "package Q\ntype M { }\nenum E { a }\n"
                   "tuple T { v Integer }\n",
                   "p.rsl": "package P\nimport Q\n" + body})
    if res.crash is not None:
        return
    c.check(not res.errors, "rejected: %s", res.summary())
    want = [] if "Q." in body else [("p.rsl", 2, 8)]
    got = [(m.file, m.line, m.col) for m in issues(res, "unused_imports")]
    c.reach("issue" if want else "none")
    c.check(got == want, "unused imports %s, expected %s", repr(got),
            repr(want))


OBJ = ["N o { r = @ }", "N o { s = \"Q.a\" }", "N o { s = \"Q\" }",
       "N o { m = \"[[@]]\" }", "N o { l = [\"[[o]]\", \"[[@]]\"] }",
       "N o { t = (1, \"[[@]]\") }", "N o { m = \"@\" }",
       "N o { rr = [@, @] }", "@ o { }", "N o { e = @ }",
       "section \"Q\" { N o { } }", "N Q2 { r = Q2 }",
       "N o { t = (1, \"@\") }"]


def imports_trlc(c, n=2):
    """imports of object files"""
    files = {"q.rsl": "package Q\ntype M { }\nenum E { a }\n",
             "r.rsl": "package R\ntype M { }\nenum E { a }\n",
             "q.trlc": "package Q\nM a { }\n", "r.trlc": "package R\nM a { }\n",
             "p.rsl": "package P\nimport Q\nimport R\n"
             "tuple Y { v Integer m Markup_String }\n"
             "type N {\n r optional [Q.M, N, R.M]\n s optional String\n"
             " m optional Markup_String\n l optional Markup_String [1 .. 3]\n"
             " t optional Y\n rr optional Q.M [1 .. 3]\n e optional Q.E\n}\n"}
    used = set()
    text_ = ""
    for k in range(n):
        o = c.pick("object%u" % k, OBJ)
        p = c.pick("package%u" % k, "QR")
        if o[0] == "@":
            what = p + ".M"
        elif "e = @" in o:
            what = p + ".E.a"
            c.assume(p == "Q")
        else:
            what = p + ".a"
            c.assume(p == "Q" or "rr" not in o)
        if "@" in o and "m = \"@" not in o and ", \"@\"" not in o:
            used.add(p)
        text_ += o.replace("@", what).replace(
            " o ", " o%u " % k).replace("[[o]]", "[[o%u]]" % k).replace(
                "Q2", "Q2%u" % k) + "\n"
    head = "package P\nimport Q\nimport R\n"
    files["p.trlc"] = head + text_
    res = lint(c, files)
    if res.crash is not None:
        return
    c.check(not res.errors, "rejected: %s", res.summary())
    got = [(m.file, m.line, m.col) for m in issues(res, "unused_imports")]
    want = [("p.trlc", 2 + "QR".index(p), 8) for p in "QR" if p not in used]
    c.reach("issue" if want else "none")
    c.check(got == want, "unused imports %s, expected %s", repr(got),
            repr(want))


def imports_included(c):
    """unused imports are reported in files of the include path that are
    needed, and not in others"""
    used = [c.choice("used%u" % k, 2) == 1 for k in range(3)]
    prim = [c.choice("primary%u" % k, 2) == 1 for k in range(4)]
    need = c.choice("import_by_objects", 2) == 1
    c.assume(any(prim))
    files = {
        "q.rsl": "package Q\ntype M { }\n",
        "p.rsl": "package P\nimport Q\ntype N { a optional %s }\n" % (
            "Q.M" if used[0] else "Integer"),
        "o.trlc": "package P\nimport Q\nN o { %s}\n" % (
            "a = Q.x " if used[0] and used[1] else ""),
        "q.trlc": "package Q\n%sM x { }\nM y { }\n" % (
            "import S\n" if need else ""),
        "s.rsl": "package S\ntype U { }\n",
        "s.trlc": "package S\nU uu { }\n"}
    used[1] = used[0] and used[1]
    names = ["p.rsl", "o.trlc", "q.trlc", "q.rsl"]
    primary = [n for n, p in zip(names, prim) if p]
    res = lint(c, files, primary=primary)
    if res.crash is not None:
        return
    c.check(not res.errors, "rejected: %s", res.summary())
    # packages needed as types and as objects
    objs = set()
    if "o.trlc" in primary:
        objs |= {"P", "Q"}
    if "q.trlc" in primary:
        objs |= {"Q"}
    if "Q" in objs and need:
        objs.add("S")
    types = set(objs)
    if "p.rsl" in primary:
        types |= {"P", "Q"}
    want = set()
    if "P" in types and not used[0]:
        want.add(("p.rsl", 2, 8))
    if "P" in objs and not used[1]:
        want.add(("o.trlc", 2, 8))
    if "Q" in objs and need:
        want.add(("q.trlc", 2, 8))
    got = [(m.file, m.line, m.col) for m in issues(res, "unused_imports")]
    c.reach("issue" if want else "none")
    c.check(len(got) == len(set(got)) and set(got) == want,
            "unused imports %s, expected %s", repr(got), repr(want))


def partial(c):
    """access to a component that not every member of a union has"""
    mem = [x for x in "ABCD" if c.choice("member_" + x, 2)]
    c.assume(len(mem) > 0)
    f = c.pick("field", "pqr")
    has = {"A": "p", "B": "pq", "C": "pqr", "D": ""}
    cnt = sum(1 for x in mem if f in has[x])
    chk = "  u." + f + " != null, warning \"m\""
    res = lint(c, {"a.rsl": "package P\ntype A { p Integer }\ntype B extends "
                   "A { q Integer }\ntype C extends B { r optional Integer "
                   "}\ntype D { }\ntype T { u [" + ", ".join(mem) + "] }\n"
                   "checks T {\n" + chk + "\n}\n"})
    if res.crash is not None:
        return
    c.check(bool(res.errors) == (cnt == 0), "acceptance: %s", res.summary())
    if not res.errors:
        due(c, res, "union_partial_field_access",
            [(8, 5)] if cnt < len(mem) else [])
        for m in issues(res, "union_partial_field_access"):
            c.check("only in %u of %u members" % (cnt, len(mem)) in m.message,
                    "numbers in %s", m.message)


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, func, bounds, w=1, expect=("issue", "none"), replay=0.1,
            **args):
        out.append({"name": name, "property": "C26", "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    add("neutral", "neutral", "11 components x 7 values x 8 checks, values "
        "0..9", 6, expect=("accepted", "rejected", "issue"))
    add("arrays", "arrays", "bounds 0..99, 3 element types", 2,
        expect=("impossible_array_types", "weird_array_types", "none"),
        digits=3 if th else 2)
    add("arrays open", "arrays", "bounds 0..9 and *", 2, where="star",
        expect=("impossible_array_types", "weird_array_types", "none"),
        digits=1)
    add("unions", "unions", "lists of up to 3 of 5 types, 4 forms", 3,
        n=4 if th else 3)
    add("unions tuple", "unions", "lists of up to 2 of 5 types, 2 forms", 2,
        n=3 if th else 2, where="tuple")
    add("separators", "separators", "3 components, 6 types, 5 separators", 4,
        n=4 if th else 3)
    add("hierarchy", "leaves", "%u types, any parents, abstract, final" %
        (5 if th else 4), 5, n=5 if th else 4)
    add("packages", "across", "2 packages in any order", 1)
    add("precedence", "minus", "3 signs, 8 operands, 7 operators", 3)
    add("imports of types", "imports_rsl", "8 uses, 5 checks", 3)
    add("imports of objects", "imports_trlc", "2 objects of 13 forms, 2 "
        "imports", 4, n=3 if th else 2)
    add("imports included", "imports_included", "5 files, any of them "
        "primary, any import unused", 2)
    add("partial access", "partial", "any subset of 4 members, 3 components",
        1)
    return out
