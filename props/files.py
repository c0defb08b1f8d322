"""C19 which files are processed, in any order; C16 visibility of names."""

import itertools
import os
import shutil

from symx import common
from symx.logic import AND, OR, NOT

from props.objects import judge, same


def closure(start, edges):
    out = set(start)
    while True:
        new = {j for i in out for j in edges.get(i, ())} - out
        if not new:
            return out
        out |= new


def cyclic(nodes, edges):
    """nodes that take part in or depend on a cycle"""
    rest = set(nodes)
    while True:
        free = {i for i in rest if not (set(edges.get(i, ())) & rest)}
        if not free:
            return rest
        rest -= free


def edge_bits(c, name, n, pairs):
    edges = {i: [] for i in range(n)}
    for i, j in pairs:
        if c.choice("%s%u%u" % (name, i, j), 2):
            edges[i].append(j)
    return edges


def file_set(c, n=3, forward=True):
    """exactly the files needed by the primary ones are processed"""
    names = "PQRS"[:n]
    pairs = [(i, j) for i in range(n) for j in range(n)
             if (i < j if forward else i != j)]
    redge = edge_bits(c, "rsl", n, pairs)
    tedge = edge_bits(c, "trlc", n, pairs)
    rprim = [c.choice("rsl_primary%u" % k, 2) == 1 for k in range(n)]
    tprim = [c.choice("trlc_primary%u" % k, 2) == 1 for k in range(n)]
    c.assume(any(rprim) or any(tprim))
    t, v = c.int_text("v", 1)
    bad = c.choice("broken", n + 1)       # which package has a broken body
    files = {}
    for k in range(n):
        imp = "".join("import %s\n" % names[j] for j in redge[k])
        comp = "".join(" r%s optional %s.T" % (names[j].lower(), names[j])
                       for j in redge[k])
        files["%s.rsl" % names[k]] = "package %s\n%stype T { v Integer%s }" \
            "\n%s" % (names[k], imp, comp,
                      "type U { v Nope }\n" if bad == k + 1 else "")
        imp = "".join("import %s\n" % names[j] for j in tedge[k])
        use = "".join(" r%s = %s.o" % (names[j].lower(), names[j])
                      for j in redge[k] if j in tedge[k])
        files["%s.trlc" % names[k]] = "package %s\n%sT o { v = " % (
            names[k], imp) + t + use + " }\n"
    primary = ["%s.rsl" % names[k] for k in range(n) if rprim[k]] + \
        ["%s.trlc" % names[k] for k in range(n) if tprim[k]]
    need_t = closure([k for k in range(n) if tprim[k]], tedge)
    need_r = closure({k for k in range(n) if rprim[k]} | need_t, redge)
    res = common.run(files, primary=primary)
    ok = not cyclic(need_r, redge) and bad - 1 not in need_r
    if judge(c, res, ok, "set of files"):
        got = sorted(o.n_package.name for o in res.objects())
        c.check(got == sorted(names[k] for k in need_t),
                "objects of %s, expected %s", repr(got), repr(need_t))
        for o in res.objects():
            k = names.index(o.n_package.name)
            want = {"v": v}
            for j in redge[k]:
                want["r" + names[j].lower()] = names[j] + ".o" \
                    if j in tedge[k] else None
            c.check(same(o.to_python_dict(), want), "value of object")


def late_set(c, n=2):
    """the same where packages have no model or several requirement files"""
    names = "PQRS"[:n]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    tedge = edge_bits(c, "trlc", n, pairs)
    late = [c.choice("late%u" % k, 2) == 1 for k in range(n)]
    parts = [1 + c.choice("files%u" % k, 2) for k in range(n)]
    prim = [c.pick("primary%u" % k, ["", "model", "requirements"][:3 - late[k]]
                   if not late[k] else ["", "requirements"])
            for k in range(n)]
    mprim = c.choice("base_primary", 2) == 1
    c.assume(any(prim))
    t, v = c.int_text("v", 1)
    bad = c.choice("broken", 2 * n + 1)   # which model or file is broken
    files = {"M.rsl": "package M\ntype T { v Integer r optional T }\n",
             "M.trlc": "package M\nT base { v = 0 }\n"}
    for k in range(n):
        if not late[k]:
            files["%s.rsl" % names[k]] = "package %s\ntype W { v Integer }" \
                "\n%s" % (names[k],
                          "type U { v Nope }\n" if bad == k + 1 else "")
        for f in range(parts[k]):
            # the imports of the last file concern the package as a whole
            imp = "import M\n"
            use = ""
            if f == parts[k] - 1:
                imp += "".join("import %s\n" % names[j] for j in tedge[k])
                use = "".join(" r = %s.o0" % names[j] for j in tedge[k][:1])
            files["%s%u.trlc" % (names[k], f)] = \
                "package %s\n%sM.T o%u { v = " % (names[k], imp, f) + t + \
                use + (" v = 1" if f == 0 and bad == n + k + 1 else "") + \
                " }\n"
    primary = []
    for k in range(n):
        if prim[k] == "model":
            primary.append("%s.rsl" % names[k])
        elif prim[k]:
            primary.append("%s0.trlc" % names[k])
    if mprim:
        primary.append("M.trlc")
    need_t = closure([k for k in range(n) if prim[k] == "requirements"],
                     tedge)
    need_r = need_t | {k for k in range(n) if prim[k] == "model"}
    res = common.run(files, primary=primary)
    ok = not any(bad == k + 1 and not late[k] for k in need_r) and \
        not any(bad == n + k + 1 for k in need_t)
    if judge(c, res, ok, "set of files"):
        got = sorted(o.n_package.name + "." + o.name for o in res.objects())
        want = sorted("%s.o%u" % (names[k], f) for k in need_t
                      for f in range(parts[k]))
        if need_t or mprim:
            # the requirements of M are imported by all others
            want = ["M.base"] + want
        c.check(got == sorted(want), "objects %s, expected %s", repr(got),
                repr(want))
        for o in res.objects():
            if o.name != "base":
                c.check(o.to_python_dict()["v"] == v, "value of object")


def chain(c, n=5):
    """dependencies are followed to any depth: package k depends on k + 1,
    up to one that does not"""
    names = "PQRSUV"[:n]
    end = c.choice("end", n)              # last package of the chain
    via = c.choice("via", 3)      # imports of models, requirements, both
    first = c.choice("first", n)
    what = c.choice("primary", 2)
    c.assume(first <= end)
    rev = c.choice("reversed", 2) == 1
    bad = c.choice("broken", n + 1)
    t, v = c.int_text("v", 1)
    files = {}
    redge = {k: [k + 1] if k < end and via != 1 else [] for k in range(n)}
    tedge = {k: [k + 1] if k < end and via != 0 else [] for k in range(n)}
    for k in range(n)[::-1] if rev else range(n):
        imp = "".join("import %s\n" % names[j] for j in redge[k])
        comp = "".join(" r optional %s.T" % names[j] for j in redge[k])
        files["%s.rsl" % names[k]] = "package %s\n%stype T { v Integer%s }" \
            "\n%s" % (names[k], imp, comp,
                      "type U { v Nope }\n" if bad == k + 1 else "")
        imp = "".join("import %s\n" % names[j] for j in tedge[k])
        use = "".join(" r = %s.o" % names[j] for j in redge[k]
                      if j in tedge[k])
        files["%s.trlc" % names[k]] = "package %s\n%sT o { v = " % (
            names[k], imp) + t + use + " }\n"
    need_t = closure([first], tedge) if what else set()
    need_r = closure({first} | need_t, redge)
    res = common.run(files, primary=[names[first] + (".trlc" if what else
                                                     ".rsl")])
    if judge(c, res, bad - 1 not in need_r, "chain of files"):
        got = sorted(o.n_package.name for o in res.objects())
        c.check(got == sorted(names[k] for k in need_t),
                "objects of %s, expected %s", repr(got), repr(need_t))
        for o in res.objects():
            c.check(o.to_python_dict()["v"] == v, "value")


def cycles(c, n=3):
    """circular imports of models are an error, of requirements are not"""
    names = "PQRS"[:n]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    edges = edge_bits(c, "edge", n, pairs)
    rsl = c.choice("in_models", 2) == 1
    files = {}
    for k in range(n):
        imp = "".join("import %s\n" % names[j] for j in edges[k])
        files["%s.rsl" % names[k]] = "package %s\n%stype T { r optional T }" \
            "\n" % (names[k], imp if rsl else "")
        files["%s.trlc" % names[k]] = "package %s\n%sT o { }\n" % (
            names[k], "" if rsl else imp)
    res = common.run(files)
    ok = not rsl or not cyclic(range(n), edges)
    if judge(c, res, ok, "imports"):
        c.check(len(res.objects()) == n, "objects")


def include_dirs(c):
    """include directories provide exactly what is needed; excluded
    directories and other file names are ignored"""
    sub = c.pick("dir", ["", "sub", "bazel-out", "xbazel-out", "bazel",
                         "sub/bazel-x", "sub/deep"])
    ext = c.pick("extension", [".trlc", ".rsl.txt", ".trlcx", ".TRLC"])
    excl = c.choice("excluded", 2) == 1
    imported = c.choice("imported", 2) == 1
    also = c.choice("also_registered", 2) == 1
    bad = c.choice("broken", 2) == 1
    t, v = c.int_text("v", 1)
    if os.path.isdir("incl"):
        shutil.rmtree(os.path.abspath("incl"))
    d = os.path.join("incl", sub) if sub else "incl"
    os.makedirs(d)
    for name, text in (
            ("q.rsl", "package Q\ntype T { v Integer }\n"),
            ("q" + ext, "package Q\nT oq { v = %s }\n" %
             ("nope" if bad else "1"))):
        with open(os.path.join(d, name), "w", encoding="UTF-8") as fd:
            fd.write(text)

    def before(mh, sm):
        if excl:
            import re
            sm.exclude_patterns.append(re.compile("^bazel-.*$"))
        sm.register_include("incl")
        if also:
            sm.register_file(os.path.join(d, "q.rsl"))
    res = common.run({
        "p.rsl": "package P\ntype T { v Integer }\n",
        "p.trlc": "package P\n" + ("import Q\n" if imported else "") +
        "T op { v = " + t + " }\n"}, before=before)
    hidden = excl and any(x.startswith("bazel-") for x in sub.split("/"))
    known = also or not hidden
    seen = imported and known and not hidden and ext == ".trlc"
    if imported and not known:
        c.reach("illegal")
        c.check(res.crash is None, "internal failure")
        c.check(len(res.errors) > 0, "unknown package not reported")
        return
    if judge(c, res, not (seen and bad), "include"):
        got = sorted(o.name for o in res.objects())
        c.check(got == (["op", "oq"] if seen else ["op"]), "objects %s",
                repr(got))
        c.check(same(res.fields("op"), {"v": v}), "value")


ORDER_FILES = {
    "rsl1": "package P\nimport Q\ntype T { v Integer r optional Q.U }\n"
            'checks T { v > 3, warning "low"\n v < 8, "high" }\n',
    "rsl2": "package Q\ntype U { w Integer x optional U }\n"
            'checks U { w != 5, warning "five" }\n',
    "trlc1": "package P\nimport Q\nT a { v = %(0)s r = Q.d }\n"
             "T b { v = %(1)s }\n",
    "trlc2": "package P\nimport Q\nT c { v = 4 r = Q.e }\n",
    "trlc3": "package Q\nU e { w = %(0)s x = d }\nU d { w = 4 x = e }\n",
}


def order(c, n=5):
    """neither the order of registration nor the names of the files matter"""
    keys = sorted(ORDER_FILES)
    perm = list(itertools.permutations(range(5)))
    if n == 5:
        perm = perm[::5]
    reg_perm = c.pick("registration", perm)
    name_perm = c.pick("names", perm[::3])
    t0, v0 = c.int_text("v0", 1)
    t1, v1 = c.int_text("v1", 1)
    files = {}
    for k in reg_perm:
        key = keys[k]
        text = ORDER_FILES[key]
        a, b = text.split("%(0)s") if "%(0)s" in text else (text, None)
        if b is not None:
            if "%(1)s" in b:
                x, y = b.split("%(1)s")
                b = x + t1 + y
            text = a + t0 + b
        files["f%u.%s" % (name_perm[k], key[:-1])] = text
    res = common.run(files)
    want = []
    bad = False
    for name, v, low, high in (("a", v0, "low", "high"),
                               ("b", v1, "low", "high")):
        if v <= 3:
            want.append((name, "check warning", "low"))
        if v >= 8:
            want.append((name, "check error", "high"))
            bad = True
    if v0 == 5:
        want.append(("e", "check warning", "five"))
    c.check(res.crash is None, "internal failure: %s", res.summary())
    c.check(len(res.errors) == 0, "error for a correct input: %s",
            res.summary())
    c.check((res.symbols is None) == bad, "acceptance")
    c.reach("rejected" if bad else "accepted")
    got = sorted((m.kind, m.message) for m in res.user)
    c.check(got == sorted(w[1:] for w in want), "messages %s", repr(got))
    if res.symbols is not None:
        for name, val in (("a", {"v": v0, "r": "Q.d"}),
                          ("b", {"v": v1, "r": None}),
                          ("c", {"v": 4, "r": "Q.e"}),
                          ("d", {"w": 4, "x": "Q.e"}),
                          ("e", {"w": v0, "x": "Q.d"})):
            c.check(same(res.fields(name), val), "value of %s", name)


def late_packages(c):
    """packages declared by requirement files only"""
    pk = c.pick("package", ["Lt", "L_t", "P", "lt", "Integer", "p"])
    imp = c.pick("import", ["", "P", "Lt", "Nope"])
    second = c.choice("second_file", 2) == 1
    dup = c.choice("same_object", 2) == 1
    t, v = c.int_text("v", 1)
    pre = "import %s\n" % imp if imp else ""
    files = {"a.rsl": "package P\ntype T { v Integer r optional T }\n",
             "b.trlc": "package %s\n%s" % (pk, pre) +
             ("T" if pk == "P" else "P.T") + " ob { v = " + t + " }\n"}
    if second:
        files["c.trlc"] = "package Lt\nimport P\nP.T %s { v = 1 }\n" % (
            "ob" if dup else "oc")
    res = common.run(files)
    ok = pk in ("Lt", "L_t", "P", "lt") and imp != "Nope"
    if second and pk in ("L_t", "lt"):
        ok = False                  # too similar to the other package
    if pk != "P" and imp != "P":
        ok = False                  # T not visible
    if imp == pk:
        ok = False                  # self import
    if imp == "Lt" and not second:
        ok = False                  # unknown package
    if second and dup and pk == "Lt":
        ok = False                  # duplicate object
    if judge(c, res, ok, "late package"):
        ob = [o for o in res.objects()
              if o.name == "ob" and o.n_package.name == pk]
        c.check(len(ob) == 1 and bool(ob[0].to_python_dict()["v"] == v),
                "object of the late package")
        c.check(len(res.objects()) == 1 + int(second), "objects")


# ---------------------------------------------------------------- C16

RSL_USES = {
    "component": "type U { v {}.T }",
    "array component": "type U { v {}.T [1 .. 2] }",
    "tuple field": "tuple U { v {}.T }",
    "extends": "type U extends {}.T { }",
    "union": "type U { v [{}.T, P.L] }",
    "enum component": "type U { v {}.E }",
    "enum in check": 'type U { e Integer } checks U { {}.E.X == {}.E.X, "m" }',
    "tuple component": "type U { v {}.Tu }",
    "freeze enum": "type U0 { v {}.E } type U extends U0 { freeze v = {}.E.X"
                   " }",
}
TRLC_USES = {
    "object type": "{}.T o { i = 1 }",
    "reference": "L o { r = {}.ot }",
    "array reference": "L o { a = [{}.ot] }",
    "union reference": "L o { u = {}.ot }",
    "tuple reference": "L o { t = ({}.ot, 1) }",
    "enum value": "L o { e = {}.E.X }",
    "array enum": "L o { b = [{}.E.X] }",
    "markup": "L o { m = \"see [[{}.ot]]\" }",
    "markup list": "L o { m = \"see [[ol, {}.ot]]\" }",
}


def visibility(c, uses="rsl"):
    """names of a package are visible with its name as a prefix in the
    package itself and where it is imported, and nowhere else"""
    table = RSL_USES if uses == "rsl" else TRLC_USES
    use = c.pick("use", sorted(table))
    prefix = c.pick("prefix", ["P", "Q", "R", "Nope", "T", ""])
    same_pkg = prefix == "P"
    imp = c.choice("imported", 2) == 1       # Q imported where it is used
    other = c.choice("imported_elsewhere", 3)
    # 0: no, 1: by another file of the package, 2: by an imported package
    text = table[use].replace("{}." if prefix == "" else "{}", prefix)
    body = "enum E { X }\ntuple Tu { a Integer }\n" \
        "type T { i optional Integer }\n"
    lib = "type L { r optional R.T a optional R.T [1 .. 2] u optional " \
        "[R.T, P.T, Q.T] t optional Tt e optional P.E b optional P.E [1 .. " \
        "2] m optional Markup_String }\n"
    lib = "tuple Tt { f [P.T, Q.T, R.T] g Integer }\ntype L { r optional " \
        "[P.T, Q.T, R.T] a optional [P.T, Q.T, R.T] [1 .. 2] u optional " \
        "[P.T, Q.T, R.T] t optional Tt e optional %s.E b optional %s.E " \
        "[1 .. 2] m optional Markup_String }\n" % (
            (prefix if prefix in "QR" and prefix else "P",) * 2)
    objs = "T ot { i = 1 }\n"
    files = {}
    if uses == "rsl":
        files["p.rsl"] = "package P\n" + ("import Q\n" if imp else "") + \
            ("import R\n" if other == 2 else "") + body + "type L { }\n" + \
            text + "\n"
        files["q.rsl"] = "package Q\n" + body
        files["r.rsl"] = "package R\n" + (
            "import Q\n" if other == 2 else "") + body
        if other == 1:
            files["p.trlc"] = "package P\nimport Q\nimport R\n"
        visible = {"P"} | ({"Q"} if imp else set()) | (
            {"R"} if other == 2 else set())
    else:
        files["p.rsl"] = "package P\nimport Q\nimport R\n" + body + lib
        files["q.rsl"] = "package Q\n" + body
        files["r.rsl"] = "package R\n" + body
        files["p.trlc"] = "package P\n" + (
            "import Q\n" if imp else "") + "L ol { }\n" + text + "\n"
        files["p2.trlc"] = "package P\n" + (
            "import Q\nimport R\n" if other == 1 else "") + objs
        files["q.trlc"] = "package Q\n" + (
            "import R\n" if other == 2 else "") + objs
        files["r.trlc"] = "package R\n" + objs
        visible = {"P"} | ({"Q"} if imp else set())
    ok = prefix in visible or prefix == ""
    if use == "markup list" and prefix == "":
        ok = True
    if use == "object type" and uses != "rsl" and prefix == "T":
        ok = False
    res = common.run(files)
    c.check(res.crash is None, "internal failure: %s", res.summary())
    if ok:
        c.reach("legal")
        c.check(res.accepted, "visible name rejected: %s", res.summary())
    else:
        c.reach("illegal")
        c.check(not res.accepted and len(res.errors) > 0,
                "name that is not visible accepted: %s", res.summary())
    if ok and res.accepted and uses != "rsl":
        o = res.obj("o")
        pk = prefix or "P"
        if use == "object type":
            c.check(o.n_typ.n_package.name == pk, "type's package")
        elif use in ("reference", "union reference"):
            f = o.to_python_dict()
            c.check(f["r" if use == "reference" else "u"] == pk + ".ot",
                    "target")


def visible_sets(c, uses="rsl", n=3):
    """a file sees exactly what it imports itself, whatever it imports and
    whatever the imported packages and its sibling files import"""
    names = "QRS"[:n]
    table = RSL_USES if uses == "rsl" else TRLC_USES
    use = c.pick("use", ["component", "union", "enum in check"]
                 if uses == "rsl" else
                 ["object type", "reference", "enum value", "markup"])
    prefix = c.pick("prefix", list(names))
    own = [x for x in names if c.choice("imports_" + x, 2)]
    # what the other files import
    other = {x: [y for y in names if x < y and
                 c.choice("%s_imports_%s" % (x, y), 2)] for x in names[:-1]}
    other[names[-1]] = []
    sibling = c.choice("sibling_imports_all", 2) == 1
    body = "enum E { X }\ntuple Tu { a Integer }\n" \
        "type T { i optional Integer }\n"
    objs = "T ot { i = 1 }\n"

    def imp(what):
        return "".join("import %s\n" % x for x in what)
    text = table[use].replace("{}", prefix)
    files = {}
    if uses == "rsl":
        files["p.rsl"] = "package P\n" + imp(own) + body + \
            "type L { }\n" + text + "\n"
        for x in names:
            files[x + ".rsl"] = "package %s\n" % x + imp(other[x]) + body
        if sibling:
            files["p.trlc"] = "package P\n" + imp(names)
    else:
        files["p.rsl"] = "package P\n" + imp(names) + body + \
            "type L { r optional %s.T e optional %s.E m optional " \
            "Markup_String }\n" % (prefix, prefix)
        files["p.trlc"] = "package P\n" + imp(own) + text + "\n"
        if sibling:
            files["p2.trlc"] = "package P\n" + imp(names)
        for x in names:
            files[x + ".rsl"] = "package %s\n" % x + body
            files[x + ".trlc"] = "package %s\n" % x + imp(other[x]) + objs
    res = common.run(files)
    judge(c, res, prefix in own, "qualified name")


def many_imports(c, uses="rsl", n=8):
    """the same for many imports in any order"""
    names = ["A", "Bb", "C_c", "Dd", "E1", "Ff", "G_", "Hh", "I", "Jj"][:n]
    missing = c.choice("missing", n + 1)
    unused = c.choice("unused", n + 1)
    turn = c.choice("first", n)
    back = c.choice("backwards", 2) == 1
    order = names[turn:] + names[:turn]
    if back:
        order = order[::-1]
    imports = "".join("import %s\n" % x for x in order
                      if missing == n or x != names[missing])
    used = [x for k, x in enumerate(names) if k != unused]
    files = {x + ".rsl": "package %s\ntype T { }\n" % x for x in names}
    if uses == "rsl":
        files["p.rsl"] = "package P\n" + imports + "type L {\n" + \
            "".join("c%u optional %s.T\n" % (k, x)
                    for k, x in enumerate(used)) + "}\n"
    else:
        files["p.trlc"] = "package P\n" + imports + \
            "".join("%s.T o%u { }\n" % (x, k) for k, x in enumerate(used))
    res = common.run(files)
    ok = missing in (n, unused)
    if judge(c, res, ok, "import"):
        if uses == "rsl":
            typ = res.symbols.lookup_assuming(res.mh, "P").symbols \
                .lookup_assuming(res.mh, "L")
            got = [x.n_typ.n_package.name for x in typ.all_components()]
        else:
            got = [res.obj("o%u" % k).n_typ.n_package.name
                   for k in range(len(used))]
        c.check(got == used, "packages of the types: %s", repr(got))


def unqualified(c):
    """names without prefix are looked up in the own package only"""
    nm = c.string("name", 2, "oxqp")
    imp = c.choice("imported", 2) == 1
    form = c.choice("form", 3)
    res = common.run({
        "p.rsl": "package P\nimport Q\ntype T { r [P.T, Q.U] m Markup_String"
        " a [P.T, Q.U] [1 .. 1] }\n"
        "type S extends T { freeze r = op freeze m = \"\" freeze a = [op] }"
        "\n",
        "q.rsl": "package Q\ntype U { }\n",
        "p.trlc": "package P\n" + ("import Q\n" if imp else "") +
        "S op { }\nT o { r = " + (nm if form == 0 else "op") + ' m = "[[' +
        (nm if form == 1 else "op") + ']]" a = [' +
        (nm if form == 2 else "op") + "] }\n",
        "p2.trlc": "package P\nS pp { }\n",
        "q.trlc": "package Q\nU oq { }\nU qq { }\n"})
    ok = bool(OR(nm == "op", nm == "pp"))
    judge(c, res, ok, "unqualified name")


def cases(tier):
    th = tier != "quick"
    out = []

    def add(prop, name, func, bounds, w=1, expect=("legal", "illegal"),
            replay=0.2, **args):
        out.append({"name": name, "property": prop, "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    add("C19", "file set", "file_set", "2 packages, all imports, primary "
        "files and one broken package", 6, n=2, forward=False)
    add("C19", "files of packages", "late_set", "%u packages with or "
        "without model and with one or two requirement files, all imports, "
        "any primary files, one broken file" % (3 if th else 2),
        60 if th else 6, n=3 if th else 2, replay=0.02 if th else 0.1)
    add("C19", "chain", "chain", "chains of up to %u packages, any start, "
        "one broken package" % (6 if th else 5), 8, n=6 if th else 5,
        replay=0.1)
    if th:
        add("C19", "file set of three", "file_set", "3 packages, acyclic "
            "imports", 60, n=3, replay=0.02)
    add("C19", "cycles", "cycles", "all imports between %u packages" % 3,
        3, n=3)
    if th:
        add("C19", "cycles of four", "cycles", "all imports between 4 "
            "packages", 30, n=4, replay=0.02)
    add("C19", "include directories", "include_dirs", "7 directories, 4 "
        "extensions, with and without exclusion", 6, replay=0.1)
    add("C19", "order", "order", "5 files, orders of registration and of "
        "file names, values 0..9", 12, expect=("accepted", "rejected"),
        n=6 if th else 5, replay=0.05)
    add("C19", "late packages", "late_packages", "6 package names, 4 "
        "imports", 2)
    add("C16", "models", "visibility", "9 uses, 6 prefixes, all imports", 4,
        uses="rsl")
    add("C16", "requirements", "visibility", "9 uses, 6 prefixes, all "
        "imports", 4, uses="trlc")
    for u in ("rsl", "trlc"):
        add("C16", "import sets " + u, "visible_sets", "3 packages, all "
            "import sets of the file, the packages and a sibling file", 5,
            uses=u, replay=0.1)
        add("C16", "many imports " + u, "many_imports", "%u packages, one "
            "not imported, one not used, %u orders" %
            (10 if th else 8, 20 if th else 16), 6, uses=u,
            n=10 if th else 8, replay=0.03)
    add("C16", "unqualified", "unqualified", "names of 2 characters", 3)
    return out
