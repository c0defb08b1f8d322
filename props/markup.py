"""C24 references in markup strings; C25 sections."""

from symx import common
from symx.logic import AND, OR, NOT

from props.objects import judge, same


def is_in(ch, chars):
    return bool(OR(False, *[ch == x for x in chars]))


ALPHA = "abPQTzE"
WORD = ALPHA + "_0"


def scan(s):
    """references of a markup string: list of (package or None, name, start)
    or None if the string is malformed (the manual's rules)"""
    refs = []
    n = len(s)
    i = 0

    def at(k, ch):
        return k < n and bool(s[k] == ch)

    def blanks(k):
        while k < n and is_in(s[k], " \t\n"):
            k += 1
        return k

    def word(k):
        k = blanks(k)
        if k >= n or not is_in(s[k], ALPHA):
            return None
        e = k + 1
        while e < n and is_in(s[e], WORD):
            e += 1
        return k, e
    while i < n:
        if at(i, "]") and at(i + 1, "]"):
            return None
        if not (at(i, "[") and at(i + 1, "[")):
            i += 1
            continue
        i += 2
        while True:
            w = word(i)
            if w is None:
                return None
            i = blanks(w[1])
            pkg, start = None, w[0]
            name = s[w[0]:w[1]]
            if at(i, "."):
                pkg = name
                w = word(i + 1)
                if w is None:
                    return None
                i = blanks(w[1])
                name = s[w[0]:w[1]]
                start = w[0]
            refs.append((pkg, name, start))
            if at(i, ","):
                i += 1
                continue
            if at(i, "]") and at(i + 1, "]"):
                i += 2
                break
            return None
    return refs


def resolve(pkg, name):
    """fully qualified name of the object or None"""
    if pkg is None or bool(pkg == "P"):
        for x in ("a", "ab"):
            if bool(name == x):
                return "P." + x
        return None
    if bool(pkg == "Q"):
        return "Q.a" if bool(name == "a") else None
    return None


RSL = {"p.rsl": "package P\nenum E { a }\n"
       "tuple T { v Integer }\n"
       "tuple W { v Integer m Markup_String }\n"
       "tuple Z { v Integer w W }\n"
       "tuple Y { v Integer separator : m Markup_String }\n"
       "type M { m optional Markup_String l optional "
       "Markup_String [0 .. 2] s optional String t optional W "
       "q optional Z [1 .. 3] u optional Y }\n",
       "q.rsl": "package Q\ntype M { }\n",
       "q.trlc": "package Q\nM a { }\n",
       "p2.trlc": "package P\nM a { }\nM ab { }\n"}


def judge_markup(c, res, body, field="m", plain=False):
    refs = [] if plain else scan(body)
    want = None
    if refs is not None:
        want = [resolve(p, n) for p, n, _ in refs]
    ok = want is not None and None not in want
    if judge(c, res, ok, "markup"):
        if refs:
            c.reach("references")
        o = res.obj("o")
        lit = o.field[field]
        py = o.to_python_dict()[field]
        if field in "lq":
            lit = lit.value[-1]
            py = py[-1]
        if field == "q":
            lit = lit.value["w"]
            py = py["w"]
        if field in "tqu":
            lit = lit.value["m"]
            py = py["m"]
        c.check(py == body, "text of the string is kept")
        got = [r.target.fully_qualified_name() for r in lit.references]
        c.check(got == want, "references %s, expected %s", repr(got),
                repr(want))


def content(c, template="free", n=5):
    """any content of a markup string"""
    if template == "free":
        body = c.string("body", n, "[]a")
    elif template == "list":
        body = "x [[" + c.string("body", n, "ab,. Q]") + "]] y"
    elif template == "two":
        body = "[[a" + c.string("body", n, "]x[, .") + "a]]"
    else:
        body = "[[" + c.string_upto("body", n, "aQPb._") + "]]"
    where = c.choice("where", 6)
    text = '"' + body + '"'
    files = dict(RSL)
    files["p.trlc"] = "package P\nimport Q\nM o { " + (
        "m = " + text if where == 0 else
        'l = ["[[a]]", ' + text + "]" if where == 1 else
        "s = " + text if where == 2 else
        "t = (1, " + text + ")" if where == 3 else
        'q = [(1, (2, "[[ab]]")), (1, (2, ' + text + "))]" if where == 4 else
        "u = 1 : " + text) + " }\n"
    judge_markup(c, common.run(files), body, "mlstqu"[where], where == 2)


def many(c, n=3):
    """several references in one or several lists, qualified or not"""
    refs = [c.pick("ref%u" % k, ["a", "Q.a", "P.a", "ab", "zz", "Q.ab"])
            for k in range(n)]
    gaps = [c.pick("gap%u" % k, [",", " , ", "]] [[", "]]x[[", ",\n"])
            for k in range(n - 1)]
    body = "[[" + refs[0]
    for k in range(1, n):
        body += gaps[k - 1] + refs[k]
    body += "]]"
    files = dict(RSL)
    files["p.trlc"] = 'package P\nimport Q\nM o { m = """' + body + '""" }\n'
    res = common.run(files)
    ok = not any(r in ("zz", "Q.ab") for r in refs)
    if judge(c, res, ok, "markup"):
        lit = res.obj("o").field["m"]
        got = [r.target.fully_qualified_name() for r in lit.references]
        c.check(got == [r if "." in r else "P." + r for r in refs],
                "references %s, expected %s", repr(got), repr(refs))
        c.check(lit.value == body, "text")


def long_list(c, n=10):
    """the same for long lists with one odd reference"""
    k = c.choice("length", n) + 1
    odd = c.choice("odd", n)
    c.assume(odd < k)
    what = c.pick("reference", ["a", "Q.a", "ab", "zz", "Q.ab", "P.ab", "b"])
    gap = c.pick("gap", [",", " , ", "]] [[", "]] and\n[["])
    base = c.pick("others", ["a", "Q.a", "P.ab"])
    refs = [what if j == odd else base for j in range(k)]
    body = "[[" + gap.join(refs) + "]]"
    files = dict(RSL)
    files["p.trlc"] = 'package P\nimport Q\nM o { m = """' + body + '""" }\n'
    res = common.run(files)
    ok = what not in ("zz", "Q.ab", "b")
    if judge(c, res, ok, "markup"):
        got = [r.target.fully_qualified_name()
               for r in res.obj("o").field["m"].references]
        c.check(got == [r if "." in r else "P." + r for r in refs],
                "references %s, expected %s", repr(got), repr(refs))


def names(c):
    """only objects of visible packages can be referenced"""
    nm = c.pick("name", ["a", "P.a", "Q.a", "R.a", "o", "M", "P.M", "Q.M",
                         "E", "E.a", "T", "Q", "P", "Integer", "Nope",
                         "Q.Nope", "late", "null", "A", "a_", "Q.A", "len",
                         "P.Q.a", "Q.late", "true"])
    imp = c.choice("import", 2)
    files = dict(RSL)
    files["p.trlc"] = "package P\n" + ("import Q\n" if imp else "") + \
        'M o { m = "x [[%s]]" }\nM late { }\n' % nm
    files["r.trlc"] = "package R\nimport P\nP.M a { }\n"
    res = common.run(files)
    ok = nm in ("a", "P.a", "o", "late") or nm == "Q.a" and imp == 1
    if judge(c, res, ok, "markup reference " + nm):
        tgt = res.obj("o").field["m"].references[0].target
        c.check(tgt.fully_qualified_name() ==
                (nm if "." in nm else "P." + nm), "target")


def position(c, n=2):
    """messages about a reference point at it"""
    quote = c.pick("quote", ['"', '"""', "'''"])
    esc = c.choice("escaped", 2) if quote == '"' else 0
    lead = c.string_upto("lead", n, " x" if quote == '"' else " x\n")
    gap = c.string_upto("gap", 1, " " if quote == '"' else " \n")
    first = c.choice("first", 2)
    body = lead + ('\\"' if esc else "") + "[[" + \
        ("a," if first else "") + gap + "zz]]"
    head = "package P\nM o { m = "
    text = head + quote + body + quote + " }\n"
    files = dict(RSL)
    files["p.trlc"] = text
    res = common.run(files)
    c.check(res.crash is None, "internal failure: %s", res.summary())
    errs = res.errors
    c.check(len(errs) == 1, "one error")
    if len(errs) != 1:
        return
    pos = len(head) + len(quote) + len(body) - 4
    line, col = 1, 1
    for k in range(pos):
        if text[k] == "\n":
            line, col = line + 1, 1
        else:
            col += 1
    c.reach("first line" if line == 2 else "other line")
    loc = errs[0].location
    c.check(loc.file_name == "p.trlc" and loc.line_no == line and
            loc.col_no == col, "error at %s:%s, expected %s:%s",
            loc.line_no, loc.col_no, line, col)
    c.check(loc.text() == "zz", "text of the location")


# ---------------------------------------------------------------- C25

def section_ops(c, n):
    """openings (0), closings (1) and objects (2)"""
    depth = 0
    for k in range(n):
        op = c.choice("op%u" % k, 3)
        if op == 0 and depth < 3:
            depth += 1
            yield 0
        elif op == 1:
            c.assume(depth > 0)
            depth -= 1
            yield 1
        else:
            c.assume(op == 2)
            yield 2


def section_deep(c, n):
    """a deep chain of sections with objects at two levels, some of them
    closed again, then another section and object"""
    d = c.choice("depth", n + 1)
    at = c.choice("object_at", n + 1)
    back = c.choice("closed", n + 1)
    c.assume(at <= d and back <= d)
    for k in range(n + 1):
        if at == k:
            yield 2
        if k < d:
            yield 0
    yield 2
    for k in range(n):
        if k < back:
            yield 1
    if c.choice("reopen", 2) == 1:
        yield 0
    yield 2


def section_tree(c, n=4, alpha="ab", deep=False):
    """objects know their sections; iteration visits everything once in
    order"""
    files = dict()
    text = "package P\n"
    stack = []
    ids = 0
    want = []                # (object name, [(id, name)])
    nobj = 0
    for k, op in enumerate(section_deep(c, n) if deep else
                           section_ops(c, n)):
        if op == 0:
            s = "s%u" % k if deep else c.string_upto("s%u" % k, 1, alpha)
            text = text + 'section "' + s + '" {\n'
            stack.append((ids, s))
            ids += 1
        elif op == 1:
            stack.pop()
            text = text + "}\n"
        else:
            text = text + "M o%u { }\n" % nobj
            want.append(("o%u" % nobj, list(stack)))
            nobj += 1
    text = text + "}\n" * len(stack)
    second = c.choice("second_file", 2) == 1
    files["a.rsl"] = "package P\ntype M { }\n"
    files["a.trlc"] = text
    if second:
        files["b.trlc"] = "package P\nM z { }\n"
    res = common.run(files)
    c.check(res.accepted, "sections rejected: %s", res.summary())
    if not res.accepted:
        return
    c.reach("accepted")
    exp = []
    seen = set()
    if want:
        exp.append("a.trlc")
    for name, secs in want:
        for level, (i, s) in enumerate(secs):
            if i not in seen:
                seen.add(i)
                exp.append((s, level))
        exp.append((name, max(len(secs) - 1, 0)))
        o = res.obj(name)
        got = o.section or []
        c.check(len(got) == len(secs), "depth of object %s", name)
        if len(got) == len(secs):
            parent = None
            for g, (i, s) in zip(got, secs):
                c.check(g.name == s, "name of section")
                c.check(g.parent is parent, "parent of section")
                parent = g
    if second:
        exp.append("b.trlc")
        exp.append(("z", 0))
    for turn in range(2):
        got = list(res.symbols.iter_record_objects_by_section())
        c.check(len(got) == len(exp), "iteration %u yields %u items, "
                "expected %u", turn + 1, len(got), len(exp))
        if len(got) != len(exp):
            break
        for g, e in zip(got, exp):
            if isinstance(e, str):
                c.check(g == e, "file name")
            else:
                c.check(isinstance(g, tuple) and len(g) == 2, "pair")
                nm = g[0] if isinstance(g[0], str) else g[0].name
                c.check(AND(nm == e[0], g[1] == e[1]), "item %s",
                        repr(g[1]))


def section_syntax(c, n=3):
    """sections are well nested, named by a string and without influence on
    names"""
    toks = ['section "s" {', "}", "M o%u { }", "section {", "section s {",
            'section "s"', "M dup { }", "type X { }"]
    text = "package P\nM dup2 { }\n"
    depth = 0
    ok = True
    nobj = 0
    dups = 0
    for k in range(n):
        t = c.pick("t%u" % k, toks)
        if t == toks[0]:
            depth += 1
        elif t == "}":
            depth -= 1
            if depth < 0:
                ok = False
        elif t == toks[2]:
            t = t % nobj
            nobj += 1
        elif t == toks[6]:
            dups += 1
        else:
            ok = False
        text += t + "\n"
    ok = ok and depth == 0 and dups <= 1
    res = common.run({"a.rsl": "package P\ntype M { }\n", "a.trlc": text})
    if judge(c, res, ok, "sections"):
        c.check(len(res.objects()) == 1 + nobj + dups, "objects")


def section_scope(c):
    """references and names are independent of sections"""
    a = c.choice("in_section_a", 3)
    b = c.choice("in_section_b", 3)
    t, v = c.int_text("v", 1)

    def wrap(k, s):
        for _ in range(k):
            s = 'section "x" { ' + s + " }\n"
        return s
    res = common.run({
        "a.rsl": 'package P\ntype M { v Integer r optional M }\n'
        'checks M { v > 4, warning "low" }\n',
        "a.trlc": "package P\n" + wrap(a, "M pp { v = " + t + " r = qq }\n") +
        wrap(b, "M qq { v = 9 r = pp }\n")})
    c.check(res.accepted, "rejected: %s", res.summary())
    if res.accepted:
        c.reach("low" if v <= 4 else "high")
        c.check(len(res.user) == int(bool(v <= 4)), "checks in sections")
        c.check(same(res.fields("pp"), {"v": v, "r": "P.qq"}), "value")


def cases(tier):
    th = tier != "quick"
    out = []

    def add(prop, name, func, bounds, w=1, expect=("legal", "illegal"),
            replay=0.1, **args):
        out.append({"name": name, "property": prop, "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    LIR = ("legal", "illegal", "references")
    for t, q, d, what in (
            ("free", 6, 8, "contents over [ ] a"),
            ("list", 4, 5, "contents of a reference list over a b , . Q ] "
             "and blank"),
            ("two", 4, 5, "text between two names over ] [ , . x and blank"),
            ("word", 4, 5, "qualified names over a Q P . _")):
        k = d if th else q
        add("C24", "content " + t, "content", "%s, %u characters" % (what, k),
            9, expect=LIR, template=t, n=k)
    add("C24", "many references", "many", "%u references of 6 kinds in "
        "one or several lists" % (4 if th else 3), 8, n=4 if th else 3)
    add("C24", "long lists", "long_list", "lists of up to 10 references, one "
        "of them different", 8, n=10, replay=0.02)
    add("C24", "names", "names", "25 names, with and without import", 2)
    add("C24", "position", "position", "3 quotes, up to %u characters before"
        % (3 if th else 2), 3, expect=("first line", "other line"),
        n=3 if th else 2)
    add("C25", "tree", "section_tree", "%u openings, closings or objects, "
        "names of up to 1 character" % (6 if th else 5), 8,
        expect=("accepted",), n=6 if th else 5)
    add("C25", "deep tree", "section_tree", "chains of up to %u sections" %
        (8 if th else 6), 8, expect=("accepted",), n=8 if th else 6,
        deep=True)
    add("C25", "syntax", "section_syntax", "3 items from 8", 3, n=4 if th
        else 3)
    add("C25", "scope", "section_scope", "up to two levels, values 0..9", 1,
        expect=("low", "high"))
    return out
