"""C31 tokens are linked to the syntax elements they belong to."""

from symx import common

KEYWORDS = {
    "abstract": ("Record_Type",), "final": ("Record_Type",),
    "type": ("Record_Type",), "extends": ("Record_Type",),
    "tuple": ("Tuple_Type",), "enum": ("Enumeration_Type",),
    "checks": ("Check_Block",), "section": ("Section",),
    "package": ("Package",), "import": ("Package",),
    "optional": ("Composite_Component",), "freeze": ("Composite_Component",),
    "separator": ("Separator",),
    "error": ("Check",), "warning": ("Check",), "fatal": ("Check",),
    "if": ("Action",), "then": ("Action",), "elsif": ("Action",),
    "else": ("Conditional_Expression",),
    "forall": ("Quantified_Expression",),
    "exists": ("Quantified_Expression",),
    "null": ("Null_Literal",), "true": ("Boolean_Literal",),
    "false": ("Boolean_Literal",),
    "and": ("Binary_Operator",), "or": ("Binary_Operator",),
    "xor": ("Binary_Operator",), "implies": ("Binary_Operator",),
    "not": ("Unary_Operator",), "abs": ("Unary_Operator",),
    "in": ("Binary_Operator", "Binary_Expression", "Range_Test",
           "Quantified_Expression"),
}


def kind(x):
    return x.__class__.__name__


def what(x):
    """what a link denotes, by its qualified name"""
    k = kind(x)
    if k == "Package" or k.startswith("Builtin_"):
        return x.name
    if k in ("Record_Type", "Tuple_Type", "Enumeration_Type",
             "Record_Object"):
        return x.n_package.name + "." + x.name
    if k == "Composite_Component":
        return what(x.member_of) + "." + x.name
    if k == "Enumeration_Literal_Spec":
        return what(x.n_typ) + "." + x.name
    if k == "Enumeration_Literal":
        return what(x.value)
    if k == "Record_Reference":
        return what(x.target)
    if k == "Name_Reference":
        return what(x.entity)
    if k == "Field_Access_Expression":
        return what(x.n_field)
    if k == "Quantified_Variable":
        return "variable " + x.name
    if k == "Separator":
        return "separator " + x.token.value
    return k


class Page:
    """text with marks <name|what it denotes>"""

    def __init__(self):
        self.text = ""
        self.marks = {}

    def put(self, s, **names):
        while "<<" in s:
            a, s = s.split("<<", 1)
            m, s = s.split(">>", 1)
            name, denotes = m.split("|")
            self.text = self.text + a
            self.marks[len(self.text)] = denotes
            self.text = self.text + name
        self.text = self.text + s
        return self


def links(c, res, pages):
    """all tokens of accepted files"""
    c.check(res.crash is None and res.accepted, "rejected: %s",
            res.summary())
    if res.crash is not None or not res.accepted:
        return
    c.reach("accepted")
    parsers = dict(res.sm.rsl_files)
    parsers.update(res.sm.trlc_files)
    for name, page in pages.items():
        end = 0
        for t in parsers[name].lexer.tokens:
            gap = page.text[end:t.location.start_pos]
            c.check(not gap.strip(), "no token for %s", gap)
            c.check(t.location.start_pos >= end, "order of tokens")
            end = t.location.end_pos + 1
        c.check(not page.text[end:].strip(), "no token for the end")
        pkg = parsers[name].cu.package
        for t in parsers[name].lexer.tokens:
            if t.kind == "COMMENT":
                c.check(t.ast_link is pkg, "comment belongs to the package")
        tokens = [t for t in parsers[name].lexer.tokens
                  if t.kind != "COMMENT"]
        opened = []
        seen = 0
        for t in tokens:
            link = t.ast_link
            at = t.location.start_pos
            txt = t.location.text()
            if t.kind in ("S_BRA", "C_BRA", "BRA"):
                opened.append(link)
            elif t.kind in ("S_KET", "C_KET", "KET"):
                first = opened.pop()
                if t.kind == "C_KET" or t.kind == "S_KET" and \
                        kind(first) in ("Array_Type", "Union_Type",
                                        "Array_Aggregate"):
                    c.check(first is link, "brackets at %s of %s belong to "
                            "different elements", at, name)
            if link is None:
                # commas between the members of a union belong to nothing
                c.check(t.kind == "COMMA" and opened and
                        kind(opened[-1]) == "Union_Type",
                        "%s at %s of %s belongs to nothing", txt, at, name)
                continue
            if t.kind == "IDENTIFIER":
                got = what(link)
                if at in page.marks:
                    seen += 1
                    c.check(got == page.marks[at], "%s denotes %s, "
                            "expected %s", txt, got, page.marks[at])
                elif kind(link) != "Separator":
                    c.check(got.split(".")[-1].split(" ")[-1] == t.value,
                            "%s denotes %s", txt, got)
            elif t.kind == "KEYWORD":
                c.check(kind(link) in KEYWORDS[t.value], "%s belongs to %s",
                        t.value, kind(link))
            elif kind(link) in ("Integer_Literal", "Decimal_Literal"):
                c.check(link.value == t.value, "number %s", txt)
            elif kind(link) in ("String_Literal", "Section"):
                if t.kind == "STRING":
                    c.check((link.name if kind(link) == "Section" else
                             link.value) == t.value, "string %s", txt)
        c.check(seen == len(page.marks), "%u of %u names found", seen,
                len(page.marks))


BASE = """package <<P|P>>
enum <<E|P.E>> { <<one|P.E.one>> <<two|P.E.two>> }
tuple <<Tu|P.Tu>> { <<a|P.Tu.a>> <<Integer|Integer>> separator :
 <<b|P.Tu.b>> optional <<Integer|Integer>> }
type <<B|P.B>> { <<x|P.B.x>> optional <<Integer|Integer>> }
type <<C|P.C>> extends <<B|P.B>> { <<y|P.C.y>> optional <<E|P.E>> }
"""

ITEMS = [
    "type <<T|P.T>> { }",
    "abstract type <<T|P.T>> \"text\" { <<v|P.T.v>> <<Integer|Integer>> }",
    "final type <<T|P.T>> extends <<B|P.B>> { }",
    "type <<T|P.T>> extends <<C|P.C>> { <<v|P.T.v>> \"d\" <<Boolean|Boolean>>"
    " freeze <<x|P.B.x>> = 1 }",
    "type <<T|P.T>> extends <<C|P.C>> { freeze <<y|P.C.y>> = "
    "<<E|P.E>>.<<two|P.E.two>> }",
    "type <<T|P.T>> { <<v|P.T.v>> [<<B|P.B>>, <<C|P.C>>, <<T|P.T>>] "
    "<<w|P.T.w>> optional <<Markup_String|Markup_String>> }",
    "type <<T|P.T>> { <<v|P.T.v>> <<E|P.E>> [1 .. *] <<w|P.T.w>> "
    "<<P|P>>.<<Tu|P.Tu>> [0 .. 3] }",
    "tuple <<T|P.T>> \"x\" { <<v|P.T.v>> \"d\" <<String|String>> }",
    "tuple <<T|P.T>> { <<v|P.T.v>> <<Integer|Integer>> separator @ "
    "<<w|P.T.w>> <<C|P.C>> separator <<to|separator to>> <<u|P.T.u>> "
    "optional <<E|P.E>> }",
    "enum <<T|P.T>> \"d\" { <<one|P.T.one>> \"one\" <<three|P.T.three>> }",
    "checks <<B|P.B>> { <<x|P.B.x>> != null, \"m\" }",
    "checks <<B|P.B>> { <<x|P.B.x>> != null, fatal \"m\", <<x|P.B.x>> "
    "<<x|P.B.x>> == null, warning \"m\", \"more\", <<x|P.B.x>> }",
    "checks <<Tu|P.Tu>> { <<a|P.Tu.a>> > 1, error \"m\", <<b|P.Tu.b>> }",
]


def declarations(c, n=2):
    """types, enumerations, tuples and blocks of checks"""
    page = Page().put(BASE)
    page.put(c.pick("comment", ["", "// note\n", "/* x */ "]))
    used = -1
    for k in range(n):
        i = c.choice("item%u" % k, len(ITEMS))
        t = ITEMS[i]
        nm = "T%u" % k
        t = t.replace("<<T|P.T>>", "<<%s|P.%s>>" % (nm, nm))
        t = t.replace("|P.T.", "|P.%s." % nm)
        page.put(t + "\n")
    res = common.run({"p.rsl": page.text})
    links(c, res, {"p.rsl": page})


MODEL = """package <<P|P>>
enum <<E|P.E>> { <<one|P.E.one>> <<two|P.E.two>> }
tuple <<Tu|P.Tu>> { <<a|P.Tu.a>> <<Integer|Integer>> separator :
 <<b|P.Tu.b>> optional <<Integer|Integer>> }
type <<B|P.B>> { <<x|P.B.x>> optional <<Integer|Integer>> }
tuple <<G|P.G>> { <<g|P.G.g>> <<B|P.B>> <<h|P.G.h>> <<E|P.E>> }
type <<C|P.C>> extends <<B|P.B>> { <<b|P.C.b>> optional <<Boolean|Boolean>>
 <<s|P.C.s>> optional <<String|String>>
 <<d|P.C.d>> optional <<Decimal|Decimal>>
 <<e|P.C.e>> optional <<E|P.E>> <<t|P.C.t>> optional <<Tu|P.Tu>>
 <<g|P.C.g>> optional <<G|P.G>> <<r|P.C.r>> optional <<B|P.B>>
 <<u|P.C.u>> optional [<<B|P.B>>, <<C|P.C>>]
 <<m|P.C.m>> optional <<Markup_String|Markup_String>>
 <<ax|P.C.ax>> optional <<Integer|Integer>> [0 .. 3]
 <<ar|P.C.ar>> optional <<B|P.B>> [0 .. 3]
 <<at|P.C.at>> optional <<Tu|P.Tu>> [0 .. 3] }
"""

VALUES = [
    "<<x|P.B.x>> = 12", "<<x|P.B.x>> = -3", "<<x|P.B.x>> = +0x1F",
    "<<b|P.C.b>> = true", "<<s|P.C.s>> = \"text\"", "<<s|P.C.s>> = '''a'''",
    "<<d|P.C.d>> = -1.50", "<<d|P.C.d>> = 2.5",
    "<<e|P.C.e>> = {E}.<<two|P.E.two>>",
    "<<t|P.C.t>> = 1 : 2", "<<t|P.C.t>> = 1",
    "<<g|P.C.g>> = ({o1}, {E}.<<one|P.E.one>>)",
    "<<r|P.C.r>> = {o1}", "<<r|P.C.r>> = {o2}", "<<u|P.C.u>> = {o2}",
    "<<m|P.C.m>> = \"see [[o1]]\"", "<<ax|P.C.ax>> = [1, -2, 3]",
    "<<ax|P.C.ax>> = []", "<<ar|P.C.ar>> = [{o1}, {o2}]",
    "<<at|P.C.at>> = [1 : 2, 3]", "",
]


def objects(c):
    """values of objects, from the same and from another package"""
    i, j = c.choice("first", len(VALUES)), c.choice("second", len(VALUES))
    c.assume(i < j)
    own = c.choice("own", 2) == 1
    late = c.choice("late", 2) == 1
    p = "" if own else "<<P|P>>."
    sub = {"{E}": p + "<<E|P.E>>", "{o1}": p + "<<o1|P.o1>>",
           "{o2}": p + "<<o2|P.o2>>"}
    txt = [VALUES[i], VALUES[j]]
    c.assume(txt[0].split("=")[0] != txt[1].split("=")[0])
    for k in range(2):
        for a, b in sub.items():
            txt[k] = txt[k].replace(a, b)
        if not own:
            txt[k] = txt[k].replace("[[o1]]", "[[P.o1]]")
    pk = "P" if own else "Q"
    main = Page().put("package <<%s|%s>>\n" % (pk, pk))
    if not own:
        main.put("import <<P|P>>\n")
    other = Page().put("package <<P|P>>\n<<B|P.B>> <<o1|P.o1>> { }\n"
                       "section \"s\" { <<C|P.C>> <<o2|P.o2>> { "
                       "<<x|P.B.x>> = 1 } }\n")
    main.put("section \"outer\" { " + p + "<<C|P.C>> <<obj|%s.obj>> {\n" % pk +
             txt[0] + "\n" + txt[1] + "\n} }\n")
    main.put(p + "<<B|P.B>> <<obj2|%s.obj2>> { }\n" % pk)
    model = Page().put(MODEL)
    names = ("z.trlc", "a.trlc") if late else ("a.trlc", "z.trlc")
    pages = {"p.rsl": model, names[0]: other, names[1]: main}
    main.put(c.pick("comment", ["", "// note", "/* a */ /* b */"]))
    res = common.run({k: pages[k].text for k in pages})
    links(c, res, pages)


OUTER = [
    "{b}", "not {b}", "({b})", "{b} and {b}", "{b} or not ({b} xor {b})",
    "{b} implies {b}", "(if {b} then {b} elsif {b} then true else {b})",
    "(forall <<q|variable q>> in <<ax|P.C.ax>> => <<q|variable q>> > {i})",
    "(exists <<q|variable q>> in <<ar|P.C.ar>> => "
    "<<q|variable q>>.<<x|P.B.x>> != null and {b})",
    "(forall <<q|variable q>> in <<at|P.C.at>> => "
    "<<q|variable q>>.<<a|P.Tu.a>> > 1)",
    "<<oneof|oneof>>({b}, {b})", "({b}) == <<b|P.C.b>>",
]
BOOL = [
    "<<b|P.C.b>>", "{i} > 2", "{i} == {i}", "{d} <= 1.0", "{i} in 1 .. {i}",
    "{i} not in 1 .. 2", "{s} == \"x\"", "\"a\" in {s}", "{i} in "
    "<<ax|P.C.ax>>", "<<x|P.B.x>> != null",
    "<<startswith|startswith>>({s}, \"p\")", "<<endswith|endswith>>(\"p\", "
    "{s})", "<<matches|matches>>({s}, \"a.*\")",
    "<<e|P.C.e>> == <<E|P.E>>.<<one|P.E.one>>",
    "<<P|P>>.<<E|P.E>>.<<two|P.E.two>> != <<e|P.C.e>>",
    "<<r|P.C.r>> == <<r|P.C.r>>", "false",
]
INT = [
    "1", "<<x|P.B.x>>", "(-<<x|P.B.x>>)", "(abs <<x|P.B.x>>)",
    "(<<x|P.B.x>> + 1)", "(<<x|P.B.x>> * 2 - 3 / 4 % 5)", "(<<x|P.B.x>> ** 2)",
    "<<len|len>>(<<ax|P.C.ax>>)", "<<len|len>>({s})",
    "<<Integer|Integer>>({d})", "<<ax|P.C.ax>>[1]",
    "<<ax|P.C.ax>>[<<x|P.B.x>> + 1]", "<<t|P.C.t>>.<<a|P.Tu.a>>",
    "<<g|P.C.g>>.<<g|P.G.g>>.<<x|P.B.x>>",
    "<<at|P.C.at>>[0].<<b|P.Tu.b>>",
    "<<r|P.C.r>>.<<x|P.B.x>>", "<<u|P.C.u>>.<<x|P.B.x>>",
    "(if <<b|P.C.b>> then 1 else <<x|P.B.x>>)",
]
DEC = ["1.0", "<<d|P.C.d>>", "(-<<d|P.C.d>>)", "<<Decimal|Decimal>>("
       "<<x|P.B.x>>)", "(<<d|P.C.d>> + 1.5)"]
STR = ["<<s|P.C.s>>", "\"y\"", "(<<s|P.C.s>> + \"x\")"]


def expressions(c, part=0, parts=1):
    """expressions: every kind of operand in every kind of expression"""
    outer = c.pick("outer", OUTER[part::parts])
    b = c.choice("boolean", len(BOOL))
    txt = outer
    first = BOOL[b]
    i = c.choice("integer", len(INT) if "{i}" in outer + first else 1)
    d = c.choice("decimal", len(DEC) if "{d}" in outer + first + INT[i]
                 else 1)
    s = c.choice("string", len(STR) if "{s}" in outer + first + INT[i]
                 else 1)
    c.assume("{b}" in outer or b == 0)
    txt = txt.replace("{b}", first if outer == "{b}" else
                      "(" + first + ")")
    txt = txt.replace("{i}", INT[i]).replace("{d}", DEC[d])
    txt = txt.replace("{s}", STR[s])
    page = Page().put(MODEL + "checks <<C|P.C>> {\n" + txt +
                      ", warning \"m\", <<x|P.B.x>>\n}\n")
    res = common.run({"p.rsl": page.text})
    links(c, res, {"p.rsl": page})


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, func, bounds, w=1, replay=0.05, **args):
        out.append({"name": name, "property": "C31", "func": func,
                    "params": {"args": args}, "expect": ["accepted"],
                    "bounds": bounds, "weight": w, "replay": replay})
    add("declarations", "declarations", "%u of %u declarations, comments" %
        (3 if th else 2, len(ITEMS)), 5, n=3 if th else 2)
    add("objects", "objects", "2 of %u values, own or other package, "
        "references forwards or backwards" % len(VALUES), 8)
    for k in range(4):
        add("expressions %u" % (k + 1), "expressions", "%u kinds of "
            "expression with operands of %u kinds" %
            (len(OUTER[k::4]), len(BOOL) + len(INT) + len(DEC) + len(STR)),
            5, part=k, parts=4)
    return out
