"""C28: which sequences of declarations, checks and objects are legal.

Every sequence of tokens (up to a bound, over a vocabulary, after a given
beginning) is parsed by the real parser and by the reference parser below,
which is written from the grammar and the static semantics of the language
reference manual.  A legal file is processed without errors, any other one is
rejected with an error.
"""

from symx import common

BUILTIN_TYPES = ("Integer", "Decimal", "Boolean", "String", "Markup_String")
BUILTIN_FUNCTIONS = ("len", "startswith", "endswith", "matches", "oneof")
KEYWORDS = frozenset("""abs abstract and checks else elsif enum error exists
    extends false fatal final forall freeze if implies import in not null
    optional or package section separator then true tuple type warning
    xor""".split())
# conditions used in check blocks: single tokens without blanks, with the
# components they mention
CONDITIONS = {"x>1": {"x": "Integer"}, "y!=null": {"y": None},
              "a>1": {"a": "Integer"}, "true": {}, "x": {"x": "Boolean"}}


class Reject(Exception):
    pass


def simple(s):
    return s.lower().replace("_", "")


class Unspecified(Reject):
    """the manual is silent, or there is a known finding (bounds)"""


class Type:
    def __init__(self, kind, name, **kw):
        self.kind = kind
        self.name = name
        self.parent = None
        self.comps = {}         # name -> (type, optional)
        self.frozen = set()
        self.abstract = False
        self.final = False
        self.separators = []
        self.__dict__.update(kw)

    def all_comps(self):
        r = dict(self.parent.all_comps()) if self.parent else {}
        r.update(self.comps)
        return r

    def is_frozen(self, n):
        return n in self.frozen or \
            (self.parent is not None and self.parent.is_frozen(n))

    def extends(self, other):
        t = self
        while t is not None:
            if t is other:
                return True
            t = t.parent
        return False


class Ref:
    """reference parser; lits: value of the numbers written #1, #2, ..
    (None: unknown)"""

    def __init__(self, lits=None):
        self.lits = lits
        self.toks = []
        self.i = 0
        self.end_seen = False
        self.unspecified = False
        self.names = {}         # package -> simplified name -> entity
        self.packages = {}      # visible name -> package
        self.pkg = None
        self.late = []          # references: package, name, type
        self.visible = set()

    # tokens
    def peek(self):
        if self.i < len(self.toks):
            return self.toks[self.i]
        self.end_seen = True
        return None

    def next(self):
        x = self.peek()
        if x is None:
            raise Reject("end of file")
        self.i += 1
        return x

    def take(self, *options):
        x = self.peek()
        if x is not None and x in options:
            self.i += 1
            return x
        return None

    def need(self, x):
        y = self.next()
        if x != y:
            raise Reject("expected %s, got %s" % (x, y))

    def is_ident(self, x):
        return x is not None and x[0].isalpha() and x not in KEYWORDS and \
            x not in CONDITIONS or x == "x"

    def ident(self):
        x = self.next()
        if not self.is_ident(x):
            raise Reject("expected identifier, got " + x)
        return x

    def is_string(self, x):
        return x is not None and x[0] == '"'

    def string(self):
        x = self.next()
        if not self.is_string(x):
            raise Reject("expected string, got " + x)
        return x

    def integer(self):
        """(known, value)"""
        x = self.next()
        if x[0] == "#":
            return (True, self.lits[x]) if self.lits is not None \
                else (False, 0)
        if not x.isdigit():
            raise Reject("expected integer, got " + x)
        return True, int(x)

    def name(self):
        n = self.ident()
        if self.is_string(self.peek()):
            self.next()
        return n

    # names
    def register(self, name, entity):
        s = simple(name)
        for table in (GLOBALS, {simple(p): p for p in self.names},
                      self.names[self.pkg]):
            if s in table:
                raise Reject("name in use: " + name)
        self.names[self.pkg][s] = entity

    def lookup(self, name):
        e = self.names[self.pkg].get(simple(name))
        if e is not None and e.name == name:
            return e
        e = GLOBALS.get(simple(name))
        if e is not None and e.name == name:
            return e
        if name in self.names:
            return Type("package", name)
        raise Reject("unknown name " + name)

    def qualified(self):
        n = self.ident()
        e = self.lookup(n)
        if e.kind == "package":
            self.need(".")
            m = self.ident()
            if n != self.pkg and n not in self.visible:
                raise Reject("package not imported")
            if simple(m) in GLOBALS:
                raise Unspecified("builtin in a package")
            e = self.names[n].get(simple(m))
            if e is None or e.name != m:
                raise Reject("unknown name")
        return e

    # files
    def file(self, toks, kind):
        self.toks = toks
        self.i = 0
        self.need("package")
        p = self.ident()
        if kind == "rsl" or p not in self.names:
            if simple(p) in GLOBALS or \
               simple(p) in [simple(q) for q in self.names]:
                raise Reject("package name in use")
            self.names[p] = {}
        self.pkg = p
        self.visible = set()
        while self.take("import"):
            q = self.ident()
            if q == p:
                raise Reject("import of itself")
            if q not in self.names:
                raise Reject("unknown package")
            self.visible.add(q)
        if kind == "rsl":
            while self.peek() is not None:
                if self.peek() == "checks":
                    self.checks()
                else:
                    self.type_declaration()
        else:
            while self.peek() is not None:
                self.entry()
            self.references()

    def type_declaration(self):
        x = self.next()
        if x == "enum":
            self.enum()
        elif x == "tuple":
            self.tuple()
        elif x in ("abstract", "final"):
            self.need("type")
            self.record(x)
        elif x == "type":
            self.record(None)
        else:
            raise Reject("not a declaration: " + x)

    def enum(self):
        n = self.name()
        t = Type("enum", n, literals=[])
        self.register(n, t)
        self.need("{")
        while not self.take("}"):
            l = self.name()
            if simple(l) in [simple(o) for o in t.literals]:
                raise Reject("duplicate literal")
            t.literals.append(l)
        if not t.literals:
            raise Reject("empty enumeration")

    def component_type(self):
        """complete type, or union"""
        if self.take("["):
            members = [self.record_name()]
            while self.take(","):
                members.append(self.record_name())
            self.need("]")
            if len(set(id(m) for m in members)) != len(members):
                raise Reject("duplicate member")
            return Type("union", "", members=members)
        t = self.qualified()
        if t.kind not in ("builtin", "enum", "tuple", "record"):
            raise Reject("not a type")
        return t

    def record_name(self):
        t = self.qualified()
        if t.kind != "record":
            raise Reject("not a record type")
        return t

    def add_comp(self, t, n, typ, optional):
        if simple(n) in [simple(o) for o in t.all_comps()]:
            raise Reject("duplicate component")
        t.comps[n] = (typ, optional)

    def tuple(self):
        n = self.name()
        t = Type("tuple", n)
        self.need("{")
        mode = None
        was_optional = False
        while True:
            if t.comps:
                if self.take("}"):
                    break
                sep = self.take("separator")
                if sep:
                    s = self.next()
                    if not (self.is_ident(s) or s in "@:;"):
                        raise Reject("separator " + s)
                    t.separators.append(s)
                if mode is not None and mode != bool(sep):
                    raise Reject("separators: all or none")
                mode = bool(sep)
            f = self.name()
            optional = self.take("optional") is not None
            if optional and not mode:
                raise Reject("optional requires separators")
            if was_optional and not optional:
                raise Reject("mandatory after optional")
            was_optional = optional
            self.add_comp(t, f, self.component_type(), optional)
        if mode:
            for typ, _ in t.comps.values():
                if typ.kind == "tuple" and typ.separators:
                    raise Reject("nested separators")
        self.register(n, t)

    def record(self, qualifier):
        n = self.name()
        t = Type("record", n)
        if self.take("extends"):
            t.parent = self.record_name()
        t.abstract = qualifier == "abstract"
        t.final = t.parent is not None and t.parent.final
        self.register(n, t)
        self.need("{")
        while not self.take("}"):
            if self.take("freeze"):
                f = self.ident()
                if f not in t.all_comps():
                    raise Reject("freezing an unknown component")
                if t.is_frozen(f):
                    raise Reject("already frozen")
                self.need("=")
                self.value(t.all_comps()[f][0])
                t.frozen.add(f)
                continue
            f = self.name()
            optional = self.take("optional") is not None
            typ = self.component_type()
            if self.take("["):
                known, lo = self.integer()
                self.need("..")
                hi = None
                if not self.take("*"):
                    k2, hi = self.integer()
                    known = known and k2
                self.need("]")
                if known and hi is not None and hi < lo:
                    raise Unspecified("bounds")
                typ = Type("array", "", element=typ, lo=lo, hi=hi,
                           known=known)
            if t.final:
                raise Reject("component in extension of final type")
            self.add_comp(t, f, typ, optional)
        t.final = t.final or qualifier == "final"

    def checks(self):
        self.need("checks")
        n = self.ident()
        t = self.names[self.pkg].get(simple(n))
        if t is None or t.name != n or t.kind not in ("tuple", "record"):
            raise Reject("checks of " + n)
        comps = t.all_comps()
        self.need("{")
        while not self.take("}"):
            e = self.next()
            if e not in CONDITIONS:
                raise Reject("not a condition: " + e)
            for k, typ in CONDITIONS[e].items():
                if k not in comps or \
                   typ is not None and comps[k][0].name != typ:
                    raise Reject("condition " + e)
            self.need(",")
            self.take("warning", "error", "fatal")
            self.string()
            if self.take(","):
                x = self.peek()
                if self.is_string(x):
                    self.next()
                    if not self.take(","):
                        continue
                if self.ident() not in comps:
                    raise Reject("anchor")

    # objects
    def entry(self):
        if self.take("section"):
            self.string()
            self.need("{")
            while not self.take("}"):
                self.entry()
            return
        t = self.record_name()
        if t.abstract:
            raise Reject("abstract type")
        n = self.ident()
        self.register(n, Type("object", n, type=t))
        comps = t.all_comps()
        given = set()
        self.need("{")
        while not self.take("}"):
            f = self.ident()
            if f not in comps or f in given or t.is_frozen(f):
                raise Reject("component " + f)
            given.add(f)
            self.need("=")
            self.value(comps[f][0])
        for f, (_, optional) in comps.items():
            if f not in given and not optional and not t.is_frozen(f):
                raise Reject("missing component")

    def references(self):
        for pkg, name, typ in self.late:
            o = self.names[pkg].get(simple(name))
            if o is None or o.name != name or o.kind != "object":
                raise Reject("unknown object")
            members = typ.members if typ.kind == "union" else [typ]
            if not any(o.type.extends(m) for m in members):
                raise Reject("type of reference")

    def value(self, typ):
        k = typ.kind
        if k == "builtin":
            if typ.name in ("Integer", "Decimal"):
                self.take("+", "-")
                if typ.name == "Integer":
                    self.integer()
                elif not (self.peek() or "?").replace(".", "0", 1).isdigit() \
                        or "." not in self.next():
                    raise Reject("decimal")
            elif typ.name == "Boolean":
                if self.next() not in ("true", "false"):
                    raise Reject("Boolean")
            else:
                self.string()
        elif k == "enum":
            if self.qualified() is not typ:
                raise Reject("enumeration")
            self.need(".")
            if self.ident() not in typ.literals:
                raise Reject("literal")
        elif k in ("record", "union"):
            n = self.ident()
            pkg = self.pkg
            if self.take("."):
                m = self.ident()
                if n not in self.names or \
                   n != self.pkg and n not in self.visible:
                    raise Reject("package")
                pkg, n = n, m
            self.late.append((pkg, n, typ))
        elif k == "array":
            self.need("[")
            n = 0
            if not self.take("]"):
                while True:
                    self.value(typ.element)
                    n += 1
                    if not self.take(","):
                        break
                    if self.peek() == "]":
                        # not in the grammar, but the sources of the manual
                        # do it (known finding)
                        self.unspecified = True
                        break
                self.need("]")
            if typ.known and (n < typ.lo or
                              typ.hi is not None and n > typ.hi):
                raise Reject("number of elements")
        elif k == "tuple" and not typ.separators:
            self.need("(")
            for j, (ft, _) in enumerate(typ.comps.values()):
                if j:
                    self.need(",")
                self.value(ft)
            self.need(")")
        elif k == "tuple":
            for j, (ft, optional) in enumerate(typ.comps.values()):
                if j:
                    sep = typ.separators[j - 1]
                    if not self.take(sep):
                        if optional:
                            return
                        raise Reject("separator")
                self.value(ft)
        else:
            raise Reject("no values of this type")


GLOBALS = {simple(n): Type("builtin", n) for n in BUILTIN_TYPES}
GLOBALS.update({simple(n): Type("function", n) for n in BUILTIN_FUNCTIONS})

PRELUDE = """package P
enum E { A B }
tuple U { a Integer separator @ b optional Integer }
tuple V { a Integer b Decimal }
tuple K { a Integer separator x b Integer separator : c optional Integer }
abstract type R { x Integer }
type S extends R { }
final type W { y optional Integer }
type F extends R { freeze x = 1 }
type Z { i optional Integer d optional Decimal q optional Boolean s optional
String e optional E r optional R t optional [ S , W ] ai optional
Integer [ 0 .. 2 ] ar optional R [ 1 .. * ] u optional U v optional V k optional
K au optional U [ 0 .. 2 ] av optional V [ 0 .. 2 ] }
"""
OTHER = "package Q\ntype M { }\n"
OBJECTS = "S s1 { x = 1 } W w1 { } "


def parse(context, toks, lits):
    """(accepted, was the end of the text reached)"""
    ref = Ref()
    ref.file(OTHER.split(), "rsl")
    files = [(PRELUDE.split(), "rsl")]
    if context == "rsl":
        files = [(PRELUDE.split() + toks, "rsl")]
    elif context == "trlc":
        files.append((("package P " + OBJECTS).split() + toks, "trlc"))
    else:
        files.append((toks, context.split()[0]))
    ref.lits = lits
    for k, (text, kind) in enumerate(files):
        if k == len(files) - 1:
            ref.end_seen = False
        try:
            ref.file(text, kind)
        except Unspecified:
            return None, ref.end_seen
        except Reject:
            return False, ref.end_seen
    return (None if ref.unspecified else True), True


def viable(context, toks):
    """can the text be continued to a legal one?"""
    ok, end_seen = parse(context, toks, None)
    return ok or end_seen


def sequence(c, context, pre, vocab, n, post, known=False,
             first=None):
    """first: the first elements to consider (none: just the empty sequence)
    if not all of them"""
    toks = pre.split()
    for k in range(n):
        if not viable(context, toks):
            break
        if k == 0 and first is not None:
            options = first or [""]
        else:
            options = [""] + vocab
        t = c.pick("token%u" % k, options)
        if t == "":
            break
        toks = toks + t.split()
    toks = toks + post.split()
    lits = {}
    text = ""
    for t in toks:
        if t[0] == "#":
            if t not in lits:
                lits[t] = c.int_text(t, 1)
            text = text + " " + lits[t][0]
        else:
            text = text + " " + t
    files = {"p.rsl": PRELUDE, "q.rsl": OTHER}
    if context == "rsl":
        files["p.rsl"] = PRELUDE + text + "\n"
    elif context == "trlc":
        files["p.trlc"] = "package P\n" + OBJECTS + "\n" + text + "\n"
    elif context == "rsl file":
        files["z.rsl"] = text + "\n"
    else:
        files["z.trlc"] = text + "\n"
    ok, _ = parse(context, toks, {k: v[1] for k, v in lits.items()})
    if ok is None and not known:
        return
    res = common.run(files)
    said = " ".join(toks)
    c.check(res.crash is None, "internal failure for %s: %s", said,
            res.summary())
    if res.crash is not None:
        return
    if ok:
        c.reach("legal")
        c.check(res.accepted, "legal text %s rejected: %s", said,
                res.summary())
    else:
        c.reach("illegal")
        c.check(len(res.errors) >= 1, "illegal text %s: no error is reported",
                said)


# name: (context, beginning, vocabulary, rest, tokens quick, tokens thorough)
CASES = {
    "enumeration": ("rsl", "enum", ["G", "H", "E", '"d"', "{", "}", ",",
                                    "Integer"], "", 5, 6),
    "enumeration body": ("rsl", "enum G {", ["C", "D", "c", '"d"', "E", ",",
                                             "}", "{"], "}", 4, 5),
    "header": ("rsl", "", ["abstract", "final", "type", "G", "extends", "S",
                           "W", '"d"', "{ }"], "", 6, 8),
    "header2": ("rsl", "type G", ['"d"', "extends", "P .", "Q .", "M", "S",
                                  "U", "E", "G", "Integer", "{ }"], "", 4, 6),
    "component": ("rsl", "type G {", ["a", "b", '"d"', "optional", "Integer",
                                      "R", "[", "]", "E"], "}", 4, 6),
    "component type": ("rsl", "type G { a", [
        "Integer", "P .", "Q .", "U", "G", "S", "H", "[", "]", ",", "len"],
                       "}", 4, 5),
    "array": ("rsl", "type G { a Integer", ["[", "#1", "..", "*", "]", "#2",
                                            "+", "-"], "}", 5, 7),
    "array of union": ("rsl", "type G { a", ["[ S", "[ W", ",", "W", "G", "]",
                                             "[ #1 .. #2 ]", "[ #1 .. * ]"],
                       "}", 4, 6),
    "components": ("rsl", "type G extends S {", [
        "a Integer", "b optional E", "x Integer", "y", "A Integer",
        '"d"', "S [ 0 .. 1 ]", "freeze x = #1", "freeze a = - #2", "a_"],
                   "}", 4, 5),
    "final": ("rsl", "final type G extends R {", [
        "a Integer", "freeze x = 1", "} type H extends G {",
        "freeze a = 2", "} final type J extends H {", "b Integer"], "}", 5,
              6),
    "final parent": ("rsl", "type G extends W {", [
        "a Integer", "freeze y = 1", "} type H extends G {",
        "} abstract type J extends G {"], "}", 4, 6),
    "freeze": ("rsl", "type G extends R {", ["freeze", "x", "=", "#1", "-",
                                             "+", "1.5", "null", "zz",
                                             '"d"'], "}", 5, 6),
    "freeze value": ("rsl", "type G extends Z { freeze", [
        "i =", "e =", "ai =", "u =", "v =", "[", "]", "1", ",", "E .", "A",
        "@", "( 1 , 1.5 )"], "}", 4, 6),
    "tuple": ("rsl", "tuple", ["G", '"d"', "{", "a", "Integer", "}",
                               "optional", "separator"], "", 6, 7),
    "tuple body": ("rsl", "tuple G { a Integer", [
        "separator", "@", ":", "x", "b Integer", "c optional Integer",
        "a Integer", "optional"], "}", 5, 7),
    "tuple optional": ("rsl", "tuple G { a Integer", [
        "separator @", "separator :", "b Integer", "c optional Integer",
        "d optional V", "e V", "g R", "h optional U"], "}", 4, 6),
    "tuple fields": ("rsl", "tuple G { a", [
        "U", "V", "R", "G", "[ S , W ]", "Integer [ 0 .. 1 ]",
        "separator @ b", "separator rev b optional", "b", '"d"'], "}", 4, 5),
    "checks": ("rsl", "checks S {", ["x>1", "true", ",", '"m"', '"n"',
                                     "warning", "error", "fatal", "x", "zz",
                                     "type"], "}", 5, 7),
    "checks of": ("rsl", "checks", ["S", "U", "E", "Q . M", "P .", "Integer",
                                    "{", 'x>1 , "m"', 'a>1 , "m"', ", a", "}",
                                    '"d"'], "", 4, 6),
    "order": ("rsl", "", ["type G {", "}", "checks G {", "a Integer",
                          'a>1 , "m"', "freeze a = 1", "type H extends G {"],
              "", 6, 8),
    "rsl files": ("rsl file", "", ["package", "N", "P", "Q", "import",
                                   "type G { }", "enum H { C }",
                                   "section", "Q . M o { }"], "", 5, 6),
    "imports": ("rsl file", "package N", ["import", "P", "Q", "N", "L",
                                          "type G extends P . R { }",
                                          "type H { a Q . M }",
                                          "package L"], "", 5, 6),
    "trlc files": ("trlc file", "", ["package", "N", "P", "Q", "import",
                                     "type G { }", "S a { x = 1 }",
                                     "Q . M b { }", "M c { }"], "", 5, 6),
    "sections": ("trlc", "", ["section", '"s"', "{", "}", "W a", "W b",
                              "y = 1", "type"], "", 7, 9),
    "object": ("trlc", "", ["W", "S", "R", "P .", "Q .", "a", "b", "{", "}",
                            "s1", "x = 1"], "", 5, 6),
    "associations": ("trlc", "W a {", ["y", "=", "1", "-", "+", "x", "null",
                                       "1.5", '"d"'], "}", 5, 6),
    "mandatory": ("trlc", "S a {", ["x = 1", "} F b {", "} W c {", "y = 2",
                                    "} S d {", "x = - 2"], "}", 4, 6),
    "scalar": ("trlc", "Z a {", [
        "i =", "d =", "q =", "s =", "-", "+", "*", "1", "1.5", "true",
        '"d"', "null", "E . A"], "}", 4, 5),
    "enumeration value": ("trlc", "Z a { e =", [
        "E", "P", ".", "A", "B", "C", "s1", "Q", '"d"'], "}", 4, 6),
    "reference": ("trlc", "Z a {", [
        "r =", "t =", "s1", "w1", "a", "P .", "Q .", ".", "zz", "E", "null"],
                  "}", 4, 6),
    "late reference": ("trlc", "Z a { r =", ["b", "c", "a", "}", "S b {",
                                             "W c {", "x = 1"], "}", 5, 6),
    "array value": ("trlc", "Z a { ai =", ["[", "]", ",", "1", "2", "- 3",
                                           "null", "1.5"], "}", 6, 8),
    "array of references": ("trlc", "Z a { ar =", ["[", "]", ",", "s1",
                                                   "w1", "zz", "P ."], "}",
                            5, 7),
    "tuple value": ("trlc", "Z a {", ["u =", "v =", "1", "1.5", "@", "(",
                                      ")", ",", ":"], "}", 5, 7),
    "tuple value 3": ("trlc", "Z a { k =", ["1", "2", "x", ":", "@", "- 3",
                                            "X", "i = 1"], "}", 6, 7),
    "arrays of tuples": ("trlc", "Z a {", [
        "au = [", "av = [", "]", ",", "1", "@", "( 1 , 1.5 )"], "}", 6, 8),
}


BIG = ("component type", "tuple", "tuple fields", "component", "components",
       "final")


def cases(tier):
    th = tier != "quick"
    out = []
    for name, (ctx, pre, vocab, post, n, nt) in CASES.items():
        n = nt if th else n
        bounds = "every sequence of up to %u elements of %s after %r and " \
            "before %r; numbers #1 and #2 of any digit" % \
            (n, " | ".join(vocab), pre, post)
        # one case for every first element (more to do at the same time)
        firsts = [None]
        if th or name in BIG:
            firsts = [""] + [f for f in vocab
                             if viable(ctx, (pre + " " + f).split())] + \
                ["others"]
        for f in firsts:
            first = vocab
            if f == "others":
                first = [g for g in vocab if g not in firsts]
                if not first:
                    continue
            elif f is not None:
                first = [f] if f else []
            out.append({
                "name": name if f is None else "%s: %s" % (name, f or "none"),
                "property": "C28", "func": "sequence",
                "params": {"args": {"context": ctx, "pre": pre,
                                    "vocab": vocab, "n": n, "post": post,
                                    "first": None if f is None else first}},
                "expect": ["legal", "illegal"] if f is None else [],
                "weight": 2, "replay": 0.3, "bounds": bounds})
    for name, ctx, pre, post, bounds in (
            ("bounds", "rsl", "type G { a Integer [", "#1 .. #2 ] }",
             "any two digits as bounds of an array"),
            ("comma", "trlc", "Z a { ai = [", "#1 , ] }",
             "any digit before a trailing comma")):
        out.append({
            "name": "known " + name, "property": "C28", "func": "sequence",
            "params": {"args": {"context": ctx, "pre": pre, "vocab": [],
                                "n": 0, "post": post, "known": True}},
            "expect": ["legal"] if name == "bounds" else ["illegal"],
            "weight": 1, "replay": 1, "bounds": bounds})
    return out
