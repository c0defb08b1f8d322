"""C23 the RST converter renders the selected records, once, with their
sections, values and references."""

import builtins
import contextlib
import importlib
import io
import os
import shutil
import sys

from symx import common
from symx.logic import AND, OR, NOT

VENV = "/opt/venv/lib/python3.12/site-packages"


def converter():
    try:
        import bigtree                          # noqa: F401
    except ImportError:
        # third party tree library, used as it is
        sys.path.append(VENV)
        import bigtree                          # noqa: F401
        sys.path.remove(VENV)
    return importlib.import_module("trlc_rst")


class Reader:
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


class Writer(common.Sink):
    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def writelines(self, parts):
        for p in parts:
            self.write(p)

    def close(self):
        pass


@contextlib.contextmanager
def workspace(files, outputs):
    """run in an empty directory with the given files (symbolic contents);
    the files written are collected in outputs"""
    here = os.getcwd()
    top = os.path.join(here, "rstrun")
    if os.path.isdir(top):
        shutil.rmtree(top)
    os.mkdir(top)
    real = builtins.open

    def virtual_open(name, mode="r", *a, **k):
        if type(name) is str:
            rel = os.path.relpath(os.path.abspath(name), top)
            if mode == "r" and rel in files:
                return Reader(files[rel])
            if "w" in mode and not rel.startswith(".."):
                outputs[rel] = Writer()
                return outputs[rel]
        return real(name, mode, *a, **k)
    os.chdir(top)
    try:
        for name in files:
            common.touch(name)
        builtins.open = virtual_open
        with contextlib.redirect_stdout(io.StringIO()), \
             contextlib.redirect_stderr(io.StringIO()):
            yield top
    finally:
        builtins.open = real
        os.chdir(here)
        shutil.rmtree(top)


CHARS = "=-^'"
DIRECTIVE = ".. requirement:definition:: "


def parse(c, lines):
    """[(heading texts with levels, fully qualified name, lines of body)]"""
    out = []
    stack = []
    body = None
    k = 0
    while k < len(lines):
        line = lines[k]
        if k + 1 < len(lines) and len(line) > 0 and \
           len(lines[k + 1]) == len(line) and \
           any(lines[k + 1] == x * len(line) for x in CHARS) and \
           not line[:1] == " " and not line.startswith(DIRECTIVE):
            char = lines[k + 1][0]
            stack = [x for x in stack if CHARS.index(x[0]) <
                     CHARS.index(char)]
            stack.append((char, line))
            k += 2
            body = None
            continue
        if line.startswith(DIRECTIVE):
            body = []
            out.append((list(stack), line[len(DIRECTIVE):], body))
        elif body is not None:
            body.append(line)
        else:
            c.check(line == "", "text outside of the records: %s",
                    repr(line))
        k += 1
    return out


PATHS = [[], ["A"], ["A", "B"], ["B"], ["A", "A"], ["B", "A", "C"], ["P.o0"],
         ["a/b"], ["A", "P.o1"]]


def sections(c, n=3, paths=None):
    """every record stands once below exactly the headings of its sections,
    and sections with the same path share one heading"""
    mod = converter()
    title = c.pick("title", ["Requirements", "", "T"])
    text = "package P\n"
    want = []
    for k in range(n):
        path = c.pick("path%u" % k, paths or PATHS)
        obj = "T o%u { }\n" % k
        for s in reversed(path):
            obj = 'section "%s" {\n%s}\n' % (s, obj)
        text += obj
        want.append(("P.o%u" % k, path))
    out = {}
    with workspace({"a.rsl": "package P\ntype T { }\n", "a.trlc": text},
                   out):
        r = mod.TRLCRST(source_files=["a.trlc"], dep_files=["a.rsl"])
        r.render("o.rst", title=title)
    c.check(list(out) == ["o.rst"], "report is written")
    got = parse(c, out["o.rst"].text().split("\n"))
    c.check(sorted(g[1] for g in got) == [w[0] for w in want],
            "records %s", repr([g[1] for g in got]))
    heads = []
    for stack, name, _ in got:
        exp = dict(want).get(name)
        names = [x[1] for x in stack]
        chars = [x[0] for x in stack]
        full = ([title] if title else []) + (exp or [])
        c.check(names == full, "%s is below %s, expected %s", name,
                repr(names), repr(full))
        c.check(chars == list(CHARS[:len(full)]), "levels of the headings")
    total = [x for x in out["o.rst"].text().split("\n")
             if x in ("A", "B", "C", "P.o0", "P.o1", "a/b")]
    uniq = {tuple(p[:k + 1]) for _, p in want for k in range(len(p))}
    c.check(len(total) == len(uniq), "each section has one heading")
    # order of records with equal sections
    for path in {tuple(p) for _, p in want}:
        a = [g[1] for g in got if [x[1] for x in g[0]][bool(title):] ==
             list(path)]
        c.check(a == [n for n, p in want if tuple(p) == path],
                "order of records")
    c.reach("rendered")


FILES = {
    "m.rsl": "package P\ntype T { description optional String v optional "
             "Integer r optional T }\n",
    "a.trlc": "package P\nT o1 { description = \"d1\" v = 1 }\n"
              "section \"S\" { T o2 { description = \"d2\" } }\n",
    "sub/b.trlc": "package P\nT o3 { description = \"d3\" r = o1 }\n",
    "q.trlc": "package Q\nimport P\nP.T o1 { description = \"d4\" }\n",
}
OBJS = {"a.trlc": ["P.o1", "P.o2"], "sub/b.trlc": ["P.o3"],
        "q.trlc": ["Q.o1"]}
ALL = ["P.o1", "P.o2", "P.o3", "Q.o1"]
DESC = dict(zip(ALL, ["d1", "d2", "d3", "d4"]))


def selection(c, how="render"):
    """the source file filter, the record filter and the given names select
    the records"""
    mod = converter()
    mode = c.choice("directory", 2)
    srcs = [f for f in OBJS if c.choice("source " + f, 2)]
    spell = c.choice("spelling", 3)
    flt = c.pick("records", [None, {"P.o1"}, {"Q.o1", "P.o3"}, set(),
                             {"P.nope", "P.o2"}, {"o1"}])
    out = {}
    with workspace(FILES, out) as top:
        given = [[f, "./" + f, os.path.join(top, f)][spell] for f in srcs]
        if mode:
            none = c.choice("no_filter", 2)
            r = mod.TRLCRST(".", source_files=None if none else given)
            if none:
                srcs = list(OBJS)
        else:
            c.assume("a.trlc" in srcs)
            r = mod.TRLCRST(source_files=given, dep_files=[
                f for f in FILES if f not in srcs or f == "a.trlc"])
        exp = [o for f in OBJS if f in srcs for o in OBJS[f]
               if flt is None or o in flt]
        if how == "render":
            r.render("o.rst", records=flt)
            got = parse(c, out["o.rst"].text().split("\n"))
            c.check(sorted(g[1] for g in got) == sorted(exp),
                    "records %s, expected %s", repr([g[1] for g in got]),
                    repr(exp))
            for _, name, body in got:
                c.check([x for x in body if x] == ["   " + DESC[name]],
                        "description of %s", name)
        else:
            r.parse_trlc_files()
            objs = r.objects_by_fqn(flt)
            c.check(sorted(objs) == sorted(exp), "objects by name")
            for o in objs:
                c.check(objs[o].fully_qualified_name() == o, "object")
            for o in ALL:
                v = r.field_value_for(o, "description", flt)
                c.check(v == (DESC[o] if o in exp else None), "value of %s",
                        o)
            names = c.pick("names", [None, ["Q.o1", "P.o1"], [],
                                     ["P.o2", "P.x", "P.o1", "P.o2"]])
            lst = exp if names is None else [x for x in names if x in exp]
            text = r.render_records_to_string(fqns=names, records=flt)
            got = [g[1] for g in parse(c, text.split("\n"))]
            c.check(sorted(got) == sorted(lst) if names is None else
                    got == lst, "records %s, expected %s", repr(got),
                    repr(lst))
            text = r.render_table_to_string(["description"], fqns=names,
                                            records=flt)
            rows = [x[7:] for x in text.split("\n")
                    if x.startswith("   * - ")]
            c.check(rows[:1] == ["Name"], "header")
            short = [x.split(".")[1] for x in lst]
            c.check(sorted(rows[1:]) == sorted(short) if names is None else
                    rows[1:] == short, "rows %s", repr(rows))
    c.reach("selected" if exp else "nothing selected")


KINDS = ["v", "s", "m", "e", "b", "o", "description", "r", "status_of_x"]
LABEL = {"v": "V", "s": "S", "m": "M", "e": "E", "b": "B", "o": "O", "r": "R",
         "description": "Description", "status_of_x": "Status Of X"}
PROSE = ("m", "description")


def field_setup(c, ask, n=2, chars="ab"):
    def txt(name, field, k=n):
        return c.string_upto(name, k, chars) if field in ask else "q"
    s = txt("s", "s")
    m = txt("m", "m")
    d = txt("d", "description")
    x = txt("x", "status_of_x", 1)
    b = "b" in ask and c.choice("b", 2) == 1
    lit = c.pick("lit", ["X", "YY"]) if "e" in ask else "X"
    have = "o" in ask and c.choice("have", 3)
    zero = have == 2
    rsl = "package P\nenum E { X YY }\ntype T { v optional Integer s " \
        "optional String m optional Markup_String e optional E b optional " \
        "Boolean o optional Integer r optional T description optional " \
        "String status_of_x String }\n"
    trlc = "package P\nT ob { v = 12 s = \"" + s + "\" m = \"" + m + \
        "\" e = E." + lit + " b = " + ("true" if b else "false") + \
        (" o = 0" if zero else " o = -3" if have else "") + " r = ob description = \"" + d + \
        "\" status_of_x = \"" + x + "\" }\n"
    vals = {"v": "12", "s": s, "m": m, "e": lit, "b": str(b),
            "o": "0" if zero else "-3" if have else None, "r": "P.ob", "description": d,
            "status_of_x": x}
    return {"a.rsl": rsl, "a.trlc": trlc}, vals


def fields(c, how="record", n=2):
    """requested fields in the requested order with their values"""
    mod = converter()
    ask = [c.pick("field%u" % k, KINDS + ["nope"]) for k in range(n)]
    c.assume(len(set(ask)) == n)
    files, vals = field_setup(c, ask)
    custom = c.choice("labels", 2) == 1
    spec = {f: "L%u" % k for k, f in enumerate(ask)} if custom else ask
    label = spec if custom else dict(LABEL, nope="Nope")
    vals["nope"] = None
    with workspace(files, {}):
        r = mod.TRLCRST(source_files=["a.trlc"], dep_files=["a.rsl"])
        r.parse_trlc_files()
        if how == "record":
            text = r.render_records_to_string(spec)
        elif how == "table":
            text = r.render_table_to_string(spec)
        else:
            for f in ask:
                v = r.field_value_for("P.ob", f)
                w = vals[f]
                if w is None or w == "":
                    c.check(v is None, "no value of %s", f)
                else:
                    c.check(v is not None and str(v) == w, "value of %s", f)
            c.reach("rendered")
            return
    lines = text.split("\n")
    if how == "table":
        want = [".. list-table::", "   :header-rows: 1", "", "   * - Name"]
        want += ["     - " + label[f] for f in ask]
        want += ["   * - ob"]
        want += ["     - " + ("" if vals[f] is None else vals[f])
                 for f in ask]
        lines = [x for x in lines if x != ""]
        want = [x for x in want if x != ""]
    else:
        lines = [x for x in lines if not x == ""]
        shown = [f for f in ask if vals[f] is not None and
                 not vals[f] == ""]
        want = [DIRECTIVE + "P.ob"]
        want += [":" + label[f] + ": " + vals[f] for f in shown
                 if f not in PROSE]
        want += ["   " + vals[f] for f in shown if f in PROSE]
    c.check(len(lines) == len(want), "%u lines, expected %u", len(lines),
            len(want))
    if len(lines) == len(want):
        c.check(AND(True, *[a.rstrip() == b.rstrip()
                            for a, b in zip(lines, want)]),
                "rendered lines")
    c.reach("rendered")


def several_lines(c, n=4):
    """values of several lines stay inside of their field or cell"""
    mod = converter()
    body = "a" + c.string("body", n, "\n b") + "c"
    out = {}
    with workspace({"a.rsl": "package P\ntype T { s String w String }\n",
                    "a.trlc": "package P\nT ob { s = '''" + body +
                    "''' w = \"end\" }\n"}, out):
        r = mod.TRLCRST(source_files=["a.trlc"], dep_files=["a.rsl"])
        r.parse_trlc_files()
        value = r.objects_by_fqn()["P.ob"].field["s"].value
        rec = r.render_records_to_string(["s", "w"]).split("\n")
        tab = r.render_table_to_string(["s", "w"]).split("\n")
    src = value.split("\n")
    for lines, first, other in ((rec, ":S: ", "   "),
                                (tab, "     - ", "       ")):
        k = [i for i, x in enumerate(lines) if x.startswith(first + "a")]
        c.check(len(k) == 1, "value is shown")
        if len(k) != 1:
            return
        c.check(lines[k[0]].rstrip() == (first + src[0]).rstrip(),
                "first line")
        for j, x in enumerate(src[1:]):
            got = lines[k[0] + 1 + j]
            c.check(got.rstrip() == (other + x).rstrip() if not x == ""
                    else got.strip() == "", "line %u: %s", j + 2, repr(got))
    c.reach("several" if len(src) > 1 else "one")


def words(s):
    return [w for w in s.replace("\n", " ").split(" ") if len(w) > 0]


def is_item(s):
    """line of a bullet or numbered list"""
    if s[:1] == "-":
        return True
    k = 0
    while k < len(s) and s[k] == "1":
        k += 1
    return k > 0 and k < len(s) and bool(s[k] == ".")


def indented(c, n=3, first="x::"):
    """lines of code or options keep their relative indentation"""
    body = first
    for k in range(n):
        body += "\n" + " " * c.pick("indent%u" % k, [0, 1, 3, 8, 14]) + \
            c.pick("text%u" % k, ["a", "", "b  c", ":w: 1", "y::"])
    description(c, body=body + "\nz")


def description(c, n=6, alpha="a \n", prefix="x", body=None):
    """the text of a description keeps its words, lines and paragraphs and
    stays inside of the directive"""
    mod = converter()
    if body is None:
        body = prefix + c.string("body", n, alpha) + "z"
    kind = c.choice("markup", 2)
    with workspace({"a.rsl": "package P\ntype T { description " +
                    ("Markup_String" if kind else "String") + " }\n",
                    "a.trlc": "package P\nT ob { description = '''" + body +
                    "''' }\n"}, {}):
        r = mod.TRLCRST(source_files=["a.trlc"], dep_files=["a.rsl"])
        r.parse_trlc_files()
        value = r.objects_by_fqn()["P.ob"].field["description"].value
        lines = r.render_records_to_string().split("\n")
    c.check(lines[0] == DIRECTIVE + "P.ob" and lines[1] == "", "directive")
    src = value.split("\n")
    rest = lines[2:]
    code = None
    opts = None            # indentation of a directive
    prev_item = False
    blank = 0              # blank lines required before the next line
    for i, x in enumerate(src):
        norm = x.strip()
        if norm == "":
            blank = 1
            code = None
            prev_item = False
            continue
        lead = len(x) - len(x.lstrip())
        was_code = code is not None
        if code is not None and lead < code:
            code = None
        gap = 0
        while rest and rest[0].strip() == "":
            rest = rest[1:]
            gap += 1
        c.check(len(rest) > 0, "line %u is missing", i + 1)
        if not rest:
            return
        line, rest = rest[0], rest[1:]
        flat = " ".join(words(norm))
        if code is not None:
            c.check(line.rstrip() == " " * (6 + lead - code) +
                    norm, "line of a code block: %s", repr(line))
            c.check(gap >= blank, "blank line before the code")
            c.reach("code")
            blank = 0
            continue
        if opts is not None and lead > opts:
            c.check(line.rstrip() == " " * (3 + lead - opts) + norm,
                    "line of a directive: %s", repr(line))
            c.check(gap == blank, "blank line in a directive")
            c.reach("option")
            blank = 0
            prev_item = False
            continue
        opts = None
        item = is_item(flat)
        c.check(line == "   " + flat, "line %s", repr(line))
        must = blank or was_code or (i > 0 and item != prev_item)
        c.check(gap >= 1 if must and i > 0 else gap == 0 if i == 0 else
                (gap == 0), "paragraphs")
        c.reach("paragraph" if gap else "same paragraph")
        prev_item = item
        blank = 0
        if flat.startswith(".. image::"):
            opts = lead
        elif flat.endswith("::") and i + 1 < len(src) and \
           not src[i + 1].strip() == "":
            nxt = src[i + 1]
            code = len(nxt) - len(nxt.lstrip())
            blank = 1
    c.check(all(x.strip() == "" for x in rest), "nothing is added")


LINKS = {
    "": "", "a": "a", "[a](b)": "`a <b>`_", "![a](b)": ".. image:: b|   :alt:"
    " a", "![](b)": ".. image:: b", "[[ob]]":
    ":requirement:upstream-ref:`ob <P.ob>`",
    "[[Q.oc, ob]]": ":requirement:upstream-ref:`oc <Q.oc>`, "
    ":requirement:upstream-ref:`ob <P.ob>`",
    "[[P.od]]": ":requirement:upstream-ref:`od <P.od>`",
    "[[ oc ,Q.oc]]": ":requirement:upstream-ref:`oc <P.oc>`, "
    ":requirement:upstream-ref:`oc <Q.oc>`",
    "[[od, Q.oc,P.oc , ob]]": ":requirement:upstream-ref:`od <P.od>`, "
    ":requirement:upstream-ref:`oc <Q.oc>`, "
    ":requirement:upstream-ref:`oc <P.oc>`, "
    ":requirement:upstream-ref:`ob <P.ob>`",
    "[a]": "[a]", "(b)": "(b)",
}


def references(c, n=3):
    """references become roles that name the resolved objects; links and
    images are converted, everything else is kept"""
    mod = converter()
    parts = [c.pick("part%u" % k, sorted(LINKS)) for k in range(n)]
    c.assume(not any(x.startswith("!") for x in parts[1:]))
    c.assume(not (parts[0].startswith("!") and any(parts[1:])))
    how = c.choice("how", 3)
    body = " ".join(parts)
    exp = [x if x.startswith("   ") else " ".join(x.split())
           for x in " ".join(LINKS[x] for x in parts).rstrip().split("|")]
    src = "x " + body if not parts[0].startswith("!") else body.rstrip()
    if src.startswith("x "):
        exp = [("x " + exp[0]).strip()]
    if how == 2:
        c.assume("(b)" not in body)
    with workspace({"a.rsl": "package P\ntype T { description optional "
                    "Markup_String }\n",
                    "q.rsl": "package Q\nimport P\n",
                    "q.trlc": "package Q\nimport P\nP.T oc { }\n",
                    "a.trlc": "package P\nimport Q\nT ob { description = \""
                    + src + "\" }\nT oc { }\nT od { }\n"}, {}):
        r = mod.TRLCRST(source_files=["a.trlc"],
                        dep_files=["a.rsl", "q.rsl", "q.trlc"])
        r.parse_trlc_files()
        if how == 0:
            lines = r.render_records_to_string(fqns=["P.ob"]).split("\n")
            got = [x[3:] for x in lines[2:] if x]
        elif how == 1:
            got = r.field_value_for("P.ob", "description").split("\n")
        else:
            lines = r.render_table_to_string(["description"],
                                             fqns=["P.ob"]).split("\n")
            got = [" ".join(x[7:].split()) for x in lines
                   if x.startswith("     - ")][1:]
    c.check(got == exp, "rendered %s, expected %s", repr(got), repr(exp))
    c.reach("rendered")


def command(c):
    """the command line converter writes the report, or fails"""
    mod = converter()
    broken = c.choice("broken", 3)
    argv = ["rst", "-o", "o.rst"]
    how = c.choice("how", 4)
    argv += [["-i", "."], ["-s", "a.trlc", "-d", "m.rsl"],
             ["-i", ".", "-s", "a.trlc"], []][how]
    title = c.pick("title", [None, "", "Ti"])
    if title is not None:
        argv += ["-t", title]
    fld = c.pick("fields", [None, ["v"], ["description", "v"]])
    if fld:
        argv += ["-f"] + fld
    rec = c.pick("records", [None, ["P.o1"], ["P.o3", "P.o1"]])
    if rec:
        argv += ["-r"] + rec
    files = dict(FILES)
    if broken == 1:
        files["a.trlc"] += "T o1 { }\n"
    elif broken == 2:
        files["m.rsl"] = files["m.rsl"].replace("String", "Strng")
    out = {}
    real = sys.argv
    rc = 0
    with workspace(files, out):
        sys.argv = argv
        try:
            mod.main()
        except SystemExit as err:
            rc = err.code
        finally:
            sys.argv = real
    if how == 3 or broken:
        c.reach("failed")
        c.check(rc not in (0, None), "failure is shown in the exit status")
        c.check(not out, "no report is written")
        return
    c.reach("written")
    c.check(rc in (0, None), "exit status %s", repr(rc))
    c.check(list(out) == ["o.rst"], "report is written")
    if list(out) != ["o.rst"]:
        return
    got = parse(c, out["o.rst"].text().split("\n"))
    exp = [o for o in ALL if (o in ("P.o1", "P.o2") or how == 0) and
           (rec is None or o in rec)]
    c.check(sorted(g[1] for g in got) == exp, "records %s", repr(got))
    head = "Requirements" if title is None else title
    for stack, name, body in got:
        c.check([x[1] for x in stack][:1] == ([head] if head else [])
                or not head, "title")
        want = []
        if fld and name == "P.o1":
            want += [":V: 1"]
        if fld != ["v"]:
            want += ["   " + DESC[name]]
        c.check([x for x in body if x] == want, "fields %s", repr(body))


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, func, bounds, w=1, expect=("rendered",), replay=0.1,
            **args):
        out.append({"name": name, "property": "C23", "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    add("sections", "sections", "3 records in any of 9 section paths, 3 "
        "titles", 20, n=3)
    if th:
        add("sections of four", "sections", "4 records in any of 5 paths", 30,
            n=4, paths=PATHS[:5], replay=0.05)
    SEL = ("selected", "nothing selected")
    add("selection", "selection", "3 files, 6 record filters", 5, SEL)
    add("selection by name", "selection", "3 files, 6 record filters, 4 "
        "lists of names", 8, SEL, how="names")
    for how in ("record", "table", "value"):
        add("fields " + how, "fields", "%u of 10 fields, strings of up to 2 "
            "characters" % (3 if th else 2), 6, how=how,
            n=3 if th else 2, replay=0.02 if th else 0.1)
    add("several lines", "several_lines", "%u characters over a, blank and "
        "newline" % (6 if th else 5), 4, ("one", "several"),
        n=6 if th else 5)
    PAR = ("paragraph", "same paragraph")
    add("text", "description", "texts of %u characters over a, blank and "
        "newline" % (8 if th else 7), 6, PAR, n=8 if th else 7)
    add("lists", "description", "texts of %u characters over - . 1 and "
        "newline" % (6 if th else 5), 6, PAR, n=6 if th else 5,
        alpha="-1.\n", prefix="x\n")
    add("code blocks", "description", "texts of %u characters over a, "
        "blank and newline after ::" % (8 if th else 7), 6,
        ("code", "paragraph"), n=8 if th else 7, prefix="x::\n ")
    add("indented code", "indented", "%u lines, 5 widths, 5 texts" %
        (3 if th else 2), 6, ("code", "paragraph"), n=3 if th else 2,
        replay=0.02)
    add("directives", "indented", "%u lines, 5 widths, 5 texts" %
        (3 if th else 2), 6, ("option", "paragraph"), n=3 if th else 2,
        first=".. image:: p", replay=0.02)
    add("references", "references", "%u parts of 12 kinds" % 3, 6, n=3)
    add("command line", "command", "4 sets of inputs, 3 titles, fields and "
        "record filters", 3, ("failed", "written"))
    return out
