"""C27 messages: text, location, context, counts, suppression, prefix."""

import importlib
import itertools
import os
import re

from symx import common
from symx.logic import AND, OR, NOT, text as concrete

KINDS = ["error", "check error", "warning", "check warning", "issue",
         "lex error"]


def emit(mh, loc, kind, msg, fatal, expl):
    if kind in ("error", "check error"):
        mh.error(loc, msg, explanation=expl, fatal=fatal,
                 user=kind == "check error")
    elif kind in ("warning", "check warning"):
        mh.warning(loc, msg, explanation=expl, user=kind == "check warning")
    elif kind == "issue":
        mh.check(loc, msg, "some_check", explanation=expl)
    else:
        mh.lex_error(loc, msg)


def is_fatal(kind, fatal):
    return kind == "lex error" or kind in ("error", "check error") and fatal


def shown_kind(kind):
    return "error" if kind == "lex error" else kind


def strip_trailing(s):
    """without trailing blanks"""
    n = len(s)
    while n > 0 and bool(OR(s[n - 1] == " ", s[n - 1] == "\t")):
        n -= 1
    return s[:n]


def split_lines(s):
    """lines of an explanation; a final line end adds no line"""
    out = []
    cur = ""
    for n in range(len(s)):
        if s[n] == "\n":
            out.append(cur)
            cur = ""
        else:
            cur = cur + s[n]
    if len(cur):
        out.append(cur)
    return out


def message_format(c, n=2, context=False):
    """one message: what is printed, raised and counted"""
    errors = importlib.import_module("trlc.errors")
    kind = c.pick("kind", KINDS)
    fatal = c.choice("fatal", 2) == 1
    brief = c.choice("brief", 2) == 1
    detail = c.choice("details", 2) == 1
    msg = c.string_upto("message", n, "ab %")
    expl = c.string_upto("explanation", n, "a \n") \
        if c.choice("explained", 2) else None
    out = common.Sink()
    mh = errors.Message_Handler(brief, detail, out=out)
    lead = ""
    if context:
        lexer = importlib.import_module("trlc.lexer")
        indent = c.string_upto("indent", n, " \t")
        gap = c.string_upto("gap", n, " \t")
        src = "x\n" + indent + "aa" + gap + "=" + "1\ny"
        which = c.choice("token", 3)
        lx = lexer.TRLC_Lexer(mh, "d/f.rsl", src)
        for _ in range(which + 2):
            loc = lx.token().location
        col = 1 + len(indent) + (0, 2 + len(gap), 3 + len(gap))[which]
        line = 2
        fname = "d/f.rsl"
        line_text = "aa" + gap + "=1"
        line_text = line_text.replace("\t", " ")
        marker = " " * (col - 1 - len(indent)) + "^" * (2, 1, 1)[which]
    else:
        fname = c.string_upto("file", 2, "f/.", minlen=1)
        line = c.integer("line", 1, 9) if c.choice("has_line", 2) else None
        col = c.integer("col", 1, 9) if line is not None and \
            c.choice("has_col", 2) else None
        loc = errors.Location(fname, line, col)
    raised = None
    try:
        emit(mh, loc, kind, msg, fatal, expl)
    except errors.TRLC_Error as err:
        raised = err
    if is_fatal(kind, fatal):
        c.reach("fatal")
        c.check(raised is not None, "fatal message raises TRLC_Error")
        if raised is not None:
            c.check(AND(raised.location is loc, str(raised.kind) ==
                        shown_kind(kind), raised.message == msg),
                    "exception describes the message")
    else:
        c.reach("continues")
        c.check(raised is None, "message that is not fatal does not raise")
    err = kind in ("error", "check error", "lex error")
    c.check(mh.errors == int(err) and mh.warnings == int(not err) and
            mh.suppressed == 0, "counters")
    where = fname
    if line is not None:
        where = where + ":" + str(line)
        if col is not None and (brief or not context):
            where = where + ":" + str(col)
    full = where + ": " + ("trlc " if brief else "") + shown_kind(kind) + \
        ": " + msg + (" [some_check]" if kind == "issue" else "")
    if brief or not context:
        want = full + "\n"
    else:
        want = line_text + "\n" + marker + " " + full + "\n"
        lead = " " * (len(marker) - 1)
    if not brief and detail and expl is not None and kind != "lex error":
        c.reach("explained")
        for ln in split_lines(expl):
            want = want + lead + "| " + strip_trailing(ln) + "\n"
    got = out.text()
    c.check(got == want, "output '%s', expected '%s'", got, want)


def sequence(c, n=3):
    """several messages, kinds suppressed before or in between"""
    errors = importlib.import_module("trlc.errors")
    brief = c.choice("brief", 2) == 1
    pfx = c.string_upto("prefix", 2, "fg:") if c.choice("strip", 2) else None
    out = common.Sink()
    mh = errors.Message_Handler(brief, out=out, strip_prefix=pfx)
    hide = c.pick("suppress", [None, "USER_WARNING", "SYS_WARNING",
                               "SYS_CHECK", "USER_ERROR"])
    when = c.choice("suppress_after", 2)
    hidden = {None: None, "USER_WARNING": "check warning",
              "SYS_WARNING": "warning", "SYS_CHECK": "issue",
              "USER_ERROR": "check error"}[hide]
    want = ""
    nerr, nwarn, nhid = 0, 0, 0
    for k in range(n):
        if hide is not None and k == when:
            mh.suppress(getattr(errors.Kind, hide))
        kind = c.pick("kind%u" % k, KINDS)
        fname = ["f", "fg"][k % 2]
        loc = errors.Location(fname, k + 1)
        raised = False
        try:
            emit(mh, loc, kind, "m%u" % k, True, None)
        except errors.TRLC_Error:
            raised = True
        c.check(raised == is_fatal(kind, True), "raises exactly for errors")
        if kind in ("error", "check error", "lex error"):
            nerr += 1
        else:
            nwarn += 1
        if hidden == kind and k >= when:
            nhid += 1
            c.reach("hidden")
        else:
            where = fname + ":%u" % (k + 1)
            if pfx is not None and len(pfx) and \
                    bool(where[:len(pfx)] == pfx):
                c.reach("stripped")
                where = where[len(pfx):]
            want = want + where + ": " + ("trlc " if brief else "") + \
                shown_kind(kind) + ": m%u" % k + \
                (" [some_check]" if kind == "issue" else "") + "\n"
    c.check(out.text() == want, "output '%s', expected '%s'", out.text(),
            want)
    c.check(mh.errors == nerr and mh.warnings == nwarn and
            mh.suppressed == nhid, "counters")


def multi_line(c, n=2):
    """messages about tokens that span several lines quote the first line"""
    errors = importlib.import_module("trlc.errors")
    lexer = importlib.import_module("trlc.lexer")
    out = common.Sink()
    mh = errors.Message_Handler(False, out=out)
    a = c.string_upto("a", n, "a b")
    b = c.string_upto("b", n, "a b")
    pre = c.string_upto("pre", n, " \tx")
    src = pre + '"""' + a + "\n" + b + '"""'
    try:
        lx = lexer.TRLC_Lexer(mh, "f.rsl", src)
        tok = None
        while tok is None or tok.kind != "STRING":
            tok = lx.token()
    except errors.TRLC_Error:
        c.check(False, "lexing failed")
        return
    mh.warning(tok.location, "msg")
    first = (pre + '"""' + a).replace("\t", " ")
    k = 0
    while k < len(pre) and bool(OR(pre[k] == " ", pre[k] == "\t")):
        k += 1
    first = first[k:]
    off = len(pre) - k
    c.reach("shown")
    c.check(out.text() == first + "\n" + " " * off + "^" * (3 + len(a)) +
            " f.rsl:1: warning: msg\n", "quoted line")


REF = re.compile(r"[A-Za-z0-9_./]+\.(?:rsl|trlc)(?::[0-9]+)?")


def page(c, name, n):
    """blank lines, also enough for another digit"""
    return "\n" * c.pick(name, list(range(n)) + [9, 120])


def refers(c, msg, text, want):
    """the only place mentioned in the text is the wanted one"""
    got = REF.findall(text)
    c.check(got == want, "%s mentions %s, expected %s", text, repr(got),
            repr(want))


def single_error(c, res):
    c.check(res.crash is None, "internal failure: %s", res.summary())
    c.check(len(res.errors) == 1, "one error: %s", res.summary())
    if res.crash is not None or len(res.errors) != 1:
        return None
    c.reach("error")
    return res.errors[0]


DUPLICATES = {
    "type": ("type T { }", "type T { }"),
    "type too similar": ("type T_a { }", "type Ta { }"),
    "enumeration": ("enum T { a }", "type T { }"),
    "component": ("T", "v Integer", "v Integer"),
    "component too similar": ("T", "v_a Integer", "va Integer"),
    "tuple field": ("Tu", "v Integer", "v Integer"),
    "literal": ("En", "v", "v"),
}


def duplicates(c, n=3):
    """messages about duplicates mention where the first one is"""
    what = c.pick("what", list(DUPLICATES))
    a, b = page(c, "before", n), page(c, "between", n)
    d = DUPLICATES[what]
    if len(d) == 2:
        rsl = "package P\n" + a + d[0] + "\n" + b + d[1] + "\n"
        line = 2 + len(a)
    else:
        head = {"T": "type T", "Tu": "tuple Tu", "En": "enum En"}[d[0]]
        sep = "\n" if d[0] != "Tu" else "\nseparator :\n"
        rsl = "package P\n" + a + head + " {\n" + a + d[1] + sep + b + \
            d[2] + "\n}\n"
        line = 3 + 2 * len(a)
    res = common.run({"p.rsl": rsl})
    m = single_error(c, res)
    if m is not None:
        refers(c, m, m.message, ["p.rsl:%u" % line])
        c.check(m.line == rsl[:rsl.rindex(d[-1])].count("\n") + 1,
                "line of the second declaration: %s", res.summary())


def elsewhere(c, n=3):
    """messages that mention a place in another file"""
    what = c.pick("what", ["inherited", "similar", "object", "object similar",
                           "required", "required inherited", "loop"])
    a, b = page(c, "before", n), page(c, "inside", n)
    files = {}
    line = 3 + len(a) + len(b)
    q = "p.rsl"
    files["p.rsl"] = "package P\n" + a + "type T {\n" + b + \
        ("v_v Integer\n" if what.startswith("required") else
         "v_v optional Integer\n") + "}\n"
    if what == "inherited":
        files["q.rsl"] = "package Q\nimport P\ntype S extends P.T {\n" \
            "v_v Integer }\n"
        at = ("q.rsl", 4)
    elif what == "similar":
        files["q.rsl"] = "package Q\nimport P\ntype S extends P.T {\n" \
            "vv Integer }\n"
        at = ("q.rsl", 4)
    elif what in ("object", "object similar"):
        files["a.trlc"] = "package P\n" + a + b + "T o_x { }\n"
        q = "a.trlc"
        line -= 1
        files["b.trlc"] = "package P\n\nT %s { }\n" % (
            "o_x" if what == "object" else "ox")
        at = ("b.trlc", 3)
    elif what == "required":
        files["a.trlc"] = "package P\nT ox { }\n"
        at = ("a.trlc", 2)
    elif what == "required inherited":
        files["q.rsl"] = "package Q\nimport P\ntype S extends P.T { }\n"
        files["a.trlc"] = "package R\nimport Q\nQ.S ox { }\n"
        at = ("a.trlc", 3)
    else:
        files["p.rsl"] = a + "package P\nimport Q\n"
        files["q.rsl"] = b + "package Q\nimport R\n"
        files["r.rsl"] = a + b + "package R\nimport P\n"
        at = ("p.rsl", None)
    res = common.run(files)
    m = single_error(c, res)
    if m is None:
        return
    c.check((m.file, m.line) == at, "message at %s:%s", m.file, m.line)
    if what == "loop":
        c.check(m.extra is not None, "explanation")
        if m.extra is not None:
            refers(c, m, m.extra, ["q.rsl", "r.rsl"])
            c.check(re.findall("([QR]) is", m.extra) == ["Q", "R"],
                    "packages in %s", m.extra)
    else:
        refers(c, m, m.message, ["%s:%u" % (q, line)])


# expression, whether it fails for v = 0 and v = 1 (t is a tuple field)
BROKEN = [
    "nn > v", "v > nn", "nn + v > 1", "nb and v > 0", "v >= 0 and nb",
    "true implies nb", "false or nb", "nb", "not nb", "-nn > v",
    "abs nn > v",
    "nn in 1 .. 2", "v in nn .. 2", "v in 0 .. nn", "oneof(nb, v > 0)",
    "oneof(v > 9, nb)", "(if nb then v > 0 else v > 1)",
    "(if v > 9 then true elsif nb then true else v > 1)",
    "(forall x in na => x > 1)", "(exists x in aa => nb)",
    "1 / (v - v) > 2", "1 % (v - v) > 2", "1.0 / (dd - dd) > 2.0",
    "aa[0 - 1] > v", "aa[5] > v", "aa[2] > v", "len(ns) > v",
    "startswith(ns, ss)", "endswith(ss, ns)", "ns in ss", "1 in na",
    "matches(ns, ss)", "Integer(nd) > v", "Decimal(nn) > dd",
    "nt.v > 1", "(forall x in at => x.w > 1)",
]


def evaluation(c, n=3, half=0):
    """errors of evaluations mention where the expression is"""
    expr = c.pick("expression", BROKEN[half::3])
    other = c.choice("other_file", 2) == 1
    wrap = c.pick("in", ["%s", "true and %s"])
    a, b = page(c, "before", n), page(c, "inside", n)
    t, _ = c.int_text("v", 1)
    decl = "tuple Tu { v Integer separator : w optional Integer }\n" \
        "type T { v Integer nn optional Integer nb optional Boolean " \
        "ns optional String ss String nd optional Decimal dd Decimal " \
        "na optional Integer [0 .. 9] aa Integer [0 .. 5] " \
        "nt optional Tu at Tu [0 .. *] }\n"
    body = a + "checks @ {\n" + b + \
        wrap.replace("%s", expr) + ', "failed"\n}\n'
    files = {"p.rsl": "package P\n" + decl}
    if other:
        files["q.rsl"] = "package Q\nimport P\ntype S extends P.T { }\n" + \
            body.replace("@", "S")
        name, line = "q.rsl", 5 + len(a) + len(b)
    else:
        files["p.rsl"] += body.replace("@", "T")
        name, line = "p.rsl", 5 + len(a) + len(b)
    files["o.trlc"] = "package O\nimport P\nimport Q\n"[:(28 if other else
                                                         19)] + \
        ("Q.S" if other else "P.T") + ' obj1 { v = ' + t + \
        ' ss = "s" dd = 1.0 aa = [1, 2] at = [1] }\n'
    res = common.run(files)
    m = single_error(c, res)
    if m is not None:
        got = REF.findall(m.message)
        if got:
            refers(c, m, m.message, ["%s:%u" % (name, line)])
        else:
            c.check((m.file, m.line) == (name, line),
                    "neither location nor text tell the expression: %s",
                    res.summary())


def inside(c, n=3):
    """places within one file"""
    what = c.pick("what", ["frozen twice", "shadow", "assigned twice"])
    a, b = page(c, "before", n), page(c, "between", n)
    files = {"p.rsl": "package P\ntype T { v Integer x optional Integer "
             "a optional Integer [0 .. 2] }\n"}
    want = None
    if what == "frozen twice":
        files["p.rsl"] += "type S extends T {\n" + a + "freeze v = 1\n" + b + \
            "freeze v = 2\n}\n"
        want = ["p.rsl:%u" % (4 + len(a))]
        at = ("p.rsl", 5 + len(a) + len(b))
    elif what == "shadow":
        files["p.rsl"] += a + "checks T {\n(forall e in a =>\n" + b + \
            "(exists e in a => e > 1))\n}\n"
        want = ["p.rsl:%u" % (4 + len(a))]
        at = ("p.rsl", 5 + len(a) + len(b))
    else:
        files["a.trlc"] = "package P\nT o {\n" + a + "v = 1\n" + b + \
            "v = 2\n}\n"
        at = ("a.trlc", 4 + len(a) + len(b))
    res = common.run(files)
    m = single_error(c, res)
    if m is None:
        return
    c.check((m.file, m.line) == at, "message at %s:%s", m.file, m.line)
    if want is not None:
        refers(c, m, m.message, want)
    else:
        c.check(re.findall("line ([0-9]+)", m.message) ==
                [str(3 + len(a))], "line in %s", m.message)


FOLDERS = ["", "b", "bc", "bc/d", "bd", "bc/d/e"]


def folders(c, n=5):
    """places are given from the deepest folder common to all files"""
    where = [c.pick("folder%u" % k, FOLDERS[:n]) for k in range(3)]
    order = c.pick("order", list(itertools.permutations(range(3))))
    what = c.pick("what", ["object", "required", "loop"])
    names = [os.path.join(where[k], "%s.%s" % ("pqr"[k], "rsl" if k == 0 or
                                               what == "loop" else "trlc"))
             for k in range(3)]
    if what == "object":
        text = ["package P\ntype T { }\n", "package P\n\nT o { }\n",
                "package P\nT o { }\n"]
        second, first = sorted(names[1:], reverse=True)
        want = ["%u" % (3 if first == names[1] else 2)]
        mentioned = [first]
    elif what == "required":
        text = ["package P\n\ntype T {\n v Integer }\n",
                "package P\nT a { }\n", "package P\nT b { v = 1 }\n"]
        mentioned, second, want = [names[0]], names[1], ["4"]
    else:
        text = ["package P\nimport Q\n", "package Q\nimport R\n",
                "package R\nimport P\n"]
        mentioned, second, want = names[1:], names[0], ["", ""]
    res = common.run({names[k]: text[k] for k in order})
    m = single_error(c, res)
    if m is None:
        return
    c.check(m.file == os.path.basename(second) or m.file == second,
            "message in %s, expected %s", m.file, second)
    root = os.path.commonpath([os.path.join("/", i) for i in where])
    want = [os.path.relpath(os.path.join("/", i), root) + (l and ":" + l)
            for i, l in zip(mentioned, want)]
    refers(c, m, m.message if what != "loop" else m.extra or "", want)


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, func, bounds, expect, w=1, replay=0.1, **args):
        out.append({"name": name, "property": "C27", "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    n = 3 if th else 2
    add("format", "message_format", "texts of up to 2 characters, all kinds "
        "and options", ("fatal", "continues", "explained"), 8, n=2)
    add("format with context", "message_format", "up to %u blanks or tabs "
        "around tokens" % n, ("fatal", "continues", "explained"), 12, n=n,
        context=True)
    add("sequence", "sequence", "%u messages of any kind, any kind "
        "suppressed" % n, ("hidden", "stripped"), 10, n=n)
    add("several lines", "multi_line", "up to %u characters before and "
        "inside" % n, ("shown",), 4, n=n)
    EX = ("error",)
    add("mentioned duplicates", "duplicates", "7 kinds, up to %u, 9 or 120 "
        "lines before and between" % n, EX, 3, n=n)
    add("mentioned elsewhere", "elsewhere", "7 situations in two or three "
        "files, lines as before", EX, 3, n=n)
    add("mentioned inside", "inside", "3 situations, lines as before", EX, 2,
        n=n)
    add("mentioned folders", "folders", "3 files in %u folders, registered in "
        "any order, 3 messages" % (6 if th else 5), EX, 6, n=6 if th else 5)
    for k in range(3):
        add("mentioned expression %u" % (k + 1), "evaluation", "%u failing "
            "expressions in 4 contexts, two files, lines as before" %
            len(BROKEN[k::3]), EX, 3, n=1 + th, half=k)
    return out
