"""C10: outcomes of user defined checks.

The component values are symbolic, so which checks hold is decided by the
solver; severity, anchoring and layout are symbolic choices.  The expected
messages are computed here from the manual's rules."""

from symx import common
from symx.logic import AND, OR, NOT

SEV = ["", "warning ", "error ", "fatal "]


def kind_of(sev):
    return "check warning" if sev == "warning " else "check error"


def expected(checks):
    """checks: [(holds, severity, message)] of one block in order; returns
    (messages, rejected)"""
    out = []
    bad = False
    for holds, sev, msg in checks:
        if holds:
            continue
        out.append((kind_of(sev), msg))
        if sev != "warning ":
            bad = True
        if sev == "fatal ":
            break
    return out, bad


def user(res, line=None):
    return [(m.kind, m.message) for m in res.user
            if line is None or m.line in line]


def verdict(c, res, bad, nwarn, nerr):
    c.check(res.crash is None, "internal failure: %s", res.summary())
    if res.crash is not None:
        return
    c.check((res.symbols is None) == bad,
            "failing error checks reject, failing warnings do not: %s",
            res.summary())
    c.check(len(res.errors) == 0, "no other errors: %s", res.summary())
    c.check(res.mh.warnings == nwarn and res.mh.errors == nerr,
            "message counts are %u warnings, %u errors (expected %u, %u)",
            res.mh.warnings, res.mh.errors, nwarn, nerr)


def tally(msgs):
    w = len([m for m in msgs if m[0] == "check warning"])
    return w, len(msgs) - w


def sequence(c, n=3, objects=1, blocks=1):
    """n checks on one type, several objects"""
    sev = [c.pick("sev%u" % k, SEV) for k in range(n)]
    rsl = "package P\ntype T {\n" + \
        "".join(" v%u Integer\n" % k for k in range(n)) + "}\nchecks T {\n"
    for k in range(n):
        if blocks == 2 and k == 1:
            rsl += "}\nchecks T {\n"
        rsl += ' v%u > 4, %s"msg%u"\n' % (k, sev[k], k)
    rsl += "}\n"
    trlc = "package P\n"
    vals = []
    for o in range(objects):
        trlc = trlc + "T obj%u {" % o
        row = []
        for k in range(n):
            t, v = c.int_text("v%u_%u" % (o, k), 1)
            trlc = trlc + " v%u = " % k + t
            row.append(v)
        trlc = trlc + " }\n"
        vals.append(row)
    res = common.run({"a.rsl": rsl, "a.trlc": trlc})
    bad = False
    allmsg = []
    for o in range(objects):
        if blocks == 1:
            want, b = expected([(bool(vals[o][k] > 4), sev[k], "msg%u" % k)
                                for k in range(n)])
            c.check(user(res, (o + 2,)) == want,
                    "messages for object %u: %s, expected %s", o,
                    res.summary(), repr(want))
        else:
            w1, b1 = expected([(bool(vals[o][0] > 4), sev[0], "msg0")])
            w2, b2 = expected([(bool(vals[o][k] > 4), sev[k], "msg%u" % k)
                               for k in range(1, n)])
            got = user(res, (o + 2,))
            c.check([m for m in got if m[1] == "msg0"] == w1 or
                    b2 and "fatal " in sev[1:],
                    "first block: %s", res.summary())
            rest = [m for m in got if m[1] != "msg0"]
            # whether a fatal error of one block stops another block of the
            # same object is not specified
            c.check(rest == w2 or (rest == [] and sev[0] == "fatal " and b1),
                    "second block: %s", res.summary())
            b = b1 or b2
            want = got
        allmsg += want
        bad = bad or b
    c.check(len(res.user) == len(allmsg), "no stray message: %s",
            res.summary())
    nw, ne = tally(allmsg)
    verdict(c, res, bad, nw, ne)
    c.reach("rejected" if bad else "accepted")


def inherited(c, depth=2, foreign=False):
    """checks of the base are evaluated, and before those of extensions"""
    rev = c.choice("extension_checks_first", 2)
    names = ["A", "B", "C"][:depth]
    sev = [c.pick("sev%u" % k, SEV[:3]) for k in range(depth)]
    types = ""
    blocks = []
    for k, n in enumerate(names):
        types += "%stype %s %s{ v%u Integer }\n" % (
            "abstract " if k == 0 and depth > 1 else "", n,
            "extends %s " % names[k - 1] if k else "", k)
        blocks.append('checks %s {\n v%u > v0 or v%u > 4, %s"m%u.a"\n '
                      'v%u < 8, %s"m%u.b"\n}\n' %
                      (n, k, k, sev[k], k, k, sev[k], k))
    if rev:
        blocks.reverse()
    rsl = "package P\n" + types + "".join(blocks)
    trlc = "package P\n"
    if foreign:
        trlc = "package Q\nimport P\n"
    last = names[-1]
    trlc = trlc + ("P." if foreign else "") + last + " obj {"
    vals = []
    for k in range(depth):
        t, v = c.int_text("v%u" % k, 1)
        trlc = trlc + " v%u = " % k + t
        vals.append(v)
    trlc = trlc + " }\n"
    res = common.run({"a.rsl": rsl, "a.trlc": trlc})
    want = []
    bad = False
    for k in range(depth):
        w, b = expected([
            (bool(OR(vals[k] > vals[0], vals[k] > 4)), sev[k], "m%u.a" % k),
            (bool(vals[k] < 8), sev[k], "m%u.b" % k)])
        want += w
        bad = bad or b
    c.check(user(res) == want, "base checks first: %s, expected %s",
            res.summary(), repr(want))
    nw, ne = tally(want)
    verdict(c, res, bad, nw, ne)
    c.reach("rejected" if bad else "accepted")


def siblings(c):
    """checks apply to objects of the type and its extensions only"""
    sev = c.pick("sev", SEV)
    rsl = "package P\ntype A { v Integer }\ntype B extends A { }\n" \
        "type C extends A { }\ntype D { v Integer }\n" \
        'checks B { v > 4, %s"only B" }\n' % sev
    typ = c.pick("type", ["A", "B", "C", "D"])
    t, v = c.int_text("v", 1)
    res = common.run({"a.rsl": rsl,
                      "a.trlc": "package P\n" + typ + " obj { v = " + t +
                      " }\n"})
    want, bad = [], False
    if typ == "B":
        want, bad = expected([(bool(v > 4), sev, "only B")])
    c.check(user(res) == want, "checks of B on %s: %s", typ, res.summary())
    nw, ne = tally(want)
    verdict(c, res, bad, nw, ne)
    c.reach(typ)


def tuples(c, shape="plain", nmax=2):
    """checks of tuples: in components, arrays, nested, inherited"""
    sev = c.pick("sev", SEV)
    rsev = c.pick("record_sev", ["warning ", "error "])
    rsl = "package P\ntuple Tu { a Integer separator @ b optional Integer }" \
        '\nchecks Tu {\n a > 4, %s"tuple.a"\n b != null implies b > 4, ' \
        '%s"tuple.b"\n}\n' % (sev, sev)
    if shape == "nested":
        rsl += "tuple Ou { c Integer d Tu }\n" \
            'checks Ou { c > 4, "outer" }\n'
    decl = {"plain": "p Tu", "optional": "p optional Tu",
            "array": "p Tu [0 .. *]", "nested": "p Ou",
            "inherited": "p Tu", "two": "p Tu q optional Tu"}[shape]
    rsl += "type T { %s w Integer }\n" % decl
    if shape == "inherited":
        rsl += "type S extends T { }\n"
    rsl += 'checks T { w > 4, %s"record" }\n' % rsev

    def tup(name):
        t, a = c.int_text(name + ".a", 1)
        if c.choice(name + ".b?", 2):
            t2, b = c.int_text(name + ".b", 1)
            t = t + " @ " + t2
        else:
            b = None
        chk = [(bool(a > 4), sev, "tuple.a"),
               (True if b is None else bool(b > 4), sev, "tuple.b")]
        return t, chk
    groups = []         # checks per tuple instance
    text = ""
    if shape == "array":
        n = c.choice("n", nmax + 1)
        text = " p = ["
        for k in range(n):
            t, chk = tup("t%u" % k)
            text = text + (", " if k else "") + t
            groups.append(chk)
        text = text + "]"
    elif shape == "nested":
        t, cv = c.int_text("c", 1)
        t2, chk = tup("t")
        text = " p = (" + t + ", " + t2 + ")"
        groups.append(chk)
        groups.append([(bool(cv > 4), "", "outer")])
    else:
        if shape != "optional" or c.choice("given", 2):
            t, chk = tup("t")
            text = " p = " + t
            groups.append(chk)
        if shape == "two" and c.choice("second", 2):
            t, chk = tup("u")
            text = text + " q = " + t
            groups.append(chk)
    tw, w = c.int_text("w", 1)
    res = common.run({
        "a.rsl": rsl, "a.trlc": "package P\n%s obj {" %
        ("S" if shape == "inherited" else "T") + text + " w = " + tw +
        " }\n"})
    # a fatal tuple check ends the evaluation of this tuple; whether it also
    # ends the evaluation of everything else of the object is not specified
    want = []
    stop = None
    bad = False
    for g in groups:
        m, b = expected(g)
        want += m
        bad = bad or b
        if sev == "fatal " and b and stop is None and g[0][1] == sev:
            stop = len(want)
    m, b = expected([(bool(w > 4), rsev, "record")])
    want += m
    bad = bad or b
    got = user(res)
    c.check(got == want or (stop is not None and got == want[:len(got)] and
                            len(got) >= stop),
            "tuple checks: %s, expected %s", res.summary(), repr(want))
    nw, ne = tally(got)
    verdict(c, res, bad, nw, ne)
    c.reach("rejected" if bad else "accepted")


def many(c, levels=5, per=4):
    """many checks on a deep hierarchy, many objects, one of them unknown"""
    n = levels * per
    fatal = c.pick("fatal", [n, 1, per + 2, n - per, n - 2])
    at = c.pick("object", [0, 3, 6])
    sev = [("warning ", "")[k % 3 == 1] for k in range(n)]
    if fatal < n:
        sev[fatal] = "fatal "
    rsl = "package P\n"
    for lv in range(levels):
        rsl += "type A%u extends A%u { }\n" % (lv, lv - 1) if lv else \
            "type A0 { v Integer }\n"
        rsl += "checks A%u {\n" % lv
        for k in range(lv * per, lv * per + per):
            rsl += ' v > %u, %s"m%u"\n' % (k * 7 % n, sev[k], k)
        rsl += "}\n"
    text, v = c.int_text("v", 2)
    trlc = "package P\n"
    for o in range(7):
        trlc = trlc + "A%u o%u { v = " % (levels - 1, o) + (
            text if o == at else "99") + " }\n"
    res = common.run({"a.rsl": rsl, "a.trlc": trlc})
    want = []
    bad = False
    for lv in range(levels):
        m, b = expected([(bool(v > k * 7 % n), sev[k], "m%u" % k)
                         for k in range(lv * per, lv * per + per)])
        want += m
        bad = bad or b
        if ("check error", "m%u" % fatal) in m:
            # whether a fatal error stops other blocks is not specified
            break
    got = user(res, (at + 2,))
    c.check(got == want or ("check error", "m%u" % fatal) in want and
            got[:len(want)] == want, "checks: %s, expected %s",
            res.summary(), repr(want))
    c.check(len(res.user) == len(got), "messages for other objects: %s",
            res.summary())
    nw, ne = tally(got)
    verdict(c, res, bad, nw, ne)
    c.reach("rejected" if bad else "accepted")


def many_tuples(c):
    """checks of one of many tuples, in arrays, in tuples, in components"""
    where = c.choice("where", 8)
    sev = c.pick("sev", SEV)
    rsl = "package P\ntuple Tu { a Integer }\n" \
        'checks Tu {\n a > 4, %s"low"\n a != 3, %s"three"\n' \
        ' a > 1, "one"\n}\n' % (sev, sev) + \
        "tuple Ou { c Tu d Tu }\ntuple Pu { e Ou f Ou }\n" \
        "type T { h Tu l Tu [1 .. *] }\n" \
        "type S extends T { o Ou m optional Pu [0 .. *] }\n" \
        "type R extends S { t optional Pu }\n"
    t, v = c.int_text("v", 1)
    one = "(" + t + ")"
    ok = "(9)"

    def x(k):
        return one if where == k else ok
    two = "(" + ok + ", " + ok + ")"
    trlc = "package P\nR obj { t = (" + two + ", (" + x(0) + ", " + x(1) + \
        ")) o = (" + ok + ", " + x(2) + ") m = [(" + two + ", " + two + \
        "), ((" + ok + ", " + x(3) + "), " + two + "), (" + two + ", (" + \
        x(4) + ", " + ok + "))] h = " + x(5) + \
        " l = [" + ", ".join([ok] * 5) + ", " + x(6) + ", " + ok + ", " + \
        x(7) + "] }\n"
    res = common.run({"a.rsl": rsl, "a.trlc": trlc})
    want, bad = expected([(bool(v > 4), sev, "low"), (bool(v != 3), sev, "three"),
                          (bool(v > 1), "", "one")])
    c.check(user(res) == want, "checks of a tuple: %s, expected %s",
            res.summary(), repr(want))
    nw, ne = tally(want)
    verdict(c, res, bad, nw, ne)
    c.reach("rejected" if bad else "accepted")


def anchored(c):
    """where a message is reported: at the value of the named component if it
    has one, at the object otherwise"""
    which = c.choice("anchor", 4)
    given = c.choice("given", 2)
    details = c.choice("details", 2)
    tail = ["", "a", "b", "arr"][which]
    # in the type itself, in its parent, in an extension of the parent
    level = c.choice("level", 3)
    comps = "{\n a Integer\n b optional Integer\n arr Integer [0 .. *] }\n"
    check = '{ a > 4, "msg"%s%s }\n' % (
        ', "more"' if details else "", ", " + tail if tail else "")
    rsl = "package P\n" + (
        "type T " + comps + "checks T " + check if level == 0 else
        "abstract type B " + comps + "type T extends B { }\nchecks " +
        "TB"[level - 1] + " " + check)
    t, a = c.int_text("a", 1)
    neg = c.choice("neg", 2)
    trlc = "package P\n" + ("\n" * c.choice("blank", 3)) + "T\n  obj {\n"
    base = text_lines(trlc)
    trlc = trlc + "  arr = [1]\n"
    trlc = trlc + "  a = " + ("-" if neg else "") + t + "\n"
    if given:
        trlc = trlc + "  b = 2\n"
    res = common.run({"a.rsl": rsl, "a.trlc": trlc + "}\n"})
    if neg:
        a = -a
    if a > 4:
        c.reach("holds")
        c.check(user(res) == [], "check holds: %s", res.summary())
        verdict(c, res, False, 0, 0)
        return
    c.reach("fails")
    line, col = {"": (base, 3), "a": (base + 2, 7),
                 "b": (base + 3, 7) if given else (base, 3),
                 "arr": (base + 1, 9)}[tail]
    c.check(user(res) == [("check error", "msg")], "one message: %s",
            res.summary())
    m = res.user[0]
    c.check(m.line == line and m.col == col and m.file == "a.trlc",
            "location of the message %s:%s:%s, expected %u:%u", m.file,
            m.line, m.col, line, col)
    c.check(m.extra == ("more" if details else None), "details: %s",
            repr(m.extra))
    verdict(c, res, True, 0, 1)


def text_lines(s):
    return len([x for x in s if x == "\n"])


def message(c, n=3):
    """the message and details are the ones written in the check"""
    m = c.string_upto("message", n, "a%'{[" if n > 2 else "a%{", minlen=1)
    d = c.string_upto("details", 2, "b\n%", minlen=1)
    sev = c.pick("sev", SEV)
    rsl = "package P\ntype T { a Integer }\nchecks T { a > 4, " + sev + \
        '"' + m + '", """' + d + '""", a }\n'
    t, a = c.int_text("a", 1)
    res = common.run({"a.rsl": rsl,
                      "a.trlc": "package P\nT obj { a = " + t + " }\n"})
    if a > 4:
        c.reach("holds")
        c.check(len(res.messages) == 0, "nothing reported: %s",
                res.summary())
        return
    c.reach("fails")
    c.check(len(res.user) == 1, "one message: %s", res.summary())
    c.check(AND(res.user[0].message == m, res.user[0].kind == kind_of(sev)),
            "message text: %s", res.summary())


def where(c):
    """a check block must name a record or tuple of the current package, and
    may mention its components only"""
    what = c.pick("type", ["T", "U", "E", "Integer", "Q_T", "Nope", "Q"])
    comp = c.pick("component", ["a", "z", "T"])
    anchor = c.pick("anchored", ["", "a", "z", "n"])
    rsl = "package P\nimport Q\nenum E { a z }\ntuple U { a Integer }\n" \
        "type T { a Integer n optional Integer }\ntype S { z Integer }\n" \
        'checks %s { %s > 4, "msg"%s }\n' % (
            what, comp, ", " + anchor if anchor else "")
    t, a = c.int_text("a", 1)
    res = common.run({"a.rsl": rsl, "b.rsl":
                      "package Q\ntype Q_T { a Integer }\n",
                      "a.trlc": "package P\nT obj { a = " + t + " }\n"})
    c.check(res.crash is None, "internal failure: %s", res.summary())
    ok = what in ("T", "U") and comp == "a" and (
        anchor in ("", "a") or anchor == "n" and what == "T")
    if not ok:
        c.reach("illegal")
        c.check(not res.accepted and len(res.errors) >= 1,
                "illegal check block accepted: %s", res.summary())
        return
    c.reach("legal")
    want, bad = [], False
    if what == "T":
        want, bad = expected([(bool(a > 4), "", "msg")])
    c.check(user(res) == want, "messages: %s", res.summary())
    verdict(c, res, bad, 0, len(want))


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, func, expect, bounds, w=1, replay=0.3, **args):
        out.append({"name": name, "property": "C10", "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    RA = ("rejected", "accepted")
    add("one block", "sequence", RA, "three checks, every severity, values "
        "0..9", 6, n=3)
    add("one block three levels", "inherited", RA, "3 levels of extension", 9,
        depth=3)
    add("two objects", "sequence", RA, "two checks, two objects", 6, n=2,
        objects=2)
    if th:
        add("one block of four", "sequence", RA, "four checks", 30, n=4,
            replay=0.05)
        add("three objects", "sequence", RA, "two checks, three objects", 20,
            n=2, objects=3, replay=0.05)
    add("two blocks", "sequence", RA, "one check in the first, two in the "
        "second block", 5, n=3, blocks=2)
    for d in (1, 2):
        add("inherited-%u" % d, "inherited", RA, "%u levels of extension, "
            "check blocks in both orders" % d, d * d, depth=d)
    add("inherited foreign", "inherited", RA, "object in another package",
        3, depth=2, foreign=True)
    add("siblings", "siblings", "ABCD", "objects of four types")
    for s in ("plain", "optional", "array", "nested", "inherited", "two"):
        add("tuple " + s, "tuples", RA, "tuple checks, values 0..9", 4,
            shape=s, nmax=3 if th else 2)
    add("many", "many", RA, "%u checks on %u levels, fatal or not, one "
        "of 7 objects with values 0..99" % ((40, 5) if th else (18, 2)), 9,
        replay=0.02, levels=5 if th else 2, per=8 if th else 9)
    add("many tuples", "many_tuples", RA, "one of 8 places in components, "
        "tuples of tuples and arrays, values 0..9", 2)
    add("anchored", "anchored", ("holds", "fails"), "every anchor, given or "
        "not, up to 2 blank lines before", 2)
    add("message", "message", ("holds", "fails"), "message of up to 2 (3), "
        "details of up to 2 characters", 3, n=3 if th else 2)
    add("applicable", "where", ("legal", "illegal"), "7 type names, 3 "
        "component names, 4 anchors", 2)
    return out
