"""C30 the progress a client of the API is told about."""

from symx import common
from symx.logic import text as concrete


MODEL = ["", "type U { v Nope }", "type U { v Integer", "?",
         "type T { }", "checks T { 1, \"x\" }"]
REQS = ["", "T b { v = }", "T b { v = 1 r = nope }", "T a { v = 1 }", "?",
        "section \"s\" {", "T b { v = 1 m = \"[[nope]]\" }", "T b { }"]
HEAD = ["", "import Nope\n", "import\n", "impart\n"]


def watch(events):
    def before(mh, sm):
        sm.callback_parse_begin = lambda: events.append("begin")
        sm.callback_parse_end = lambda: events.append("end")
        sm.callback_parse_progress = events.append
        emit = mh.emit

        def noted(*args, **kwargs):
            events.append("message")
            return emit(*args, **kwargs)
        mh.emit = noted
    return before


def judge(c, res, events, processed, ok):
    c.check(res.crash is None, "crash %s", repr(res.crash))
    if res.crash is not None:
        return
    c.reach("succeeds" if res.symbols is not None else "fails")
    c.check((res.symbols is not None) == ok, "outcome %s", res.summary())
    told = [e for e in events if e != "message"]
    c.check(told.count("begin") == 1, "begin notified %u times",
            told.count("begin"))
    c.check(told.count("end") == 1, "end notified %u times",
            told.count("end"))
    c.check(events.index("begin") == 0, "events before begin")
    if "end" in events:
        c.check(events[-1] == "end", "events after end: %s", repr(events))
    steps = [e for e in told if e not in ("begin", "end")]
    for e in steps:
        c.check(type(e) is int and 0 <= e <= 100, "progress %s", repr(e))
    for x, y in zip(steps, steps[1:]):
        c.check(x <= y, "progress goes back: %s", repr(steps))
    c.check(len(steps) <= processed, "%u notifications for %u files",
            len(steps), processed)
    if ok:
        c.check(len(steps) == processed, "%u notifications for %u files",
                len(steps), processed)
        for k, e in enumerate(steps):
            c.check(e == (k + 1) * 100 // processed,
                    "progress %s after %u of %u files", e, k + 1, processed)


def mistakes(c):
    """one or two mistakes anywhere, values decide about checks"""
    opts = {"lint": c.choice("lint", 2) == 1,
            "recover": c.choice("recover", 2) == 1,
            "parse_trlc": c.choice("parse_trlc", 2) == 1}
    where = c.choice("where", 4)
    kind = ["model", "requirements", "model head", "requirements head"][where]
    text = c.pick("mistake", [MODEL, REQS, HEAD, HEAD][where])
    abstract = c.choice("lint_issue", 2) == 1
    t, v = c.int_text("v", 1)
    part = dict.fromkeys(["model", "requirements", "model head",
                          "requirements head"], "")
    part[kind] = text
    files = {
        "a.rsl": "package P\n" + part["model head"] +
        "type T { v Integer r optional T m optional Markup_String }\n"
        'checks T { v < 8, "high" v < 9, fatal "top" }\n' +
        ("abstract type X { }\n" if abstract else "") + part["model"] + "\n",
        "a.trlc": "package P\n" + part["requirements head"] +
        "T a { v = " + t + " }\n" + part["requirements"] + "\n",
        "b.rsl": "package Q import P type S extends P.T { }\n",
        "b.trlc": "package Q import P S a { v = 1 r = P.a }\n"}
    events = []
    res = common.run(files, before=watch(events), **opts)
    ok = not text or "requirements" in kind and not opts["parse_trlc"]
    if not opts["parse_trlc"]:
        n = 2
    else:
        n = 4
        ok = ok and bool(v < 8)
    judge(c, res, events, n, ok)


def needed(c, n=3, quick=True):
    """only some of the files are processed"""
    names = "PQRS"[:n]
    imp = [c.choice("import%u" % k, 2) == 1 for k in range(n - 1)]
    rprim = [c.choice("rsl_primary%u" % k, 2) == 1 for k in range(n)]
    tprim = [c.choice("trlc_primary%u" % k, 2) == 1 for k in range(n)]
    extra = quick or c.choice("second_file", 2) == 1
    bad = c.choice("mistake", 2 if quick else n + 1)
    t, v = c.int_text("v", 1)
    files = {}
    for k in range(n):
        pre = "import %s\n" % names[k + 1] if k < n - 1 and imp[k] else ""
        files["%s.rsl" % names[k]] = "package %s\n%stype T { v Integer }\n" \
            'checks T { v > 1, "low" }\n' % (names[k], pre)
        files["%s.trlc" % names[k]] = "package %s\n%sT o { v = " % (
            names[k], pre) + t + " }\n" + ("?" if bad == k + 1 else "")
    if extra:
        files["%s2.trlc" % names[n - 1]] = "package %s\n" % names[n - 1]
    primary = ["%s.rsl" % names[k] for k in range(n) if rprim[k]] + \
        ["%s.trlc" % names[k] for k in range(n) if tprim[k]]

    def closure(start):
        out = set(start)
        for k in range(n - 1):
            if k in out and imp[k]:
                out.add(k + 1)
        return out
    need_t = closure(k for k in range(n) if tprim[k])
    need_r = closure({k for k in range(n) if rprim[k]} | need_t)
    count = len(need_t) + len(need_r) + int(extra and n - 1 in need_t)
    ok = bad - 1 not in need_t and (not need_t or bool(v > 1))
    if bad:
        # the lexer reports a wrong character wherever it is looked at
        files = {k: concrete(x) if "?" not in x else x
                 for k, x in files.items()}
    events = []
    res = common.run(files, primary=primary, before=watch(events))
    judge(c, res, events, count, ok)


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, func, bounds, w=1, **args):
        out.append({"name": name, "property": "C30", "func": func,
                    "params": {"args": args}, "weight": w, "replay": 0.2,
                    "expect": ["succeeds", "fails"], "bounds": bounds})
    add("mistakes", "mistakes", "two packages, %u mistakes, values 0..9, "
        "with and without lint, recovery and requirement files" %
        (len(MODEL) + len(REQS) + 2 * len(HEAD) - 4), 4)
    add("needed files", "needed", "%u packages in a chain, all imports and "
        "primary files, one mistake, values 0..9" % (4 if th else 3),
        8, n=4 if th else 3, quick=not th)
    return out
