"""C11 command line: exit status, summary line, output destination."""

import importlib
import os
import shutil
import sys

from symx import common
from symx.logic import AND, OR, NOT, text as concrete


class Reader:
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


class Run:
    pass


def cli(files, argv, logname=None):
    """run the command line tool in an empty directory that contains the
    given files (with symbolic contents)"""
    import builtins
    trlc = importlib.import_module("trlc.trlc")
    r = Run()
    r.out = common.Sink()
    r.log = None
    here = os.getcwd()
    top = os.path.join(here, "clirun")
    if os.path.isdir(top):
        shutil.rmtree(top)
    os.mkdir(top)
    real_open, real_out, real_argv = builtins.open, sys.stdout, sys.argv
    sinks = {}

    def virtual_open(name, mode="r", *a, **k):
        if type(name) is str:
            rel = os.path.relpath(name, top) if os.path.isabs(name) \
                else os.path.normpath(name)
            if mode == "r" and rel in files:
                return Reader(files[rel])
            if "w" in mode and rel == logname:
                sinks[rel] = LogSink()
                return sinks[rel]
        return real_open(name, mode, *a, **k)

    os.chdir(top)
    try:
        for name in files:
            common.touch(name)
        builtins.open = virtual_open
        sys.stdout = r.out
        sys.argv = ["trlc"] + argv
        r.rc = None
        r.crash = None
        try:
            r.rc = trlc.trlc()
        except (Exception, SystemExit) as err:  # pylint: disable=W0718
            r.crash = err
    finally:
        builtins.open = real_open
        sys.stdout = real_out
        sys.argv = real_argv
        os.chdir(here)
        shutil.rmtree(top)
    r.text = r.out.text()
    if logname is not None and logname in sinks:
        r.log = sinks[logname].text()
        r.closed = sinks[logname].closed
    return r


class LogSink(common.Sink):
    closed = False

    def close(self):
        self.closed = True


def lines_of(text):
    return text.split("\n")


def plural(n, what):
    return "%u %s%s" % (n, what, "" if n == 1 else "s")


def summary(models, of_models, reqs, of_reqs, warnings, errors,
            suppressed=0):
    def files(n, total, what):
        return "%u%s %s%s" % (n, "" if n == total else " (of %u)" % total,
                              what, "" if total == 1 else "s")
    s = "Processed " + files(models, of_models, "model")
    if reqs is not None:
        s += " and " + files(reqs, of_reqs, "requirement file")
    s += " and found "
    if warnings and errors:
        s += plural(warnings, "warning") + " and " + plural(errors, "error")
    elif warnings:
        s += plural(warnings, "warning")
    elif errors:
        s += plural(errors, "error")
    else:
        s += "no issues"
    if suppressed:
        s += " with %u supressed messages" % suppressed
    return s


def shown(lines, what):
    """number of messages of a kind that are displayed"""
    n = 0
    for ln in lines:
        if ": %s: " % what in ln or ": trlc %s: " % what in ln:
            n += 1
    return n


def judge(c, r, warnings, errors, files, eow, hidden=0, text=None,
          skip=False):
    """exit status, summary and displayed messages"""
    c.check(r.crash is None, "crash %s", repr(r.crash))
    if r.crash is not None:
        return
    lines = lines_of(text if text is not None else r.text)
    bad = errors > 0 or (eow and warnings > 0)
    c.reach("fails" if bad else "succeeds")
    c.check(r.rc == int(bad), "exit status %s, expected %s", r.rc, int(bad))
    nerr = shown(lines, "error") + shown(lines, "check error")
    nwarn = shown(lines, "warning") + shown(lines, "check warning") + \
        shown(lines, "issue")
    c.check(nerr == errors, "%u errors displayed, expected %u", nerr, errors)
    c.check(nwarn == warnings - hidden, "%u warnings displayed, expected %u",
            nwarn, warnings - hidden)
    want = summary(files[0], files[1], None if skip else files[2], files[3],
                   warnings, errors, hidden)
    hits = [ln for ln in lines if ln.startswith("Processed ")]
    c.check(len(hits) == 1, "one summary line")
    if len(hits) == 1:
        c.check(hits[0] == want, "summary is '%s', expected '%s'", hits[0],
                want)


def outcome(c, objects=2, logged=False):
    """checks that may fail, a lint issue, all options about messages"""
    opts = []
    brief = c.choice("brief", 2) == 1
    eow = c.choice("error_on_warnings", 2) == 1
    hide = c.choice("no_user_warnings", 2) == 1
    nolint = c.choice("no_lint", 2) == 1
    issue = c.choice("lint_issue", 2) == 1
    for on, name in ((brief, "--brief"), (eow, "--error-on-warnings"),
                     (hide, "--no-user-warnings"), (nolint, "--no-lint")):
        if on:
            opts.append(name)
    if logged:
        opts += ["--log", "out.txt"]
    rsl = "package P\n" + ("abstract type X { }\n" if issue else "") + \
        "type T { v Integer }\nchecks T {\n" \
        ' v > 2, warning "low"\n v < 7, error "high"\n}\n'
    trlc = "package P\n"
    nw, ne = 0, 0
    for k in range(objects):
        t, v = c.int_text("v%u" % k, 1)
        trlc = trlc + "T o%u { v = " % k + t + " }\n"
        if v <= 2:
            nw += 1
        if v >= 7:
            ne += 1
    lint = int(issue and not nolint)
    r = cli({"a.rsl": rsl, "a.trlc": trlc}, opts + ["a.rsl", "a.trlc"]
            if not logged else ["a.rsl", "a.trlc"] + opts,
            "out.txt" if logged else None)
    if logged:
        c.check(r.text == "", "nothing on standard output with --log")
        c.check(r.log is not None, "log file written")
        if r.log is None:
            return
        c.check(r.closed, "log file closed")
    judge(c, r, nw + lint, ne, (1, 1, 1, 1), eow, nw if hide else 0,
          r.log if logged else None)


def many_messages(c, n=12):
    """counts of more than one digit"""
    low = c.choice("low", n + 1)
    high = c.choice("high", n + 1)
    c.assume(low + high <= n)
    split = c.choice("files", 3)
    hide = c.choice("no_user_warnings", 2) == 1
    eow = c.choice("error_on_warnings", 2) == 1
    opts = (["--no-user-warnings"] if hide else []) + \
        (["--error-on-warnings"] if eow else [])
    texts = [[], [], []]
    for k in range(n):
        v = 1 if k < low else 8 if k < low + high else 5
        texts[k % (split + 1)].append("T o%u { v = %u }\n" % (k, v))
    files = {"a.rsl": "package P\ntype T { v Integer }\nchecks T {\n"
             ' v > 2, warning "low"\n v < 7, error "high"\n}\n'}
    for k in range(split + 1):
        files["a%u.trlc" % k] = "package P\n" + "".join(texts[k])
    r = cli(files, opts + list(files))
    judge(c, r, low, high, (1, 1, split + 1, split + 1), eow,
          low if hide else 0)


BROKEN = [
    # where, text, number of errors (None: at least one), skipped without
    # trlc files
    ("rsl", "type U { v Integer v Integer }", 1, False),
    ("rsl", "type U { v Nope }", 1, False),
    ("rsl", "type U { v Integer", None, False),
    ("rsl", "type U { v Integer } checks U { v, \"x\" }", 1, False),
    ("rsl", "?", None, False),
    ("trlc", "T o2 { }", 1, True),
    ("trlc", "T o2 { v = }", None, True),
    ("trlc", "T o2 { v = 1 r = nope }", 1, True),
    ("trlc", "T o2 { v = 1 r = Q.x }", 1, True),
    ("trlc", "T o2 { v = 1 m = \"[[nope]]\" }", 1, True),
    ("trlc", "T o2 { v = 1 m = \"[[\" }", None, True),
    ("trlc", "T o2 { v = 1 l = [1, 2, 3] }", 1, True),
    ("trlc", "T o2 { v = 1 l = [1 2] }", None, True),
    ("trlc", "T o2 { v = 1 / }", None, True),
    ("trlc", "T o1 { v = 1 }", 1, True),
    ("trlc", "section \"x\" {", None, True),
    ("trlc", "T o2 { v = 1 l = [1] } }", None, True),
    ("trlc", "T o2 { v = 1 d = 1 }", 1, True),
    ("preamble", "import Nope", 1, False),
    ("preamble", "import P", 1, False),
    ("preamble", "impart Q", None, False),
    ("trlcpreamble", "import Nope", 1, True),
    ("trlcpreamble", "import P", 1, True),
    ("trlcpackage", "package Nope", 1, True),
    ("trlcpackage", "", None, True),
    ("rslpackage", "", None, False),
    ("ok", "", 0, False),
]


def broken(c):
    """a single mistake anywhere makes the exit status 1"""
    where, text, num, skipped = c.pick("mistake", BROKEN)
    skip = c.choice("skip_trlc_files", 2) == 1
    norec = c.choice("no_error_recovery", 2) == 1
    brief = c.choice("brief", 2) == 1
    t, v = c.int_text("v", 1)
    pre = {"rsl": "", "trlc": ""}
    post = {"rsl": "", "trlc": ""}
    pkg = {"rsl": "package P\n", "trlc": "package P\n"}
    if where == "preamble":
        pre["rsl"] = text + "\n"
    elif where == "trlcpreamble":
        pre["trlc"] = text + "\n"
    elif where == "trlcpackage":
        pkg["trlc"] = text + "\n"
    elif where == "rslpackage":
        pkg["rsl"] = text + "\n"
    elif where != "ok":
        post[where] = text + "\n"
    rsl = pkg["rsl"] + pre["rsl"] + \
        "type T { v Integer r optional T m optional Markup_String " \
        "l optional Integer [0 .. 2] d optional Decimal }\n" \
        'checks T { v < 8, "high" }\n' + post["rsl"]
    trlc = pkg["trlc"] + pre["trlc"] + "T o1 { v = " + t + " }\n" + \
        post["trlc"]
    opts = ["a.rsl", "a.trlc"]
    for on, name in ((skip, "--skip-trlc-files"),
                     (norec, "--no-error-recovery"), (brief, "--brief")):
        if on:
            opts.append(name)
    r = cli({"a.rsl": rsl, "a.trlc": trlc}, opts)
    c.check(r.crash is None, "crash %s", repr(r.crash))
    if r.crash is not None:
        return
    lines = lines_of(r.text)
    nerr = shown(lines, "error")
    nuser = shown(lines, "check error")
    if num == 0 or skip and skipped:
        bad = bool(v >= 8) and not skip
        c.check(nerr == 0, "no errors for a correct input: %s", r.text)
        c.check(nuser == int(bad), "outcome of the check")
    else:
        bad = True
        c.reach("mistake")
        c.check(nerr >= 1, "mistake not reported")
    c.reach("fails" if bad else "succeeds")
    c.check(r.rc == int(bad), "exit status %s, expected %s", r.rc, int(bad))
    hits = [ln for ln in lines if ln.startswith("Processed ")]
    c.check(len(hits) <= 1, "one summary line")
    c.check(len(hits) == 1 or where == "trlc" and text == "?" or
            r.rc == 1, "summary line missing")
    for h in hits:
        tail = h[h.index(" found ") + 7:]
        n = nerr + nuser
        c.check(tail == ("no issues" if n == 0 else plural(n, "error")),
                "summary counts the messages: %s", h)


def free_text(c, n=2):
    """any text in the middle of a file: exit status 0 iff no error shown"""
    which = c.choice("file", 2)
    hole = c.string("hole", n, "ov =1\"/\n")
    rsl = "package P\ntype T { v optional Integer }\n"
    trlc = "package P\nT o { v = 1 }\n"
    if which:
        trlc = trlc[:-3] + hole + trlc[-3:]
    else:
        rsl = rsl[:-3] + hole + rsl[-3:]
    r = cli({"a.rsl": rsl, "a.trlc": trlc}, ["a.rsl", "a.trlc", "--no-lint"])
    c.check(r.crash is None, "crash %s", repr(r.crash))
    if r.crash is not None:
        return
    lines = lines_of(r.text)
    n = shown(lines, "error")
    c.reach("fails" if n else "succeeds")
    c.check(r.rc == int(n > 0), "exit status %s with %u errors", r.rc, n)


def file_counts(c):
    """models and requirement files that are processed, included, listed"""
    # a.rsl (P), b.rsl (Q), c.rsl (R); P may import Q, Q may import R
    given = [c.choice("given%u" % k, 2) == 1 for k in range(3)]
    trlc = [c.choice("trlc%u" % k, 2) == 1 for k in range(3)]
    imp = [c.choice("import%u" % k, 2) == 1 for k in range(2)]
    show = c.choice("show_file_list", 2) == 1
    skip = c.choice("skip_trlc_files", 2) == 1
    c.assume(any(given) or any(trlc))
    names = "PQR"
    files = {}
    for k in range(3):
        pre = "import %s\n" % names[k + 1] if k < 2 and imp[k] else ""
        files["inc/%s.rsl" % names[k].lower()] = \
            "package %s\n%stype T { }\n" % (names[k], pre)
        files["inc/%s.trlc" % names[k].lower()] = \
            "package %s\n%sT o%s { }\n" % (names[k], pre, names[k])
    items = ["inc/%s.rsl" % names[k].lower() for k in range(3) if given[k]]
    items += ["inc/%s.trlc" % names[k].lower() for k in range(3) if trlc[k]]
    opts = ["-I", "inc", "--no-lint"] + items
    if show:
        opts.append("--show-file-list")
    if skip:
        opts.append("--skip-trlc-files")
    need_rsl = {k for k in range(3) if given[k]}
    need_trlc = {k for k in range(3) if trlc[k]} if not skip else set()
    for k in range(2):
        if k in need_trlc and imp[k]:
            need_trlc.add(k + 1)
    need_rsl |= need_trlc
    for k in range(2):
        if k in need_rsl and imp[k]:
            need_rsl.add(k + 1)
    r = cli(files, opts)
    c.check(r.crash is None, "crash %s", repr(r.crash))
    if r.crash is not None:
        return
    lines = [ln for ln in lines_of(r.text) if ln]
    c.check(r.rc == 0, "exit status %s", r.rc)
    c.check(lines[0] == summary(len(need_rsl), 3,
                                None if skip else len(need_trlc), 3, 0, 0),
            "summary %s", lines[0])
    want = []
    if show:
        c.reach("list")
        for kind, prim, need in (("Model", given, need_rsl),
                                 ("Requirements", trlc, need_trlc)):
            if kind != "Model" and skip:
                continue
            for k in range(3):
                want.append("> %s %s inc/%s.%s (Package %s)" % (
                    "[Primary] " if prim[k] else
                    "[Included]" if k in need else "[Excluded]", kind,
                    names[k].lower(), "rsl" if kind == "Model" else "trlc",
                    names[k]))
    c.check(lines[1:] == want, "file list %s", repr(lines[1:]))


def prefix(c, n=3):
    """--log FILE PREFIX strips the prefix from paths in messages only"""
    pfx = c.string_upto("prefix", n, "d/a.")
    c.assume(len(pfx) > 0)
    pfx = concrete(pfx)       # argparse sees ordinary text
    brief = c.choice("brief", 2) == 1
    t, v = c.int_text("v", 1)
    files = {"d/a.rsl": "package P\ntype T { v Integer }\n"
             'checks T { v > 4, "d/a.msg" }\n',
             "d/a.trlc": "package P\nT o { v = " + t + " }\n"}
    r = cli(files, ["d", "--log", "log", pfx] + (["--brief"] if brief
                                                 else []), "log")
    c.check(r.crash is None, "crash %s", repr(r.crash))
    if r.crash is not None:
        return
    c.check(r.text == "", "nothing on standard output")
    low = bool(v <= 4)
    c.check(r.rc == int(low), "exit status %s", r.rc)
    loc = "d/a.trlc:2"
    if bool("d/a.trlc:2"[:len(pfx)] == pfx):
        c.reach("stripped")
        loc = loc[len(pfx):]
    else:
        c.reach("kept")
    lines = lines_of(r.log)
    if low:
        if brief:
            c.check(lines[0] == loc + ":3: trlc check error: d/a.msg",
                    "line %s", lines[0])
        else:
            c.check(lines[0] == "T o { v = " + t + " }", "source line")
            c.check(lines[1] == "  ^ " + loc + ": check error: d/a.msg",
                    "message line %s", lines[1])
    c.check(lines[-2] == summary(1, 1, 1, 1, 0, int(low)), "summary")


def cases(tier):
    th = tier != "quick"
    out = []

    def add(prop, name, func, bounds, w=1, expect=("fails", "succeeds"),
            replay=0.2, **args):
        out.append({"name": name, "property": prop, "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    add("C11", "outcome", "outcome", "values 0..9 of two objects, all "
        "options about messages", 9, objects=2)
    if th:
        add("C11", "three objects", "outcome", "three objects", 40,
            objects=3, replay=0.05)
    add("C11", "log", "outcome", "the same with --log, one object", 4,
        objects=1, logged=True)
    add("C11", "mistakes", "broken", "27 mistakes, values 0..9, options", 8,
        expect=("fails", "succeeds", "mistake"))
    add("C11", "free text", "free_text", "up to %u free characters in either "
        "file" % (3 if th else 2), 9, n=3 if th else 2)
    add("C11", "file counts", "file_counts", "3 packages, all selections and "
        "imports", 9, expect=("list",))
    add("C11", "prefix", "prefix", "prefixes of up to 3 characters", 5,
        expect=("stripped", "kept"), n=3)
    add("C11", "many messages", "many_messages", "12 objects with any number of "
        "warnings and errors in up to 3 files", 4)
    return out
