"""C29 which files the command line tool processes.

The harness builds real directory trees (inside the scratch directory of the
run) whose names and places are decided by the solver, and reads from the
file list of the tool which of them were processed.
"""

import importlib
import os
import shutil
import sys

from symx import common
from symx.logic import text as concrete


class Run:
    pass


def tool(c, tree, argv):
    """run the tool in a directory with the given files (name -> text, or
    None for a directory)"""
    trlc = importlib.import_module("trlc.trlc")
    r = Run()
    out, err = common.Sink(), common.Sink()
    here = os.getcwd()
    top = os.path.join(here, "filesrun")
    if os.path.isdir(top):
        shutil.rmtree(top)
    os.mkdir(top)
    old = sys.stdout, sys.stderr, sys.argv
    os.chdir(top)
    try:
        for name, content in tree.items():
            if content is None:
                os.makedirs(name, exist_ok=True)
                continue
            d = os.path.dirname(name)
            if d:
                os.makedirs(d, exist_ok=True)
            with open(name, "w", encoding="UTF-8") as fd:
                fd.write(content)
        sys.stdout, sys.stderr = out, err
        sys.argv = ["trlc"] + argv
        r.rc = None
        r.crash = None
        try:
            r.rc = trlc.trlc()
        except SystemExit as e:
            r.rc = e.code
        except Exception as e:      # pylint: disable=W0718
            r.crash = e
    finally:
        sys.stdout, sys.stderr, sys.argv = old
        os.chdir(here)
        shutil.rmtree(top)
    r.text = out.text()
    r.err = err.text()
    r.lines = [ln for ln in r.text.split("\n") if ln]
    r.status = {}
    r.twice = False
    for ln in r.lines:
        if ln.startswith("> "):
            words = ln.split()
            kind = words[1].strip("[]")
            name = os.path.relpath(os.path.join(top, words[3]), top)
            if name in r.status:
                r.twice = True
            r.status[name] = kind, words[2], words[5].strip(")")
    c.check(r.crash is None, "crash %s", repr(r.crash))
    return r


def counts(c, r, models, of_models, reqs, of_reqs):
    """the numbers in the summary"""
    def one(n, total, what):
        return "%u%s %s%s" % (n, "" if n == total else " (of %u)" % total,
                              what, "" if total == 1 else "s")
    want = "Processed " + one(models, of_models, "model")
    if reqs is not None:
        want += " and " + one(reqs, of_reqs, "requirement file")
    want += " and found no issues"
    hits = [ln for ln in r.lines if ln.startswith("Processed ")]
    c.check(hits == [want], "summary %s, expected %s", repr(hits), want)


def listed(c, r, want):
    """want: name -> (status, kind, package)"""
    c.check(not r.twice, "file listed twice: %s", r.text)
    c.check(r.status == want, "processed files %s, expected %s", repr(r.status),
            repr(want))


def is_input(name):
    return name[-4:] == ".rsl" or name[-5:] == ".trlc"


def is_bazel(name):
    return name[:6] == "bazel-"


MODEL = "package M\ntype T { }\n"
FILES = ["f.rsl", "f.trlc", "f.RSL", "f.rsl.bak", "f.rsl~", "f.txt", "frsl",
         "f.b.rsl", "f.b.trlc", "bazel-f.rsl", "f.rs", "f.rsll", "f.trl",
         "f.trlc.txt", ".h.rsl", "f.json"]


def content(name, n, pkg="F"):
    if name[-4:] == ".rsl":
        return "package %s%u\ntype T { }\n" % (pkg, n)
    if name[-5:] == ".trlc":
        return "package M\nT %s%u { }\n" % (pkg.lower(), n)
    return "? no input of this tool\n"


def entry(name, n, status="Primary", pkg="F"):
    if name[-4:] == ".rsl":
        return status, "Model", "%s%u" % (pkg, n)
    return status, "Requirements", "M"


def dir_name(c, name):
    """names around bazel-"""
    form = c.choice(name + "_form", 4)
    if form == 0:
        return concrete("bazel" + c.string_upto(name + "_end", 2, "-_x"))
    if form == 1:
        return concrete(c.string(name + "_first", 1, "bBxz") + "azel-out")
    if form == 2:
        return concrete(c.string(name + "_pre", 1, "x_.") + "bazel-x")
    return c.pick(name, ["sub", ".hidden", "d.rsl", "baze-l", "bazel-d.trlc"])


def tree(c, names=True):
    """the files below the directories given, except in bazel-* ones"""
    d1 = dir_name(c, "outer") if names else c.pick("outer", ["sub",
                                                             "bazel-out"])
    d2 = c.pick("inner", ["", "bazel-in", "x/bazel-"] if names else
                ["", "in", "bazel-in"])
    f = c.pick("file", FILES[:2] if names else FILES)
    bazel = c.choice("include_bazel_dirs", 2) == 1
    item = c.pick("item", ["", ".", "outer", "./outer/"])
    place = os.path.join(d1, d2) if d2 else d1
    files = {"m.rsl": MODEL, f: content(f, 0, "G")}
    files[os.path.join(place, f)] = content(f, 1)
    files[os.path.join(d1, "two.trlc")] = content("two.trlc", 2)
    if item.endswith("outer"):
        items = [d1, "m.rsl"]
    elif item == "./outer/":
        items = ["m.rsl", "./" + d1 + "/"]
    elif item == ".":
        items = ["."]
    else:
        items = []
    r = tool(c, files, ["--no-lint", "--show-file-list"] +
             (["--include-bazel-dirs"] if bazel else []) + items)
    if r.crash is not None:
        return
    want = {"m.rsl": ("Primary", "Model", "M")}
    skip1 = is_bazel(d1) and not bazel and "outer" not in item
    skip2 = skip1 or not bazel and \
        any(is_bazel(x) for x in d2.split("/"))
    if is_input(f) and "outer" not in item:
        want[f] = entry(f, 0, pkg="G")
    if not skip1:
        want[os.path.join(d1, "two.trlc")] = entry("two.trlc", 2)
    if not skip2 and is_input(f):
        want[os.path.normpath(os.path.join(place, f))] = entry(f, 1)
    c.reach("excluded" if skip2 else "entered")
    c.check(r.rc == 0, "exit status %s: %s", r.rc, r.text)
    listed(c, r, want)
    nm = len([1 for k in want.values() if k[1] == "Model"])
    counts(c, r, nm, nm, len(want) - nm, len(want) - nm)


def deep(c, n=6):
    """the same for deep directories"""
    depth = c.choice("depth", n) + 1
    at = c.choice("bazel_at", n + 1)
    start = c.choice("start", 3)
    c.assume(start < depth)
    bazel = c.choice("include_bazel_dirs", 2) == 1
    many = c.choice("each_level", 2) == 1
    dirs = ["bazel-%u" % k if k == at else "d%u" % k for k in range(depth)]
    files = {"m.rsl": MODEL}
    want = {"m.rsl": ("Primary", "Model", "M")}
    for k in range(depth):
        if not many and k < depth - 1:
            continue
        name = "f%u.trlc" % k
        path = "/".join(dirs[:k + 1] + [name])
        files[path] = content(name, k)
        below = dirs[start:k + 1]
        if len(below) and (bazel or
                           not any(is_bazel(x) for x in below[1:])):
            want[path] = entry(name, k)
    item = "/".join(dirs[:start + 1])
    r = tool(c, files, ["--no-lint", "--show-file-list"] +
             (["--include-bazel-dirs"] if bazel else []) + ["m.rsl", item])
    if r.crash is not None:
        return
    c.reach("excluded" if len(want) < len(files) else "entered")
    c.check(r.rc == 0, "exit status %s: %s", r.rc, r.text)
    listed(c, r, want)
    counts(c, r, 1, 1, len(want) - 1, len(want) - 1)


def include(c):
    """include directories: every file is available, only the needed ones
    are processed"""
    d1 = dir_name(c, "outer")
    d2 = c.pick("inner", ["", "bazel-in", "in"])
    bazel = c.choice("include_bazel_dirs", 2) == 1
    need = c.choice("need", 3)      # nothing, types, types and objects
    where = c.pick("where", ["inc", "outer"])
    place = os.path.join("inc", d1, d2) if d2 else os.path.join("inc", d1)
    mistake = " nonsense"
    files = {"m.rsl": "package M\n%stype T { }\n" % (
        "import L\n" if need == 1 else ""),
        "m.trlc": "package M\n%sT o { }\n" % (
            "import L\n" if need == 2 else ""),
        os.path.join(place, "l.rsl"): "package L\ntype T { }\n" +
        (mistake if need == 0 else ""),
        os.path.join(place, "l.trlc"): "package L\nT x { }\n" +
        (mistake if need < 2 else ""),
        os.path.join(place, "l.txt"): "?",
        os.path.join("inc", d1, "k.rsl"): "package K\ntype T { }\n" + mistake,
        "inc/other.rsl": "package N\ntype T { }\n" + mistake}
    inc = os.path.join("inc", d1) if where == "outer" else where
    twice = c.choice("twice", 2) == 1
    opts = ["-I", inc] + (["-I", "inc/" + d1 + "/."] if twice else [])
    r = tool(c, files, opts + ["--no-lint", "--show-file-list", "m.rsl",
                               "m.trlc"] +
             (["--include-bazel-dirs"] if bazel else []))
    if r.crash is not None:
        return
    # is the directory entered from one of the include paths?
    inner = bazel or d2 != "bazel-in"
    outer_k = bazel or where == "outer" or twice or not is_bazel(d1)
    outer_l = outer_k and inner
    c.reach("excluded" if not outer_l else "entered")
    if need and not outer_l:
        c.check(r.rc == 1, "unknown package accepted: %s", r.text)
        c.check("unknown symbol L" in r.text, "error for the package: %s",
                r.text)
        return
    c.check(r.rc == 0, "exit status %s: %s", r.rc, r.text)
    want = {"m.rsl": ("Primary", "Model", "M"),
            "m.trlc": ("Primary", "Requirements", "M")}
    if outer_l:
        want[os.path.normpath(os.path.join(place, "l.rsl"))] = (
            "Included" if need else "Excluded", "Model", "L")
        want[os.path.normpath(os.path.join(place, "l.trlc"))] = (
            "Included" if need == 2 else "Excluded", "Requirements", "L")
    if outer_k:
        want[os.path.join("inc", d1, "k.rsl")] = "Excluded", "Model", "K"
    if where != "outer":
        want["inc/other.rsl"] = "Excluded", "Model", "N"
    listed(c, r, want)
    nm = [k[0] for k in want.values() if k[1] == "Model"]
    nr = [k[0] for k in want.values() if k[1] == "Requirements"]
    counts(c, r, len(nm) - nm.count("Excluded"), len(nm),
           len(nr) - nr.count("Excluded"), len(nr))


def both(c):
    """a file of an include directory that is also given is primary"""
    pool = ["m.rsl", "m.trlc", "k.rsl", "k.trlc", "s/n.rsl", "s/n.trlc"]
    given = [c.choice("given%u" % k, 2) == 1 for k in range(6)]
    dirs = c.pick("dirs", [[], ["s"], ["."]])
    inc = c.pick("include", [".", "s"])
    uses = c.choice("uses", 2) == 1
    c.assume(any(given) or dirs)
    files = {"m.rsl": MODEL, "m.trlc": "package M\n" +
             ("import N\n" if uses else "") + "T a { }\n",
             "k.rsl": "package K\ntype T { }\n",
             "k.trlc": "package K\nT b { }\n",
             "s/n.rsl": "package N\ntype T { }\n",
             "s/n.trlc": "package N\nT d { }\n"}
    names = [n for n, g in zip(pool, given) if g]
    c.assume(not dirs or not any(n.startswith("s/") for n in names))
    c.assume(dirs != ["."] or not names)
    r = tool(c, files, ["-I", inc, "--no-lint", "--show-file-list"] + names +
             dirs)
    if r.crash is not None:
        return
    prim = set(names)
    if dirs == ["s"]:
        prim |= {"s/n.rsl", "s/n.trlc"}
    elif dirs:
        prim = set(pool)
    known = prim | {n for n in pool if inc == "." or n.startswith("s/")}
    types = {os.path.basename(n)[0] for n in prim}
    objs = {os.path.basename(n)[0] for n in prim if n[-5:] == ".trlc"}
    if uses and "m" in objs:
        objs.add("n")
        types.add("n")
    have = {os.path.basename(n)[0] for n in known if n[-4:] == ".rsl"}
    objs_known = {os.path.basename(n)[0] for n in known
                  if n[-5:] == ".trlc"}
    if not types <= have or (uses and "m" in objs_known and
                             "n" not in have):
        c.reach("unknown")
        c.check(r.rc == 1, "objects without their types accepted: %s", r.text)
        return
    c.reach("known")
    c.check(r.rc == 0, "exit status %s: %s", r.rc, r.text)
    want = {}
    for n in known:
        b = os.path.basename(n)
        if n[-4:] == ".rsl":
            st = "Included" if b[0] in types else "Excluded"
        else:
            st = "Included" if b[0] in objs else "Excluded"
        want[n] = ("Primary" if n in prim else st,
                   "Model" if n[-4:] == ".rsl" else "Requirements",
                   b[0].upper())
    listed(c, r, want)


def single(c):
    """a file given by name: by its extension only; others are an error"""
    f = c.pick("file", FILES)
    where = c.pick("directory", ["", "sub", "bazel-out", "./sub", "x.trlc"])
    name = os.path.join(where, f) if where else f
    first = c.choice("first", 2)
    skip = c.choice("skip_trlc_files", 2) == 1
    r = tool(c, {"m.rsl": MODEL, name: content(f, 1)},
             (["--skip-trlc-files"] if skip else []) +
             ["--no-lint", "--show-file-list"] +
             ([name, "m.rsl"] if first else ["m.rsl", name]))
    if r.crash is not None:
        return
    if not is_input(f):
        c.reach("refused")
        c.check(r.rc == 1, "exit status %s", r.rc)
        c.check("is not a rsl or trlc file" in r.text and f in r.text,
                "message: %s", r.text)
        c.check(not [ln for ln in r.lines if ln.startswith(">")], "nothing "
                "is processed")
        return
    c.reach("accepted")
    c.check(r.rc == 0, "exit status %s: %s", r.rc, r.text)
    want = {"m.rsl": ("Primary", "Model", "M")}
    if f[-4:] == ".rsl" or not skip:
        want[os.path.normpath(name)] = entry(f, 1)
    listed(c, r, want)
    nm = len([1 for k in want.values() if k[1] == "Model"])
    counts(c, r, nm, nm, None if skip else len(want) - nm, len(want) - nm)


def arguments(c):
    """arguments that do not exist, wrong options"""
    how = c.pick("arguments", [
        (["nope"], 2, "nope is not a file or directory"),
        (["nope.rsl"], 2, "nope.rsl is not a file or directory"),
        (["-I", "nope", "a.rsl"], 2, "include path nope is not a directory"),
        (["-I", "a.rsl", "a.rsl"], 2,
         "include path a.rsl is not a directory"),
        (["-I", "sub", "-I", "nope", "a.rsl"], 2,
         "include path nope is not a directory"),
        (["-I"], 2, "expected one argument"),
        (["--nope", "a.rsl"], 2, "--nope"),
        (["--no-lin", "a.rsl"], 2, "--no-lin"),
        (["a.rsl", "--log", "l", "p", "q"], 2, "at most 2 values"),
        (["a.rsl", "--log"], 2, "expected"),
        (["--version"], 0, None), (["--version", "--no-lint"], 0, None),
        (["--help"], 0, None)])
    extra = c.pick("extra", [[], ["a.rsl"], ["sub"], ["--brief"]])
    last = c.choice("last", 2)
    args, rc, msg = how
    c.assume(not last or args[-1] not in ("-I", "--log"))
    # names have to be next to each other
    c.assume(not extra or extra == ["--brief"] or
             not any(x[0] == "-" for x in args) or
             args[0] in ("--version", "--help"))
    r = tool(c, {"a.rsl": MODEL, "sub/b.trlc": "package M\nT o { }\n"},
             args + extra if last else extra + args)
    if r.crash is not None:
        return
    c.reach("refused" if rc else "shown")
    c.check(r.rc == rc, "exit status %s, expected %u", r.rc, rc)
    c.check("Processed" not in r.text, "nothing is processed")
    if msg:
        c.check(msg in " ".join(r.err.split()), "message %s", r.err)
        c.check(r.text == "", "nothing on standard output: %s", r.text)
    elif "--version" in args:
        version = importlib.import_module("trlc.version")
        c.check(r.text == version.TRLC_VERSION + "\n", "version: %s", r.text)
    else:
        for opt in ("--no-lint", "--skip-trlc-files", "--verify", "-I",
                    "--include-bazel-dirs", "--brief", "--log",
                    "--error-on-warnings", "--show-file-list"):
            c.check(opt in r.text, "option %s in the help", opt)


def repeated(c, n=2):
    """a file that is given more than once is processed once"""
    pool = ["a.rsl", "./a.rsl", ".", "s", "s/b.trlc", "s/../a.rsl", "s/.",
            "@a.rsl", "@s"]
    items = [c.pick("item%u" % k, pool) for k in range(n)]
    top = os.path.join(os.getcwd(), "filesrun")
    args = [os.path.join(top, x[1:]) if x[0] == "@" else x for x in items]
    norm = {os.path.normpath(x.replace("@", "")) for x in items}
    want = set()
    if "." in norm or "a.rsl" in norm:
        want.add("a.rsl")
    if "." in norm or "s" in norm or "s/b.trlc" in norm:
        want.add("s/b.trlc")
    inc = c.choice("include", 2) == 1
    r = tool(c, {"a.rsl": MODEL, "s/b.trlc": "package M\nT o { }\n"},
             ["--no-lint", "--show-file-list"] + args +
             (["-I", "."] if inc else []))
    if r.crash is not None:
        return
    c.reach("repeated" if len(norm) < n or "." in norm and n > 1 else
            "different")
    if "a.rsl" not in want and not inc:
        c.check(r.rc == 1, "objects without types: %s", r.text)
        return
    c.check(r.rc == 0, "exit status %s: %s", r.rc, r.text)
    res = {"a.rsl": ("Primary" if "a.rsl" in want else "Included", "Model",
                     "M")}
    if "s/b.trlc" in want:
        res["s/b.trlc"] = "Primary", "Requirements", "M"
    elif inc:
        res["s/b.trlc"] = "Excluded", "Requirements", "M"
    listed(c, r, res)


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, func, bounds, expect, w=1, replay=0.2, **args):
        out.append({"name": name, "property": "C29", "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    add("directories", "tree", "nested directories with names around "
        "bazel-*, 4 ways to name them", ("excluded", "entered"), 9,
        replay=0.05)
    add("file names", "tree", "16 file names in nested directories",
        ("excluded", "entered"), 4, replay=0.1, names=False)
    add("deep", "deep", "directories nested %u deep, one of them bazel-*, "
        "3 starting points" % (8 if th else 6), ("excluded", "entered"), 4,
        n=8 if th else 6, replay=0.1)
    add("include", "include", "the same below include paths, files needed "
        "for types, objects or not at all", ("excluded", "entered"), 9,
        replay=0.05)
    add("both", "both", "any of 6 files given, in directories and include "
        "paths", ("unknown", "known"), 2)
    add("single", "single", "16 file names in 5 directories",
        ("refused", "accepted"), 2)
    add("arguments", "arguments", "13 argument lists with 4 others",
        ("refused", "shown"), 1)
    for n in (1, 2, 3) if th else (1, 2):
        add("repeated %u" % n, "repeated", "%u of 9 spellings of 4 files and "
            "directories" % n, ("different",) if n == 1 else
            ("repeated", "different"), n, n=n)
    return out
