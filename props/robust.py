"""C20 any input: only diagnostics, rejected exactly if there is an error."""

from symx import common
from symx.logic import AND, OR, NOT

TYPES = '''package P
import Q
enum E "d" { a "x" b }
abstract type A "d" { n optional String }
type B extends A { freeze n = "f" r optional B u optional [B, Q.M] [0 .. 3] }
tuple T { v Integer separator @ w optional String }
final type C "z" extends Q.M { e E t T d Decimal }
'''

CHECKS = '''package P
type M { x Integer xs optional Integer [1 .. *] s String b optional Boolean }
checks M {
  x > 1 and s != "a" and not (b == true), fatal "m", "d", x
  (if x == 1 then s elsif x < 2 then "q" else "r") in s, warning "n"
  xs != null implies (forall k in xs => k ** 2 != len(xs)), "o"
  x in 1 .. 5 xor xs[0] % 2 - abs x >= Integer(2.5) / 3, "p", s
}
'''

DATA = '''package P
import Q
A x1 { }
section "s" {
  T o { i = -1 d = 2.5 s = "a" b = true e = E.a r = pp m = "[[pp, Q.qq]]"
        l = [1, 2] t = 1 @ "x" y = (1, "z") u = Q.qq }
}
T pp { i = 0x1F l = [] }
'''

BASE = {"rsl": "package P\nimport Q\ntype A { }\nenum E { a }\ntuple S { "
        "v Integer separator @ w String }\ntuple Y { v Integer w "
        "String }\ntype T { i Integer d optional Decimal s optional String "
        "b optional Boolean e optional E r optional T m optional "
        "Markup_String l Integer [0 .. 5] t optional S y optional Y "
        "u optional [T, Q.M] }\n",
        "q.rsl": "package Q\ntype M { }\n", "q.trlc": "package Q\nM qq { }\n"}

VOCAB = ["", "x", "P", "Q", "zz", "1", "2.5", '"s"', "'''m\nn'''", "package",
         "import", "type", "enum", "tuple", "checks", "section", "null",
         "extends", "optional", "freeze", "separator", "if", "then", "not",
         "forall", "in", "true", "len", "fatal", "abs", ".", "..", ",", "=",
         "==", "=>", "-", "**", "(", ")", "[", "]", "{", "}", "@", ";",
         "Integer", "String", "[[", "0x", '"', "/*", "//"]

# these errors leave process() with a symbol table (see the cases "known")
SOFT = ["error message must not contain a newline", "this array requires at ",
        "duplicate type "]


def one(files, lint, recover):
    return common.run(files, lint=lint, recover=recover)


def judge(c, files, lint, strict=False):
    """only diagnostics; rejected iff an error is reported; recovery has no
    influence on that"""
    a = one(files, lint, True)
    b = one(files, lint, False)
    for r, what in ((a, "with"), (b, "without")):
        c.check(r.crash is None, "internal failure %s recovery: %s", what,
                r.summary())
    if a.crash is not None or b.crash is not None:
        return None
    for r, what in ((a, "with"), (b, "without")):
        bad = r.of("error", "lex error", "check error")
        ok = r.symbols is not None and r.registered
        if strict:
            soft = False
        else:
            soft = len(bad) > 0 and all(
                any(m.message.startswith(s) for s in SOFT)
                if isinstance(m.message, str) else False for m in bad)
        if not soft:
            c.check(ok == (not bad), "%s but %u errors are reported %s "
                    "recovery: %s", "accepted" if ok else "rejected",
                    len(bad), what, r.summary())
        c.check(r.mh.errors == len(bad), "number of errors")
        for m in r.messages:
            c.check(m.file in files, "message about file %s", m.file)
            if m.file in files and m.line is not None:
                src = files[m.file]
                c.check(m.line >= 1, "line %s", m.line)
                if isinstance(m.line, int):
                    n = 1
                    for ch in src:
                        if n >= m.line:
                            break
                        if ch == "\n":
                            n += 1
                    c.check(n == m.line, "line %s of file with %s lines",
                            m.line, n)
    ea, eb = a.of("error", "lex error"), b.of("error", "lex error")
    c.check((len(ea) == 0) == (len(eb) == 0), "errors with and without "
            "recovery: %s / %s", a.summary(), b.summary())
    if ea and eb:
        c.check(AND(ea[0].message == eb[0].message, ea[0].line == eb[0].line,
                    ea[0].col == eb[0].col, ea[0].file == eb[0].file),
                "first error with and without recovery: %s / %s",
                repr(ea[0]), repr(eb[0]))
    c.reach("rejected" if ea else "accepted")
    return a


def fileset(which, text):
    files = dict(BASE)
    if which == "types":
        return {"p.rsl": text, "q.rsl": files["q.rsl"],
                "p.trlc": "package P\nB oo { }\n"}
    if which == "checks":
        return {"p.rsl": text, "p.trlc":
                'package P\nM oo { x = 3 xs = [1] s = "c" b = false }\n'}
    return {"p.rsl": files["rsl"], "q.rsl": files["q.rsl"],
            "q.trlc": files["q.trlc"], "p.trlc": text}


SAMPLE = {"types": TYPES, "checks": CHECKS, "data": DATA}


def split(s):
    """rough tokens of a sample with their position"""
    out = []
    i = 0
    while i < len(s):
        if s[i] in " \n":
            i += 1
            continue
        j = i + 1
        if s[i].isalnum():
            while j < len(s) and (s[j].isalnum() or s[j] == "_"):
                j += 1
        elif s[i] == '"':
            j = s.index('"', i + 1) + 1
        elif s[i] in ".=*!<>":
            while j < len(s) and s[j] in ".=*>":
                j += 1
        out.append((i, j))
        i = j
    return out


def position(c, name, n):
    """0..n-1 by two digits"""
    w = int(n ** 0.5) + 1
    a = c.choice(name + "_hi", (n + w - 1) // w)
    b = c.choice(name + "_lo", w)
    c.assume(a * w + b < n)
    return a * w + b


def truncate(c, sample="types"):
    """the file ends anywhere"""
    s = SAMPLE[sample]
    k = position(c, "end", len(s) + 1)
    judge(c, fileset(sample, s[:k]), False)


def tokens(c, sample="types", vocab=VOCAB, keep=False, lint=False):
    """one token replaced (or another one inserted before it)"""
    s = SAMPLE[sample]
    toks = split(s)
    k = position(c, "token", len(toks))
    i, j = toks[k]
    new = vocab[position(c, "new", len(vocab))]
    judge(c, fileset(sample, s[:i] + " " + new + " " +
                     (s[i:] if keep else s[j:])), lint)


def swap(c, sample="types"):
    """a range of tokens is moved to another place"""
    s = SAMPLE[sample]
    toks = split(s)
    k = position(c, "token", len(toks))
    n = c.choice("length", 3) + 1
    d = c.choice("distance", 3) + 1
    c.assume(k + n + d <= len(toks))
    a, b, e = toks[k][0], toks[k + n - 1][1], toks[k + n + d - 1][1]
    judge(c, fileset(sample, s[:a] + s[b:e] + " " + s[a:b] + " " + s[e:]),
          False)


def char(c, sample="types", alphabet="a0\"'/.*=<>[](){}|,@;-_ \n\\$%!\u00e9"):
    """any character replaced by any other"""
    s = SAMPLE[sample]
    k = position(c, "at", len(s))
    x = c.char("x", alphabet)
    judge(c, fileset(sample, s[:k] + x + s[k + 1:]), False)


def soft(c, what="newline"):
    """errors that do not stop processing"""
    t, v = c.int_text("v", 1)
    n = c.choice("number", 4)
    if what == "newline":
        msg = ['"m"', "'''m\nn'''"][n % 2]
        files = {"p.rsl": "package P\ntype T { v Integer }\nchecks T { v >= "
                 "0, %s }\n" % msg, "p.trlc": "package P\nT o { v = " + t +
                 " }\n"}
    elif what == "union":
        files = {"p.rsl": "package P\ntype T { v Integer }\ntype M { r [T%s] "
                 "}\n" % (", T" * n), "p.trlc": "package P\nT o { v = " + t +
                 " }\nM mm { r = o }\n"}
    else:
        files = {"p.rsl": "package P\ntype T { v Integer [1 .. 2] }\n",
                 "p.trlc": "package P\nT o { v = [" + ", ".join(
                     ["@"] * n).replace("@", "7") + "] }\n"}
        c.assume(v == 0)
    judge(c, files, False, True)


BYTES = [0x61, 0x0a, 0x0d, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0,
         0xe2, 0xed, 0xf0, 0xf4, 0xf5, 0xff]


def utf8(bs):
    """text of the bytes or None, by the definition of UTF-8"""
    out = []
    k = 0
    while k < len(bs):
        b = bs[k]
        if b < 0x80:
            out.append(b)
            k += 1
            continue
        n = 2 if 0xc2 <= b <= 0xdf else 3 if 0xe0 <= b <= 0xef else \
            4 if 0xf0 <= b <= 0xf4 else 0
        if n == 0 or k + n > len(bs) or \
           any(not 0x80 <= x <= 0xbf for x in bs[k + 1:k + n]):
            return None
        v = b & (0xff >> (n + 1))
        for x in bs[k + 1:k + n]:
            v = v * 64 + (x & 63)
        if v < {2: 0x80, 3: 0x800, 4: 0x10000}[n] or 0xd800 <= v <= 0xdfff \
           or v > 0x10ffff:
            return None
        out.append(v)
        k += n
    return "".join(chr(v) for v in out)


def encoding(c, n=2):
    """files on disk are read as UTF-8, in any of the places of a text"""
    where = c.choice("where", 4)
    bs = [BYTES[position(c, "byte%u" % k, len(BYTES))] for k in range(n)]
    v = 4
    rsl = b"package P\ntype T %s{ s optional String v Integer }\n"
    trlc = b"package P\nT o { %s v = 4 }\n"
    body = bytes(bs)
    data = {"a.rsl": rsl % b"", "a.trlc": trlc % b""}
    if where == 0:
        data["a.trlc"] = trlc % (b"s = \'\'\'x" + body + b"y\'\'\'")
    elif where == 1:
        data["a.trlc"] = trlc % (b"/* " + body + b" */")
    elif where == 2:
        data["a.rsl"] = rsl % (b"\'\'\'" + body + b"\'\'\' ")
    else:
        data["a.trlc"] = trlc % b"" + b"// " + body
    text = utf8(bs)
    if where == 3 and text is not None:
        # what follows a line end is not a comment
        c.assume("\n" not in text and "\r" not in text)
    for name, b in data.items():
        with open(name, "wb") as fd:
            fd.write(b)
    res = common.run({name: None for name in data})
    c.check(res.crash is None, "internal failure: %s", res.summary())
    if res.crash is not None:
        return
    if text is None:
        c.reach("rejected")
        name = "a.rsl" if where == 2 else "a.trlc"
        c.check(not res.accepted and not res.registered and
                len(res.errors) >= 1 and
                res.errors[0].file == name, "wrong encoding: %s",
                res.summary())
        return
    c.reach("accepted")
    c.check(res.accepted and not res.messages, "right encoding: %s",
            res.summary())
    if not res.accepted:
        return
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    o = res.obj("o").to_python_dict()
    c.check(o["v"] == v, "value")
    if where == 0:
        lines = ("x" + text + "y").split("\n")
        c.check([w for w in o["s"].split()] ==
                [w for x in lines for w in x.split()], "text: %s",
                repr(o["s"]))


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, func, bounds, w=1, expect=("accepted", "rejected"),
            replay=0.05, **args):
        out.append({"name": name, "property": "C20", "func": func,
                    "params": {"args": args}, "expect": list(expect),
                    "bounds": bounds, "weight": w, "replay": replay})
    voc = VOCAB if th else VOCAB[:1] + VOCAB[1::2]
    alpha = "a0\"'/.*=<>[](){}|,@;-_ \n\\$%!\u00e9" if th else "a0\"/.[(,-\n"
    for s in ("types", "checks", "data"):
        n = len(split(SAMPLE[s]))
        add("truncate " + s, "truncate", "%u file ends" % len(SAMPLE[s]), 2,
            sample=s)
        add("replace " + s, "tokens", "%u tokens, %u replacements" %
            (n, len(voc)), 6, sample=s, vocab=voc)
        add("insert " + s, "tokens", "%u places, %u tokens" %
            (n, len(voc)), 6, sample=s, vocab=voc, keep=True)
        add("move " + s, "swap", "%u places, 1..3 tokens by 1..3 tokens" % n,
            3, sample=s)
        add("character " + s, "char", "%u places, %u characters" %
            (len(SAMPLE[s]), len(alpha)), 6, sample=s, alphabet=alpha)
    for k in (1, 2, 3) if th else (1, 2):
        add("encoding %u" % k, "encoding", "%u of %u bytes in files on disk" %
            (k, len(BYTES)), 2, n=k, replay=(1, 0.1, 0.01)[k - 1])
    add("known newline", "soft", "message with and without a line end", 1,
        what="newline")
    add("known union", "soft", "1..4 members", 1, what="union")
    add("known array", "soft", "0..3 elements for bounds 1..2", 1,
        what="array")
    return out
