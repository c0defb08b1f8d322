"""C01 tokenisation, C02 literal values, C03 source positions."""

import importlib
from fractions import Fraction

from symx import common
from symx.logic import AND, OR, NOT, text

KEYWORDS = ("abs abstract and checks else elsif enum error exists extends "
            "false fatal final forall freeze if implies import in not null "
            "optional or package section separator then true tuple type "
            "warning xor").split()
SINGLE = {"(": "BRA", ")": "KET", "{": "C_BRA", "}": "C_KET", "[": "S_BRA",
          "]": "S_KET", ",": "COMMA", "@": "AT", ":": "COLON",
          ";": "SEMICOLON", "/": "OPERATOR", "%": "OPERATOR",
          "+": "OPERATOR", "-": "OPERATOR"}

ALPHABET = "".join(chr(c) for c in range(32, 127)) + "\t\n\r" + \
    "\u00e9\u00df\u00b2\u00aa\u00a0\u0663\u2028\u4e2d\u2167\u0130\u0000\u0085"


class SpecError(Exception):
    pass


def is_letter(c):
    return OR(AND(c >= "a", c <= "z"), AND(c >= "A", c <= "Z"))


def is_digit(c):
    return AND(c >= "0", c <= "9")


def spec_lex(s):
    """Token list (kind, start, end) according to the language manual; the
    last element is ("ERROR", start, None) when the text does not lex."""
    out = []
    n = len(s)
    i = 0

    def at(k):
        return s[k] if k < n else ""

    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            return out
        c = s[i]
        st = i
        if c == "/" and at(i + 1) == "/":
            while i < n and s[i] != "\n":
                i += 1
            out.append(("COMMENT", st, i - 1))
        elif c == "/" and at(i + 1) == "*":
            i += 2
            while i < n and not (s[i] == "*" and at(i + 1) == "/"):
                i += 1
            i = min(i + 2, n)
            out.append(("COMMENT", st, i - 1))
        elif is_letter(c):
            i += 1
            while i < n and OR(is_letter(s[i]), is_digit(s[i]),
                               s[i] == "_"):
                i += 1
            word = s[st:i]
            kw = OR(*[word == k for k in KEYWORDS])
            out.append(("KEYWORD" if kw else "IDENTIFIER", st, i - 1))
        elif c in "=.<>!*":
            two = {"=": "=>", ".": ".", "<": "=", ">": "=", "!": "=",
                   "*": "*"}
            nx = at(i + 1)
            for k in two:
                if c == k:
                    break
            if nx != "" and nx in two[k]:
                i += 2
                if k == "=" and nx == ">":
                    kind = "ARROW"
                elif k == ".":
                    kind = "RANGE"
                else:
                    kind = "OPERATOR"
            else:
                i += 1
                if k == "!":
                    out.append(("ERROR", st, None))
                    return out
                kind = {"=": "ASSIGN", ".": "DOT"}.get(k, "OPERATOR")
            out.append((kind, st, i - 1))
        elif c in SINGLE:
            i += 1
            for k in SINGLE:
                if c == k:
                    break
            out.append((SINGLE[k], st, i - 1))
        elif c == '"' and at(i + 1) == '"' and at(i + 2) == '"' or c == "'":
            q = '"""' if c == '"' else "'''"
            if s[i:i + 3] != q:
                out.append(("ERROR", st, None))
                return out
            i += 3
            while i < n and s[i:i + 3] != q:
                i += 1
            if i >= n:
                out.append(("ERROR", st, None))
                return out
            i += 3
            out.append(("STRING", st, i - 1))
        elif c == '"':
            i += 1
            while i < n and s[i] != '"':
                if s[i] == "\n":
                    break
                if s[i] == "\\" and at(i + 1) == '"':
                    i += 1
                i += 1
            if i >= n or s[i] != '"':
                out.append(("ERROR", st, None))
                return out
            i += 1
            out.append(("STRING", st, i - 1))
        elif is_digit(c):
            base = 10
            if c == "0" and at(i + 1) == "b":
                base = 2
            elif c == "0" and at(i + 1) == "x":
                base = 16
            good = {2: "01", 10: "0123456789",
                    16: "0123456789abcdefABCDEF"}[base]
            anyhex = "0123456789abcdefABCDEF"
            i += 1 if base == 10 else 2
            need = base != 10
            dec = False
            while True:
                d = at(i)
                if d != "" and d in good:
                    need = False
                    i += 1
                elif d != "" and d in anyhex:
                    out.append(("ERROR", st, None))
                    return out
                elif need:
                    out.append(("ERROR", st, None))
                    return out
                elif d == "_":
                    need = True
                    i += 1
                elif d == "." and at(i + 1) != ".":
                    if dec or base != 10:
                        out.append(("ERROR", st, None))
                        return out
                    dec = True
                    need = True
                    i += 1
                else:
                    break
            out.append(("DECIMAL" if dec else "INTEGER", st, i - 1))
        else:
            out.append(("ERROR", st, None))
            return out


def real_lex(src):
    lexer = importlib.import_module("trlc.lexer")
    errors = importlib.import_module("trlc.errors")
    res = common.Result()
    mh = common.make_handler(res)
    toks = []
    try:
        lx = lexer.TRLC_Lexer(mh, "a.trlc", src)
        while True:
            t = lx.token()
            if t is None:
                return toks, None, res
            toks.append(t)
    except errors.TRLC_Error as err:
        return toks, err, res


def tokens(c, before="", after="", n=3, alphabet=ALPHABET, exact=None,
           prefix_alphabet=None):
    """the token sequence of every text equals the manual's"""
    if prefix_alphabet is not None:
        before = before + c.string("f", 1, prefix_alphabet)
    if exact is None:
        body = c.string_upto("s", n, alphabet, 1)
    else:
        body = c.string("s", exact, alphabet)
    src = before + body + after
    toks, err, res = real_lex(src)
    spec = spec_lex(src)
    bad = bool(spec) and spec[-1][0] == "ERROR"
    if bad:
        c.reach("error")
        c.check(err is not None, "text that is not a token is accepted: %s",
                src)
        spec = spec[:-1]
    else:
        c.reach("ok")
        c.check(err is None, "lexer rejects valid text %s", src)
    c.check(len(toks) == len(spec), "number of tokens in %s", src)
    for t, (kind, st, en) in zip(toks, spec):
        c.check(t.kind == kind, "kind of token")
        c.check(AND(t.location.start_pos == st, t.location.end_pos == en),
                "extent of token")


def comment_text(c, style="/", n=4):
    """the text of a comment ends where the manual says; the token after it is
    still seen"""
    body = c.string_upto("s", n, "a*/ \n\"'{")
    if style == "/":
        src = "//" + body + "\nend\n"
    else:
        src = "/*" + body + "*/ end\n"
    toks, err, res = real_lex(src)
    spec = spec_lex(src)
    bad = bool(spec) and spec[-1][0] == "ERROR"
    c.check((err is not None) == bad, "acceptance of %s", src)
    if bad:
        spec = spec[:-1]
    c.reach("ok")
    c.check(len(toks) == len(spec), "number of tokens in %s", src)
    for t, (kind, st, en) in zip(toks, spec):
        c.check(t.kind == kind, "kind of token in %s", src)
        c.check(AND(t.location.start_pos == st, t.location.end_pos == en),
                "extent of token in %s", src)


# ---- C02 literal values ----------------------------------------------------
def digits_value(t, base):
    v = 0
    for ch in t:
        if ch == "_":
            continue
        v = v * base + int(ch, base)
    return v


def number(c, prefix="", n=4, typ="Integer", alphabet="0123456789abcdefABCDEFx_."):
    """numeric literals denote the number their digits spell"""
    lit = prefix + c.string_upto("s", n, alphabet, 0 if prefix else 1)
    neg = c.choice("neg", 2)
    spec = spec_lex(lit)
    res = common.run({
        "a.rsl": "package P\ntype T { x %s }\n" % typ,
        "a.trlc": "package P\nT o {\n x = " + ("-" if neg else "") + lit +
                  "\n}\n"})
    want = typ.upper()
    good = len(spec) == 1 and spec[0][0] == want
    if not good:
        c.reach("bad")
        c.check(res.crash is None and not res.accepted,
                "malformed literal %s accepted", lit)
        return
    c.reach("good")
    c.check(res.accepted, "literal %s rejected", lit)
    if lit[0:2] == "0x":
        v = digits_value(lit[2:], 16)
    elif lit[0:2] == "0b":
        v = digits_value(lit[2:], 2)
    elif typ == "Integer":
        v = digits_value(lit, 10)
    else:
        a, b = lit.split(".")
        k = len([x for x in b if x != "_"])
        v = digits_value(a, 10) + Fraction(digits_value(b, 10), 10 ** k)
    c.check(res.fields("o")["x"] == (-v if neg else v) if typ == "Integer" else
            res.fields("o")["x"] == float(-v if neg else v),
            "value of literal %s", lit)
    c.check(res.number("o", "x") == (-v if neg else v),
            "exact value of literal %s", lit)


def simple_string(c, n=4, typ="String", alphabet="a\\\" \t\n\u00e9'n"):
    """double quoted string: exactly the characters between the quotes, with
    escaped quotes replaced"""
    body = c.string("s", n, alphabet)
    lit = '"' + body + '"'
    spec = spec_lex(lit + "\n")
    res = common.run({
        "a.rsl": "package P\ntype T { x %s }\n" % typ,
        "a.trlc": "package P\nT o {\n x = " + lit + "\n}\n"})
    if not (len(spec) == 1 and spec[0][0] == "STRING") or \
       body[0:1] == '"':
        # something else than one simple string
        c.reach("other")
        return
    c.reach("good")
    c.check(res.accepted, "string %s rejected", lit)
    want = ""
    i = 0
    while i < n:
        if body[i] == "\\" and i + 1 < n and body[i + 1] == '"':
            i += 1
        want = want + body[i]
        i += 1
    c.check(res.fields("o")["x"] == want, "value of %s", lit)


WS = " \t\n"


def spec_triple(body):
    """whitespace trimmed; common indentation from the second line on
    removed; trailing whitespace of every line removed"""
    b = 0
    e = len(body)
    while b < e and body[b] in WS:
        b += 1
    while e > b and body[e - 1] in WS:
        e -= 1
    lines = [[]]
    for k in range(b, e):
        if body[k] == "\n":
            lines.append([])
        else:
            lines[-1].append(body[k])

    def blank(x):
        return all(ch in WS for ch in x)

    def indent(x):
        r = []
        for ch in x:
            if not ch in WS:
                break
            r.append(ch)
        return r
    common_ws = None
    for x in lines[1:]:
        if blank(x):
            continue
        ind = indent(x)
        if common_ws is None:
            common_ws = ind
            continue
        k = 0
        while k < len(ind) and k < len(common_ws) and ind[k] == common_ws[k]:
            k += 1
        common_ws = common_ws[:k]
    cut = len(common_ws or [])
    out = []
    for num, x in enumerate(lines):
        if num:
            x = x[cut:]
        while x and x[-1] in WS:
            x = x[:-1]
        out.append(x)
    r = ""
    for num, x in enumerate(out):
        if num:
            r = r + "\n"
        for ch in x:
            r = r + ch
    return r


def triple_string(c, quote="'''", parts=(("s", 4),), alphabet="a \n\t"):
    """triple quoted string values; parts: literal text or (name, length)"""
    body = ""
    for p in parts:
        if isinstance(p, str):
            body = body + p
        else:
            body = body + c.string(p[0], p[1], p[2] if len(p) > 2
                                   else alphabet)
    lit = quote + body + quote
    spec = spec_lex(lit + "\n")
    if not (len(spec) == 1 and spec[0][0] == "STRING"):
        c.reach("other")
        return
    res = common.run({
        "a.rsl": "package P\ntype T { x String }\n",
        "a.trlc": "package P\nT o {\n x = " + lit + "\n}\n"})
    c.reach("good")
    c.check(res.accepted, "string %s rejected", lit)
    c.check(res.fields("o")["x"] == spec_triple(body),
            "value of triple quoted string %s", lit)


# ---- C03 positions -----------------------------------------------------------
def line_col(src, pos):
    line = 1
    col = 1
    for k in range(pos):
        if src[k] == "\n":
            line += 1
            col = 1
        else:
            col += 1
    return line, col


def spec_context(src, st, en):
    b = st
    while b > 0 and src[b - 1] != "\n":
        b -= 1
    e = st
    while e < len(src) and src[e] != "\n":
        e += 1
    k = b
    while k < e and src[k].isspace():
        k += 1
    line = src[k:e]
    return [line, " " * (st - k) + "^" * min(en + 1 - st, e - st)]


def positions(c, before="", after="", n=3, alphabet="a1\"\n \t=*/'"):
    """line, column, text, context and end of every token"""
    body = c.string("s", n, alphabet)
    src = before + body + after
    toks, err, res = real_lex(src)
    if err is None:
        c.reach("ok")
    for t in toks:
        loc = t.location
        st, en = loc.start_pos, loc.end_pos
        line, col = line_col(src, st)
        c.check(loc.file_name == "a.trlc", "file name")
        c.check(AND(loc.line_no == line, loc.col_no == col),
                "line and column in %s", src)
        c.check(loc.text() == src[st:en + 1], "text of token in %s", src)
        want = spec_context(src, st, en)
        got = loc.context_lines()
        c.check(len(got) == 2, "context has two lines")
        c.check(AND(got[0] == want[0], got[1] == want[1]),
                "context of token in %s", src)
        if src[en] != "\n":
            end = loc.get_end_location()
            eline, ecol = line_col(src, en)
            c.check(AND(end.line_no == eline, end.col_no == ecol,
                        end.file_name == "a.trlc"),
                    "end of token in %s", src)
    if err is not None:
        c.reach("error")
        m = res.messages[-1]
        st = m.location.start_pos
        c.check(m.kind == "error", "kind of lexer message")
        spec = spec_lex(src)
        c.check(bool(spec) and spec[-1][0] == "ERROR" and
                st >= spec[-1][1], "error is located in the bad token")


def cases(tier):
    th = tier != "quick"
    out = []

    def add(name, pid="C01", func="tokens", expect=("ok",), bounds="", w=1,
            shard=None, **args):
        p = {"args": args}
        if shard:
            p["shard"] = shard
        out.append({"name": name, "property": pid, "func": func,
                    "params": p, "expect": list(expect), "bounds": bounds,
                    "weight": w, "replay": 0.3})
    for k in range(1, 3):
        add("any-text-%u" % k, exact=k, expect=("ok", "error"),
            bounds="every text of %u characters (printable ASCII, white "
            "space and 12 non-ASCII characters)" % k)
    first = ["/*=.<>!", "\"'", "0", "123456789", "abcdefghijklmnop",
             "qrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "(){}[],@:;%+-"]
    for f in first:
        add("text-%s.." % f[:2], expect=(), before="", exact=2, w=2,
            prefix_alphabet=f,
            bounds="texts of 3 characters starting with one of " + f)
    rest = "".join(x for x in ALPHABET if not any(x in f for f in first))
    add("text-other..", expect=(), exact=2, prefix_alphabet=rest,
        bounds="texts of 3 characters starting with any other character")
    n = 5 if th else 4
    add("binary", before="0b", n=n, alphabet="01_2ag.. x", w=3,
        expect=("ok", "error"), bounds="0b + up to %u characters" % n)
    add("hex", before="0x", n=n, alphabet="09aFg_. x", w=3,
        expect=("ok", "error"), bounds="0x + up to %u characters" % n)
    add("number", before="7", n=n, alphabet="09aFgx_. b-", w=3,
        expect=("ok", "error"), bounds="digit + up to %u characters" % n)
    add("word", before="a", n=n, alphabet="aZ0_ -\u00e9.", w=3,
        bounds="letter + up to %u characters" % n)
    for kw in KEYWORDS:
        add("keyword-" + kw, before=kw, exact=1, expect=(),
            bounds=kw + " followed by any character")
        for k in range(len(kw)):
            if th or k in (0, len(kw) - 1):
                add("near-%s-%u" % (kw, k), before=kw[:k], after=kw[k + 1:],
                    exact=1, expect=(), alphabet=ALPHABET, w=0.5,
                    bounds="%s with any character in position %u" % (kw, k))
    for nm, b, a in (("word", "a" * 300, "b" * 40), ("digits", "7" * 100, "8"),
                     ("hex", "0xA" + "f" * 60, "1"),
                     ("decimal", "1" * 50 + "." + "2" * 50, "3"),
                     ("string", '"' + "x" * 300, 'y"')):
        add("long-" + nm, before=b, after=a, n=2, w=3, alphabet="aF0_. \"",
            expect=(), bounds="two characters inside a long " + nm)
    add("string", before='"', n=n + 1, alphabet="a\\\"\n '", w=4,
        expect=("ok", "error"), bounds="\" + up to %u characters" % (n + 1))
    for q, nm in (("'''", "triple1"), ('"""', "triple2")):
        add(nm, before=q, n=n + 1, alphabet="a\\\"\n '", w=4,
            expect=("ok", "error"), bounds="triple quote + up to %u "
            "characters" % (n + 1))
        add(nm + "-end", before=q + "ab", after=q + " x", n=n, w=3,
            alphabet="a\\\"\n '", expect=("ok",),
            bounds="between triple quotes: up to %u characters" % n)
    for st, nm in (("/", "line"), ("*", "block")):
        add("comment-" + nm, func="comment_text", style=st, n=n, w=3,
            bounds="comment with up to %u characters over a*/ quote "
            "newline" % n)

    def lit(name, **k):
        add(name, pid="C02", **k)
    lit("decimal-digits", func="number", n=5 if th else 4,
        expect=("good", "bad"), bounds="literals of up to 4 (5) characters "
        "over digits, a-f, x, _ and .")
    lit("hex-literal", func="number", prefix="0x", n=5 if th else 3,
        expect=("good", "bad"), bounds="0x + up to 3 (5) characters")
    lit("binary-literal", func="number", prefix="0b", n=6 if th else 4,
        expect=("good", "bad"), bounds="0b + up to 4 (6) characters")
    lit("decimal-literal", func="number", typ="Decimal", n=6 if th else 5,
        alphabet="0123456789_.", expect=("good", "bad"),
        bounds="up to 5 (6) characters over digits, _ and .")
    lit("long-decimal", func="number", typ="Decimal", prefix="12_3.",
        n=4, alphabet="0123456789_.", expect=("good", "bad"),
        bounds="12_3. + up to 4 characters")
    lit("long-integer", func="number", prefix="9_87", n=5,
        alphabet="0123456789_", expect=("good", "bad"),
        bounds="9_87 + up to 5 characters over digits and _")
    for nm, typ, pre, k, alpha in (
            ("tiny-decimal", "Decimal", "0.000000000000", 4, "0159_"),
            ("huge-decimal", "Decimal", "12345678901234567890.", 3, "0159_"),
            ("wide-decimal", "Decimal", "123456789.987654321", 3, "0159_."),
            ("huge-integer", "Integer", "99999999999999999999", 3, "0159_"),
            ("huge-hex", "Integer", "0xFfFfFfFfFfFfFfF", 3, "09aF_"),
            ("huge-binary", "Integer", "0b1" + 63 * "0", 3, "01_")):
        lit(nm, func="number", typ=typ, prefix=pre, n=k, alphabet=alpha,
            expect=("good", "bad"), bounds="%s + up to %u characters over %s"
            % (pre, k, alpha))
    for k in range(0, 6 if th else 5):
        lit("string-%u" % k, func="simple_string", n=k, expect=("good",),
            bounds="all bodies of %u characters over a \\ quote blank tab "
            "newline e-acute quote n" % k)
    for q, nm in (("'''", "single"), ('"""', "double")):
        for k in range(0, 7 if th else 6):
            lit("triple-%s-%u" % (nm, k), func="triple_string", quote=q,
                parts=[["s", k]], expect=("good",), w=k,
                bounds="all bodies of %u characters over a blank newline "
                "tab" % k)
        lit("triple-%s-indent" % nm, func="triple_string", quote=q,
            parts=["x\n", ["i1", 2, " \ta"], "y\n", ["i2", 2, " \ta"],
                   "z\n", ["i3", 2, " \t\n"], "w"], expect=("good",), w=5,
            bounds="four lines with indentation of two characters")
        lit("triple-%s-blank" % nm, func="triple_string", quote=q,
            parts=["x\n", ["i1", 4 if th else 3, " \t\n"], "y\n",
                   ["i2", 4 if th else 3, " \n"], "z"], expect=("good",),
            w=5, bounds="lines of blanks and indentations between three "
            "lines")
        lit("triple-%s-ends" % nm, func="triple_string", quote=q,
            parts=[["b", 3, " \t\n"], "x \n  y", ["e", 3, " \t\n"]],
            expect=("good",), w=4, bounds="white space of 3 characters at "
            "both ends")
        lit("triple-%s-breaks" % nm, func="triple_string", quote=q,
            parts=["a", ["s", 2, "\x0b\x0c\x1c\x85\u2028\u2029\u00a0b"],
                   "c\n  d", ["t", 1, "\x0b\x0c\x1e\x85\u2028b"], "e\n f"],
            expect=("good",), w=3, bounds="three characters that other "
            "standards take as line ends")
        lit("triple-%s-quotes" % nm, func="triple_string", quote=q,
            parts=[["s", 4, "a\"'\\ "]], expect=("good",), w=3,
            bounds="all bodies of 4 characters over a, quotes, backslash, "
            "blank")

    def pos(name, **k):
        add(name, pid="C03", func="positions", **k)
    for k in range(1, 5 if th else 4):
        pos("pos-%u" % k, n=k, expect=("ok", "error"), w=k,
            bounds="all texts of %u characters over a 1 quotes newline "
            "blank tab = * /" % k)
    pos("pos-line2", before="foo\n", after=" bar /* c */\n", n=3, w=3,
        bounds="three characters between two lines")
    pos("pos-multi", before="x '''", after="''' y\n  z\n",
        n=5 if th else 4, alphabet="a\n '", w=3,
        bounds="multi-line string of 4 (5) characters between tokens")
    pos("pos-comment", before="/*", after="*/ y\n  z", n=4,
        alphabet="a\n *", w=3, bounds="multi-line comment")
    for nm, b, a in (("lines", "\n" * 1023, ""), ("column", "x" * 300 + " ",
                                                   "y" * 300),
                     ("both", "ab\n" * 99 + " " * 99, "\nz")):
        pos("pos-far-" + nm, before=b, after=a, n=2, w=3, alphabet="a1\n =",
            expect=("ok",), bounds="two characters behind %u others" %
            len(b))
    pos("pos-indent", before="", after="ab\n\tcd", n=4,
        alphabet=" \t\n\r", expect=("ok",), w=3,
        bounds="four white space characters before a token")
    return out
