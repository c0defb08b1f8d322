"""A backtracking regular expression matcher over symbolic strings (forks on
character tests), driven by CPython's own pattern parser."""

import re
import re._parser as sp
import re._constants as sc

from symx import engine as E
from symx import proxies as P


class SymMatch:
    def __init__(self, rx, s, start, end, groups):
        self.re = rx
        self.string = s
        self._spans = {0: (start, end)}
        self._spans.update(groups)
        self.pos = 0
        self.endpos = len(P.elems_of(s))
        self.lastindex = max(groups) if groups else None

    def _gid(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def _get(self, g):
        g = self._gid(g)
        if g > self.re.groups:
            raise IndexError("no such group")
        sp_ = self._spans.get(g)
        if sp_ is None:
            return None
        return P.mkstr(P.elems_of(self.string)[sp_[0]:sp_[1]])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        r = []
        for g in range(1, self.re.groups + 1):
            v = self._get(g)
            r.append(default if v is None else v)
        return tuple(r)

    def groupdict(self, default=None):
        return {n: (self._get(i) if self._get(i) is not None else default)
                for n, i in self.re.groupindex.items()}

    def start(self, g=0):
        return self._spans.get(self._gid(g), (-1, -1))[0]

    def end(self, g=0):
        return self._spans.get(self._gid(g), (-1, -1))[1]

    def span(self, g=0):
        return self._spans.get(self._gid(g), (-1, -1))

    def __bool__(self):
        return True


CATEGORY = {
    sc.CATEGORY_DIGIT: ("d", lambda c: re.match(r"\d", c) is not None),
    sc.CATEGORY_NOT_DIGIT: ("D", lambda c: re.match(r"\D", c) is not None),
    sc.CATEGORY_SPACE: ("s", lambda c: re.match(r"\s", c) is not None),
    sc.CATEGORY_NOT_SPACE: ("S", lambda c: re.match(r"\S", c) is not None),
    sc.CATEGORY_WORD: ("w", lambda c: re.match(r"\w", c) is not None),
    sc.CATEGORY_NOT_WORD: ("W", lambda c: re.match(r"\W", c) is not None),
}


class Matcher:
    def __init__(self, rx, s):
        self.rx = rx
        self.s = s
        self.el = P.elems_of(s)
        self.flags = rx.flags
        if self.flags & (re.IGNORECASE | re.ASCII | re.LOCALE):
            raise E.Undecided("regular expression flags")
        self.tree = sp.parse(rx.pattern, rx.flags & ~re.UNICODE)

    def cpred(self, c, key, fn):
        if type(c) is P.SymChar:
            return bool(c.pred(key, fn))
        return fn(c)

    def test_in(self, items, c):
        """one character against a set; one fork"""
        key = ("re", repr(items))

        def fn(ch):
            neg = False
            hit = False
            o = ord(ch)
            for op, av in items:
                if op is sc.NEGATE:
                    neg = True
                elif op is sc.LITERAL:
                    hit = hit or o == av
                elif op is sc.RANGE:
                    hit = hit or av[0] <= o <= av[1]
                elif op is sc.CATEGORY:
                    hit = hit or CATEGORY[av][1](ch)
                else:
                    raise E.Undecided("regex set item %s" % op)
            return hit != neg
        return self.cpred(c, key, fn)

    def is_word(self, i):
        if i < 0 or i >= len(self.el):
            return False
        return self.cpred(self.el[i], ("re", "w"),
                          CATEGORY[sc.CATEGORY_WORD][1])

    def m(self, nodes, n, i, g, k):
        """match nodes[n:] at i with groups g, then continuation k(i, g)"""
        if n == len(nodes):
            return k(i, g)
        op, av = nodes[n]
        el = self.el

        def nxt(j, gg):
            return self.m(nodes, n + 1, j, gg, k)

        if op is sc.LITERAL:
            if i < len(el) and bool(P.char_eq(el[i], chr(av))):
                return nxt(i + 1, g)
            return None
        if op is sc.NOT_LITERAL:
            if i < len(el) and not bool(P.char_eq(el[i], chr(av))):
                return nxt(i + 1, g)
            return None
        if op is sc.ANY:
            if i < len(el) and (self.flags & re.DOTALL or
                                not bool(P.char_eq(el[i], "\n"))):
                return nxt(i + 1, g)
            return None
        if op is sc.IN:
            if i < len(el) and self.test_in(av, el[i]):
                return nxt(i + 1, g)
            return None
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op is sc.SUBPATTERN:
            gid, _, _, sub = av

            def close(j, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (i, j)
                return nxt(j, gg)
            return self.m(list(sub), 0, i, g, close)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(count, j, gg):
                def again(jj, g2):
                    if jj == j and count >= lo:
                        return None
                    return rep(count + 1, jj, g2)
                if count < lo:
                    return self.m(sub, 0, j, gg, again)
                if op is sc.MAX_REPEAT:
                    if hi is sc.MAXREPEAT or count < hi:
                        r = self.m(sub, 0, j, gg, again)
                        if r is not None:
                            return r
                    return nxt(j, gg)
                r = nxt(j, gg)
                if r is not None:
                    return r
                if hi is sc.MAXREPEAT or count < hi:
                    return self.m(sub, 0, j, gg, again)
                return None
            return rep(0, i, g)
        if op is sc.AT:
            if av is sc.AT_BEGINNING:
                ok = i == 0 or (self.flags & re.MULTILINE and
                                bool(P.char_eq(el[i - 1], "\n")))
            elif av is sc.AT_BEGINNING_STRING:
                ok = i == 0
            elif av is sc.AT_END:
                ok = i == len(el) or (
                    (i == len(el) - 1 or self.flags & re.MULTILINE) and
                    bool(P.char_eq(el[i], "\n")))
            elif av is sc.AT_END_STRING:
                ok = i == len(el)
            elif av is sc.AT_BOUNDARY:
                ok = self.is_word(i - 1) != self.is_word(i)
            elif av is sc.AT_NON_BOUNDARY:
                ok = self.is_word(i - 1) == self.is_word(i)
            else:
                raise E.Undecided("regex anchor")
            return nxt(i, g) if ok else None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise E.Undecided("look-behind")
                j = i - w[0]
                r = None
                if j >= 0:
                    r = self.m(list(sub), 0, j, g,
                               lambda jj, gg: (jj, gg) if jj == i else None)
            else:
                r = self.m(list(sub), 0, i, g, lambda jj, gg: (jj, gg))
            if (r is not None) == (op is sc.ASSERT):
                return nxt(i, r[1] if r is not None else g)
            return None
        if op is sc.GROUPREF:
            a, b = g.get(av, (None, None))
            if a is None:
                return None
            for x in range(a, b):
                if i >= len(el) or not bool(P.char_eq(el[i], el[x])):
                    return None
                i += 1
            return nxt(i, g)
        raise E.Undecided("regex construct %s" % op)

    def at(self, i, full=False):
        r = self.m(list(self.tree), 0, i, {},
                   lambda j, g: ((j, g) if not full or j == len(self.el)
                                 else None))
        if r is None:
            return None
        return SymMatch(self.rx, self.s, i, r[0], r[1])

    def search(self, start):
        for i in range(start, len(self.el) + 1):
            r = self.at(i)
            if r is not None:
                return r
        return None

    def iterate(self):
        i = 0
        last = -1
        while i <= len(self.el):
            r = self.search(i)
            if r is None:
                return
            if r.end() == r.start() and r.start() == last:
                i += 1
                continue
            yield r
            last = r.end()
            i = r.end() if r.end() > r.start() else r.end() + 1


def pattern_method(rx, name, args, kw):
    if name in ("sub", "subn"):
        repl, s = args[0], args[1]
        count = args[2] if len(args) > 2 else kw.get("count", 0)
        mt = Matcher(rx, s)
        out = []
        pos = 0
        n = 0
        for m in mt.iterate():
            if count and n >= count:
                break
            out += mt.el[pos:m.start()]
            if callable(repl):
                out += P.elems_of(repl(m))
            else:
                out += expand(rx, repl, m)
            pos = m.end()
            n += 1
        out += mt.el[pos:]
        r = P.mkstr(out)
        return (r, n) if name == "subn" else r
    s = args[0]
    mt = Matcher(rx, s)
    if name == "match":
        return mt.at(args[1] if len(args) > 1 else 0)
    if name == "fullmatch":
        return mt.at(0, True)
    if name == "search":
        return mt.search(args[1] if len(args) > 1 else 0)
    if name == "finditer":
        return mt.iterate()
    if name == "findall":
        out = []
        for m in mt.iterate():
            if rx.groups == 0:
                out.append(m.group())
            elif rx.groups == 1:
                out.append(m.group(1) or "")
            else:
                out.append(m.groups(""))
        return out
    if name == "split":
        out = []
        pos = 0
        for m in mt.iterate():
            if m.end() == m.start():
                continue
            out.append(P.mkstr(mt.el[pos:m.start()]))
            out += list(m.groups())
            pos = m.end()
        out.append(P.mkstr(mt.el[pos:]))
        return out
    raise E.Undecided("regex method %s" % name)


def expand(rx, template, m):
    """replacement template with numeric / named back references"""
    template = P.concrete(template)
    parsed = sp.parse_template(template, rx)
    out = []
    for part in parsed:
        if isinstance(part, int):
            v = m.group(part)
            out += P.elems_of(v if v is not None else "")
        else:
            out += list(part)
    return out
