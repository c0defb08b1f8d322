"""Symbolic execution context handed to a harness."""

import z3
from symx import engine as E
from symx import proxies as P


class Failure:
    def __init__(self, message, inputs, kind):
        self.message = message
        self.inputs = inputs
        self.kind = kind


class SymCtx:
    symbolic = True

    def __init__(self, eng, params):
        self.eng = eng
        self.params = params
        self.failures = []
        self.asserts = 0
        self.unknown = 0
        self.reached = set()
        self.notes = []

    # ---- inputs ------------------------------------------------------
    def integer(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.eng.inputs[name] = ("int", v)
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            self.eng.assume(z3.And(cs), check=False)
        return P.SymInt(v)

    def boolean(self, name):
        v = z3.Bool(name)
        self.eng.inputs[name] = ("bool", v)
        return P.SymBool(v)

    def string(self, name, length, alphabet):
        """a string of exactly `length` characters over the alphabet"""
        dom = frozenset(ord(c) for c in alphabet)
        el = []
        vs = []
        for k in range(length):
            nm = "%s.%u" % (name, k)
            v = z3.Int(nm)
            ch = P.SymChar(nm, v, dom)
            self.eng.dom[nm] = dom
            self.eng.assume(ch._or(dom), check=False)
            el.append(ch)
            vs.append(v)
        self.eng.inputs[name] = ("str", vs)
        return P.mkstr(el)

    def string_upto(self, name, maxlen, alphabet, minlen=0):
        n = self.choice(name + ".len", maxlen - minlen + 1) + minlen
        return self.string(name, n, alphabet)

    def char(self, name, alphabet):
        return self.string(name, 1, alphabet)

    def choice(self, name, n):
        """an integer 0..n-1, decided on this path"""
        v = z3.Int(name)
        self.eng.inputs[name] = ("int", v)
        self.eng.assume(z3.And(v >= 0, v < n), check=False)
        shard = self.params.get("shard", {})
        if name in shard:
            self.eng.assume(z3.Or([v == k for k in shard[name]]), check=False)
        for k in range(n - 1):
            if self.eng.fork(v == k):
                return k
        if self.eng.fork(v == n - 1):
            return n - 1
        raise E.Infeasible()

    def pick(self, name, options):
        options = list(options)
        return options[self.choice(name, len(options))]

    def int_text(self, name, digits=4):
        """(text of an unsigned integer literal, its symbolic value)"""
        v = z3.Int(name)
        names = []
        vs = []
        dom = frozenset(range(48, 58))
        for k in range(digits):
            nm = "%s.d%u" % (name, k)
            names.append(nm)
            vs.append(z3.Int(nm))
            self.eng.dom[nm] = dom
        self.eng.inputs[name] = ("numeral", v, digits)
        self.eng.assume(z3.And(v >= 0, v < 10 ** digits), check=False)
        link = z3.And([z3.And(x >= 48, x <= 57) for x in vs] +
                      [v == z3.Sum([(x - 48) * 10 ** (digits - 1 - k)
                                    for k, x in enumerate(vs)])])
        self.eng.int_holes[names[0]] = (v, names)
        for n in names:
            self.eng.links[n] = (link, names)
        el = ["0"] + [P.SymChar(n, x, dom) for n, x in zip(names, vs)]
        return P.SymStr(el), P.SymInt(v)

    def dec_text(self, name, whole=3, frac=2):
        a, av = self.int_text(name + "_w", whole)
        b, bv = self.int_text(name + "_f", frac)
        b = b[1:]
        return a + "." + b, P.SymReal(
            z3.ToReal(av.e) + z3.ToReal(bv.e) / z3.RealVal(10 ** frac))

    # ---- property ----------------------------------------------------
    def assume(self, cond):
        if type(cond) is P.SymBool:
            self.eng.assume(cond.e)
        elif not cond:
            raise E.Infeasible()

    def check(self, cond, message="", *args):
        self.asserts += 1
        if type(cond) is P.SymBool:
            verdict, model = self.eng.decide(cond.e)
            if verdict == "valid":
                return
            if verdict == "unknown":
                self.unknown += 1
                return
        else:
            if cond:
                return
            model = self.eng.model()
            if model is None:
                self.unknown += 1
                return
        try:
            if args:
                message = message % tuple(
                    a if type(a) in (str, int) else
                    ("<symbolic>" if P.deep_sym(a) else a) for a in args)
        except Exception:                       # pylint: disable=W0718
            pass
        self.failures.append(Failure(str(message) if type(message) is str
                                     else "<symbolic message>",
                                     self.inputs_of(model), "assert"))

    def reach(self, label):
        """vacuity witness: this point is reached by a feasible path"""
        self.reached.add(label)

    def note(self, text):
        self.notes.append(text)

    def inputs_of(self, model):
        out = {}
        for name, d in self.eng.inputs.items():
            if d[0] == "int":
                out[name] = model.eval(d[1], model_completion=True).as_long()
            elif d[0] == "numeral":
                out[name] = model.eval(d[1], model_completion=True).as_long()
            elif d[0] == "bool":
                out[name] = z3.is_true(model.eval(d[1],
                                                  model_completion=True))
            elif d[0] == "str":
                out[name] = "".join(
                    chr(model.eval(v, model_completion=True).as_long())
                    for v in d[1])
        return out
