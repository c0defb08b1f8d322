"""Load Python source (the code under test, regenerated from /repo on every
run, and the harnesses) with the operations that CPython would resolve in C
routed through the symbolic proxies."""

import ast
import builtins
import collections
import copy as copymod
import difflib
import fractions
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import re
import sys
import types

from symx import engine as E
from symx import proxies as P
from symx import symre

Fraction = fractions.Fraction
SYM_TYPES = P.SYM_TYPES

SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec",
              "__import__"}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.cls_depth = 0

    @staticmethod
    def _name(n, node):
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)

    def _call(self, fn, args, node, keywords=()):
        return ast.copy_location(
            ast.Call(func=self._name(fn, node), args=list(args),
                     keywords=list(keywords)), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in SKIP_CALLS or f.id.startswith("__sx_"):
                return node
            return self._call("__sx_call__", [f] + node.args, node,
                              node.keywords)
        if isinstance(f, ast.Attribute):
            if f.attr.startswith("__") and not f.attr.endswith("__"):
                return node
            return self._call(
                "__sx_callm__",
                [f.value, ast.copy_location(ast.Constant(f.attr), node)] +
                node.args, node, node.keywords)
        return self._call("__sx_call__", [f] + node.args, node, node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
                # a in b in c: rare; split pairwise (operands are names or
                # constants in practice, evaluated at most twice)
                parts = []
                left = node.left
                for op, right in zip(node.ops, node.comparators):
                    parts.append(self.visit_Compare(ast.copy_location(
                        ast.Compare(left, [op], [right]), node)))
                    left = right
                return ast.copy_location(ast.BoolOp(ast.And(), parts), node)
            return node
        op = node.ops[0]
        a, b = node.left, node.comparators[0]
        if isinstance(op, ast.In):
            return self._call("__sx_in__", [a, b], node)
        if isinstance(op, ast.NotIn):
            return self._call("__sx_notin__", [a, b], node)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, ast.Constant) and b.value is None:
                return node
            return self._call("__sx_is__" if isinstance(op, ast.Is)
                              else "__sx_isnot__", [a, b], node)
        nm = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le",
              ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        return self._call("__sx_%s__" % nm, [a, b], node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._call("__sx_not__", [node.operand], node)
        return node

    OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul",
           ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
           ast.Pow: "pow"}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        nm = self.OPS.get(type(node.op))
        if nm is None:
            return node
        return self._call("__sx_%s__" % nm, [node.left, node.right], node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        nm = self.OPS.get(type(node.op))
        if nm is not None and isinstance(node.target, ast.Name):
            load = self._name(node.target.id, node)
            return ast.copy_location(
                ast.Assign([node.target],
                           self._call("__sx_i%s__" % nm, [load, node.value],
                                      node)), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and \
           not isinstance(node.slice, ast.Slice):
            return self._call("__sx_getitem__", [node.value, node.slice],
                              node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.slice,
                                                         ast.Slice):
            return self._call("__sx_slice__", [
                node.value] + [x if x is not None else
                               ast.copy_location(ast.Constant(None), node)
                               for x in (node.slice.lower, node.slice.upper,
                                         node.slice.step)], node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.copy_location(
            ast.Tuple([node.key, node.value], ast.Load()), node)
        return self._call("__sx_dict__", [ast.copy_location(
            ast.ListComp(pair, node.generators), node)], node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if None in node.keys or \
           all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return self._call("__sx_dict__", [ast.copy_location(ast.List(
            [ast.copy_location(ast.Tuple([k, v], ast.Load()), node)
             for k, v in zip(node.keys, node.values)], ast.Load()), node)],
            node)

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript) and \
           not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(self._call("__sx_setitem__",
                                    [t.value, t.slice, node.value], node)),
                node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                self.generic_visit(v)
                spec = v.format_spec
                if spec is None:
                    spec = ast.copy_location(ast.Constant(""), node)
                elif isinstance(spec, ast.JoinedStr):
                    spec = self.visit_JoinedStr(spec)
                parts.append(ast.copy_location(
                    ast.Tuple([v.value,
                               ast.copy_location(ast.Constant(v.conversion),
                                                 node), spec],
                              ast.Load()), node))
        return self._call("__sx_fstr__", [ast.copy_location(
            ast.List(parts, ast.Load()), node)], node)

    def visit_FunctionDef(self, node):
        # annotations and decorators stay as they are
        node.body = [self.visit(s) for s in node.body]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None
                                 for d in node.args.kw_defaults]
        node.body = flatten(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def flatten(body):
    out = []
    for s in body:
        if isinstance(s, list):
            out += s
        else:
            out.append(s)
    return out


# ----------------------------------------------------------------------
# run-time support
# ----------------------------------------------------------------------
SYMDICTS = {}


def has_sym_key(k):
    t = type(k)
    if t in SYM_TYPES:
        return True
    if t is tuple:
        return any(has_sym_key(i) for i in k)
    return False


def same_key(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same_key(x, y):
                return False
        return True
    if ta in SYM_TYPES or tb in SYM_TYPES:
        return bool(a == b)
    return a == b


def find_key(d, k):
    for key in list(d):
        if same_key(key, k):
            return True, key
    return False, None


def is_symdict(d):
    return SYMDICTS and id(d) in SYMDICTS


def raw_set(d, k, v):
    P.RAW_HASH[0] = True
    try:
        dict.__setitem__(d, k, v) if type(d) is dict else \
            type(d).__setitem__(d, k, v)
    finally:
        P.RAW_HASH[0] = False
    SYMDICTS[id(d)] = d


def raw_get(d, key):
    P.RAW_HASH[0] = True
    try:
        return d[key]
    finally:
        P.RAW_HASH[0] = False


def raw_pop(d, key):
    P.RAW_HASH[0] = True
    try:
        return d.pop(key)
    finally:
        P.RAW_HASH[0] = False


def sx_getitem(o, k):
    t = type(o)
    if t is dict or t is collections.OrderedDict:
        if has_sym_key(k) or is_symdict(o):
            ok, key = find_key(o, k)
            if not ok:
                raise KeyError(k)
            return raw_get(o, key)
        return o[k]
    if type(k) is P.SymInt and (t is list or t is tuple or t is str):
        return o[P.index_of(k, len(o))]
    return o[k]


def sx_slice(o, a, b, c):
    if a is not None and type(a) in SYM_TYPES or \
       b is not None and type(b) in SYM_TYPES or \
       c is not None and type(c) in SYM_TYPES:
        return o[P.concrete(a):P.concrete(b):P.concrete(c)]
    return o[a:b:c]


def sx_dict(pairs):
    d = {}
    for k, v in pairs:
        sx_setitem(d, k, v)
    return d


def sx_setitem(o, k, v):
    t = type(o)
    if t is dict or t is collections.OrderedDict:
        if has_sym_key(k) or is_symdict(o):
            ok, key = find_key(o, k)
            raw_set(o, key if ok else k, v)
            return
    elif type(k) is P.SymInt and t is list:
        o[P.index_of(k, len(o))] = v
        return
    o[k] = v


def sx_in(a, b):
    tb = type(b)
    if tb is P.SymStr:
        return b.contains(a)
    ta = type(a)
    if tb is str:
        if ta is P.SymStr:
            return P.SymStr(list(b)).contains(a)
        return a in b
    if tb is set or tb is frozenset or tb is dict or \
       tb is collections.OrderedDict or tb is type({}.keys()):
        if has_sym_key(a) or is_symdict(b):
            rs = []
            for x in list(b):
                r = eq_value(x, a)
                if r is True:
                    return True
                if type(r) is P.SymBool:
                    rs.append(r)
                elif r:
                    return True
            return P.lor(*rs) if rs else False
        return a in b
    if tb is list or tb is tuple:
        if P.deep_sym(a) or any(type(x) in SYM_TYPES for x in b):
            rs = []
            for x in b:
                if x is a:
                    return True
                r = eq_value(x, a)
                if r is True:
                    return True
                if type(r) is P.SymBool:
                    rs.append(r)
                elif r:
                    return True
            return P.lor(*rs) if rs else False
        return a in b
    return a in b


def eq_value(a, b):
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        rs = [eq_value(x, y) for x, y in zip(a, b)]
        if any(r is False for r in rs):
            return False
        return P.land(*rs)
    return a == b


def sx_notin(a, b):
    return P.lnot(sx_in(a, b))


def sx_is(a, b):
    if type(a) in SYM_TYPES or type(b) in SYM_TYPES:
        if a is b:
            return True
        if b is True or b is False:
            return (a == b) if type(a) is P.SymBool else False
        if a is True or a is False:
            return (b == a) if type(b) is P.SymBool else False
        return False
    return a is b


def sx_isnot(a, b):
    return P.lnot(sx_is(a, b))


def sx_not(a):
    if type(a) is P.SymBool:
        return a.neg()
    return not a


def _cmp(name, swap, native):
    def f(a, b):
        ta, tb = type(a), type(b)
        if tb in SYM_TYPES and ta not in SYM_TYPES:
            if name == "__eq__" and ta not in (str, int, float, bool,
                                               Fraction):
                return native(a, b)
            r = getattr(b, swap)(a)
            if r is NotImplemented:
                return native(a, b)
            return r
        return native(a, b)
    return f


sx_eq = _cmp("__eq__", "__eq__", lambda a, b: a == b)
sx_ne = _cmp("__eq__", "__ne__", lambda a, b: a != b)
sx_lt = _cmp("__lt__", "__gt__", lambda a, b: a < b)
sx_le = _cmp("__le__", "__ge__", lambda a, b: a <= b)
sx_gt = _cmp("__gt__", "__lt__", lambda a, b: a > b)
sx_ge = _cmp("__ge__", "__le__", lambda a, b: a >= b)

NUM = (int, bool, Fraction)


def sx_add(a, b):
    if type(a) is Fraction and type(b) in (P.SymInt, P.SymReal):
        return b.__radd__(a)
    return a + b


def sx_iadd(a, b):
    if type(a) is list:
        a += b
        return a
    return sx_add(a, b)


def sx_sub(a, b):
    if type(a) is Fraction and type(b) in (P.SymInt, P.SymReal):
        return b.__rsub__(a)
    return a - b


def sx_isub(a, b):
    if type(b) in SYM_TYPES:
        return sx_sub(a, b)
    a -= b
    return a


def sx_mul(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction and tb in (P.SymInt, P.SymReal):
        return b.__rmul__(a)
    if tb is P.SymInt and ta in (str, list, tuple):
        return a * b.force()
    return a * b


def sx_imul(a, b):
    return sx_mul(a, b)


def sx_truediv(a, b):
    ta, tb = type(a), type(b)
    if (ta is Fraction or ta is P.SymReal) and tb in SYM_TYPES or \
       ta is P.SymReal:
        return P.real_div(a, b)
    return a / b


def sx_floordiv(a, b):
    if type(a) in SYM_TYPES or type(b) in SYM_TYPES:
        return P.int_floordiv(a, b)
    return a // b


def sx_mod(a, b):
    ta = type(a)
    if ta is str or ta is P.SymStr:
        return P.percent_format(a, b)
    if ta in SYM_TYPES or type(b) in SYM_TYPES:
        return P.int_mod(a, b)
    return a % b


def sx_pow(a, b):
    if type(a) in SYM_TYPES or type(b) in SYM_TYPES:
        return P.power(a, b)
    return a ** b


# -- calls -------------------------------------------------------------
OV = {}
KEEP = []


def ov(f):
    def deco(h):
        OV[id(f)] = h
        KEEP.append(f)
        return h
    return deco


@ov(isinstance)
def o_isinstance(x, t):
    if type(x) in SYM_TYPES:
        c = x.__class__
        if type(t) is tuple:
            return any(o_isinstance(x, i) for i in t)
        if isinstance(t, types.UnionType):
            return any(o_isinstance(x, i) for i in t.__args__)
        return issubclass(c, t)
    return isinstance(x, t)


@ov(type)
def o_type(*a):
    if len(a) == 1 and type(a[0]) in SYM_TYPES:
        return a[0].__class__
    return type(*a)


@ov(int)
def o_int(x=0, base=None):
    t = type(x)
    if t is P.SymStr:
        return P.str_to_int(x, 10 if base is None else base)
    if t is P.SymInt:
        return x
    if t is P.SymBool:
        return x.as_int()
    if t is P.SymReal:
        return x.__trunc__()
    if base is None:
        return int(x)
    return int(x, P.concrete(base))


@ov(float)
def o_float(x=0.0):
    t = type(x)
    if t is P.SymReal:
        return x.as_float()
    if t is P.SymInt:
        return P.SymReal(P.rexpr(x), True)
    if t is P.SymStr:
        return P.str_to_fraction(x).as_float()
    return float(x)


@ov(bool)
def o_bool(x=False):
    t = type(x)
    if t is P.SymBool:
        return x
    if t is P.SymInt or t is P.SymReal:
        return P.mkbool(x.e != 0)
    return bool(x)


@ov(str)
def o_str(*a, **k):
    if len(a) == 1 and not k:
        r = P.to_str(P.pre_text(a[0]))
        return r
    return str(*a, **k)


@ov(repr)
def o_repr(x):
    if P.deep_sym(x):
        return P.SymStr(None, lambda: list(repr(P.concrete(x))))
    return P.repr_text(x)


@ov(ord)
def o_ord(x):
    if type(x) is P.SymStr:
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return P.SymInt(x.el[0].expr())
    return ord(x)


@ov(chr)
def o_chr(x):
    if type(x) is P.SymInt:
        return chr(x.force())
    return chr(x)


@ov(Fraction)
def o_fraction(numerator=0, denominator=None):
    a, b = numerator, denominator
    if type(a) in SYM_TYPES or type(b) in SYM_TYPES:
        return P.fraction(a, b)
    return Fraction(a, b) if b is not None else Fraction(a)


@ov(math.floor)
def o_floor(x):
    if type(x) in SYM_TYPES:
        return P.real_floor(x)
    return math.floor(x)


@ov(math.ceil)
def o_ceil(x):
    if type(x) in SYM_TYPES:
        return -P.real_floor(-x)
    return math.ceil(x)


@ov(math.trunc)
def o_trunc(x):
    if type(x) in SYM_TYPES:
        return x.__trunc__()
    return math.trunc(x)


@ov(round)
def o_round(x, ndigits=None):
    n = ndigits
    if type(x) in SYM_TYPES:
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


@ov(abs)
def o_abs(x):
    return abs(x)


@ov(divmod)
def o_divmod(a, b):
    return sx_floordiv(a, b), sx_mod(a, b)


@ov(pow)
def o_pow(a, b, c=None):
    if c is not None:
        return pow(a, b, c)
    return sx_pow(a, b)


@ov(len)
def o_len(x):
    return len(x)


@ov(hash)
def o_hash(x):
    return hash(x)


@ov(print)
def o_print(*args, sep=" ", end="\n", file=None, flush=False):
    text = ""
    for n, a in enumerate(args):
        if n:
            text = text + sep
        text = text + P.to_str(P.pre_text(a))
    text = text + end
    f = file if file is not None else sys.stdout
    if type(text) is P.SymStr and not getattr(f, "symbolic_sink", False):
        text = "<symbolic>\n"
    f.write(text)


@ov(difflib.get_close_matches)
def o_gcm(word, possibilities, n=3, cutoff=0.6):
    possibilities = list(possibilities)
    if P.deep_sym(word) or P.deep_sym(possibilities):
        return []
    return difflib.get_close_matches(word, possibilities, n, cutoff)


@ov(copymod.copy)
def o_copy(x):
    r = copymod.copy(x)
    if id(x) in SYMDICTS:
        SYMDICTS[id(r)] = r
    return r


@ov(dict)
def o_dict(*a, **k):
    r = dict(*a, **k)
    if a and type(a[0]) is dict and id(a[0]) in SYMDICTS:
        SYMDICTS[id(r)] = r
    return r


@ov(sorted)
def o_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


@ov(max)
def o_max(*a, **k):
    return max(*a, **k)


@ov(min)
def o_min(*a, **k):
    return min(*a, **k)


@ov(sum)
def o_sum(it, start=0):
    r = start
    for x in it:
        r = sx_add(r, x)
    return r


def _not_forking_any(it):
    acc = []
    for x in it:
        if type(x) is P.SymBool:
            acc.append(x)
        elif x:
            return True
    return P.lor(*acc) if acc else False


@ov(range)
def o_range(*a):
    return range(*[P.concrete(x) for x in a])


for _f in (re.match, re.fullmatch, re.search, re.sub, re.findall, re.finditer,
           re.split, re.subn):
    def _mk(f):
        @ov(f)
        def h(pattern, *args, **kw):
            if "string" in kw:
                args = args + (kw.pop("string"),)
            if any(type(x) in SYM_TYPES for x in args) or \
               type(pattern) in SYM_TYPES:
                flags = kw.pop("flags", 0)
                pattern = P.concrete(pattern)
                rx = pattern if isinstance(pattern, re.Pattern) \
                    else re.compile(pattern, flags)
                return symre.pattern_method(rx, f.__name__, args, kw)
            return f(pattern, *args, **kw)
    _mk(_f)


@ov(re.compile)
def o_recompile(p, flags=0):
    return re.compile(P.concrete(p), flags)


@ov(re.escape)
def o_reescape(p):
    return re.escape(P.concrete(p))


@ov(os.path.splitext)
def o_splitext(p):
    return os.path.splitext(P.concrete(p))


NATIVE_OK = {id(f) for f in (
    enumerate, zip, reversed, any, all, list, tuple, set, frozenset, iter,
    next, map, filter, callable, getattr, setattr, hasattr, issubclass, id,
    super, property, functools.reduce, functools.partial, object,
    collections.OrderedDict, collections.defaultdict, collections.deque,
    slice, copymod.deepcopy, staticmethod, classmethod)}
NATIVE_OK_REFS = NATIVE_OK


def is_instrumented_callable(f):
    t = type(f)
    if t is types.MethodType:
        f = f.__func__
        t = type(f)
    if t is types.FunctionType:
        return "__sx_call__" in f.__globals__
    if isinstance(f, type):
        return f.__module__ in P.INSTRUMENTED or \
            issubclass(f, BaseException)
    return True   # instances with __call__


def sx_call(f, /, *a, **k):
    h = OV.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is types.FunctionType:
        if "__sx_call__" in f.__globals__:
            return f(*a, **k)
    elif t is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType and "__sx_call__" in fn.__globals__:
            return f(*a, **k)
    elif id(f) in NATIVE_OK:
        return f(*a, **k)
    elif isinstance(f, type) and is_instrumented_callable(f):
        return f(*a, **k)
    elif t is types.BuiltinMethodType and \
            type(getattr(f, "__self__", None)) in (list, dict, set, str,
                                                   collections.OrderedDict):
        return sx_callm(f.__self__, f.__name__, *a, **k)
    if getattr(f, "__module__", None) is not None and \
       str(f.__module__).startswith("symx"):
        return f(*a, **k)
    # foreign code: hand over ordinary values only
    if a and any(P.deep_sym(x) for x in a):
        a = [P.concrete(x) for x in a]
    if k and any(P.deep_sym(x) for x in k.values()):
        k = {n: P.concrete(v) for n, v in k.items()}
    return f(*a, **k)


def sx_callm(o, name, /, *a, **k):
    t = type(o)
    if t is str:
        if name == "join" and a:
            items = list(a[0])
            for it in items:
                if type(it) is P.SymStr:
                    return P.join(o, items)
            return o.join(items)
        if name == "format":
            if any(P.deep_sym(x) for x in a) or \
               any(P.deep_sym(x) for x in k.values()):
                return P.SymStr(None, lambda: list(
                    o.format(*P.concrete(list(a)),
                             **{n: P.concrete(v) for n, v in k.items()})))
            return o.format(*a, **k)
        for x in a:
            if type(x) in SYM_TYPES or \
               type(x) is tuple and any(type(i) in SYM_TYPES for i in x):
                return getattr(P.SymStr(list(o)), name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if t is dict or t is collections.OrderedDict:
        if name in ("get", "pop", "setdefault") and a and \
           (has_sym_key(a[0]) or is_symdict(o)):
            ok, key = find_key(o, a[0])
            if name == "get":
                if ok:
                    return raw_get(o, key)
                return a[1] if len(a) > 1 else k.get("default")
            if name == "pop":
                if ok:
                    return raw_pop(o, key)
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            if not ok:
                raw_set(o, a[0], a[1] if len(a) > 1 else None)
                return raw_get(o, a[0])
            return raw_get(o, key)
        if name == "update" and a and isinstance(a[0], dict) and \
           (is_symdict(a[0]) or is_symdict(o)):
            for key in list(a[0]):
                sx_setitem(o, key, raw_get(a[0], key))
            return None
        if name == "copy" and is_symdict(o):
            r = o.copy()
            SYMDICTS[id(r)] = r
            return r
        return getattr(o, name)(*a, **k)
    if t is list or t is set or t is tuple or t is frozenset:
        return getattr(o, name)(*a, **k)
    if t is re.Pattern:
        if any(type(x) in SYM_TYPES for x in a):
            return symre.pattern_method(o, name, a, k)
        return getattr(o, name)(*a, **k)
    if t in SYM_TYPES:
        return getattr(o, name)(*a, **k)
    if t is type and o is str and a and type(a[0]) in SYM_TYPES:
        return getattr(a[0], name)(*a[1:], **k)
    f = getattr(o, name)
    return sx_call(f, *a, **k)


def runtime():
    return {
        "__sx_call__": sx_call, "__sx_callm__": sx_callm,
        "__sx_in__": sx_in, "__sx_notin__": sx_notin,
        "__sx_is__": sx_is, "__sx_isnot__": sx_isnot, "__sx_not__": sx_not,
        "__sx_eq__": sx_eq, "__sx_ne__": sx_ne, "__sx_lt__": sx_lt,
        "__sx_le__": sx_le, "__sx_gt__": sx_gt, "__sx_ge__": sx_ge,
        "__sx_add__": sx_add, "__sx_sub__": sx_sub, "__sx_mul__": sx_mul,
        "__sx_truediv__": sx_truediv, "__sx_floordiv__": sx_floordiv,
        "__sx_mod__": sx_mod, "__sx_pow__": sx_pow,
        "__sx_iadd__": sx_iadd, "__sx_isub__": sx_isub,
        "__sx_imul__": sx_imul, "__sx_itruediv__": sx_truediv,
        "__sx_ifloordiv__": sx_floordiv, "__sx_imod__": sx_mod,
        "__sx_ipow__": sx_pow,
        "__sx_dict__": sx_dict,
        "__sx_getitem__": sx_getitem, "__sx_setitem__": sx_setitem,
        "__sx_slice__": sx_slice, "__sx_fstr__": P.fstring,
    }


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="UTF-8") as fd:
            source = fd.read()
        code = transform(source, self.path)
        module.__dict__.update(runtime())
        P.INSTRUMENTED.add(module.__name__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """prefix -> directory map of modules to instrument"""
    def __init__(self, roots):
        self.roots = roots   # dict: top-level name -> path (dir or file)

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            return None
        parts = fullname.split(".")[1:]
        if os.path.isfile(root):
            if parts:
                return None
            return importlib.util.spec_from_file_location(
                fullname, root, loader=Loader(root))
        p = os.path.join(root, *parts)
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            if not os.path.isfile(init):
                return None
            return importlib.util.spec_from_file_location(
                fullname, init, loader=Loader(init),
                submodule_search_locations=[p])
        if os.path.isfile(p + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, p + ".py", loader=Loader(p + ".py"))
        return None


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
