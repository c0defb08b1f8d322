"""Driving the public API of the code under test; the same code runs on the
instrumented modules (symbolically) and on the untouched ones (natively)."""

import contextlib
import importlib
import os
import sys


class Sink:
    """Output stream that may receive symbolic text"""
    symbolic_sink = True

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def text(self):
        r = ""
        for p in self.parts:
            r = r + p
        return r


class Msg:
    def __init__(self, location, kind, message, category, extra):
        self.location = location
        self.kind = kind            # error / warning / issue / check error ..
        self.message = message
        self.category = category
        self.extra = extra

    @property
    def file(self):
        return self.location.file_name

    @property
    def line(self):
        return self.location.line_no

    @property
    def col(self):
        return self.location.col_no

    def __repr__(self):
        return "<%s:%s:%s %s: %s>" % (self.file, self.line, self.col,
                                      self.kind, self.message)


class Result:
    def __init__(self):
        self.messages = []
        self.symbols = None
        self.crash = None       # exception that is not a TRLC diagnostic
        self.mh = None
        self.sm = None
        self.out = None
        self.registered = True

    @property
    def accepted(self):
        # some errors let processing continue and a symbol table is still
        # returned (see DESIGN.md); the input counts as rejected
        return self.crash is None and self.symbols is not None and \
            not self.errors

    def of(self, *kinds):
        return [m for m in self.messages if m.kind in kinds]

    @property
    def errors(self):
        return self.of("error")

    @property
    def user(self):
        return self.of("check error", "check warning")

    def objects(self):
        return list(self.symbols.iter_record_objects())

    def obj(self, name):
        for o in self.symbols.iter_record_objects():
            if o.name == name:
                return o
        return None

    def fields(self, name):
        return self.obj(name).to_python_dict()

    def number(self, name, comp):
        """exact value of a numeric component from the syntax tree"""
        v = self.obj(name).field[comp]
        sign = 1
        while type(v).__name__ == "Unary_Expression":
            if str(v.operator) == "Unary_Operator.MINUS":
                sign = -sign
            v = v.n_operand
        return v.value * sign

    def summary(self):
        if self.crash is not None:
            return "crash: %s: %s" % (type(self.crash).__name__, self.crash)
        return "%s; messages: %r" % (
            "accepted" if self.symbols is not None else "rejected",
            self.messages)


_HANDLERS = {}


def handler_class():
    errors = importlib.import_module("trlc.errors")
    cls = _HANDLERS.get(id(errors))
    if cls is None:
        class Recorder(errors.Message_Handler):
            def __init__(self, *a, **k):
                self.record = []
                super().__init__(*a, **k)

            def emit(self, location, kind, message, fatal=True,
                     extrainfo=None, category=None):
                self.record.append(Msg(location, str(kind), message,
                                       category, extrainfo))
                super().emit(location=location, kind=kind, message=message,
                             fatal=fatal, extrainfo=extrainfo,
                             category=category)
        cls = Recorder
        _HANDLERS[id(errors)] = cls
    return cls


def touch(name):
    d = os.path.dirname(name)
    if d:
        os.makedirs(d, exist_ok=True)
    if not os.path.exists(name):
        with open(name, "w", encoding="UTF-8"):
            pass


def make_handler(res, brief=True, **kw):
    res.out = Sink()
    res.mh = handler_class()(brief=brief, out=res.out, **kw)
    res.messages = res.mh.record
    return res.mh


def run(files, lint=False, verify=False, recover=True, parse_trlc=True,
        brief=True, before=None, primary=None, **mh_kw):
    """Parse and check the given files (name -> text) through the API."""
    trlc = importlib.import_module("trlc.trlc")
    res = Result()
    mh = make_handler(res, brief=brief, **mh_kw)
    try:
        sm = trlc.Source_Manager(mh, lint_mode=lint, verify_mode=verify,
                                 error_recovery=recover,
                                 parse_trlc=parse_trlc)
        res.sm = sm
        if before is not None:
            before(mh, sm)
        for name, content in files.items():
            touch(name)
            if primary is not None and name not in primary:
                ok = sm.register_file(name, content, primary=False)
            else:
                ok = sm.register_file(name, content)
            if not ok:
                res.registered = False
        res.symbols = sm.process()
    except (Exception, SystemExit) as err:      # pylint: disable=W0718
        res.crash = err
    return res
