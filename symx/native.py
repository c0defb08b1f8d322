"""Native side: runs a harness on concrete inputs against the unmodified code
of /repo.  Used for replaying counterexamples and for validating the symbolic
executor (solver witness of every explored path)."""

import contextlib
import importlib
import io
import json
import os
import sys
import traceback


class Stop(BaseException):
    pass


class NativeCtx:
    symbolic = False

    def __init__(self, inputs, params):
        self.inputs = inputs
        self.params = params
        self.failed = []
        self.reached = set()
        self.notes = []
        self.asserts = 0

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def integer(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def boolean(self, name):
        return self._get(name, False)

    def string(self, name, length, alphabet):
        s = self._get(name, None)
        if s is None or len(s) != length:
            s = sorted(alphabet)[0] * length
        return s

    def string_upto(self, name, maxlen, alphabet, minlen=0):
        n = self.choice(name + ".len", maxlen - minlen + 1) + minlen
        return self.string(name, n, alphabet)

    def char(self, name, alphabet):
        return self.string(name, 1, alphabet)

    def choice(self, name, n):
        return self._get(name, self.params.get("shard", {}).get(name, [0])[0])

    def pick(self, name, options):
        options = list(options)
        return options[self.choice(name, len(options))]

    def int_text(self, name, digits=4):
        v = self._get(name, 0)
        return "0" + ("%%0%uu" % digits) % v, v

    def dec_text(self, name, whole=3, frac=2):
        from fractions import Fraction
        a, av = self.int_text(name + "_w", whole)
        b, bv = self.int_text(name + "_f", frac)
        return a + "." + b[1:], Fraction(av) + Fraction(bv, 10 ** frac)

    def assume(self, cond):
        if not cond:
            raise Stop()

    def check(self, cond, message="", *args):
        self.asserts += 1
        if not cond:
            try:
                m = message % args if args else message
            except Exception:                   # pylint: disable=W0718
                m = message
            self.failed.append(str(m))

    def reach(self, label):
        self.reached.add(label)

    def note(self, text):
        self.notes.append(text)


def run_one(module, func, params, inputs):
    mod = importlib.import_module(module)
    c = NativeCtx(inputs, params)
    buf = io.StringIO()
    crash = None
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            getattr(mod, func)(c, **params.get("args", {}))
    except Stop:
        return {"assume": True, "failed": [], "reached": [], "notes": []}
    except Exception as err:                    # pylint: disable=W0718
        crash = "%s: %s" % (type(err).__name__, err)
        tb = traceback.format_exc()
        return {"failed": ["exception escapes: " + crash], "crash": tb,
                "reached": sorted(c.reached), "notes": c.notes}
    return {"failed": c.failed, "reached": sorted(c.reached),
            "notes": c.notes, "asserts": c.asserts}


def setup_path(verif, repo):
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    sys.path.insert(0, verif)
    sys.path.append(os.path.join(repo, "tools", "trlc_rst"))


def serve():
    verif, repo, scratch = sys.argv[1:4]
    setup_path(verif, repo)
    os.chdir(scratch)
    out = os.fdopen(os.dup(1), "w", encoding="UTF-8")
    devnull = open(os.devnull, "w", encoding="UTF-8")
    os.dup2(devnull.fileno(), 1)
    for line in sys.stdin:
        req = json.loads(line)
        if req.get("quit"):
            break
        try:
            r = run_one(req["module"], req["func"], req["params"],
                        req["inputs"])
        except BaseException as err:            # pylint: disable=W0718
            r = {"error": "%s: %s" % (type(err).__name__, err),
                 "failed": [], "reached": []}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
