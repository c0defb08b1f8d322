"""Explore the cases of one property, replay, write evidence."""

import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NATIVE_PY = "/opt/venv/bin/python"
if not os.path.exists(NATIVE_PY):
    NATIVE_PY = sys.executable
PATH_TIMEOUT = 60


class PathTimeout(BaseException):
    pass


class Native:
    """A child process running the unmodified code"""

    def __init__(self):
        self.proc = None
        self.scratch = None
        self.calls = 0

    def start(self):
        self.scratch = tempfile.mkdtemp(prefix="trlcnat")
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONPATH"] = VERIF
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.proc = subprocess.Popen(
            [NATIVE_PY, "-m", "symx.native", VERIF, REPO, self.scratch],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, cwd=VERIF,
            text=True, encoding="UTF-8")

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc = None
        if self.scratch is not None:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    def run(self, module, func, params, inputs, timeout=40):
        if self.proc is None:
            self.start()
        self.calls += 1
        req = json.dumps({"module": module, "func": func, "params": params,
                          "inputs": inputs})
        timer = threading.Timer(timeout, self.proc.kill)
        timer.start()
        try:
            self.proc.stdin.write(req + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        finally:
            alive = timer.is_alive()
            timer.cancel()
        if not line:
            self.stop()
            if not alive:
                return {"failed": ["does not terminate within %us" % timeout],
                        "reached": [], "hang": True}
            return {"failed": [], "reached": [], "error": "worker died"}
        return json.loads(line)


def _alarm(signum, frame):
    raise PathTimeout()


FUNCTIONS = set()


def start_function_recording():
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, "symx")

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO):
            FUNCTIONS.add("%s:%s" % (os.path.relpath(fn, REPO),
                                     code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def known_entry(pid, name, v):
    """the known finding (see known-findings.txt) a violation is, or None"""
    for k in load_known():
        # case=<name> | text in the message | description
        head, text, _ = k.split(" | ", 2)
        prop, case = head.split(" ", 1)
        if prop == "property=" + pid and case == "case=" + name and \
           all(text in m for m in v["message"]):
            return k
    return None


def explore(case, deadline, seed, max_fail=3):
    """Run in a worker process: explore one case completely (or until the
    deadline)."""
    from symx import engine as E
    from symx import instrument as I
    from symx import proxies as P
    from symx.ctx import SymCtx
    import random

    rnd = random.Random(seed)
    out = {"name": case["name"], "paths": 0, "infeasible": 0, "undecided": 0,
           "queries": 0, "solver_s": 0.0, "branches": 0, "forks": 0,
           "asserts": 0, "unknown": 0, "violations": [], "mismatch": [],
           "reached": set(), "native": 0, "native_agree": 0,
           "complete": False, "samples": [], "notes": [], "functions": [],
           "undecided_why": {}}
    eng = E.Engine(case.get("query_ms", 4000), seed)
    eng.links = {}
    eng.int_holes = {}
    eng.deadline = deadline
    E.set_engine(eng)
    mod = importlib.import_module(case["module"])
    func = getattr(mod, case["func"])
    params = case.get("params", {})
    native = Native()
    scratch = tempfile.mkdtemp(prefix="trlcsym")
    os.chdir(scratch)
    signal.signal(signal.SIGALRM, _alarm)
    sys.setrecursionlimit(3000)
    t_start = time.time()
    replay_share = case.get("replay", 1.0)
    known_seen = set()
    fresh = []

    def violation(v):
        k = known_entry(case["property"], case["name"], v)
        if k is None:
            fresh.append(v)
        elif k in known_seen:
            return
        else:
            known_seen.add(k)
        out["violations"].append(v)

    def replay(inputs):
        out["native"] += 1
        r = native.run(case["module"], case["func"], params, inputs)
        if not r.get("failed") and not r.get("assume"):
            out["reached"] |= set(r["reached"])
        return r

    try:
        while True:
            eng.begin_path()
            eng.links = {}
            eng.int_holes = {}
            I.SYMDICTS.clear()
            P._MEMBER.clear() if len(P._MEMBER) > 20000 else None
            c = SymCtx(eng, params)
            status = "ok"
            exc = None
            signal.setitimer(signal.ITIMER_REAL, PATH_TIMEOUT)
            try:
                func(c, **params.get("args", {}))
            except E.Infeasible:
                status = "infeasible"
            except E.Undecided as err:
                status = "undecided"
                exc = str(err)
            except E.BudgetExceeded:
                status = "budget"
            except PathTimeout:
                status = "timeout"
            except RecursionError as err:
                status = "exception"
                exc = "RecursionError: %s" % err
            except Exception as err:            # pylint: disable=W0718
                status = "exception"
                exc = "%s: %s\n%s" % (type(err).__name__, safe(err),
                                      traceback.format_exc(limit=-6))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if status == "budget":
                break
            if status == "infeasible":
                out["infeasible"] += 1
                if not eng.backtrack():
                    out["complete"] = True
                    break
                continue
            out["paths"] += 1
            out["asserts"] += c.asserts
            out["unknown"] += c.unknown
            if status == "undecided":
                out["undecided"] += 1
                out["undecided_why"][exc] = \
                    out["undecided_why"].get(exc, 0) + 1
            # candidate violations: confirm on the real code
            if status == "ok":
                out["reached"] |= c.reached
                for n in c.notes:
                    if len(out["notes"]) < 50:
                        out["notes"].append(n)
            for f in c.failures:
                r = replay(f.inputs)
                if r.get("failed"):
                    violation(
                        {"inputs": f.inputs, "message": r["failed"],
                         "symbolic": f.message, "hang": r.get("hang", False)})
                else:
                    out["mismatch"].append(
                        {"inputs": f.inputs, "message": f.message,
                         "native": r})
                if len(fresh) >= max_fail:
                    break
            # solver witness of the path, replayed on the real code
            if not c.failures and (status != "ok" or out["paths"] < 40 or
                                   rnd.random() < replay_share):
                m = eng.model()
                if m is not None:
                    inputs = c.inputs_of(m)
                    r = replay(inputs)
                    if r.get("failed"):
                        violation(
                            {"inputs": inputs, "message": r["failed"],
                             "symbolic": "path witness (%s)" % status,
                             "hang": r.get("hang", False)})
                    elif status in ("exception", "timeout"):
                        out["mismatch"].append(
                            {"inputs": inputs, "message": exc or status,
                             "native": r})
                    elif r.get("error") or r.get("assume"):
                        out["mismatch"].append({"inputs": inputs,
                                                "message": "replay",
                                                "native": r})
                    elif status == "ok" and \
                            sorted(c.reached) != r["reached"]:
                        out["mismatch"].append(
                            {"inputs": inputs,
                             "message": "reached %s" % sorted(c.reached),
                             "native": r})
                    else:
                        out["native_agree"] += 1
                        if len(out["samples"]) < 3:
                            out["samples"].append({"case": case["name"],
                                                   "inputs": inputs})
            if len(fresh) >= max_fail or \
               len(out["mismatch"]) >= 200:
                break
            if not eng.backtrack():
                out["complete"] = True
                break
            if time.time() > deadline:
                break
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        native.stop()
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    out["fresh"] = len(fresh)
    out["queries"] = eng.queries
    out["solver_s"] = eng.solver_time
    out["branches"] = eng.branches
    out["forks"] = eng.forks
    out["solver_unknown"] = eng.unknowns
    out["reached"] = sorted(out["reached"])
    out["wall_s"] = time.time() - t_start
    out["functions"] = sorted(FUNCTIONS)
    return out


def safe(err):
    try:
        return str(err)
    except BaseException:                       # pylint: disable=W0718
        return "?"


def _child(conn, case, deadline, seed):
    try:
        start_function_recording()
        r = explore(case, deadline, seed)
    except BaseException as err:                # pylint: disable=W0718
        r = {"name": case["name"], "error": "%s: %s\n%s" % (
            type(err).__name__, safe(err), traceback.format_exc())}
    conn.send_bytes(json.dumps(r).encode())
    conn.close()


def run_cases(cases, deadline, seed, jobs, verbose=False, stop_early=True):
    """Process pool that forks one child per case"""
    ctx = multiprocessing.get_context("fork")
    todo = list(enumerate(cases))
    todo.sort(key=lambda x: -x[1].get("weight", 1))
    running = {}
    results = []
    found = 0
    while todo or running:
        while todo and len(running) < jobs and not (stop_early and found):
            _, case = todo.pop(0)
            parent, child = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(child, case, deadline, seed))
            p.start()
            child.close()
            running[parent] = (p, case, time.time())
        if stop_early and found and todo:
            todo = []
        if not running:
            break
        ready = multiprocessing.connection.wait(list(running), timeout=1.0)
        now = time.time()
        for conn in list(running):
            p, case, _ = running[conn]
            if conn in ready:
                try:
                    r = json.loads(conn.recv_bytes().decode())
                except EOFError:
                    r = {"name": case["name"], "error": "worker died"}
                p.join()
                del running[conn]
                results.append(r)
                if r.get("fresh"):
                    found += 1
                if verbose:
                    show(r)
            elif now > deadline + PATH_TIMEOUT + 90:
                p.kill()
                p.join()
                del running[conn]
                results.append({"name": case["name"], "error": "stuck"})
            elif found and stop_early and now > deadline_after(found, now):
                pass
    return results


def deadline_after(found, now):
    return now + 1


def show(r):
    if "error" in r:
        print("  %-34s ERROR %s" % (r["name"], r["error"]))
        return
    print("  %-34s paths %5u undecided %u queries %6u solver %6.1fs "
          "wall %6.1fs native %u/%u %s%s%s" %
          (r["name"], r["paths"], r["undecided"], r["queries"],
           r["solver_s"], r["wall_s"], r["native_agree"], r["native"],
           "" if r["complete"] else "TRUNCATED ",
           "mismatch %u " % len(r["mismatch"]) if r["mismatch"] else "",
           "VIOLATION" if r["violations"] else ""))
    for m in r["mismatch"][:3]:
        print("      mismatch:", json.dumps(m)[:1500])
    for m in r["violations"][:2]:
        print("      violation:", json.dumps(m)[:1500])
    if r["undecided_why"]:
        print("      undecided:", r["undecided_why"])
    sys.stdout.flush()


def load_known():
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        with open(path, encoding="UTF-8") as fd:
            for line in fd:
                line = line.strip()
                if line.startswith("known: "):
                    out.append(line[7:])
    return out


def setup():
    from symx import instrument as I
    sys.path.append(os.path.join(REPO, "tools", "trlc_rst"))
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    roots = {"trlc": os.path.join(REPO, "trlc"),
             "trlc_rst": os.path.join(REPO, "tools", "trlc_rst",
                                      "trlc_rst.py"),
             "props": os.path.join(VERIF, "props")}
    I.install(roots)
    from symx import proxies as P
    P.INSTRUMENTED.add("symx.common")
    import symx.common


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true",
                    help="do not stop at the first violation")
    ap.add_argument("--no-evidence", action="store_true")
    opts = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = opts.tier
    t0 = time.time()

    setup()
    from props import registry
    prop = registry.PROPERTIES[opts.property]
    mod = importlib.import_module(prop["module"])
    cases = [c for c in mod.cases(tier) if c["property"] == opts.property]
    for c in cases:
        c.setdefault("module", prop["module"])
    if opts.case:
        cases = [c for c in cases if opts.case in c["name"]]
    budget = opts.budget or (420 if tier == "quick" else 7200)
    # the code under test and everything it imports, before forking
    for m in ("trlc.trlc", "trlc.lint"):
        importlib.import_module(m)
    results = run_cases(cases, t0 + budget, seed, opts.jobs, opts.v,
                        not opts.all)
    rc = report(opts, prop, cases, results, tier, seed, t0)
    return rc


def report(opts, prop, cases, results, tier, seed, t0):
    pid = opts.property
    errors = [r for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    viol = []
    for r in good:
        for v in r["violations"]:
            viol.append((r["name"], v))
    bycase = {c["name"]: c for c in cases}
    fresh = []
    seen_known = set()
    for name, v in viol:
        hit = known_entry(pid, name, v)
        if hit is None:
            fresh.append((name, v))
        else:
            seen_known.add(hit)
    reached = set()
    for r in good:
        reached |= {r["name"] + "/" + x for x in r["reached"]}
    missing = []
    for c in cases:
        for lab in c.get("expect", []):
            grp = [x["name"] for x in cases
                   if x.get("group", x["name"]) == c.get("group", c["name"])]
            if not any(n + "/" + lab in reached for n in grp):
                missing.append(c["name"] + "/" + lab)
    functions = set()
    for r in good:
        functions |= set(r["functions"])

    def tot(k):
        return sum(r[k] for r in good)

    samples = []
    for r in good:
        samples += r["samples"][:2]
    mismatches = [dict(m, case=r["name"]) for r in good
                  for m in r["mismatch"]]
    truncated = [r["name"] for r in good if not r["complete"]]
    cov = {
        "states": tot("paths") + tot("forks") if good else 0,
        "transitions": tot("branches") if good else 0,
        "traces_validated_against_impl": tot("native_agree") if good else 0,
        "samples": samples[:12],
        "paths": tot("paths"), "assertions_decided": tot("asserts"),
        "queries_discharged": tot("queries"),
        "solver": "z3", "solver_s": round(tot("solver_s"), 2),
        "solver_unknown": sum(r.get("solver_unknown", 0) for r in good),
        "assertions_inconclusive": tot("unknown"),
        "undecided_paths": tot("undecided"),
        "mismatches": mismatches[:5],
        "mismatch_count": len(mismatches),
        "native_replays": tot("native"),
        "exhaustive": not truncated and not errors and
        not tot("undecided") and not mismatches and not tot("unknown"),
        "truncated_cases": truncated,
        "reachability_missing": missing,
        "bounds": {c["name"]: c.get("bounds", "") for c in cases},
        "cases": [{"name": r["name"], "paths": r["paths"],
                   "complete": r["complete"], "queries": r["queries"],
                   "solver_s": round(r["solver_s"], 2),
                   "reached": r["reached"]} for r in good],
        "functions_encoded": sorted(functions),
        "errors": [r["error"][:2000] for r in errors],
    }
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": "model_checking", "coverage": cov,
          "assumptions": prop.get("assumptions", []) + [
              "exploration covers the bounds listed under coverage.bounds; "
              "nothing is claimed outside them",
              "the symbolic proxies model Python's int/Fraction/str/bool "
              "operations faithfully (validated by replaying path witnesses "
              "on the unmodified code)"],
          "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    if not opts.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w",
                  encoding="UTF-8") as fd:
            json.dump(ev, fd, indent=1)
    print("%s %s: %u cases, %u paths, %u queries (%.1fs solver), "
          "%u witnesses replayed, %u undecided, %u mismatches, %.1fs" %
          (pid, tier, len(results), tot("paths"), tot("queries"),
           tot("solver_s"), tot("native"), tot("undecided"),
           len(mismatches), time.time() - t0))
    if truncated:
        print("  truncated: %s" % ", ".join(truncated))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, k.split(" | ", 2)[2]))
    if fresh:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for n, (name, v) in enumerate(fresh[:5]):
            case = bycase[name]
            path = os.path.join(d, "%s-%u.json" % (pid, n))
            with open(path, "w", encoding="UTF-8") as fd:
                json.dump({"property": pid, "case": name,
                           "module": case["module"], "func": case["func"],
                           "params": case.get("params", {}),
                           "inputs": v["inputs"], "message": v["message"],
                           "how": "python3-vt /verif/replay.py " + path},
                          fd, indent=1)
            print("  %s: %s" % (name, "; ".join(v["message"])[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for e in errors:
        print("ERROR in %s: %s" % (e["name"], e["error"]))
    if errors and (not good or tot("paths") == 0):
        return 2
    if missing:
        print("reachability witnesses missing: %s" % ", ".join(missing))
        return 2
    return 0
