"""Runs the check of one property: explores every case of its harness
symbolically, replays counterexamples (and a sample of the passing paths) on
the real package, writes the evidence file."""
from . import boot  # noqa: F401  (first: puts z3 on the path)
import argparse
import collections
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEFAULTS = {
    "quick": dict(wall=420, case=300, replays=6, jobs=8),
    "thorough": dict(wall=2400, case=2200, replays=40, jobs=8),
}
REPLAY_TIMEOUT = 60


class Server:
    """The real package in its own process."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.p = None

    def src(self):
        p = os.path.join(self.scratch, "ready")
        t = time.time()
        while not os.path.exists(p):
            if time.time() - t > 240:
                raise RuntimeError("scratch build timed out")
            time.sleep(0.05)
        with open(p) as f:
            msg = f.read()
        if not msg.startswith("ok "):
            raise RuntimeError(msg)
        return msg[3:]

    def start(self):
        env = dict(os.environ, PYTHONPATH=self.src() + os.pathsep + ROOT, PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   LANG="C.UTF-8", LC_ALL="C.UTF-8", TMPDIR=self.scratch)
        self.p = subprocess.Popen([sys.executable, "-m", "engine.replay"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=self.scratch)

    def run(self, job):
        try:
            if self.p is None or self.p.poll() is not None:
                self.start()
        except RuntimeError as ex:
            return {"status": "none", "detail": str(ex), "notes": []}
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            return {"status": "none", "detail": "replay server died", "notes": []}
        r, _, _ = select.select([self.p.stdout], [], [], REPLAY_TIMEOUT)
        if not r:
            self.stop()
            return {"status": "hang", "detail": "no answer within %d s" % REPLAY_TIMEOUT, "notes": []}
        line = self.p.stdout.readline()
        if not line:
            rc = self.p.wait()
            self.p = None
            if rc < 0 and rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
                return {"status": "crash", "detail": "killed by signal %d" % -rc, "notes": []}
            return {"status": "none", "detail": "replay server exited with %s" % rc, "notes": []}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def run_case(prop, tier, case, scratch, opts, deadline):
    """in a forked worker"""
    from . import core, senv, cy
    import z3
    harness = importlib.import_module("harness." + prop.lower())
    stats = core.Stats()
    server = Server(scratch)
    out = dict(case=case["name"], kinds=collections.Counter(), violations=[], inconclusive=[], validated=0, divergences=[],
               skipped=0, labels=collections.Counter(), notes=collections.Counter(), samples=[], funcs=set(),
               imprecise=collections.Counter(), unsupported=collections.Counter(), unknown=collections.Counter())
    srcdir = os.environ.get("VERIF_SRC", "/repo/src")

    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "verif")

    def on_start(code, off):
        if code.co_filename.startswith(srcdir) and code.co_name != "<module>":
            out["funcs"].add("%s:%s" % (os.path.relpath(code.co_filename, srcdir), code.co_qualname))
        return mon.DISABLE

    lines = set()

    def on_line(code, line):
        if code.co_filename.startswith(srcdir):
            lines.add((os.path.relpath(code.co_filename, srcdir), line))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.PY_START | mon.events.LINE)

    envs = {}

    def fn(ctx):
        e = senv.S(ctx)
        envs["e"] = e
        try:
            harness.run(e, case)
        except core.Ctl:
            raise
        except RecursionError:
            raise
        except Exception as ex:
            if isinstance(ex, z3.Z3Exception) or senv.engine_gap(ex):
                raise core.Unsupported("engine gap: %s" % "".join(traceback.format_exception(ex)[-3:]))
            tb = "".join(traceback.format_exception(ex)[-4:])
            ctx.log.append(tb)
            raise core.Candidate("unexpected %s: %s" % (type(ex).__name__, safe(ex)), ctx.small_model(), z3.BoolVal(True))

    def job(values):
        return dict(prop=prop, tier=tier, case=case["name"], values=values)

    def report(label, values, r, how):
        out["violations"].append(dict(case=case["name"], label=label, values=values, result=r, found_by=how))

    seen_bad = set()

    def on_path(res):
        c = res.ctx
        e = envs.get("e")
        out["kinds"][res.kind] += 1
        out["labels"].update(c.checked)
        out["imprecise"].update(set(c.imprecise))
        for l in c.unknown_checks:
            out["unknown"][l] += 1
        for w in c.witness:
            out["notes"][w] += 1
        if e:
            for n in e.notes:
                out["notes"][n] += 1
        if time.time() > deadline and res.kind not in ("candidate", ):
            return False
        if res.kind == "candidate":
            found = False
            m = res.model
            blocked = []
            tries = 0
            while m is not None and tries < 6:
                values = senv.concrete_inputs(c, m)
                if tries % 2:
                    values["$variant"] = tries
                r = server.run(job(values))
                if r["status"] in ("fail", "crash", "hang"):
                    report(res.info, values, r, "assertion refuted by the solver, reproduced on the real code")
                    found = True
                    break
                tries += 1
                last = (values, r)
                if time.time() > deadline + 20:
                    break
                m2 = other_model(c, res.neg, m, tries)
                m = m if m2 is None and tries < 3 else m2
            for k in (1, 3, 2, 4, 5) if not found and tries and has_reals(c) and out["kinds"]["candidate"] < 6 else ():
                # the engine computes with real numbers: floats with many digits, or close to each other
                values = dict(senv.concrete_inputs(c, res.model))
                values["$jitter"] = k
                r = server.run(job(values))
                if r["status"] in ("fail", "crash", "hang"):
                    report(res.info, values, r, "assertion refuted by the solver, reproduced on the real code with nearby numbers")
                    found = True
                    break
            if not found:
                if len(out["inconclusive"]) < 10:
                    out["inconclusive"].append(dict(label=res.info, why="counterexample not reproduced",
                                                    log=[str(x)[-600:] for x in c.log],
                                                    replay=last[1] if tries else None,
                                                    values=last[0] if tries else None))
                out["kinds"]["candidate_not_reproduced"] += 1
            return len(out["violations"]) >= 3
        if res.kind in ("unsupported", "bound"):
            key = res.info[-160:]
            out["unsupported"][res.info[:1500]] += 1
            if len(seen_bad) < 60:
                seen_bad.add(key)
                m = c.small_model()
                for extra in (0, 1, 2, 3):
                    if m is None:
                        break
                    m2 = other_model(c, None, m, extra, extra < 3) if extra else m
                    if m2 is None:
                        continue
                    values = senv.concrete_inputs(c, m2)
                    if extra:
                        values["$variant"] = extra
                    r = server.run(job(values))
                    if r["status"] in ("fail", "crash", "hang"):
                        report("concrete run of a path the engine cannot encode", values, r,
                               "path condition solved, run on the real code")
                        break
                else:
                    for extra in (1, 3, 2, 4, 5) if m is not None and has_reals(c) and len(seen_bad) < 6 else ():
                        values = dict(senv.concrete_inputs(c, m))
                        values["$jitter"] = extra
                        r = server.run(job(values))
                        if r["status"] in ("fail", "crash", "hang"):
                            report("concrete run of a path the engine cannot encode", values, r, "nearby numbers, run on the real code")
                            break
                    # and with unusual texts
                    for extra in range(12 if len(seen_bad) < 6 else 2) if m is not None and has_texts(c) else ():
                        values = dict(senv.concrete_inputs(c, m))
                        values["$texts"] = extra * 3 + len(seen_bad)
                        r = server.run(job(values))
                        if r["status"] in ("fail", "crash", "hang"):
                            report("concrete run of a path the engine cannot encode", values, r, "unusual texts, run on the real code")
                            break
            return len(out["violations"]) >= 3
        if res.kind == "ok" and out["validated"] < opts["replays"]:
            m = c.small_model()
            tries = 0
            # the first path is run with several different models
            while m is not None and tries < (3 if out["kinds"]["ok"] == 1 else 1):
                values = senv.concrete_inputs(c, m)
                if tries:
                    values["$variant"] = tries
                r = server.run(job(values))
                tries += 1
                if r["status"] == "skip":
                    out["skipped"] += 1
                elif r["status"] == "ok":
                    out["validated"] += 1
                    if r.get("notes", []) != e.notes and not c.imprecise and not c.memo.get("tomls"):
                        out["divergences"].append(dict(values=values, real=r.get("notes"), symbolic=e.notes))
                    if len(out["samples"]) < 2:
                        out["samples"].append(dict(case=case["name"], path_decisions=len(res.decisions), inputs=values,
                                                   observed=r.get("notes", [])))
                elif r["status"] in ("fail", "crash", "hang"):
                    report("fails on the real code", values, r, "model of a passing path, run on the real code")
                    break
                m = other_model(c, None, m, tries, True) if tries < 3 and out["kinds"]["ok"] == 1 else None
            m = c.small_model() if tries and out["kinds"]["ok"] == 1 else None
            base = None if m is None else senv.concrete_inputs(c, m)
            for k in (1, 3) if base is not None and has_reals(c) and not out["violations"] else ():
                values = dict(base)
                values["$jitter"] = k
                r = server.run(job(values))
                if r["status"] in ("fail", "crash", "hang"):
                    report("fails on the real code", values, r, "model of a passing path with nearby numbers, run on the real code")
                    break
            for k in (3, 4) if base is not None and c.memo.get("opaque") and not out["violations"] else ():
                # opaque arrays full of ones or zeros
                values = dict(base)
                values["$variant"] = k
                r = server.run(job(values))
                if r["status"] in ("fail", "crash", "hang"):
                    report("fails on the real code", values, r, "model of a passing path with uniform arrays, run on the real code")
                    break
            if out["kinds"]["ok"] == 1 and has_texts(c) and not out["violations"]:
                for k in range(3) if base is not None else ():
                    values = dict(base)
                    values["$texts"] = 11 * k + sum(map(ord, case["name"])) % 31
                    r = server.run(job(values))
                    if r["status"] in ("fail", "crash", "hang"):
                        report("fails on the real code", values, r, "unusual texts, run on the real code")
                        break
        return len(out["violations"]) >= 3

    t = time.time()
    try:
        _, complete = core.explore(fn, stats, max_paths=case.get("max_paths", 4000), deadline=deadline, on_path=on_path)
    finally:
        server.stop()
        mon.set_events(tool, 0)
    out["complete"] = complete
    out["wall_s"] = time.time() - t
    out["stats"] = stats.as_dict()
    out["funcs"] = sorted(out["funcs"] | {"%s" % f for f in cy.FUNCS_RUN})
    out["lines"] = sorted(lines)
    for k in ("kinds", "labels", "notes", "imprecise", "unsupported", "unknown"):
        out[k] = dict(out[k])
    return out


def has_texts(c):
    return any(rec[0] in ("word", "atom") or name.endswith(".0") for name, rec in c.inputs.items())


def has_reals(c):
    return any(rec[0] == "real" for rec in c.inputs.values())


def safe(ex):
    try:
        return str(ex)[:300]
    except BaseException:
        return "?"


def other_model(c, neg, m, n, spread=False):
    """another model of the path (and the refuted assertion)"""
    import z3
    from . import core
    s = c.solver
    s.push()
    try:
        if neg is not None:
            s.add(neg)
        if c.nonlinear:
            g = c._guess(n + 1)
            if g is not None or spread or m is None:
                return g
        diff = []
        for name, rec in c.inputs.items():
            if rec[0] in ("int", "bv", "real", "bool"):
                diff.append(rec[1] != m.eval(rec[1], model_completion=True))
            elif rec[0] == "word":
                diff.extend(b != m.eval(b, model_completion=True) for b in rec[1])
            elif rec[0] == "atom":
                e = core.int_expr(rec[1].nchars)
                diff.append(e != m.eval(e, model_completion=True))
        if not diff:
            return None
        if spread:
            # small, mutually different numbers: a telling input
            rng = random.Random(n)
            vals = []
            while len(vals) < len(c.inputs):
                vals += rng.sample(range(1, 13), 12)
            want = []
            for k, (name, rec) in enumerate(c.inputs.items()):
                if rec[0] == "real":
                    v = vals[k % len(vals)] * (-1 if rng.random() < .3 else 1)
                    want.append(rec[1] == (z3.Q(v * 1000 + rng.randint(1, 9), 7013) if n % 2 else v))
                elif rec[0] == "int":
                    want.append(rec[1] == rng.randrange(4))
                elif rec[0] == "word":
                    want.extend(b == rng.choice((0x61, 0x62, 0xe9, 0x4e2d, 0x1f600)) for b in rec[1])
            s.set("timeout", 2000)
            for w in want:
                s.push()
                s.add(w)
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                return s.model()
            return None
        # ask for many inputs to differ at once, then fewer
        for k in (max(1, len(diff) // 2), 1):
            s.push()
            s.add(z3.AtLeast(*diff, k) if k > 1 else z3.Or(*diff))
            s.set("random_seed", n)
            s.set("timeout", 5000)
            r = s.check()
            if r == z3.sat:
                return s.model()
            s.pop()
        return None
    except z3.Z3Exception:
        return None
    finally:
        while s.num_scopes() > 0:
            s.pop()


def count_lines(results):
    """distinct source lines run symbolically, per file"""
    out = collections.Counter(f for f, _ in {tuple(x) for r in results for x in r["lines"]})
    if os.environ.get("VERIF_COV"):
        with open(os.environ["VERIF_COV"], "a") as f:
            for r in results:
                for x in r["lines"]:
                    f.write("%s:%d\n" % tuple(x))
    return dict(sorted(out.items()))


def worker(conn, *a):
    os.setpgid(0, 0)
    try:
        r = run_case(*a)
    except BaseException:
        r = dict(case=a[2]["name"], error=traceback.format_exc()[-3000:])
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    tier = args.tier if args.tier in DEFAULTS else "quick"
    opts = dict(DEFAULTS[tier])
    harness = importlib.import_module("harness." + args.prop.lower())
    opts.update(getattr(harness, "OPTS", {}).get(tier, {}))
    if args.jobs:
        opts["jobs"] = args.jobs
    cases = harness.cases(tier)
    assert len({c["name"] for c in cases}) == len(cases)
    if args.case:
        cases = [c for c in cases if args.case in c["name"]]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.prop)
    results = []
    try:
        builder = subprocess.Popen([sys.executable, "-m", "engine.scratch", scratch], cwd=ROOT,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        results = run_all(args, tier, opts, cases, scratch, t0)
        if builder.poll() is None:
            builder.terminate()
        builder.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    rc = finish(args, tier, harness, cases, results, t0)
    sys.stdout.flush()
    os._exit(rc)


def run_all(args, tier, opts, cases, scratch, t0):
    from . import senv, cy, core  # noqa: F401
    try:  # front ends run once, before the fork
        warm()
    except BaseException:
        if args.v:
            traceback.print_exc()
    ctxm = multiprocessing.get_context("fork")
    todo = collections.deque(sorted(cases, key=lambda c: -c.get("weight", 1)))
    running = {}
    results = []
    end = t0 + opts["wall"]
    stop = False
    known = known_findings(args.prop)
    while todo or running:
        while todo and len(running) < opts["jobs"] and not stop and time.time() < end:
            c = todo.popleft()
            a, b = ctxm.Pipe(False)
            now = time.time()
            dl = min(now + c.get("time", opts["case"]), end)
            p = ctxm.Process(target=worker, args=(b, args.prop, tier, c, scratch, opts, dl))
            p.start()
            b.close()
            running[a] = (p, c, dl)
        if not running:
            break
        for conn in multiprocessing.connection.wait(list(running), timeout=1):
            p, c, dl = running.pop(conn)
            try:
                r = conn.recv()
            except EOFError:
                r = dict(case=c["name"], error="worker died")
            p.join()
            results.append(r)
            if args.v:
                show(r)
            if any(not known_hit(known, v) for x in results for v in x.get("violations", ())) and not os.environ.get("VERIF_ALL"):
                stop = True
        now = time.time()
        for conn, (p, c, dl) in list(running.items()):
            if now > dl + 60 or (stop and now > dl):
                kill(p)
                running.pop(conn)
                results.append(dict(case=c["name"], error="case timed out"))
        if stop:
            for conn, (p, c, dl) in list(running.items()):
                kill(p)
                running.pop(conn)
            todo.clear()
    for c in todo:
        results.append(dict(case=c["name"], error="not started within the time budget"))
    return results


def warm():
    """parse all sources once, before forking"""
    from . import core, files, loader
    stats = core.Stats()

    def fn(c):
        c.fs = files.FS()
        w = loader.World()
        w.load("finalfusion")
        w.load("finalfusion.scripts.util")

    core.explore(fn, stats, max_paths=1)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    except PermissionError:
        pass
    p.kill()
    p.join()


def show(r):
    if "error" in r:
        print("  %-40s ERROR %s" % (r["case"], r["error"]))
        return
    print("  %-40s %5.1fs %s q=%d sol=%.1fs validated=%d skip=%d%s" %
          (r["case"], r["wall_s"], r["kinds"], r["stats"]["queries"], r["stats"]["solver_s"], r["validated"], r["skipped"],
           "" if r["complete"] else " INCOMPLETE"))
    for k in ("unsupported", "imprecise", "unknown"):
        for x, n in r[k].items():
            print("      %s x%d: %s" % (k, n, x))
    for x in r["inconclusive"][:3]:
        print("      inconclusive", json.dumps(x)[:1500])
    for x in r["divergences"][:3]:
        print("      DIVERGENCE", json.dumps(x)[:800])
    for x in r["violations"]:
        print("      VIOLATION", json.dumps(x)[:1500])
    if os.environ.get("VERIF_NOTES"):
        print("      notes", r["notes"])
        print("      labels", r["labels"])


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(ROOT, "known-findings.json")) as f:
            for x in json.load(f):
                if x.get("property") == prop and x.get("status") == "known":
                    out.append(x)
    except FileNotFoundError:
        pass
    return out


def known_hit(known, v):
    for k in known:
        if k["case"] == v["case"] and k["label"] in (v["label"] + " " + v["result"].get("detail", "")):
            return k
    return None


def finish(args, tier, harness, cases, results, t0):
    from harness import bounds
    prop = args.prop
    good = [r for r in results if "error" not in r]
    viol = [v for r in good for v in r["violations"]]
    known = known_findings(prop)
    new = []
    for v in viol:
        hit = known_hit(known, v)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit["what"]))
        else:
            new.append(v)
    tot = collections.Counter()
    for r in good:
        for k, n in r["stats"].items():
            tot[k] += n
    agg = lambda key: sum((collections.Counter(r[key]) for r in good), collections.Counter())
    kinds = agg("kinds")
    labels = agg("labels")
    notes = agg("notes")
    want = set(getattr(harness, "WITNESSES", ()))
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(
            states=kinds.get("ok", 0) + kinds.get("candidate", 0),
            transitions=tot["branches"],
            traces_validated_against_impl=sum(r["validated"] for r in good),
            samples=[s for r in good for s in r["samples"]][:6],
            explanation="states: feasible symbolic paths of the real code driven to the end of the harness; transitions: "
            "solver-decided branches on them; traces validated: models of such paths re-run on the real package with "
            "the same assertions",
            cases=len(cases), cases_finished=sum(1 for r in good if r["complete"]),
            paths=dict(kinds), solver_queries=tot["queries"], solver_seconds=round(tot["solver_s"], 2),
            assertions_checked=tot["assertions"], assertions_discharged=tot["discharged"],
            solver_unknown=tot["unknown"], assertion_labels=dict(labels), reached=dict(notes),
            witnesses_missing=sorted(w for w in want if not any(n.startswith(w) for n in notes)),
            source_lines_encoded=count_lines(good),
            functions_encoded=sorted({f for r in good for f in r["funcs"]}),
            bounds=bounds.B[prop][0],
            outside_bounds=bounds.B[prop][1],
            not_encoded={k[-700:]: n for k, n in agg("unsupported").items()},
            imprecise=dict(agg("imprecise")), undecided_assertions=dict(agg("unknown")),
            inconclusive=[dict(case=r["case"], **x) for r in good for x in r["inconclusive"]][:10],
            divergences=[dict(case=r["case"], **x) for r in good for x in r["divergences"]][:10],
            errors=[r for r in results if "error" in r][:10],
            exhaustive=all("error" not in r and r["complete"] and not r["unsupported"] and not r["unknown"] and not r["inconclusive"]
                           for r in results) and bool(results)),
        assumptions=list(getattr(harness, "ASSUMPTIONS", [])) + COMMON,
        wall_s=round(time.time() - t0, 2), violations=len(new))
    if not args.case:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    c = ev["coverage"]
    print("%s %s: %d cases, %d paths, %d branches, %d assertions (%d discharged), %d queries, %.1f s solver, "
          "%d traces replayed, %.1f s" %
          (prop, tier, len(cases), c["states"], c["transitions"], c["assertions_checked"], c["assertions_discharged"],
           c["solver_queries"], c["solver_seconds"], c["traces_validated_against_impl"], ev["wall_s"]))
    for key in ("not_encoded", "undecided_assertions", "inconclusive", "divergences", "errors", "witnesses_missing"):
        if c[key]:
            print("INCONCLUSIVE %s: %d (see evidence/%s.json)" % (key, len(c[key]), prop))
    if new:
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % prop)
        with open(p, "w") as f:
            json.dump(dict(property=prop, tier=tier, violations=new[:5]), f, indent=1, default=str)
        for v in new[:3]:
            print("  %s: %s -> %s" % (v["case"], v["label"], v["result"].get("detail")))
            print("    inputs: %s" % json.dumps(v["values"], default=str)[:600])
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    return 0


COMMON = [
    "The Python sources are executed with calls, f-strings, 'in', '%' and container displays redirected to the engine's "
    "run-time library; numpy, struct, file objects, mmap, re and toml are models whose agreement with the real ones is "
    "sampled by replaying solver models of explored paths.",
    "The .pyx files are interpreted from Cython's own typed tree, the C hash from clang's LLVM IR.",
    "Sequential execution, one process, a file system that does not change underneath.",
]

if __name__ == "__main__":
    main()
