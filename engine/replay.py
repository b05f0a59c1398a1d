"""Runs harness cases on the real package: reads one JSON object per line on
stdin, answers one per line on stdout."""
import json
import locale
import os
import shutil
import sys
import tempfile
import traceback


def run_one(job, tmproot):
    import importlib
    from engine import envs
    h = importlib.import_module("harness." + job["prop"].lower())
    tmp = tempfile.mkdtemp(dir=tmproot)
    e = envs.R(job["values"], tmp)
    try:
        case = next(c for c in h.cases(job["tier"]) if c["name"] == job["case"])
        h.run(e, case)
        return {"status": "ok", "notes": e.notes}
    except envs.Skip as ex:
        return {"status": "skip", "detail": str(ex), "notes": e.notes}
    except envs.Fail as ex:
        return {"status": "fail", "detail": str(ex), "notes": e.notes}
    except Exception as ex:
        return {"status": "fail", "detail": "unexpected %s: %s" % (type(ex).__name__, ex),
                "tb": traceback.format_exc()[-1500:], "notes": e.notes}
    finally:
        locale.setlocale(locale.LC_CTYPE, "C.UTF-8")
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    jobs = os.fdopen(os.dup(0))
    nothing = os.open(os.devnull, os.O_RDONLY)
    os.dup2(nothing, 0)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    import warnings
    warnings.simplefilter("ignore")
    import faulthandler
    tmproot = tempfile.mkdtemp(prefix="verifreplay")
    try:
        for line in jobs:
            job = json.loads(line)
            r = run_one(job, tmproot)
            out.write(json.dumps(r) + "\n")
            out.flush()
    finally:
        shutil.rmtree(tmproot, ignore_errors=True)


if __name__ == "__main__":
    main()
