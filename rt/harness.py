"""one runtime shard: JOB.json OUT.json"""
import sys
import os
import json
import time
import signal
import random
import importlib
import traceback
import warnings


class Late(BaseException):
    pass


def alarm(*a):
    raise Late


def inrepo(ex, src):
    """did the exception come out of the code under test (rather than the oracle)?"""
    tb = ex.__traceback__
    hit = False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(src):
            hit = True
        tb = tb.tb_next
    return hit


def jd(x):
    import numpy as np
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return str(x)


def main(job, outp):
    warnings.simplefilter("ignore")
    job = json.load(open(job))
    sys.setrecursionlimit(20000)
    out = dict(evals=0, distinct=0, violations=[], samples=[], errors=[], checks={}, timeouts=0)
    real = sys.stdout
    from rt import common
    src = common.SRC
    try:
        mod = importlib.import_module("rt." + job["pid"].lower())
    except Exception as ex:
        if inrepo(ex, src):
            out["violations"].append(dict(case=["import", {}], msg=f"importing the library fails: {type(ex).__name__}: {ex}"))
        else:
            out["errors"].append(traceback.format_exc()[-1500:])
        json.dump(out, open(outp, "w"), default=jd)
        return
    import numpy as np
    np.seterr(all="ignore")
    random.seed(job["seed"])
    np.random.seed(job["seed"] % (2 ** 31))
    seen = set()
    t0 = time.time()
    signal.signal(signal.SIGALRM, alarm)
    devnull = open(os.devnull, "w")

    def run(case):
        name, args = case
        fn = common.CHECKS.get(name)
        if fn is None:
            if name == "import":
                return
            out["errors"].append(f"no check {name}")
            return
        key = json.dumps(case, sort_keys=True, default=jd)
        case = json.loads(key)
        name, args = case
        out["evals"] += 1
        if key not in seen:
            seen.add(key)
            out["distinct"] += 1
        out["checks"][name] = out["checks"].get(name, 0) + 1
        if len(out["samples"]) < 3:
            out["samples"].append(case)
        msg = None
        sys.stdout = devnull
        try:
            signal.setitimer(signal.ITIMER_REAL, fn.limit)
            try:
                msg = fn(**args)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Late:
            out["timeouts"] += 1
            if fn.must_return:
                msg = f"did not return within {fn.limit:.0f}s"
        except common_skip():
            pass
        except Exception as ex:
            if inrepo(ex, src):
                msg = f"raised {type(ex).__name__}: {ex}"
            else:
                out["errors"].append(f"{name} {json.dumps(args)[:300]} " + traceback.format_exc()[-1200:])
        finally:
            sys.stdout = real
        if msg:
            out["violations"].append(dict(case=case, msg=str(msg)[:1500]))

    for h in job["hints"]:
        if time.time() - t0 > job["seconds"]:
            break
        run(h)
        if len(out["violations"]) >= 3:
            break
    if job["sample"] and job["seed"] % 1000 == 0:
        for case in getattr(mod, "ALWAYS", ()):         # inputs of repaired defects
            run(list(case))
    if job["sample"] and not out["violations"]:
        g = common.Gen(job["seed"])
        g.first = job["seed"] % 1000 == 0
        while time.time() - t0 < job["seconds"] and len(out["violations"]) < 3:
            for case in mod.sample(g):
                run(list(case))
                if time.time() - t0 > job["seconds"] or len(out["violations"]) >= 3:
                    break
            g.first = False
            if len(out["errors"]) > 50:
                break
    json.dump(out, open(outp, "w"), default=jd)


def common_skip():
    from rt import common
    return getattr(common, "Skip", ())


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
