"""python3-vt -m pyvc.driver <ID>   decide one property on /repo's current tree.

1. every contract task of contracts/<ID>.py: the functions under contract are
   loaded from /repo/src, executed by CPython on symbolic values, and every
   path's postcondition is proved (see DESIGN.md);
2. what the verifier cannot decide from a counterexample alone is replayed on
   the real code, under the project's own interpreter (rt/).
"""
import sys
import os
import json
import time
import signal
import random
import tempfile
import subprocess
import multiprocessing as mp_
import traceback
import importlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FINOPT_REPO", "/repo")
SRC = os.environ.get("FINOPT_SRC", os.path.join(REPO, "src"))
VENV_PY = os.environ.get("FINOPT_PY", "/opt/venv/bin/python")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
OUT = os.path.join(VERIF, "out")


def rt_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
             OMP_NUM_THREADS="1", PYTHONPATH=SRC + os.pathsep + VERIF, FINOPT_SRC=SRC, PYTHONWARNINGS="ignore")
    e.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "mplcfg-%d" % os.getuid()))
    e.setdefault("VERIF_SEED", str(SEED))
    return e


# ------------------------------------------------------------------ tasks
def child(conn, pid, idx, limit):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(12000)
    from pyvc import kit, solver, npshim
    import builtins
    name, fn, _ = kit.TASKS[idx]
    k = kit.Kit(name)
    codes = set()
    try:
        mon = sys.monitoring
        mon.use_tool_id(3, "pyvc")

        def start(code, off):
            if code.co_filename.startswith(SRC):
                codes.add((os.path.relpath(code.co_filename, SRC), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
    except Exception:
        pass
    out = sys.stdout
    sys.stdout = sys.stderr

    def onterm(*a):
        raise TimeoutError("task time limit")
    signal.signal(signal.SIGTERM, onterm)
    try:
        fn(k)
    except BaseException as ex:
        st = "unsupported" if type(ex).__name__ in ("Unsupported",) else "unknown"
        k.obl("task", st, f"{type(ex).__name__}: {ex} {kit.where(ex)} " + traceback.format_exc()[-600:])
    sys.stdout = out
    res = dict(name=name, obls=k.obls, hints=k.hints, stats=k.stats, notes=k.notes, paths=k.paths,
               vac=k.vacuity, assumed=sorted(npshim.ASSUMED), solver=dict(solver.STATS),
               codes=sorted(codes))
    conn.send_bytes(json.dumps(res, default=str).encode())
    conn.close()
    os._exit(0)


def run_tasks(pid, indices, limit, jobs):
    from pyvc import kit
    ctx = mp_.get_context("fork")
    todo = list(indices)
    live, done = [], []
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, pid, i, limit))
            p.start()
            b.close()
            live.append([i, p, a, time.time()])
        time.sleep(0.02)
        for rec in list(live):
            i, p, a, t0 = rec
            if a.poll():
                try:
                    res = json.loads(a.recv_bytes())
                    res["wall"] = time.time() - t0
                except (EOFError, ValueError):
                    res = dead(i, "task process died")
                done.append((i, res))
                p.join(5)
                if p.is_alive():
                    p.kill()
                live.remove(rec)
            elif not p.is_alive():
                done.append((i, dead(i, f"task process died (exit {p.exitcode})")))
                live.remove(rec)
            elif time.time() - t0 > limit:
                p.kill()
                p.join(5)
                done.append((i, dead(i, f"time limit {limit:.0f}s")))
                live.remove(rec)
    done.sort()
    return dict(done)


def dead(i, why):
    from pyvc import kit
    n = kit.TASKS[i][0]
    return dict(name=n, obls=[dict(name=f"{n}: task", status="unknown", how=why, env=None)], hints=[], stats={},
                notes=[], paths=0, vac=[], assumed=[], solver={}, codes=[], wall=0)


# ------------------------------------------------------------------ runtime
class Shard:
    def __init__(self, pid, seconds, seed, hints=None, sample=True, maxcases=0):
        self.f = tempfile.NamedTemporaryFile("w+", suffix=".json", delete=False)
        job = dict(pid=pid, seconds=seconds, seed=seed, hints=hints or [], sample=sample, maxcases=maxcases,
                   tier=TIER)
        json.dump(job, self.f)
        self.f.close()
        self.o = self.f.name + ".out"
        self.err = open(self.f.name + ".err", "w+")
        self.p = subprocess.Popen([VENV_PY, "-m", "rt.harness", self.f.name, self.o], cwd=VERIF, env=rt_env(),
                                  stdout=self.err, stderr=self.err)
        self.t0 = time.time()
        self.seconds = seconds

    def wait(self, grace=120):
        try:
            self.p.wait(max(1, self.seconds + grace - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        try:
            with open(self.o) as f:
                res = json.load(f)
        except Exception:
            self.err.seek(0)
            res = dict(evals=0, distinct=0, violations=[], samples=[], errors=[f"shard died: {self.err.read()[-800:]}"],
                       checks={}, timeouts=0)
        self.err.close()
        for p in (self.f.name, self.o, self.f.name + ".err"):
            try:
                os.unlink(p)
            except OSError:
                pass
        return res


def merge(rs):
    out = dict(evals=0, distinct=0, violations=[], samples=[], errors=[], checks={}, timeouts=0, ranges="")
    for r in rs:
        out["evals"] += r["evals"]
        out["distinct"] += r["distinct"]
        out["timeouts"] += r.get("timeouts", 0)
        out["violations"] += r["violations"]
        out["samples"] += r["samples"][:2]
        out["errors"] += r["errors"][:5]
        for k, v in r["checks"].items():
            out["checks"][k] = out["checks"].get(k, 0) + v
    return out


def replay_case(pid, case, timeout=300):
    s = Shard(pid, timeout, SEED, hints=[case], sample=False)
    r = s.wait(30)
    return r


def known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                head, _, js = line.partition(" case=")
                js, _, what = js.partition(" :: ")
                out.append((json.loads(js), what))
    return out


def same_case(a, b):
    return a[0] == b[0] and json.dumps(a[1], sort_keys=True) == json.dumps(b[1], sort_keys=True)


# ------------------------------------------------------------------ main
def main(argv):
    if len(argv) >= 2 and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    thorough = TIER == "thorough"
    jobs = int(os.environ.get("VC_JOBS", "8"))
    has_rt = os.path.exists(os.path.join(VERIF, "rt", pid.lower() + ".py"))
    rt_s = float(os.environ.get("VC_RT", "120" if thorough else "8"))
    shards = []
    kn = known(pid)
    if has_rt:
        nsh = 8 if thorough else 3
        shards = [Shard(pid, rt_s, SEED * 1000 + i) for i in range(nsh)]
    # contract tasks
    os.environ["FINOPT_SRC"] = SRC
    sys.path.insert(0, VERIF)
    results = {}
    from pyvc import kit
    has_ct = os.path.exists(os.path.join(VERIF, "contracts", pid.lower() + ".py"))
    load_err = None
    if has_ct:
        try:
            importlib.import_module("contracts." + pid.lower())
        except BaseException as ex:
            load_err = f"{type(ex).__name__}: {ex} " + traceback.format_exc()[-1500:]
            sys.stderr.write(load_err)
        if load_err is None:
            idx = [i for i, t in enumerate(kit.TASKS) if thorough or not t[2]]
            limit = 1500 if thorough else 330
            results = run_tasks(pid, idx, limit, jobs)
            # a second, slower attempt for what was not decided (solver time limits are wall clock)
            again = [i for i in idx if any(o["status"] == "unknown" for o in results[i]["obls"])
                     and not any(o["status"] == "refuted" for o in results[i]["obls"])]
            left = 420 - (time.time() - t0)
            if again and (left > 60 or thorough):
                os.environ["VC_SCALE"] = "3"
                r2 = run_tasks(pid, again, 1500 if thorough else left, 3)
                for i in again:
                    bad1 = sum(o["status"] != "proved" for o in results[i]["obls"])
                    bad2 = sum(o["status"] != "proved" for o in r2[i]["obls"])
                    if bad2 < bad1 or (bad2 == bad1 and len(r2[i]["obls"]) >= len(results[i]["obls"])):
                        h = results[i]["hints"]
                        results[i] = r2[i]
                        results[i]["hints"] += h
    obls = [o for r in results.values() for o in r["obls"]]
    hints = [h for r in results.values() for h in r["hints"]]
    failed = [o for o in obls if o["status"] != "proved"]
    if load_err is not None:
        failed.append(dict(name="loading the code under contract", status="unsupported", how=load_err, env=None))
        obls.append(failed[-1])
    rts = [s.wait() for s in shards]
    if has_rt:
        hs = []
        seen = set()
        for h in hints:
            key = json.dumps(h, sort_keys=True)
            if key not in seen:
                seen.add(key)
                hs.append(h)
        rts0 = merge(rts)
        if not rts0["violations"]:
            ex = []
            if hs:
                parts = [hs[i::4] for i in range(4)]
                ex += [Shard(pid, 40, SEED * 1000 + 100 + i, hints=q, sample=False) for i, q in enumerate(parts) if q]
            if failed:
                ex += [Shard(pid, 25 if not thorough else 120, SEED * 1000 + 200 + i, hints=[], sample=True)
                       for i in range(8 - len(ex))]
            rts += [s.wait() for s in ex]
    rt = merge(rts)
    # known findings
    kf_lines = []
    for case, what in kn:
        r = replay_case(pid, case)
        if r["violations"]:
            kf_lines.append(f"KNOWN-FINDING: property={pid} {what}")
    viol = [v for v in rt["violations"] if not any(same_case(v["case"], c) for c, _ in kn)]
    status = 0
    lines = list(kf_lines)
    hard = [o for o in failed if o["status"] in ("refuted", "unknown")]
    if viol:
        v = min(viol, key=lambda v: len(json.dumps(v["case"])))
        path = os.path.join(OUT, f"{pid}-replay.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, case=v["case"], message=v["msg"], failed_obligations=failed[:20],
                           how_to_replay=f"cd /verif && python3-vt -m pyvc.driver --replay {path}"), f, indent=1)
        lines.append(f"failing input: {v['case'][0]}({json.dumps(v['case'][1])}): {v['msg'][:500]}")
        for o in failed[:6]:
            lines.append(f"failed obligation: {o['status']} {o['name']}: {o['how'][:200]}")
        lines.append(f"VIOLATION property={pid} replay={path}")
        status = 1
    elif hard:
        path = os.path.join(OUT, f"{pid}-replay.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, case=None, failed_obligations=failed,
                           message="the verifier does not accept these obligations on the current source; "
                                   "no failing input was found on the real code",
                           how_to_replay=f"cd /verif && python3-vt -m pyvc.driver {pid}"), f, indent=1)
        for o in hard[:6]:
            lines.append(f"failed obligation: {o['status']} {o['name']}: {o['how'][:400]}")
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        status = 1
    if rt["errors"]:
        sys.stderr.write("runtime harness: " + "\n".join(map(str, rt["errors"][:5])) + "\n")
    write_evidence(pid, obls, failed, results, rt, viol, t0, kf_lines, has_ct)
    for o in failed:
        if o["status"] == "unsupported":
            print(f"note: outside the verified subset: {o['name']}: {o['how'][:300]}")
    good = sum(o["status"] == "proved" for o in obls)
    print(f"{pid}: {good}/{len(obls)} obligations discharged, {rt['evals']} runtime cases "
          f"({rt['distinct']} distinct), {time.time() - t0:.1f}s")
    for l in lines:
        print(l)
    return status


def write_evidence(pid, obls, failed, results, rt, viol, t0, kf_lines, has_ct):
    from pyvc import kit
    meta = getattr(sys.modules.get("contracts." + pid.lower()), "META", {})
    level = meta.get("level", "proof")
    assumed = sorted({a for r in results.values() for a in r["assumed"]})
    notes = sorted({n for r in results.values() for n in r["notes"]})
    codes = sorted({tuple(c) for r in results.values() for c in r["codes"]})
    st = {}
    sv = {}
    for r in results.values():
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
        for k, v in r["solver"].items():
            sv[k] = sv.get(k, 0) + v
    by = {}
    for o in obls:
        k = o["how"].split()[0] if o["status"] == "proved" and o["how"] else o["status"]
        by[k] = by.get(k, 0) + 1
    tb = ["the loader's AST rewriting of loops and comprehensions and the CPython interpreter running it (pyvc/loader.py)",
          "the normaliser and z3 encoding (pyvc/norm.py, pyvc/solver.py), z3",
          "machine floating point read as exact real arithmetic; float literals read as their shortest decimal"]
    tb += ["external contract: " + a for a in assumed] + list(meta.get("trusted", []))
    bobls = [o for o in obls if "[bounded" in o["name"]]
    allobls, obls = obls, [o for o in obls if "[bounded" not in o["name"]]
    cov = dict(
        obligations=len(obls), discharged=sum(o["status"] == "proved" for o in obls),
        bounded_obligations=len(bobls), bounded_discharged=sum(o["status"] == "proved" for o in bobls),
        checker_cmd=f"cd /verif && python3-vt -m pyvc.driver {pid}",
        trusted_base=tb,
        discharged_by=by,
        failed=[dict(name=o["name"], status=o["status"], how=o["how"]) for o in failed[:30]],
        obligation_names=[o["name"] for o in obls][:200],
        functions_under_contract=[f"{f}::{q}" for f, q in codes if "<" not in q][:200],
        engine={k: round(v, 3) for k, v in st.items()},
        solver={k: round(v, 3) for k, v in sv.items()},
        vacuity=[v for r in results.values() for v in r["vac"]][:60],
        bounded=list(meta.get("bounded", [])),
        evaluations=rt["evals"], distinct_nontrivial=rt["distinct"],
        rule="runtime replays on the real code: seeded samples of the stated domain, special values and literals "
             "mined from the source, plus one witness per symbolic path; distinct = distinct (check, arguments). "
             "They only look for failing inputs; they are never counted as proof.",
        runtime_checks=rt["checks"], runtime_timeouts=rt["timeouts"],
        samples=rt["samples"][:6] or ["none"],
        known_findings=kf_lines,
    )
    if level == "other" or level == "exploration":
        cov["explanation"] = meta.get("explanation", "")
    e = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
             assumptions=list(meta.get("assumptions", [])) + notes[:60], wall_s=round(time.time() - t0, 2),
             violations=len(viol))
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def replay(path):
    d = json.load(open(path))
    if not d.get("case"):
        print("no failing input in this replay file; failed obligations:")
        for o in d["failed_obligations"]:
            print(" ", o["status"], o["name"], o["how"][:400])
        return 1
    r = replay_case(d["property"], d["case"])
    for e in r["errors"]:
        print("harness:", e)
    for v in r["violations"]:
        print("still fails:", v["case"][0], json.dumps(v["case"][1]), v["msg"])
    if not r["violations"]:
        print("does not fail any more")
    return 1 if r["violations"] else 0


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    # the contracts import pyvc.kit; make sure there is only one copy of this module's state
    sys.exit(main(sys.argv[1:]))
