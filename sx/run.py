"""python -m sx.run PROPERTY   (environment: VERIF_TIER, VERIF_SEED)

Explores every case of harness/<PROPERTY>.py symbolically, replays counterexamples on the
untransformed code, writes evidence/<PROPERTY>.json."""
import importlib, json, os, pickle, select, signal, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sx import core, loader, ctx as cx
import z3

REPLAY_ALARM = 40
EV = os.path.join(HERE, "evidence")


class Hang(core.Control):
    pass


def _alarm(sig, frm):
    raise Hang("no termination within the time limit")


def load_harness(pid):
    return importlib.import_module(f"harness.{pid}")


# ------------------------------------------------------------------ symbolic side
def explore_case(h, case, seed, until, path_alarm, nsamples):
    budget = max(2, until - time.time())
    name, fn, params = case[:3]
    seen = watch_functions()
    fk, bi = (h.fakes(True) if hasattr(h, "fakes") else {}), (h.builtins_(True) if hasattr(h, "builtins_") else {})
    loader.install(True, fk, bi)
    signal.signal(signal.SIGALRM, _alarm)
    eng = core.Engine(deadline=time.time() + budget, seed=seed, nsamples=nsamples)
    covers, problems, founds, probes = {}, [], [], []

    def run(ctx):
        signal.alarm(path_alarm)
        try:
            try:
                fn(ctx, **params)
            except core.Inconclusive:
                # unsupported operation: still try one concrete input of this path
                try:
                    if len(probes) < 8: probes.append(ctx.decode(eng.get_model()))
                except BaseException:
                    pass
                raise
            except core.Control:
                raise
            except Exception as ex:
                tb = traceback.extract_tb(ex.__traceback__)[-3:]
                where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb)
                raise core.Found(f"unexpected {type(ex).__name__}: {cx._s(ex)} at {where}", eng.variants(ctx))
            finally:
                signal.alarm(0)
        except Hang:
            raise core.Found("execution does not terminate", [ctx.decode(eng.get_model())])
        for k, v in ctx.covers.items():
            covers[k] = covers.get(k, 0) + v

    t0 = time.time()
    complete = True
    while True:
        try:
            if founds or problems:
                # resume after a counterexample / unsupported operation: go on with the other paths
                eng.model = None
                if not eng._backtrack():
                    break
            eng.violation = None
            eng.explore(run, cx.SymCtx)
            if eng.violation is None:
                break
            founds.append((eng.violation.msg, eng.violation.inputs))
            if len(founds) >= 4:
                complete = False
                break
        except core.Inconclusive as ex:
            problems.append(str(ex)[:300])
            complete = False
            if "budget" in str(ex) or len(problems) > 40 or time.time() > t0 + budget:
                break
    s = eng.stats
    s["covers"], s["wall_s"] = covers, time.time() - t0
    return dict(case=name, stats=s, founds=founds, problems=problems, samples=eng.samples + probes,
                functions=sorted(seen), complete=complete)


def watch_functions():
    seen = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "sx")
    except ValueError:
        pass
    root = os.path.join(loader.REPO, "dustgoggles")

    def start(code, off):
        if code.co_filename.startswith(root) and "<" not in code.co_qualname.split(".")[-1]:
            seen.add(f"{os.path.relpath(code.co_filename, loader.REPO)}:{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    if os.environ.get("SX_COV"):  # lines reached, appended to a file (development aid)
        out = open(os.environ["SX_COV"], "a", buffering=1)

        def line(code, no):
            if code.co_filename.startswith(root): out.write(f"{os.path.relpath(code.co_filename, root)}:{no}\n")
            return mon.DISABLE
        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.PY_START | mon.events.LINE)
    return seen


# ------------------------------------------------------------------ concrete side
def replay_case(h, case, datas):
    """-> list of None (held) | message"""
    name, fn, params = case[:3]
    fk, bi = (h.fakes(False) if hasattr(h, "fakes") else {}), (h.builtins_(False) if hasattr(h, "builtins_") else {})
    loader.install(False, fk, bi)
    signal.signal(signal.SIGALRM, _alarm)
    out = []
    for data in datas:
        ctx = cx.ConcreteCtx(data)
        try:
            signal.alarm(REPLAY_ALARM)
            fn(ctx, **params)
            out.append(None)
        except cx.Violated as v:
            out.append(str(v))
        except core.Prune:
            out.append(None)
        except core.Control as ex:
            out.append("execution does not terminate" if isinstance(ex, Hang) else None)
        except Exception as ex:
            out.append(f"unexpected {type(ex).__name__}: {cx._s(ex)}")
        finally:
            signal.alarm(0)
            try:
                ctx.cleanup()
            except BaseException:
                pass
    return out


# ------------------------------------------------------------------ process pool
def _die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, int(signal.SIGKILL))
    except Exception:
        pass


class Job:
    def __init__(self, tag, f, args, limit):
        self.tag, self.begun = tag, time.time()
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.setsid()
                _die_with_parent()
                os.close(r)
                try:
                    res = ("ok", f(*args))
                except BaseException as ex:
                    res = ("err", f"{type(ex).__name__}: {cx._s(ex)}\n{traceback.format_exc()[-1500:]}")
                data = pickle.dumps(res)
                while data:
                    n = os.write(w, data)
                    data = data[n:]
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        # a limit is a moment in time for explorations, a duration for replays
        self.fd, self.buf, self.end = r, b"", limit if limit > 1e8 else time.time() + limit

    def finish(self):
        os.close(self.fd)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(self.pid, 0)
        try:
            return pickle.loads(self.buf)
        except Exception:
            return ("err", "worker died (memory or time limit)")


def pool_run(jobs, nproc, on_result):
    """jobs: list of (tag, f, args, limit)"""
    todo, live = list(jobs), []
    stop = False
    while (todo and not stop) or live:
        while todo and len(live) < nproc and not stop:
            live.append(Job(*todo.pop(0)))
        rd, _, _ = select.select([j.fd for j in live], [], [], 0.5)
        for j in list(live):
            done = False
            if j.fd in rd:
                b = os.read(j.fd, 1 << 20)
                if b: j.buf += b
                else: done = True
            if time.time() > max(j.end, j.begun + 10): done = True
            if done or stop:
                live.remove(j)
                res = j.finish()
                if not (stop and not done):
                    more = on_result(j.tag, res)
                    if more == "stop": stop = True
                    elif more: todo[:0] = more
    return stop


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    h = load_harness(pid)
    t0 = time.time()
    cases = h.cases(tier)
    budget = float(os.environ.get("SX_BUDGET", 600 if tier == "quick" else 3000))
    only = os.environ.get("SX_CASE")
    if only: cases = [c for c in cases if only in c[0]]
    byname = {c[0]: c for c in cases}
    assert len(byname) == len(cases), "duplicate case names"
    nproc = int(os.environ.get("SX_PROCS", "8"))
    if hasattr(h, "preload"): h.preload()
    path_alarm = getattr(h, "PATH_ALARM", 60)
    nsamples = getattr(h, "NSAMPLES", 3)
    results, errors, spurious, violations, validated, unvalidated = [], [], [], [], [0], []
    samples_out = []

    known = load_known(pid)

    def is_known(v): return any(k.get("case") == v[0] and k.get("match", "") in v[2] for k in known)

    def on_result(tag, res):
        kind, name = tag
        if res[0] == "err":
            errors.append(f"{kind} {name}: {res[1]}")
            return
        if kind == "sym":
            r = res[1]
            results.append(r)
            if os.environ.get("SX_VERBOSE"):
                s = r["stats"]
                print(f"  {name}: paths={s['paths']} pruned={s['pruned']} checks={s['checks']} q={s['queries']} {s['wall_s']:.1f}s founds={len(r['founds'])} problems={r['problems'][:3]} covers={s['covers']}", flush=True)
            datas = [d for f in r["founds"] for d in f[1]] + r["samples"]
            if datas:
                msgs = [f[0] for f in r["founds"] for d in f[1]] + [None] * len(r["samples"])
                pend[name] = (datas, msgs)
                return [(("rep", name), replay_case, (h, byname[name], datas), REPLAY_ALARM * len(datas) + 30)]
        else:
            datas, msgs = pend[name]
            for d, m, got in zip(datas, msgs, res[1]):
                if got is not None:
                    violations.append((name, d, got, m))
                elif m is not None:
                    if (name, m) not in [s[:2] for s in spurious]: spurious.append((name, m, d))
                else:
                    validated[0] += 1
                    if len(samples_out) < 12: samples_out.append({"case": name, "data": d})
            if not os.environ.get("SX_ALL") and any(not is_known(v) for v in violations): return "stop"
    pend = {}
    jobs = [(("sym", c[0]), explore_case, (h, c, seed, t0 + budget, path_alarm, nsamples), t0 + budget + 60) for c in cases]
    pool_run(jobs, nproc, on_result)

    agg = dict(paths=0, pruned=0, branches=0, checks=0, queries=0, solver_s=0.0)
    covers, fns = {}, set()
    for r in results:
        for k in agg: agg[k] += r["stats"][k]
        for k, v in r["stats"]["covers"].items(): covers[k] = covers.get(k, 0) + v
        fns |= set(r["functions"])
    problems = [f"{r['case']}: {p}" for r in results for p in r["problems"]]
    vac = [r["case"] for r in results if r["stats"]["checks"] == 0 and not r["founds"]]
    code = 0
    new = []
    for name, d, got, m in violations:
        if not is_known((name, d, got)): new.append((name, d, got))
    for k in known:
        if any(k.get("case") == v[0] and k.get("match", "") in v[2] for v in violations):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    if new:
        name, d, got = new[0]
        path = os.path.join(EV, "replay", f"{pid}.json")
        json.dump(dict(property=pid, tier=tier, case=name, data=d, message=got), open(path, "w"), indent=1)
        print(f"case {name}: {got}")
        print("inputs:", json.dumps(d)[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        code = 1
    incomplete = problems + [f"spurious {n}: {m}" for n, m, _ in spurious] + [e[:400] for e in errors]
    if code == 0:
        # a case that decided nothing is a fault of the harness, unless the engine gave up on it (reported below)
        gave_up = {p.split(":")[0] for p in problems} | {n for n, _, _ in spurious}
        vac = [v for v in vac if v not in gave_up]
        if vac or not (results or errors):
            print("ERROR vacuous cases:", vac)
            code = 2
        for p in incomplete[:12]:
            print("INCOMPLETE:", p)
    if os.environ.get("SX_VERBOSE"):
        for n, m, d in spurious: print("SPURIOUS", n, m, json.dumps(d)[:800])
        for e in errors: print("ERR", e)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=dict(
        states=agg["paths"], transitions=agg["branches"], traces_validated_against_impl=validated[0],
        samples=[json.dumps(s)[:1200] for s in samples_out] or ["none"],
        explanation="states: feasible program paths decided; transitions: symbolic branch decisions",
        functions_encoded=sorted(fns), cases=len(results), bounds=getattr(h, "BOUNDS", ""),
        assertions_discharged=agg["checks"], solver_queries=agg["queries"], solver_s=round(agg["solver_s"], 2),
        paths_cut_by_assumptions=agg["pruned"], covers=covers, exhaustive=not incomplete and code == 0,
        incomplete=incomplete[:50], outside_bounds=getattr(h, "OUTSIDE", "")),
        assumptions=list(getattr(h, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(EV, f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {len(results)}/{len(cases)} cases, {agg['paths']} paths, {agg['checks']} assertions, {agg['queries']} queries, "
          f"solver {agg['solver_s']:.1f}s, wall {time.time()-t0:.1f}s, validated {validated[0]}, incomplete {len(incomplete)}, exit {code}")
    return code


def load_known(pid):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid and k.get("status") != "fixed"]


def replay_main(path):
    j = json.load(open(path))
    h = load_harness(j["property"])
    if hasattr(h, "preload"): h.preload()
    case = next(c for c in h.cases(j.get("tier", "quick")) if c[0] == j["case"])
    r = replay_case(h, case, [j["data"]])[0]
    print("held" if r is None else f"violated: {r}")
    return 0 if r is None else 1


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay_main(sys.argv[2]))
    rc = main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
