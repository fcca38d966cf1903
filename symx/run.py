"""Driver: explore a property's configurations in parallel, replay counterexamples, write evidence.

usage: python -m symx.run P01 [--tier quick|thorough]
       python -m symx.run --replay FILE
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import resource
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def reexec():
    want = dict(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, "-m", "symx.run"] + sys.argv[1:])


def load_prop(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module("props." + pid.lower())


# ---------------------------------------------------------------------------
# worker
# ---------------------------------------------------------------------------

FUNCS = set()


def _monitor():
    """Record which functions of /repo/pads actually execute."""
    from . import load
    root = os.path.join(load.REPO, "pads") + os.sep
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "symx")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(root):
            FUNCS.add(os.path.basename(code.co_filename)[:-3] + "." + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def run_concrete(prop, cfg, assignment):
    """Run the harness on plain values with the unmodified modules.

    Returns (status, label, observed): status ok | infeasible | violated."""
    from . import ctx as C, vals
    from .core import Infeasible
    c = C.Ctx("replay", cfg, assignment=assignment)
    try:
        prop.harness(c, cfg)
    except C.Violated as e:
        return "violated", str(e), None
    except Infeasible:
        return "infeasible", None, None
    except Exception as e:
        return "violated", "exception %s: %s" % (type(e).__name__, str(e)[:200]), traceback.format_exc()
    return "ok", None, [C.plain(x) for x in c.observed]


def work(pid, cfg, mode, prefix, slice_s):
    from . import core, ctx as C, load, vals
    prop = load_prop(pid)
    if mode == "merged":
        from . import merged
        return merged.work(prop, cfg, int(os.environ.get("VERIF_SEED", "1") or 1))
    core.install_alarm()
    outcomes = set()
    samples = []
    state = {}

    def run(engine):
        load.reset_path()
        vals.ENGINE = engine
        c = state["ctx"] = C.Ctx(mode, cfg, engine)
        try:
            prop.harness(c, cfg)
            c.flush()
        except core.PathLimit as e:
            raise core.Found(dict(c.candidate("does not finish: %s" % e), limit=True))
        except core.Stop:
            raise
        except Exception as e:
            if not engine.fresh_part() and engine.pos < engine.prefix_len:
                raise core.Diverged("exception in explored prefix")
            raise core.Found(dict(c.candidate("exception %s: %s" % (type(e).__name__, str(e)[:200])),
                                  trace=traceback.format_exc()[-1500:]))

    def on_path(engine):
        c = state["ctx"]
        outcomes.update(c.outcomes)
        n = engine.stats.paths
        engine.stats.novc += not c.proved
        if n <= 2 or n % 97 == 0:
            model = engine.get_model()
            a = c.concrete_inputs(model)
            engine_saved = vals.ENGINE
            obs = [C.conc(model, x) for x in c.observed]
            vals.ENGINE = None
            try:
                st, label, got = run_concrete(prop, cfg, a)
            finally:
                vals.ENGINE = engine_saved
            if st == "violated":
                raise core.Found(dict(label=label, assignment=a, info=got if isinstance(got, str) else None))
            if st == "ok" and got != obs and mode == "sym":
                raise core.Found(dict(label="engine and native run disagree: %r / %r" % (obs, got), assignment=a,
                                      mismatch=True))
            engine.stats.validated += 1
            terms = list(c.inputs.values())
            engine.measure_open(terms, [model.eval(t, model_completion=True) for t in terms])
            if len(samples) < 1:
                samples.append(dict(config=cfg.get("name"), inputs={k: a[k] for k in list(a)[:40]},
                                    observed=repr(obs)[:300], decisions=engine.pos))

    cand = None
    status, rest = "done", []
    eng = core.Engine(run, prefix, slice_s=slice_s, path_s=cfg.get("path_s", 20.0), on_path=on_path,
                      max_decisions=cfg.get("max_decisions", 20000))
    err = None
    try:
        status, rest = eng.explore()
    except core.Found as e:
        cand = e.args[0]
        status = "found"
    except core.Diverged as e:
        status, err = "diverged", str(e)
    except core.Inconclusive as e:
        status, err = "unknown", str(e)
    except Exception:
        status, err = "error", traceback.format_exc()
    return dict(status=status, rest=rest, cand=cand, stats=eng.stats.asdict(), err=err, outcomes=sorted(outcomes),
                samples=samples, funcs=sorted(FUNCS))


def worker(pid, inq, outq):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    from . import load
    load.install()
    if getattr(load_prop(pid), "CONTAINERS", False):
        load.use_containers()
    _monitor()
    while True:
        job = inq.get()
        if job is None:
            return
        jid, ci, cfg, mode, prefix, slice_s = job
        try:
            r = work(pid, cfg, mode, prefix, slice_s)
        except BaseException:
            r = dict(status="error", rest=[], cand=None, stats={}, err=traceback.format_exc(), outcomes=[],
                     samples=[], funcs=[])
        outq.put((jid, ci, mode, r))


# ---------------------------------------------------------------------------
# parent
# ---------------------------------------------------------------------------

def replay_file(path, timeout=None):
    """Run the stored counterexample against the unmodified code in a fresh process."""
    try:
        p = subprocess.run([sys.executable, "-m", "symx.run", "--replay", path], cwd=VERIF, timeout=timeout,
                           capture_output=True, text=True)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    if p.returncode == 1:
        return "violated", p.stdout
    if p.returncode == 0:
        return "ok", p.stdout
    return "error", p.stdout + p.stderr


def do_replay(path):
    from . import load
    load.install()
    sys.setrecursionlimit(3000)
    d = json.load(open(path))
    prop = load_prop(d["property"])
    st, label, info = run_concrete(prop, d["config"], d["assignment"])
    print("replay of", path)
    print("property", d["property"], "config", d["config"].get("name"))
    print("inputs", json.dumps(d["assignment"]))
    if st == "violated":
        print("reproduced:", label)
        if info:
            print(info)
        return 1
    print("not reproduced:", st)
    return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--only", help="run only configurations whose name contains this")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    reexec()
    if a.replay:
        sys.exit(do_replay(a.replay))
    sys.exit(check(a))


def check(a):
    t0 = time.monotonic()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = load_prop(pid)
    cfgs = [dict(c) for c in prop.CONFIGS if tier in c.get("tiers", ("quick", "thorough"))]
    if a.only:
        cfgs = [c for c in cfgs if a.only in c["name"]]
    deadline = t0 + (600 if tier == "quick" else getattr(prop, "THOROUGH_S", 3 * 3600))
    nproc = a.jobs or min(8, os.cpu_count() or 1)
    known = load_known(pid)

    if hasattr(prop, "prepare"):
        prop.prepare(cfgs)              # tables the workers inherit
    mpc = mp.get_context("fork")
    inq, outq = mpc.Queue(), mpc.Queue()
    procs = [mpc.Process(target=worker, args=(pid, inq, outq), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()

    pending = {}
    jid = 0
    backlog = []
    per = [dict(name=c["name"], mode="sym", paths=0, wall=0.0, complete=True) for c in cfgs]
    tot = {}
    outcomes, funcs, samples = set(), set(), []
    mode_of = {}
    violation = None
    errors = []
    spurious = []
    truncated = False
    knownhit = {}
    for ci, c in enumerate(cfgs):
        mode_of[ci] = "merged" if c.get("merge", hasattr(prop, "merged")) and not os.environ.get("SYMX_PATHS") else c.get("mode", "sym")
        per[ci]["mode"] = mode_of[ci]
        backlog.append((ci, mode_of[ci], []))
    since = {}
    alone = set()                       # configurations explored by one process, without handing prefixes on

    def submit():
        nonlocal jid
        while backlog and len(pending) < nproc * 2:
            ci, mode, prefix = backlog.pop()
            if mode != mode_of[ci] or ci in alone and prefix:
                continue
            jid += 1
            if mode == "merged" and tier == "quick":
                # leave time for going path by path instead
                left = t0 + 360 - time.monotonic()
                cfgs[ci]["merge_s"] = max(2, min(cfgs[ci].get("merge_s", 240), left))
            # short slices while there is little to share, longer ones afterwards
            sl = 1e6 if ci in alone else 0.3 if len(backlog) + len(pending) < nproc * 2 else 4.0
            pending[jid] = (ci, mode, prefix)
            inq.put((jid, ci, cfgs[ci], mode, prefix, sl))

    def explore(ci, why):
        """The merged run did not decide: path by path instead."""
        cfgs[ci].update(cfgs[ci].get("fallback", {}))
        mode_of[ci] = per[ci]["mode"] = cfgs[ci].get("mode", "sym")
        per[ci]["not_merged"] = why
        backlog.append((ci, mode_of[ci], []))

    submit()
    while pending and violation is None:
        try:
            j, ci, mode, r = outq.get(timeout=1.0)
        except queue.Empty:
            if time.monotonic() > deadline:
                truncated = True
                break
            if not all(p.is_alive() for p in procs):
                errors.append("a worker process died")
                break
            continue
        was = pending.pop(j, None)
        if was and ci in alone and mode == "sym" and j < since[ci]:
            continue                    # part of an abandoned attempt
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "maxdepth" else tot.get(k, 0) + v
        outcomes.update(r["outcomes"])
        funcs.update(r["funcs"])
        per[ci]["paths"] += r["stats"].get("paths", 0)
        if r.get("merged"):
            per[ci]["merged"] = r["merged"]
        per[ci]["wall"] = round(time.monotonic() - t0, 2)
        if len(samples) < 6:
            samples.extend(r["samples"][:1])
        if mode != mode_of[ci]:
            pass
        elif r["status"] == "found":
            cand = r["cand"]
            path = write_replay(pid, cfgs[ci], cand)
            st, out = replay_file(path, timeout=40)
            if st == "violated" or (st == "timeout" and cand.get("limit")):
                violation = (path, cand, out)
            elif mode == "merged":
                explore(ci, "the countermodel of the merged run does not replay: %s" % cand["label"])
            else:
                spurious.append((cfgs[ci]["name"], cand["label"], st, cand.get("trace", out)))
                if mode == "sym" and not cfgs[ci].get("noeager"):
                    # proxies did not carry this code: fork the inputs to plain values instead
                    mode_of[ci] = "eager"
                    per[ci]["mode"] = "eager"
                    per[ci]["paths"] = 0
                    backlog.append((ci, "eager", []))
                else:
                    errors.append("counterexample does not replay: %s" % (cand,))
                    break
        elif r["status"] == "fallback":
            explore(ci, r["err"])
        elif r["status"] == "diverged" and mode == "sym" and was and was[2] and ci not in alone:
            # the processes did not agree on the conditions: once more in a single process
            alone.add(ci)
            since[ci] = jid + 1
            per[ci]["one_process"] = True
            per[ci]["paths"] = 0
            backlog.append((ci, mode, []))
        elif r["status"] == "diverged":
            if mode == "sym" and not cfgs[ci].get("noeager"):
                spurious.append((cfgs[ci]["name"], "diverged", r["err"], None))
                mode_of[ci] = "eager"
                per[ci]["mode"] = "eager"
                backlog.append((ci, "eager", []))
            else:
                errors.append("diverged: %s" % r["err"])
                break
        elif r["status"] in ("error", "unknown"):
            errors.append("%s: %s" % (r["status"], r["err"]))
            break
        else:
            for pre in r["rest"]:
                backlog.append((ci, mode, pre))
        if time.monotonic() > deadline:
            truncated = True
            break
        submit()

    for p in procs:
        p.terminate()
    for p in procs:
        p.join(1.0)
        if p.is_alive():
            p.kill()
    wall = time.monotonic() - t0
    missing = sorted(set(getattr(prop, "EXPECT", ())) - outcomes) if not a.only else []
    complete = not truncated and not errors and violation is None
    cov = dict(states=tot.get("paths", 0) + tot.get("merged_guards", 0),
               transitions=tot.get("decisions", 0) + tot.get("merged_branches", 0),
               traces_validated_against_impl=tot.get("validated", 0), samples=samples,
               exhaustive=bool(complete),
               verification_conditions=tot.get("vcs", 0), vc_queries=tot.get("vc_queries", 0),
               feasibility_queries=tot.get("feas_queries", 0), solver_s=round(tot.get("solver_s", 0.0), 3),
               longest_path=tot.get("maxdepth", 0), infeasible_prefixes=tot.get("infeasible", 0),
               paths_without_solver_verdict=tot.get("novc", 0),
               sampled_paths=dict(measured=tot.get("open_sampled", 0),
                                  with_a_single_possible_input=tot.get("open_pinned", 0),
                                  inputs=tot.get("open_inputs", 0), inputs_left_free=tot.get("open_free", 0)),
               paths=tot.get("paths", 0), branch_decisions=tot.get("decisions", 0),
               guards_of_merged_runs=tot.get("merged_guards", 0),
               symbolic_branches_of_merged_runs=tot.get("merged_branches", 0),
               merged_configurations=sum(p["mode"] == "merged" and "merged" in p for p in per),
               configurations_not_merged=[(p["name"], p["not_merged"]) for p in per if p.get("not_merged")],
               functions_executed=sorted(funcs), bounds=getattr(prop, "BOUNDS", ""),
               outside_bounds=getattr(prop, "OUTSIDE", ""), configurations=per,
               outcomes_reached=sorted(outcomes), outcomes_missing=missing,
               fallbacks=[list(map(str, s))[:3] for s in spurious], errors=[e[-800:] for e in errors],
               explanation="states = completed paths of the path-by-path exploration + guards (sets of inputs) "
                           "distinguished by the merged runs; transitions = branch decisions + conditions of merged "
                           "runs that held for some inputs only; validated = runs compared with the plain code")
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed,
              level="model_checking", coverage=cov, wall_s=round(wall, 2), violations=1 if violation else 0,
              assumptions=list(getattr(prop, "ASSUMPTIONS", [])))
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths, %d decisions, %d VC queries, %d feasibility queries, %.1fs solver, %.1fs wall%s"
          % (pid, tier, cov["paths"], cov["branch_decisions"], cov["vc_queries"], cov["feasibility_queries"],
             cov["solver_s"], wall, " (TRUNCATED at the time limit)" if truncated else ""))
    sp = cov["sampled_paths"]
    print("    sampled paths: %(measured)d, pinned to one input: %(with_a_single_possible_input)d, "
          "inputs left free: %(inputs_left_free)d of %(inputs)d" % sp)
    if cov["merged_configurations"] or cov["configurations_not_merged"]:
        print("    decided by one merged run each: %d of %d configurations" % (cov["merged_configurations"], len(cfgs)))
    for name, why in cov["configurations_not_merged"]:
        print("note: %s explored path by path (%s)" % (name, why))
    if alone:
        print("    explored again by one process: %d of %d configurations" % (len(alone), len(cfgs)))
    for s in spurious:
        print("note: %s fell back to plain inputs (%s; replay %s)" % (s[0], s[1], s[2]))
        if s[3]:
            print("   ", str(s[3])[-600:])
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violation:
        path, cand, out = violation
        print(out.strip()[-1500:])
        print("counterexample:", cand["label"], cand.get("info") or "")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("ERROR:", "\n".join(errors)[-3000:])
        return 2
    if not cov["vc_queries"] and not a.only:
        print("ERROR: no condition was put to the solver")
        return 2
    if missing and not truncated:
        print("ERROR: expected outcomes never reached (vacuous?):", missing)
        return 2
    return 0


def write_replay(pid, cfg, cand):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    with open(path, "w") as f:
        json.dump(dict(property=pid, config={k: v for k, v in cfg.items() if k != "tiers"},
                       label=cand["label"], assignment=cand["assignment"], info=cand.get("info"),
                       trace=cand.get("trace"), how="cd /verif && ./check --replay " + path), f, indent=1,
                  default=str)
    return path


if __name__ == "__main__":
    main()
