"""python run.py ID quick|thorough            decide a property
   python run.py ID replay FILE               re-run one recorded counterexample on the real code"""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
NW = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
FK = mp.get_context("fork")


def _quiet():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn, 2)


def _load(prop, symbolic):
    import warnings

    warnings.filterwarnings("ignore")
    from engine import stubs

    if symbolic:
        from engine import explore, instrument

        instrument.install()
    else:
        sys.path.insert(0, REPO)
    stubs.install(symbolic)
    import logging

    import bayes_optim  # noqa: F401

    logging.disable(logging.CRITICAL)
    if symbolic:
        from engine import torchfacade

        torchfacade.install()
        explore.trace_functions()
    mod = importlib.import_module(f"harness.{prop.lower()}")
    return mod.SUITE


def _explore_task(conn, case, seconds):
    from engine import explore

    try:
        os.chdir(_scratch())
        st = explore.explore(case, time.time() + seconds)
        for k in ("called",):
            st.__dict__.pop(k, None)
        conn.send(("ok", st.__dict__))
    except BaseException as e:
        conn.send(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
    conn.close()
    os._exit(0)


def _replay_task(conn, case, values):
    from engine import explore

    try:
        os.chdir(_scratch())
        conn.send(("ok", explore.replay(case, values)))
    except BaseException as e:
        conn.send(("err", f"{type(e).__name__}: {e}"))
    conn.close()
    os._exit(0)


def _scratch():
    d = os.environ["VERIF_SCRATCH"]
    p = os.path.join(d, str(os.getpid()))
    os.makedirs(p, exist_ok=True)
    return p


def _server(conn, prop, tier, symbolic):
    """imports the package once, then forks one process per job"""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    _quiet()
    try:
        suite = _load(prop, symbolic)
    except BaseException as e:
        conn.send(("loaderr", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"))
        return
    cases = {c.name: c for c in (suite.for_tier(tier) if tier else suite.cases)}
    conn.send(("loaded", {"cases": [(c.name, c.bounds, c.opts) for c in cases.values()], "bounds": suite.bounds,
                          "outside": suite.outside, "assumptions": suite.assumptions}))
    queue, running = [], []
    limit = NW if symbolic else max(2, NW // 2)
    fin = False
    while True:
        while conn.poll(0.02 if (running or queue) else None):
            try:
                m = conn.recv()
            except EOFError:
                m = ("quit",)
            if m[0] == "quit":
                for r in running:
                    r[0].kill()
                os._exit(0)
            queue.append(m)
        while queue and len(running) < limit:
            m = queue.pop(0)
            a, b = FK.Pipe(False)
            c = cases[m[2]]
            tgt, arg, tmo = (_explore_task, m[3], m[3] + 60) if m[0] == "explore" else (_replay_task, m[3], 120)
            p = FK.Process(target=tgt, args=(b, c, arg), daemon=True)
            p.start()
            b.close()
            running.append((p, a, m, time.time() + tmo))
        for r in list(running):
            p, a, m, t = r
            res = None
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = ("err", "worker died")
            elif not p.is_alive():
                res = ("err", "worker died")
            elif time.time() > t:
                res = ("err", "worker timeout")
            if res is not None:
                running.remove(r)
                p.kill()
                p.join()
                a.close()
                conn.send((m[0], m[1], m[2], res))


class Server:
    def __init__(self, prop, tier, symbolic):
        self.c, b = FK.Pipe()
        self.p = FK.Process(target=_server, args=(b, prop, tier, symbolic))
        self.p.start()
        b.close()
        self.info = None

    def wait(self):
        try:
            m = self.c.recv()
        except EOFError:
            m = ("loaderr", "server died")
        if m[0] != "loaded":
            raise RuntimeError(m[1])
        self.info = m[1]
        return m[1]

    def close(self):
        try:
            self.c.send(("quit",))
        except Exception:
            pass
        self.p.join(3)
        if self.p.is_alive():
            self.p.kill()


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    try:
        return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("status") == "known"]
    except FileNotFoundError:
        return []


def decide(prop, tier):
    import shutil
    import tempfile

    from engine import ctx as _c  # preload numpy/z3 before forking
    from engine.explore import same

    t0 = time.time()
    os.environ["VERIF_SCRATCH"] = scratch = tempfile.mkdtemp(prefix="verif-")
    wall = {"quick": 540.0, "thorough": 3300.0}[tier]
    wall = float(os.environ.get("VERIF_WALL", wall))
    S, R = Server(prop, tier, True), Server(prop, tier, False)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking"}
    problems, violations, known = [], [], []
    try:
        try:
            info = S.wait()
            R.wait()
        except RuntimeError as e:
            # the package cannot even be imported: nothing could be decided
            print(f"INCONCLUSIVE property={prop}: {e}")
            ev.update(coverage={"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                                "explanation": f"load failure: {e}"}, wall_s=round(time.time() - t0, 2), violations=0)
            return ev, [], []
        only = os.environ.get("VERIF_CASE")
        cases = [c for c in info["cases"] if not only or only in c[0]]
        opts = {n: o for n, _, o in cases}
        jobs = 0
        tb = {"quick": 60.0, "thorough": 600.0}[tier]
        for n, b, o in sorted(cases, key=lambda c: -c[2].get("weight", 1)):
            sec = o.get("time_s", tb) if tier == "quick" else o.get("thorough_s", max(tb, 4 * o.get("time_s", 0)))
            S.c.send(("explore", jobs, n, sec))
            jobs += 1
        pend_s, pend_r, rid = jobs, {}, 0
        stats, report = {}, {}
        cand_open = 0
        val = {"witness": 0, "ok": 0, "mismatch": 0, "skipped": 0}
        mism, samples, unrep = [], [], []
        kf = known_findings(prop)
        vio_n = {}

        def on_replay(kind, case, item, res):
            nonlocal violations
            if res[0] != "ok":
                problems.append(f"{case}: replay {res[1][:200]}")
                return
            r = res[1]
            if not r["assumed"]:
                val["skipped"] += 1
                if kind == "candidate":
                    unrep.append(f"{case}: {item['label']} (assumption not met on replay)")
                return
            bad = list(dict.fromkeys(r["failures"]))
            if r["exc"]:
                if r["exc_harness"]:
                    problems.append(f"{case}: harness error on replay: {r['exc']}")
                    if not bad:
                        return
                else:
                    bad.append("exception " + r["exc"])
            if bad:
                hit = None
                for k in kf:
                    if k.get("case") == case and all(any(l.startswith(x) for x in k["labels"]) for l in bad):
                        hit = k
                        break
                if hit is not None:
                    if hit not in known:
                        known.append(hit)
                    return
                violations.append({"case": case, "labels": bad, "inputs": item["inputs"], "missing": r["missing"][:5], "kind": kind})
                return
            if kind == "candidate":
                unrep.append(f"{case}: {item['label']}" + (f" ({item['exc']})" if item.get("exc") else ""))
                return
            val["witness"] += 1
            o1, o2 = item.get("obs"), r["obs"]
            if o1 is None:
                val["skipped"] += 1
            elif same([list(x) for x in o1], [list(x) for x in o2], 1e-5):
                val["ok"] += 1
            else:
                val["mismatch"] += 1
                if len(mism) < 10:
                    mism.append({"case": case, "inputs": item["inputs"], "symbolic": o1, "real": o2})

        def send_replay(kind, case, item):
            nonlocal rid
            vals = {k: v for k, v in item["inputs"].items() if k != "__exact__"}
            pend_r[rid] = (kind, case, item)
            R.c.send(("replay", rid, case, vals))
            rid += 1

        stop = False
        while (pend_s or pend_r) and time.time() - t0 < wall:
            for conn in mp.connection.wait([S.c, R.c], 1.0):
                try:
                    m = conn.recv()
                except EOFError:
                    problems.append("server died")
                    stop = True
                    break
                if m[0] == "explore":
                    pend_s -= 1
                    case, res = m[2], m[3]
                    if res[0] != "ok":
                        problems.append(f"{case}: {res[1]}")
                        continue
                    st = res[1]
                    stats[case] = st
                    for c in st["candidates"]:
                        send_replay("candidate", case, c)
                    for w in st["witnesses"]:
                        send_replay("witness", case, w)
                        if len(samples) < 5 and w["inputs"]:
                            samples.append({"case": case, "inputs": {k: v for k, v in list(w["inputs"].items())[:12]}})
                elif m[0] == "replay":
                    kind, case, item = pend_r.pop(m[1])
                    on_replay(kind, case, item, m[3])
            if stop:
                break
        if pend_s:
            problems.append(f"{pend_s} case(s) not finished within the wall limit")
    finally:
        S.close()
        R.close()
        shutil.rmtree(scratch, ignore_errors=True)

    tot = lambda k: sum(s[k] for s in stats.values())
    funcs = sorted({f for s in stats.values() for f in s["functions"]})
    incomplete = {n: s["incomplete"] for n, s in stats.items() if s["incomplete"]}
    unk = {}
    for n, s in stats.items():
        for u in s["unknown_checks"]:
            unk[f"{n}: {u}"] = unk.get(f"{n}: {u}", 0) + 1
    uns = {}
    for n, s in stats.items():
        for u in s["unsupported"]:
            uns[f"{n}: {u}"] = uns.get(f"{n}: {u}", 0) + 1
    cut = {}
    for n, s in stats.items():
        for u in s["concretised"]:
            cut[f"{n}: {u}"] = cut.get(f"{n}: {u}", 0) + 1
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": val["ok"],
        "samples": samples,
        "exhaustive": not incomplete and not unk and not uns and not problems and not cut,
        "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
        "solver_s": round(tot("solver_s"), 2), "checks": tot("checks"), "discharged": tot("discharged"), "folded_constant": tot("trivial"),
        "functions_encoded": funcs, "bounds": info["bounds"], "outside_bounds": info["outside"],
        "cases": {n: {"paths": s["paths"], "checks": s["checks"], "discharged": s["discharged"], "queries": s["queries"],
                      "solver_s": round(s["solver_s"], 2), "wall_s": round(s["wall"], 2), "labels": s["labels"],
                      "bounds": dict((a, b) for a, b, _ in cases)[n]} for n, s in stats.items()},
        "witness_replays": val, "mismatches": mism, "unreproduced_candidates": unrep, "undecided": unk, "unsupported": uns,
        "concretised": cut, "incomplete": incomplete, "problems": problems,
        "rule": "states = symbolic paths explored to the end, transitions = forks on symbolic conditions; traces validated = path witnesses whose observations agree with a run of the unmodified code",
    }
    ev.update(coverage=cov, assumptions=info["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(violations))
    return ev, violations, known


def main():
    sys.path.insert(0, ROOT)
    prop, tier = sys.argv[1], sys.argv[2]
    if tier == "replay":
        return replay_file(prop, sys.argv[3])
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    ev, violations, known = decide(prop, tier)
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1, default=str)
    c = ev["coverage"]
    print(f"{prop} {tier}: paths={c.get('states')} queries={c.get('queries')} checks={c.get('checks')} discharged={c.get('discharged')} "
          f"validated={c.get('traces_validated_against_impl')} solver={c.get('solver_s')}s wall={ev['wall_s']}s")
    for k in ("mismatches", "unreproduced_candidates", "undecided", "unsupported", "concretised", "incomplete", "problems"):
        v = c.get(k)
        if v:
            print(f"  {k}: {json.dumps(v, default=str)[:1500]}")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    seen = set()
    for n, v in enumerate(violations):
        key = (v["case"], tuple(v["labels"]))
        if key in seen:
            continue
        seen.add(key)
        p = os.path.join(EVID, "replay", f"{prop}-{len(seen)}.json")
        json.dump({"property": prop, "case": v["case"], "labels": v["labels"], "inputs": v["inputs"]}, open(p, "w"), indent=1, default=str)
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  case {v['case']} ({v['kind']}): {'; '.join(v['labels'])[:400]}")
        print(f"  inputs: {json.dumps(v['inputs'], default=str)[:600]}")
        if len(seen) >= 12:
            break
    sys.stdout.flush()
    return 1 if violations else 0


def replay_file(prop, path):
    import tempfile

    d = json.load(open(path))
    os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif-")
    suite = _load(prop, False)
    from engine import explore

    case = [c for c in suite.cases if c.name == d["case"]][0]
    r = explore.replay(case, {k: v for k, v in d["inputs"].items() if k != "__exact__"})
    print(json.dumps(r, indent=1, default=str))
    return 1 if r["failures"] or r["exc"] else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
