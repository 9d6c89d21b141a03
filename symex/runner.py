"""Runs the units of one property over a process pool, replays candidates on the real code, writes evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import re
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NPROC = int(os.environ.get("VERIF_PROCS") or min(8, os.cpu_count() or 1))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Unit:
    """one harness call: func 'module.function', params (JSON-able), weight for scheduling"""

    def __init__(self, name, func, params=None, samples=None, max_paths=None, group=None):
        self.name = name
        self.func = func
        self.params = params or {}
        self.samples = samples
        self.max_paths = max_paths
        self.group = group or name.split(":")[0]


class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([PY, "-m", "symex.concrete"], cwd=VERIF, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)

    def run(self, func, params, inputs, fast=False, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps({"func": func, "params": params, "inputs": inputs, "fast": fast}) + "\n")
            self.p.stdin.flush()
            import select
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                self.p.wait()
                self.p = None
                return {"status": "timeout", "violations": [("timeout", "no answer in %ds" % timeout)], "observed": []}
            line = self.p.stdout.readline()
            if not line:
                self.p.wait()
                self.p = None
                return {"status": "died", "violations": [], "observed": []}
            return json.loads(line)
        except (BrokenPipeError, OSError):
            self.p = None
            return {"status": "died", "violations": [], "observed": []}

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


def _worker(tasks, results, seed, t_end, slice_s, known=()):
    sys.path.insert(0, VERIF)
    from symex import core, explore
    sys.setrecursionlimit(6000)
    rep = Replayer()
    seen = {}
    while True:
        t = tasks.get()
        if t is None:
            break
        tid, uname, func, params, prefixes, nsamples, rate, max_paths, first = t
        t0 = time.time()
        q0, s0, u0 = core.STATS.queries, core.STATS.solver_s, core.STATS.unknown
        b0, d0 = core.STATS.branches, core.STATS.dom_decided
        out = {"tid": tid, "unit": uname, "violations": [], "spurious": [], "inconclusive": [], "replays": 0,
               "sample_cases": [], "mismatch": []}
        try:
            r = explore.explore(func, params, min(t_end, time.time() + slice_s), prefixes, max_paths,
                                sample_rate=rate, seed=seed, min_samples=nsamples if first else 0)
            for label, inputs in r.candidates:
                k = (uname, label)
                n = seen.setdefault(k, [0, 0, 0, 0])
                if n[0] >= 40 or n[1] >= 3 or n[2] >= 2 or (n[0] >= 3 and time.time() > t_end):
                    continue
                kn = match_known(known, uname, label, [], inputs) is not None
                if kn and n[3] >= 2:
                    continue
                n[0] += 1
                rr = rep.run(func, params, inputs)
                out["replays"] += 1
                if rr["status"] in ("violation", "timeout"):
                    out["violations"].append((label, rr["violations"], inputs))
                    if match_known(known, uname, label, rr["violations"], inputs):
                        n[3] += 1
                    else:
                        n[2] += 1
                else:
                    n[1] += 1
                    out["spurious"].append((label, rr, inputs, getattr(r, "last_tb", None)))
            nun = 0
            for reason, inputs in r.unsupported:
                out["inconclusive"].append((reason, inputs))
                nun += 1
                if nun > 25:
                    continue
                rr = rep.run(func, params, inputs)
                out["replays"] += 1
                if rr["status"] in ("violation", "timeout"):
                    out["violations"].append(("unsupported-path", rr["violations"], inputs))
                    nun += 10
            for l, d in r.inconclusive:
                out["inconclusive"].append(("%s: %s" % (l, d), None))
            for inputs, obs in r.samples:
                if time.time() > t_end:
                    break
                rr = rep.run(func, params, inputs, fast=True)
                out["replays"] += 1
                out["sample_cases"].append(inputs)
                if rr["status"] in ("violation", "timeout"):
                    # the encoding says this path holds, the real code says otherwise
                    rr = rep.run(func, params, inputs)
                    if rr["status"] in ("violation", "timeout"):
                        out["violations"].append(("sample", rr["violations"], inputs))
                elif rr["status"] != "ok":
                    out["mismatch"].append((rr, inputs))
                elif rr["observed"] != obs:
                    out["mismatch"].append(({"observed": rr["observed"], "encoded": obs}, inputs))
            out.update(paths=r.paths, aborted=r.aborted, checks=r.checks, trivial=r.trivial, proved=r.proved,
                       labels=r.labels, exhausted=r.exhausted, pending=r.pending, decisions=r.decisions,
                       reached=r.reached, funcs=r.funcs)
        except BaseException:
            out["error"] = traceback.format_exc()[-3000:]
            core.set_cur(None)
        out.update(queries=core.STATS.queries - q0, solver_s=core.STATS.solver_s - s0,
                   unknown=core.STATS.unknown - u0, branches=core.STATS.branches - b0,
                   decided=core.STATS.dom_decided - d0, wall=time.time() - t0)
        results.put(out)
    rep.close()


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k["property"] == prop and k.get("status", "known") == "known"]


def match_known(known, unit, label, viols, inputs):
    labs = [v[0] for v in viols] or [label]
    text = repr({k: ("".join(map(chr, v)) if isinstance(v, list) else v) for k, v in inputs.items()})
    for k in known:
        if re.fullmatch(k["unit"], unit) and all(re.fullmatch(k["label"], l) for l in labs) and \
                re.search(k.get("inputs", ""), text, re.S):
            return k
    return None


def distinct(units):
    """each unit once, under a name of its own"""
    names, out = {}, []
    for u in units:
        same = names.setdefault(u.name, [])
        key = repr((u.func, sorted(u.params.items())))
        if key in same:
            continue
        same.append(key)
        if len(same) > 1:
            u.name += "#%d" % len(same)
        out.append(u)
    return out


def show_inputs(inputs):
    return {k: ("".join(map(chr, v)) if isinstance(v, list) else v) for k, v in inputs.items()}


def run_property(prop, tier, seed, budget, only=None, verbose=False):
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    t0 = time.time()
    hm = importlib.import_module(prop.lower())
    units = hm.units(tier)
    units = distinct(units)
    if only:
        units = [u for u in units if re.search(only, u.name)]
    t_end = t0 + budget
    mpc = mp.get_context("fork")
    # preload heavy modules before forking
    from symex import explore
    sys.setrecursionlimit(6000)
    explore.harness_world()
    pre = getattr(hm, "PRELOAD", None)
    if pre:
        pre()
    tasks = mpc.Queue()
    results = mpc.Queue()
    known = load_known(prop)
    procs = [mpc.Process(target=_worker, args=(tasks, results, seed, t_end, 6.0 if tier == "quick" else 20.0, known),
                         daemon=False) for _ in range(NPROC)]
    for p in procs:
        p.start()
    rate = 0.02 if tier == "quick" else 0.1
    tid = 0
    live = 0
    byname = {u.name: u for u in units}
    per = {u.name: {"paths": 0, "tasks": 0, "exhausted": True, "reached": 0, "checks": 0, "wall": 0.0} for u in units}
    backlog = []
    for u in units:
        backlog.append((u, None, True))
    backlog.reverse()

    def feed():
        nonlocal tid, live
        while backlog and live < NPROC * 3:
            u, pref, first = backlog.pop()
            tasks.put((tid, u.name, u.func, u.params, pref, 1 if u.samples is None else u.samples, rate, u.max_paths, first))
            tid += 1
            live += 1

    tot = {k: 0 for k in ("paths", "aborted", "checks", "trivial", "proved", "queries", "unknown", "branches",
                          "decided", "replays", "decisions", "reached")}
    tot["solver_s"] = 0.0
    viols, spurious, inconc, mism, errors, samples, funcs, labels = [], [], [], [], [], [], {}, {}
    kn_hit = {}
    nonexh = set()
    stop = False
    feed()
    while live:
        try:
            o = results.get(timeout=5)
        except queue.Empty:
            if time.time() > t_end + 150 or not any(p.is_alive() for p in procs):
                errors.append(("pool", "workers stopped answering"))
                break
            dead = [p for p in procs if not p.is_alive()]
            if dead:
                # a worker was killed (memory): its task is lost
                for p in dead:
                    procs.remove(p)
                    live -= 1
                    errors.append(("pool", "a worker died with exit code %s" % p.exitcode))
                    np_ = mpc.Process(target=_worker, args=(tasks, results, seed, t_end, 6.0, known), daemon=False)
                    np_.start()
                    procs.append(np_)
                feed()
            continue
        live -= 1
        u = byname[o["unit"]]
        pu = per[u.name]
        for k in tot:
            if k in o:
                tot[k] += o[k]
        if "error" in o:
            errors.append((u.name, o["error"]))
            nonexh.add(u.name)
        else:
            pu["paths"] += o["paths"]
            pu["reached"] += o["reached"]
            pu["checks"] += o["checks"]
            for l, n in o["labels"].items():
                labels[l] = labels.get(l, 0) + n
            funcs.update(o["funcs"])
            pend = o["pending"]
            capped = u.max_paths is not None and pu["paths"] >= u.max_paths
            if pend:
                if time.time() < t_end and not stop and not capped:
                    n = max(1, min(NPROC, len(pend)))
                    for i in range(n):
                        ch = pend[i::n]
                        if ch:
                            backlog.append((u, ch, False))
                else:
                    nonexh.add(u.name)
        pu["wall"] += o["wall"]
        pu["tasks"] += 1
        for label, vs, inputs in o["violations"]:
            k = match_known(known, u.name, label, vs, inputs)
            if k:
                kn_hit.setdefault(k["id"], (k, u.name, inputs))
            else:
                viols.append((u, label, vs, inputs))
        spurious += [(u.name,) + tuple(x) for x in o["spurious"]]
        inconc += [(u.name,) + tuple(x) for x in o["inconclusive"]]
        mism += [(u.name,) + tuple(x) for x in o["mismatch"]]
        if len(samples) < 2000:
            samples += [(u.name, show_inputs(x)) for x in o["sample_cases"][:3]]
        if viols and not verbose:
            stop = True
        if stop:
            for b in backlog:
                nonexh.add(b[0].name)
            backlog.clear()
        if time.time() > t_end:
            for b in backlog:
                nonexh.add(b[0].name)
            backlog.clear()
        feed()
        if stop and viols and live and time.time() - t0 > 5:
            # do not wait for the rest
            break
    killed = stop
    for _ in procs:
        tasks.put(None)
    for p in procs:
        p.join(0.2 if killed else 20)
        if p.is_alive():
            p.kill()
            p.join()
    tasks.cancel_join_thread()
    results.cancel_join_thread()
    wall = time.time() - t0
    started = {n for n, q in per.items() if q["tasks"]}
    for n in per:
        if n not in started:
            nonexh.add(n)
    vac = [n for n in started if per[n]["checks"] == 0 and n not in nonexh and not any(x[0] == n for x in inconc)]
    return dict(prop=prop, tier=tier, seed=seed, wall=wall, units=len(units), per=per, tot=tot, viols=viols,
                spurious=spurious, inconc=inconc, mism=mism, errors=errors, samples=samples, funcs=funcs,
                labels=labels, nonexh=sorted(nonexh), kn_hit=kn_hit, known=known, vacuous=vac, started=len(started),
                harness=hm)


def write_replay(prop, u, label, vs, inputs):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(repr((u.name, label, inputs)).encode("utf-8", "replace")).hexdigest()[:10]
    f = os.path.join(d, h + ".json")
    with open(f, "w") as fh:
        json.dump({"property": prop, "unit": u.name, "func": u.func, "params": u.params, "inputs": inputs,
                   "readable": show_inputs(inputs), "label": label, "observed": vs}, fh, indent=1)
    return f


def evidence(r, nviol):
    prop = r["prop"]
    hm = r["harness"]
    tot = r["tot"]
    seen = []
    ids = set()
    for u, s in r["samples"]:
        g = u.split(":")[0]
        if g in ids and len(seen) > 12:
            continue
        ids.add(g)
        seen.append({"unit": u, "inputs": {k: (v if not isinstance(v, str) else v[:200]) for k, v in s.items()}})
        if len(seen) >= 25:
            break
    groups = {}
    for n, q in r["per"].items():
        g = groups.setdefault(n.split(":")[0], {"units": 0, "paths": 0, "checks": 0, "exhausted_units": 0, "cpu_s": 0.0})
        g["cpu_s"] = round(g["cpu_s"] + q["wall"], 1)
        g["units"] += 1
        g["paths"] += q["paths"]
        g["checks"] += q["checks"]
        if n not in r["nonexh"]:
            g["exhausted_units"] += 1
    undecided = len(r["inconc"]) + len(r["spurious"])
    ev = {
        "property": prop, "tier": r["tier"], "seed": r["seed"], "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["decisions"],
            "traces_validated_against_impl": tot["replays"],
            "samples": seen,
            "exhaustive": not r["nonexh"] and not undecided and not r["errors"],
            "explanation": "states = symbolic paths (each covers every value of its solver variables); transitions = "
                           "branch decisions; traces = solver models replayed on the real mappyfile",
            "bounds": getattr(hm, "BOUNDS", ""),
            "functions_encoded": r["funcs"],
            "units": r["units"], "units_started": r["started"],
            "units_not_exhausted": r["nonexh"][:60], "units_not_exhausted_count": len(r["nonexh"]),
            "groups": groups,
            "assertions_evaluated": tot["checks"], "assertions_true_by_evaluation": tot["trivial"],
            "assertions_proved_by_solver_or_domain": tot["proved"], "labels": r["labels"],
            "solver_queries": tot["queries"], "solver_seconds": round(tot["solver_s"], 3),
            "solver_unknown": tot["unknown"], "branches_needing_choice": tot["branches"],
            "branches_decided_by_domain": tot["decided"], "infeasible_paths": tot["aborted"],
            "paths_reaching_the_end": tot["reached"],
            "undecided_paths": [(a, str(b)[:200]) for a, b, *_ in r["inconc"]][:20],
            "undecided_count": undecided,
            "unreproduced_candidates": [(a, b) for a, b, *_ in r["spurious"]][:20],
            "encoding_mismatches": len(r["mism"]),
            "vacuous_units": r["vacuous"][:20],
            "tool_errors": [(a, b[-300:]) for a, b in r["errors"]][:5],
        },
        "assumptions": getattr(hm, "ASSUMPTIONS", []) + [
            "the instrumented interpreter (symex) models Python faithfully; validated per run by replaying solver "
            "models of passing paths on the real code and comparing observations",
            "characters range over a 622-element alphabet (U+0000-024F and representatives of other scripts/planes)"],
        "wall_s": round(r["wall"], 2), "violations": nviol,
    }
    out = os.environ.get("SX_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    return ev


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        j = json.load(open(a.replay))
        rr = Replayer().run(j["func"], j["params"], j["inputs"])
        print(json.dumps(rr, indent=1))
        return 1 if rr["status"] in ("violation", "timeout") else 0
    budget = a.budget or (420 if a.tier == "quick" else 7200)
    r = run_property(a.prop, a.tier, a.seed, budget, a.only, a.v)
    t = r["tot"]
    code = 0
    for kid, (k, u, inputs) in sorted(r["kn_hit"].items()):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    n = 0
    shown = set()
    for u, label, vs, inputs in r["viols"]:
        key = (u.name if a.v else u.group, tuple(v[0] for v in vs))
        n += 1
        if key in shown:
            continue
        if len(shown) >= (8 if not a.v else 400):
            continue
        shown.add(key)
        f = write_replay(a.prop, u, label, vs, inputs)
        print("VIOLATION property=%s replay=%s" % (a.prop, f))
        print("  unit %s: %s" % (u.name, vs[:1]))
        print("  inputs %r" % (show_inputs(inputs),))
        code = 1
    ev = evidence(r, n)
    print("%s %s: %d units (%d not exhausted), %d paths, %d assertions (%d proved, %d by evaluation), %d queries %.1fs, "
          "%d replays, undecided %d, mismatches %d, vacuous %d, errors %d, %.1fs" % (
              a.prop, a.tier, r["units"], len(r["nonexh"]), t["paths"], t["checks"], t["proved"], t["trivial"],
              t["queries"], t["solver_s"], t["replays"], ev["coverage"]["undecided_count"], len(r["mism"]),
              len(r["vacuous"]), len(r["errors"]), r["wall"]))
    if a.v:
        for gn, gv in ev["coverage"]["groups"].items():
            print("   group", gn, gv)
        slow = sorted(r["per"].items(), key=lambda kv: -kv[1]["wall"])[:8]
        for n_, q in slow:
            print("   slow %-50s %.1fs paths %d" % (n_, q["wall"], q["paths"]))
        for x in r["spurious"][:8]:
            print("   SPURIOUS", x[0], x[1], str(x[2])[:600], show_inputs(x[3]), (x[4] or "")[-900:])
        for x in r["inconc"][:12]:
            print("   UNDECIDED", x[0], x[1], show_inputs(x[2]) if x[2] else "")
        for x in r["mism"][:8]:
            print("   MISMATCH", x[0], str(x[1])[:1500], show_inputs(x[2]))
        for x in r["errors"][:4]:
            print("   ERROR", x[0], x[1])
        print("   vacuous", r["vacuous"][:10])
        print("   nonexh", r["nonexh"][:10])
    return code


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
