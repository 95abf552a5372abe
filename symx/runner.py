"""Run one property check: cases in parallel, evidence, verdict."""
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALPY = os.environ.get("VERIF_REALPY", "/opt/venv/bin/python")
KNOWN = os.path.join(VERIF, "known-findings.json")


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)["findings"]


def prop_path(pid):
    return os.path.join(VERIF, "props", pid + ".py")


def load_prop(pid):
    p = prop_path(pid)
    sys.path.insert(0, os.path.dirname(p))
    spec = importlib.util.spec_from_file_location("prop_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Replayer:
    def __init__(self, pid, fn, known):
        self.pid, self.fn, self.known = pid, fn, list(known)
        self.p = None
        self.count = 0
        self.last = None

    def run(self, params, inputs, fn=None, known=None):
        self.count += 1
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
            self.p = subprocess.Popen([REALPY, os.path.join(VERIF, "symx", "realrun.py")], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env,
                                      cwd="/tmp")
        req = dict(prop=prop_path(self.pid), fn=fn or self.fn, params=params, inputs=inputs,
                   known=self.known if known is None else known)
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                self.p = None
                return dict(error="replay process ended", failed=[])
            r = json.loads(line)
        except (BrokenPipeError, ValueError) as e:
            self.p = None
            r = dict(error=str(e), failed=[])
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(f"REPLAY {json.dumps(req)[:1500]}\n  -> {json.dumps(r)[:600]}\n")
        self.last = r
        return r

    def close(self):
        if self.p is not None and self.p.poll() is None:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except Exception:
                self.p.kill()


def _one(args):
    pid, case, known, tier, seconds = args
    os.environ["OMP_NUM_THREADS"] = "1"
    import warnings
    warnings.simplefilter("ignore")
    from symx import symctx
    sys.setrecursionlimit(20000)
    m = load_prop(pid)
    fn = getattr(m, case["fn"])
    rp = Replayer(pid, case["fn"], known)
    t = time.time()
    try:
        extra = getattr(m, "EXTRA_MODS", None)
        rep = symctx.run_case(fn, case.get("params", {}), set(known), rp, tier, case.get("seconds", seconds),
                              extra, dict(getattr(m, "OPTS", {}), **case.get("opts", {})))
    except BaseException as e:
        rep = dict(labels={}, covers={}, violations=[], undecided=[], samples=[], complete=False, stats={},
                   functions=[], errors=["crash: " + traceback.format_exc()[-1500:]])
    rp.close()
    rep["case"] = case["name"]
    rep["fn"] = case["fn"]
    rep["wall_s"] = round(time.time() - t, 2)
    rep["replays"] = rp.count
    return rep


def check(pid, tier):
    t0 = time.time()
    m = load_prop(pid)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    findings = [f for f in load_known() if f["property"] == pid and f.get("status", "open") == "open"]
    known = [f["id"] for f in findings]
    cases = m.CASES(tier)
    only = os.environ.get("VERIF_CASE")
    if only:
        cases = [c for c in cases if only in c["name"]]
    budget = getattr(m, "SECONDS", {}).get(tier, 240 if tier == "quick" else 600)
    jobs = [(pid, c, known, tier, budget) for c in cases]
    nproc = min(8, len(jobs)) or 1
    ctx = mp.get_context("spawn")
    reports = []
    with ctx.Pool(nproc, maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(_one, jobs):
            reports.append(r)
            if os.environ.get("VERIF_VERBOSE"):
                sys.stderr.write(f"  {r['case']}: {r['wall_s']}s {r.get('stats')} errors={r['errors'][:2]} "
                                 f"undecided={r['undecided'][:2]} covers={r['covers']}\n")
    reports.sort(key=lambda r: [c["name"] for c in cases].index(r["case"]))
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)

    viols, lines = [], []
    for r in reports:
        for v in r["violations"]:
            path = os.path.join(rdir, f"{pid}-{r['case'].replace('/', '_').replace(' ', '_')}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, fn=r["fn"], params=v["params"], inputs=v["inputs"], known=known,
                               label=v["label"], detail=v.get("detail")), f, indent=1)
            viols.append(dict(case=r["case"], label=v["label"], at=v["at"], detail=v.get("detail"), replay=path))
    # recorded findings are re-demonstrated on the real code
    kf = []
    for f in findings:
        rp = Replayer(pid, f["fn"], [k for k in known if k != f["id"]])
        res = rp.run(f["params"], f["inputs"])
        rp.close()
        still = bool(res.get("failed"))
        kf.append(dict(id=f["id"], reproduced=still))
        if still:
            lines.append(f"KNOWN-FINDING: property={pid} {f['id']}: {f['what']}")
    tot = {}
    for r in reports:
        for k, v in r.get("stats", {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    undec = [dict(case=r["case"], **u) for r in reports for u in r["undecided"]]
    errs = [dict(case=r["case"], error=e) for r in reports for e in r["errors"]]
    incomplete = [r["case"] for r in reports if not r["complete"] and not r["violations"]]
    labels = {}
    for r in reports:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    covers = {}
    for r in reports:
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, False) or v
    fnames = sorted({f for r in reports for f in r["functions"]})
    decided = tot.get("proved", 0)
    ev = dict(
        property=pid, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation=("Symbolic execution of the current source of the listed functions with z3 deciding every "
                         "branch and every obligation over all values inside the bounds. " + m.BOUNDS),
            functions_encoded=fnames, bounds=m.BOUNDS, outside_bounds=getattr(m, "OUTSIDE", ""),
            cases=[dict(name=r["case"], wall_s=r["wall_s"], complete=r["complete"],
                        paths=r.get("stats", {}).get("paths", 0), obligations=sum(r["labels"].values()),
                        proved=r.get("stats", {}).get("proved", 0), solver_s=round(r.get("stats", {}).get("solver_s", 0), 2),
                        replays=r["replays"]) for r in reports],
            paths=int(tot.get("paths", 0)), infeasible_paths=int(tot.get("infeasible", 0)),
            branch_points=int(tot.get("branches", 0)), queries_discharged=int(tot.get("queries", 0)),
            obligations_proved=int(decided), solver_s=round(tot.get("solver_s", 0.0), 2),
            uf_merges=int(tot.get("merges", 0)),
            obligations_by_label=labels, reachability_witnesses=covers,
            undecided=undec[:40], undecided_total=len(undec), incomplete_cases=incomplete, engine_errors=errs[:20],
            known_findings=kf,
        ),
        assumptions=getattr(m, "ASSUMPTIONS", []) + [
            "real arithmetic stands for IEEE doubles: rounding error and overflow are outside the model; a double "
            "constant is read as the simplest rational rounding to it",
            "transcendental and distribution functions are uninterpreted (with the stated axioms); applications are "
            "identified when the solver proves their arguments equal",
            "numpy/scipy/calendar are modelled by the shims in /verif/symx; counterexamples are replayed on the real "
            "code with the real libraries before being reported",
        ],
        violations=viols, wall_s=round(time.time() - t0, 2))
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    for u in undec[:5]:
        print(f"UNDECIDED property={pid} case={u['case']} obligation={u['label']} {u['at']} ({u['why']})")
    for e in errs[:5]:
        print(f"NOTE property={pid} case={e['case']} {e['error'][:300]}")
    missed = [k for k, v in covers.items() if not v]
    if missed:
        print(f"NOTE property={pid} reachability not witnessed: {missed[:5]}")
    print(f"{pid} {tier}: {int(tot.get('paths', 0))} paths, {int(decided)} obligations proved, "
          f"{int(tot.get('queries', 0))} queries, solver {tot.get('solver_s', 0):.1f}s, wall {ev['wall_s']}s")
    if viols:
        for v in viols:
            print(f"  case {v['case']}: {v['label']} {v['at'] or ''} {str(v['detail'])[:300]}")
        print(f"VIOLATION property={pid} replay={viols[0]['replay']}")
        return 1
    if decided == 0:
        print(f"NO ANSWER property={pid}: nothing could be decided")
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    rp = Replayer(r["property"], r["fn"], r.get("known", []))
    res = rp.run(r["params"], r["inputs"])
    rp.close()
    print(json.dumps(res, indent=1))
    return 1 if res.get("failed") else 0
