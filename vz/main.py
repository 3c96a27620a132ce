"""Check one property: python -m vz.main ID quick|thorough"""
import json
import os
import re
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
from . import boot  # noqa

boot.setup()


def tree_id():
    import hashlib

    h = hashlib.sha256()
    base = os.path.join(boot.REPO, "zoidberg")
    for f in sorted(os.listdir(base)):
        if f.endswith(".py"):
            h.update(f.encode())
            h.update(open(os.path.join(base, f), "rb").read())
    return h.hexdigest()[:16]


def die_with_parent():
    try:
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except Exception:
        pass


def run_all(P, cfgs, idx, jobs, limit, tmp):
    """fork one worker per configuration, at most `jobs` at a time"""
    from . import worker

    order = sorted(idx, key=lambda i: -cfgs[i].get("cost", 1))
    running, results = {}, {}
    while order or running:
        while order and len(running) < jobs:
            i = order.pop(0)
            out = os.path.join(tmp, "%d.json" % i)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setsid()
                    die_with_parent()
                    err = os.open(out + ".err", os.O_WRONLY | os.O_CREAT)
                    os.dup2(err, 2)
                    worker.work(P, cfgs[i], out)
                except BaseException:
                    import traceback

                    traceback.print_exc()
                finally:
                    os._exit(0)
            running[pid] = (i, out, time.time())
        p, _ = os.waitpid(-1, os.WNOHANG)
        if p in running:
            i, out, _t = running.pop(p)
            try:
                results[i] = json.load(open(out))
            except Exception:
                txt = open(out + ".err").read()[-1500:] if os.path.exists(out + ".err") else "?"
                results[i] = dict(config=cfgs[i]["name"], crashed=txt)
            continue
        for p, (i, out, t) in list(running.items()):
            if time.time() - t > limit:
                try:
                    os.killpg(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(p, 0)
                running.pop(p)
                results[i] = dict(config=cfgs[i]["name"], crashed="time limit %ds" % limit)
        time.sleep(0.01)
    return results


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    P = boot.prop(pid)
    cfgs = P.configs(tier)
    only = os.environ.get("VZ_ONLY")
    idx = [i for i, c in enumerate(cfgs) if not only or re.search(only, c["name"])]
    limit = 800 if tier == "quick" else 3600
    tmp = tempfile.mkdtemp(prefix="vzmain-")
    boot.load()
    import z3  # noqa: F401  (loaded once, inherited by the forked workers)
    from . import explore, npshim, replay  # noqa: F401

    results = run_all(P, cfgs, idx, int(os.environ.get("VZ_JOBS", "8")), limit, tmp)
    shutil.rmtree(tmp, ignore_errors=True)
    res = [results[i] for i in idx]
    crashed = [(cfgs[i]["name"], results[i]["crashed"]) for i in idx if "crashed" in results[i]]
    ok = [r for r in res if "crashed" not in r]
    known = []
    kf = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("known", []) if k["property"] == pid]
    viol, printed_known = [], set()
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for r in ok:
        for v in r["violations"]:
            txt = r["config"] + " | " + v["label"] + " | " + " ".join(v["fails"]) + " " + str(v.get("error"))
            hit = [k for k in known if re.search(k["match"], txt)]
            if hit:
                printed_known.add(hit[0]["what"])
                continue
            path = os.path.join(rdir, "%s-%d.json" % (pid, len(viol)))
            json.dump(dict(property=pid, tier=tier, config=r["config"], label=v["label"], source=v["source"],
                           fails=v["fails"], error=v.get("error"), values=v["values"],
                           how="cd /verif && ./run.sh replay " + path), open(path, "w"), indent=1)
            viol.append((path, r["config"], v))
    tot = lambda k: sum(r[k] for r in ok)
    und = [(r["config"], u) for r in ok for u in r["undecided"]]
    fns = sorted({f for r in ok for f in r["functions"]})
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=getattr(P, "LEVEL", "model_checking"),
        coverage=dict(
            states=max(1, tot("paths")), transitions=max(1, tot("decisions")),
            traces_validated_against_impl=tot("concrete_pass"),
            samples=[dict(config=r["config"], input=s) for r in ok for s in r["samples"][:1]][:6] or [dict(note="none")],
            solver="z3 %s over terms built by executing the functions below; cvc5 fallback" % _z3v(),
            configurations=[dict(name=r["config"], bounds=r["bounds"], paths=r["paths"], infeasible=r["aborted"],
                                 decisions=r["decisions"], obligations=r["obligations"],
                                 obligations_closed_by_evaluation=r["trivial"], queries=r["queries"],
                                 obligations_closed_by_normal_form=r.get("normal_form", 0),
                                 solver_seconds=r["solver_s"], unknown_answers=r["unknown"],
                                 concrete_runs=r["concrete"], concrete_agree=r["concrete_pass"],
                                 undecided=r["undecided"][:5], wall_s=r["wall_s"]) for r in ok],
            functions_encoded=fns, queries=tot("queries"), solver_seconds=round(tot("solver_s"), 2),
            obligations=tot("obligations"), undecided=[("%s: %s" % x)[:300] for x in und][:20],
            crashed=[("%s: %s" % x)[-300:] for x in crashed], source_hash=tree_id(),
            violations_found=[dict(replay=p, config=c, label=v["label"], fails=v["fails"], error=v.get("error")) for p, c, v in viol],
        ),
        wall_s=round(wall, 2),
        assumptions=list(getattr(P, "ASSUMPTIONS", [])) + [
            "floats are modelled as real numbers; equalities are required within the stated tolerance",
            "inputs outside the stated bounds are not covered",
        ],
        violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d configurations, %d paths, %d obligations, %d queries, %.1fs solver, %d concrete runs, %.1fs" % (
        pid, tier, len(ok), tot("paths"), tot("obligations"), tot("queries"), tot("solver_s"), tot("concrete"), wall))
    for c, u in und[:20]:
        print("UNDECIDED %s: %s" % (c, u[:300]))
    for c, u in crashed:
        print("WORKER-FAILED %s: %s" % (c, u[-800:]))
    for k in sorted(printed_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if os.environ.get("VZ_DEBUG"):
        for r in ok:
            print(r["config"], "paths", r["paths"], "wall", r["wall_s"], "sym", r["t_sym"], "q", r["queries"], "solver", r["solver_s"], "conc",
                  {s: r["concrete_status"].count(s) for s in set(r["concrete_status"])})
    for p, c, v in viol[:6]:
        print("  [%s] %s: %s %s" % (c, v["label"], "; ".join(v["fails"][:2]), v.get("error") or ""))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    return 1 if viol else 0


def _z3v():
    try:
        import z3

        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    sys.exit(main())
