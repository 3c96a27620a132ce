"""One symbolic exploration (one configuration of one property) in a forked process."""
import json
import os
import signal
import sys
import tempfile
import time

from . import boot

boot.setup()
if os.environ.get("VZ_DEBUG"):
    import faulthandler

    faulthandler.register(signal.SIGUSR1, file=open(os.environ.get("VZ_FH", os.devnull), "a"))


class ConcreteServer:
    """forked before the code under test is patched: runs inputs on the real, unmodified code"""

    def __init__(self, cfg, out):
        self.out = out
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                from .main import die_with_parent

                die_with_parent()
                os.close(w)
                with os.fdopen(r) as f:
                    cases = json.load(f)
                from . import replay

                with open(out, "w") as f:
                    for v in cases:
                        f.write(json.dumps(replay.run_case(cfg, v, cfg.get("case_timeout", 60))) + "\n")
                        f.flush()
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(r)
        self.w = w

    def run(self, cases, timeout):
        with os.fdopen(self.w, "w") as f:
            json.dump(cases, f)
        t0 = time.time()
        while True:
            p, _ = os.waitpid(self.pid, os.WNOHANG)
            if p:
                break
            if time.time() - t0 > timeout:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                break
            time.sleep(0.02)
        res = []
        if os.path.exists(self.out):
            for line in open(self.out):
                try:
                    res.append(json.loads(line))
                except ValueError:
                    pass
            os.unlink(self.out)
        while len(res) < len(cases):
            res.append(dict(status="crash-or-timeout", fails=[]))
        return res


def work(P, cfg, out):
    """body of the forked worker"""
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VZ_DEBUG"):
        os.dup2(dn, 1)
    t0 = time.time()
    server = ConcreteServer(cfg, out + ".conc")
    from . import npshim
    from .explore import Explorer

    npshim.install()
    opts = dict(cfg.get("opts", {}))
    ex = Explorer(lambda cx: cfg["fn"](cx, **cfg.get("params", {})), npshim.NP, **opts)
    r = ex.run()
    t_sym = time.time() - t0
    # concrete confirmation on the unpatched code
    cases, owner = [], []
    for i, c in enumerate(r["cex"]):
        for v in c["values"]:
            cases.append(v)
            owner.append(("cex", i))
    for i, u in enumerate(r["undecided"]):
        for v in u.get("values") or []:
            cases.append(v)
            owner.append(("und", i))
    for i, w in enumerate(r["witnesses"]):
        cases.append(w)
        owner.append(("wit", i))
    cap = int(cfg.get("max_cases", 60))
    cases, owner = cases[:cap], owner[:cap]
    res = server.run(cases, cfg.get("concrete_timeout", 240))
    violations, mism, passed = [], [], 0
    seen = set()
    for c, o, x in zip(cases, owner, res):
        if x["status"] == "pass":
            passed += 1
        if x["status"] in ("fail", "exception"):
            key = o
            if key in seen:
                continue
            seen.add(key)
            label = r["cex"][o[1]]["label"] if o[0] == "cex" else (r["undecided"][o[1]]["reason"] if o[0] == "und" else "path witness")
            violations.append(dict(source=o[0], label=label, fails=x["fails"][:5], error=x.get("error"), values=c))
    und = []
    for i, u in enumerate(r["undecided"]):
        if ("und", i) not in seen:
            und.append(u["reason"])
    for i, c in enumerate(r["cex"]):
        if ("cex", i) not in seen:
            st = [x["status"] + str(x.get("error") or "") for o, x in zip(owner, res) if o == ("cex", i)]
            und.append("counterexample not reproduced on the real code: %s %s" % (c["label"], st))
    st = ex.stats
    result = dict(config=cfg["name"], violations=violations, undecided=und, paths=st.paths, aborted=r["aborted"],
                  decisions=st.decisions, obligations=st.obligations, trivial=st.obligations_trivial,
                  normal_form=st.normal_form,
                  queries=st.queries, solver_s=round(st.solver_s, 2), unknown=st.unknown, cvc5=st.cvc5,
                  functions=sorted(ex.functions), concrete=len(cases), concrete_pass=passed,
                  concrete_status=[x["status"] for x in res], bounds=cfg.get("bounds", ""),
                  wall_s=round(time.time() - t0, 2), t_sym=round(t_sym, 2), samples=r["witnesses"][:2])
    json.dump(result, open(out, "w"))

