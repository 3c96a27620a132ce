"""Run a harness with concrete inputs on the unmodified code of /repo.

usage: python -m vz.replay FILE.json           (exit 1 if the property is violated on these inputs)
"""
import json
import signal
import sys
import warnings

from . import boot

boot.setup()


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def _ours(e, tb):
    """the harness could not drive this tree (a private name or signature changed): no statement about the code"""
    from .explore import HarnessError

    if isinstance(e, HarnessError):
        return True
    pre = boot.REPO.rstrip("/") + "/zoidberg/"
    if any(f.filename.startswith(pre) for f in tb):
        return False
    if isinstance(e, (AttributeError, ImportError)):
        return True
    return isinstance(e, TypeError) and "argument" in str(e)


def run_case(cfg, values, limit=60):
    from .explore import ConcCtx
    from .core import PathAbort

    cx = ConcCtx(values)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cfg["fn"](cx, **cfg.get("params", {}))
    except PathAbort as e:
        return dict(status="assume", fails=[], error=str(e))
    except Timeout:
        return dict(status="timeout", fails=[])
    except Exception as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        if _ours(e, tb):
            return dict(status="harness", fails=[], error="%s: %s" % (type(e).__name__, str(e)[:300]))
        where = " <- ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in reversed(tb[-3:]))
        return dict(status="exception", fails=cx.fails, error="%s: %s @ %s" % (type(e).__name__, str(e)[:300], where))
    finally:
        signal.alarm(0)
        cx.unpatch()
    return dict(status="fail" if cx.fails else "pass", fails=[str(f) for f in cx.fails][:10], checks=cx.checks)


def main():
    d = json.load(open(sys.argv[1]))
    boot.load()
    cfgs = boot.prop(d["property"]).configs(d["tier"])
    cfg = [c for c in cfgs if c["name"] == d["config"]][0]
    r = run_case(cfg, d["values"], 300)
    print(json.dumps(r, indent=1))
    return 1 if r["status"] in ("fail", "exception") else 0


if __name__ == "__main__":
    sys.exit(main())
