#!/usr/bin/env python3
"""
Runs a harness on concrete inputs against the unmodified code in /repo (imported normally; the engine is not loaded).

  replay.py FILE                          replay one counterexample; exit 1 when the property fails on it
  replay.py --batch PROPERTY FILE SECONDS (used by check.py)
"""
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
PY = "/opt/veriftools/pyvenv/bin/python"


def run_one(mod, prop, ob_name, inputs, known, timeout, tier=None):
    from symx.ctx import ConcreteCtx, CheckFailed, AssumptionFailed
    from symx.plain import plain
    ob = None
    for t in ([tier] if tier else ["quick", "thorough"]):
        for o in mod.obligations(t):
            if o.name == ob_name:
                ob = o
                break
        if ob:
            break
    ctx = ConcreteCtx(inputs, known)

    def on_alarm(sig, frame):
        raise TimeoutError("replay timed out")

    class Stop(BaseException):
        pass

    def on_alarm(sig, frame):  # noqa
        raise Stop()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    try:
        ob.fn(ctx, **ob.params)
        return {"status": "ok", "observations": [(n, plain(v)) for n, v in ctx.observations]}
    except CheckFailed as e:
        return {"status": "violation", "label": e.label}
    except AssumptionFailed:
        return {"status": "assumption", "label": ""}
    except Stop:
        return {"status": "hang", "label": "does not terminate"}
    except Exception as e:
        return {"status": "violation", "label": "unexpected exception " + type(e).__name__,
                "detail": "".join(traceback.format_exception(e))[-1200:]}
    finally:
        signal.alarm(0)


def forked(*args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            sys.stdout = sys.stderr
            out = run_one(*args)
            with os.fdopen(w, "w") as f:
                json.dump(out, f, default=repr)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {"status": "error", "label": "replay process died"}


def main():
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True

    def known(prop):
        p = os.path.join(HERE, "known_findings.jsonl")
        out = []
        if os.path.exists(p):
            for line in open(p):
                if line.startswith("{"):
                    e = json.loads(line)
                    if e["property"] == prop and e["kind"] == "known":
                        out.append(e["id"])
        return out

    if sys.argv[1] == "--batch":
        _, _, prop, name, timeout = sys.argv
        mod = importlib.import_module("props." + prop.lower())
        items = json.load(open(name))
        # known findings are reported by replaying them without their exemption
        print(json.dumps([forked(mod, prop, i["obligation"], i["inputs"],
                                 [] if i.get("no_known") else known(prop), int(timeout), i.get("tier")) for i in items]))
        return 0
    e = json.load(open(sys.argv[1]))
    mod = importlib.import_module("props." + e["property"].lower())
    r = forked(mod, e["property"], e["obligation"], e["inputs"], known(e["property"]), 120, e.get("tier"))
    print(json.dumps(r, indent=1))
    return 1 if r["status"] in ("violation", "hang") else 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.prefix) != "/opt/veriftools/pyvenv":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(PY, [PY] + sys.argv)
    sys.exit(main())
