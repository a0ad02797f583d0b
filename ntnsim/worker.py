"""Worker process: executes simulation runs (pure functions of their plan)."""
import faulthandler
import importlib
import json
import os
import sys
import traceback


def load(prop):
    return importlib.import_module(f"ntnsim.props.{prop.lower()}")


def harness_fault(e, in_own_frame):
    """Exceptions that tell about this simulator or its machine, not the code under test"""
    if isinstance(e, (MemoryError, ImportError, OSError, NameError, AssertionError)) or type(e).__name__ in ("HarnessError", "Stuck"):
        return True
    return in_own_frame and isinstance(e, AttributeError)


def execute(mod, plan):
    """One simulated run. Returns a JSON-able result"""
    from . import boot
    try:
        r = mod.run(plan)
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = [f for f in tb if boot.is_ntn_file(f.filename)]
        own = [f for f in tb if f"{os.sep}ntnsim{os.sep}" in f.filename]
        txt = "".join(traceback.format_exception_only(type(e), e)).strip()[:400]
        if frames and (not own or tb.index(frames[-1]) > tb.index(own[-1])
                       or getattr(e, "from_code", False)):
            f = frames[-1]
            where = f"raised at {os.path.basename(f.filename)}:{f.lineno} in {f.name}"
        elif harness_fault(e, own and tb[-1] is own[-1]):
            return dict(error=txt + "\n" + "".join(traceback.format_tb(e.__traceback__))[-3000:])
        else:
            # the code under test returned without complaint what cannot be worked with (a
            # value of another shape or type, a tensor of another graph, ...)
            where = f"while observing a result, at {os.path.basename(own[-1].filename)}:{own[-1].lineno}" if own else "no frame"
        r = dict(viol=dict(cls="unexpected-exception", msg=f"{txt} ({where})"),
                 sig="exc", stats={}, digest="exc:" + type(e).__name__)
    return r


def main():
    faulthandler.enable()
    out = os.fdopen(os.dup(1), "w")
    # the code under test prints
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    mod = load(sys.argv[1])
    if hasattr(mod, "preboot"):
        mod.preboot()
    if getattr(mod, "NEEDS_TF", True):
        from . import boot
        boot.boot()
    if hasattr(mod, "init"):
        mod.init()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        if req.get("quit"):
            break
        r = execute(mod, req["plan"])
        r["id"] = req["id"]
        out.write(json.dumps(r, default=_json) + "\n")
        out.flush()
    os._exit(0)


def _json(o):
    import numpy as np
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


if __name__ == "__main__":
    main()
