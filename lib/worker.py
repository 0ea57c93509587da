"""Runs cases of one scenario module in a process of its own and reports what its monitors saw.

usage: worker.py MODULE JOB.json   (JOB: tier, seed, start, step, cases, cap, out, hb, known, replay)"""

import faulthandler
import gc
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")


def main():
    mod_name, job_path = sys.argv[1:3]
    with open(job_path) as f:
        job = json.load(f)
    faulthandler.enable()
    import signal

    faulthandler.register(signal.SIGUSR1, all_threads=True)
    if job.get("debug_log"):
        import logging

        class Sink(logging.Handler):
            def emit(self, record):
                record.getMessage()  # formatting runs the library's reprs

        logging.getLogger().addHandler(Sink())
        logging.getLogger("a_sync").setLevel(logging.DEBUG)
        logging.getLogger("asyncio").setLevel(logging.CRITICAL)
    else:
        import logging

        logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
    import h

    from vloop import Quiescent, StepLimit

    if job.get("require_path"):
        import a_sync

        assert a_sync.__file__.startswith(job["require_path"]), a_sync.__file__
    mod = importlib.import_module("props." + mod_name)
    ctx = h.Ctx()
    ctx.tier = job["tier"]
    ctx.job = job
    known = set(job.get("known", ()))
    hb, hb_size = os.open(job["hb"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 4096
    t0 = time.monotonic()
    res = {"cases": 0, "violation": None, "inconclusive": 0, "errors": []}

    def finish(code=0):
        res.update(
            counters=dict(ctx.counters), sigs=sorted(ctx.sigs), samples=ctx.samples, wall=time.monotonic() - t0
        )
        tmp = job["out"] + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, default=repr)
        os.rename(tmp, job["out"])
        if job.get("clean_exit"):
            sys.exit(code)
        sys.stdout.flush()
        os._exit(code)

    if job.get("replay") is not None:
        indices = [None]
    else:
        indices = range(job["start"], job["cases"], job["step"])
    for i in indices:
        if i is not None and time.monotonic() - t0 > job["cap"]:
            ctx.count("capped_by_time")
            break
        case = job["replay"] if i is None else mod.gen(h.rng_of(mod_name, job["seed"], i), i, job["tier"])
        blob = json.dumps([i, case, time.time()]).encode()
        hb_size = max(hb_size, len(blob))
        os.pwrite(hb, blob.ljust(hb_size), 0)
        try:
            mod.run(case, ctx)
            res["cases"] += 1
        except h.Inconclusive as e:
            res["inconclusive"] += 1
            ctx.count("inconclusive:" + str(e)[:60])
        except MemoryError:
            res["errors"].append("MemoryError")
        except BaseException as e:
            if isinstance(e, h.Violation):
                mech, msg, detail = e.mech, e.msg, e.detail
            elif isinstance(e, Quiescent):
                mech, msg, detail = "deadlock", "deadlock: nothing can run any more and the workload has not finished", {}
            elif isinstance(e, StepLimit):
                mech, msg, detail = "livelock", f"livelock: {e}", {}
            elif isinstance(e, OSError) and e.errno in (11, 12, 23, 24, 28) or "can't start new thread" in str(e):
                res["errors"].append(repr(e))
                continue
            else:
                mech, msg, detail = "unexpected:" + type(e).__name__, f"unexpected {type(e).__name__}: {e}", {}
            if job.get("crash_only"):
                # this check decides crashes and memory errors; the behaviour itself has its own check
                ctx.count("ended_otherwise")
                res["cases"] += 1
                continue
            if mech in known:
                ctx.count("known:" + mech)
                res["cases"] += 1
                continue
            res["violation"] = {
                "module": mod_name,
                "index": i,
                "case": case,
                "mech": mech,
                "msg": msg[:4000],
                "detail": detail,
                "trace": traceback.format_exc()[-6000:],
                "debug_log": job.get("debug_log", False),
            }
            finish()
        if res["cases"] % 64 == 0:
            gc.collect()
    if hasattr(mod, "probes") and not job.get("crash_only") and job.get("start", 0) == 0:
        res["findings"] = {}
        for mech, probe in mod.probes().items():
            try:
                res["findings"][mech] = bool(probe())
            except BaseException as e:
                res["findings"][mech] = f"{type(e).__name__}: {e}"
    finish()


if __name__ == "__main__":
    main()
