"""Runs a shard of simulations; started by check.py. One JSON object per line on fd 3."""
import importlib
import json
import os
import sys
import time

_clock = time.perf_counter


def emit(out, **k):
    out.write(json.dumps(k) + "\n")
    out.flush()


def main():
    job = json.loads(sys.argv[1])
    out = os.fdopen(job["fd"], "w")
    clock = _clock
    from . import world, core
    world.install(job.get("so"))
    mod = importlib.import_module("props." + job["prop"])
    known = set(job["known"])
    deadline = clock() + job["wall"]
    import faulthandler
    faulthandler.enable(file=sys.__stderr__)
    if "replay" in job:
        r = job["replay"]
        for i in r.get("prefix", ()):       # earlier runs of the same worker, when the failure needs them
            try:
                core.execute(mod, job["prop"], "%s:%s:%d" % (r["seed"], job["prop"], i), None, job["tier"], i)
            except core.HarnessError:
                pass
            emit(out, start=i)
        ctx, v = core.execute(mod, job["prop"], r["run_seed"], r["choices"], job["tier"], r["index"])
        emit(out, done=1, replayed=None if v is None else [v.key, v.msg], digest=ctx.digest(),
             values=ctx.values_digest(), trace=ctx.events[-400:])
        return
    first = True
    earlier = []
    import gc
    gc.collect()
    gc.freeze()
    for i in job["runs"]:
        if clock() > deadline:
            emit(out, stopped=i)
            break
        emit(out, start=i)
        seed = "%s:%s:%d" % (job["seed"], job["prop"], i)
        try:
            ctx, v = core.execute(mod, job["prop"], seed, None, job["tier"], i)
        except core.HarnessError as e:
            import traceback
            emit(out, harness="run %d: %s" % (i, traceback.format_exc()[-1500:]))
            continue
        rec = dict(run=i, digest=ctx.digest(), sched=ctx.sched_h.hexdigest()[:16], nontrivial=ctx.nontrivial,
                   values=ctx.values_digest(), stats=dict(ctx.stats), n_choices=len(ctx.ch.out))
        if first or ctx.nontrivial and i < 24:
            rec["sample"] = ctx.events[:60]
            first = False
        if v is not None:
            rec["violation"] = [v.key, v.msg]
            if v.key not in known and "*" not in known:
                best, tries = core.minimise(mod, job["prop"], seed, ctx.ch.out, v.key, job["tier"], i,
                                            clock, job["shrink_s"])
                c2, v2 = core.execute(mod, job["prop"], seed, best, job["tier"], i)
                if v2 is None or v2.key != v.key:
                    best, c2, v2 = list(ctx.ch.out), ctx, v
                rec["replay"] = dict(property=job["prop"], seed=job["seed"], run_seed=seed, index=i, tier=job["tier"],
                                     key=v2.key, message=v2.msg, choices=best, digest=c2.digest(),
                                     original_choices=len(ctx.ch.out), shrink_tries=tries, trace=c2.events[-400:])
                rec["original"] = dict(key=v.key, message=v.msg, choices=list(ctx.ch.out), digest=ctx.digest(),
                                       trace=ctx.events[-400:])
                rec["earlier"] = earlier
                emit(out, **rec)
                break
        emit(out, **rec)
        earlier.append(i)
    emit(out, done=1)


if __name__ == "__main__":
    main()
