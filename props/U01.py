"""Crash consistency of the UV-map cache."""
from props import uvlib as U
from sim.core import Violation


def run(ctx):
    ch = ctx.ch
    w = U.new_world(ctx)
    d = w.disk
    p = U.draw_params(ch, 0.4)
    fmt = ["pkl", "npz", "pickle"][ch.draw(3)]
    path = d.path("cache." + fmt)
    zs = U.draw_zs(ch, 2, 7)
    n_jobs, ckpt = U.draw_run(ch)
    ctx.log("request", sorted(p.items()), zs, fmt, n_jobs, ckpt)
    must = set()
    if ch.flag(0.4):            # an earlier session finished part of the work
        k = 1 + ch.draw(len(zs))
        with w.spawn("earlier") as n0:
            U.request(n0, p, zs[:k], path, 1, 16)
        must = {U.key(z) for z in zs[:k]}
        ctx.log("earlier", sorted(must))
    # how many file operations does the request make?
    probe_path = d.path("probe." + fmt)
    d.poke(probe_path, d.peek(path))
    d.arm()
    saves = [d.peek(path)]

    def on_save(op, pth, n):
        b = d.peek(probe_path)
        if b != saves[-1]:
            saves.append(b)
    if ckpt:
        d.on_op = on_save
    with w.spawn("dry") as n1:
        U.request(n1, p, zs, probe_path, n_jobs, ckpt)
    total = d.nops
    d.on_op = None
    d.disarm()
    if ckpt:
        checkpoints(ctx, w, zs, saves + [d.peek(probe_path)], probe_path, ckpt, n_jobs)
    d.poke(probe_path, None)
    if total == 0:
        ctx.probe("nothing_to_save")
    for c in range(1 + ch.small(3)):
        power = ch.flag(0.3)
        at = ch.draw(max(1, total)) if not ch.flag(0.2) else max(0, total - 1 - ch.draw(4))
        torn = ch.draw(1 << 16)
        before_bytes = d.peek(path)
        snaps = [before_bytes]

        def on_op(op, pth, n, snaps=snaps):
            b = d.peek(path)
            if b != snaps[-1]:
                snaps.append(b)
        d.on_op = on_op
        d.arm({at: ("crash", torn)}, power=power)
        node = w.spawn("run%d" % c)
        # a further request may use other workers and checkpoint interval
        nj, ck = (n_jobs, ckpt) if c == 0 else U.draw_run(ch)
        ctx.log("run", c, "n_jobs", nj, "checkpoint", ck, "crash-op", at, "power" if power else "process")
        res = None
        try:
            with node:
                res = U.request(node, p, zs, path, nj, ck)
        except Violation:
            raise
        except BaseException as e:
            if not d.dead:
                ctx.fail("request-failed", "without any fault: %s: %s" % (type(e).__name__, e))
        died = d.dead
        d.on_op = None
        w.kill(node)
        d.restart()
        ctx.schedule(at, torn % 7, power, nj, ck)
        if died:
            if not power:
                # every content the file had while it was complete counts as a finished save
                for b in snaps:
                    if b is None:
                        continue
                    tmp = d.path("snap." + fmt)
                    d.poke(tmp, b)
                    st, data = U.read(w, tmp)
                    d.poke(tmp, None)
                    if st == "ok":
                        must |= U.maps_in(data, zs)
                        ctx.probe("checkpoint_seen")
            must = U.check_stored(ctx, w, path, p, zs, must, where="after crash %d" % c)
            if must and len(must) < len(zs):
                ctx.probe("resumed_from_partial")
        else:
            U.check_result(ctx, w, res, p, zs, where="run %d" % c)
            must = U.check_stored(ctx, w, path, p, zs, {U.key(z) for z in zs}, where="after run %d" % c)
    # recovery: same request, no faults
    nj, ck = U.draw_run(ch)
    ctx.log("recover", nj, ck, "have", sorted(must))
    node = w.spawn("recover")
    calls = count_maps(w, node, p, zs, path, nj, ck, must, ctx)
    U.check_stored(ctx, w, path, p, zs, {U.key(z) for z in zs}, where="after recovery")


def checkpoints(ctx, w, zs, saves, path, ckpt, n_jobs):
    """From one state of the file to the next, no more maps than the checkpoint interval are added."""
    have = set()
    for i, b in enumerate(saves):
        if b is None or i and b == saves[i - 1]:
            continue
        w.disk.poke(path, b)
        st, data = U.read(w, path)
        if st != "ok":
            continue            # (how a save may look half-way is decided by the crashes)
        now = U.maps_in(data, zs)
        ctx.check(i == 0 or len(now - have) <= ckpt, "checkpoint-late", lambda: "checkpoint=%d, n_jobs=%d: %d maps were computed before "
                  "any of them was saved" % (ckpt, n_jobs, len(now - have)))
        have = now


_cal = {}


def count_maps(w, node, p, zs, path, nj, ck, must, ctx):
    """Runs the recovery and checks that maps already in the file are not computed again.

    Work is measured by how often the per-redshift computation is entered, calibrated on a
    fresh request; when the measure is not proportional to redshifts it is not used."""
    from sim import world as W
    W.trace(True)
    names = ("get_uv_map", "get_uv_daily_observation", "grid_uv_tracks")
    cnt = {}

    def hook(code, line):
        if code.co_name in names and line == code.co_firstlineno + _first(code):
            cnt[code.co_name] = cnt.get(code.co_name, 0) + 1
    w.line_hook = hook
    try:
        with node:
            res = U.request(node, p, zs, path, nj, ck)
    except Violation:
        raise
    except BaseException as e:
        ctx.fail("recovery-failed", "the repeated request fails: %s: %s" % (type(e).__name__, str(e)[:300]))
    finally:
        w.line_hook = None
        W.trace(False)
    U.check_result(ctx, w, res, p, zs, where="recovery")
    need = len({U.key(z) for z in zs}) - len(must)
    vals = [v for v in cnt.values()]
    ctx.log("recomputed", sorted(cnt.items()), "needed", need)
    if vals:
        ctx.check(min(vals) <= need, "recomputed",
                  lambda: "recovery computed %d maps, only %d were missing" % (min(vals), need))
    elif need == 0:
        ctx.stats["oracle_checks"] += 1
    return cnt


_fl = {}


def _first(code):
    """Offset of the first executed line of a function."""
    v = _fl.get(code)
    if v is None:
        lines = [l for _, _, l in code.co_lines() if l is not None and l > code.co_firstlineno]
        v = _fl[code] = (min(lines) - code.co_firstlineno) if lines else 0
    return v
