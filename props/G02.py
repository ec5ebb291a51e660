"""Results depend on arguments and current settings only, not on earlier calls."""
import numpy as np

from sim.core import Violation
from sim.world import World
from . import ops
from .T01 import brief

SETTERS = [("set_hubble_h", [0.6, 0.7, 0.678]), ("set_omega_matter", [0.31, 0.27, 0.24]), ("set_omega_lambda", [0.6, 0.73]),
           ("set_omega_baryon", [0.05, 0.044]), ("set_sim_constants", [114, 244, 500]), ("set_abundance_helium", [0.24, 0.2486]),
           ("set_ns", [0.97]), ("set_sigma_8", [0.75])]


def arrays(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, dict):
        x = list(x.values())
    return sum((arrays(v) for v in x), []) if isinstance(x, (list, tuple)) else []


def scribble(v):
    """Overwrites every array of a returned value, as its owner may. -> number overwritten"""
    n = 0
    for a in arrays(v):
        if type(a) is np.ndarray and a.flags.writeable and a.size and a.dtype.kind in "fciub":
            a[...] = np.nan if a.dtype.kind in "fc" else 1
            n += 1
    return n


def rework(ch, rng, ak):
    """Gives one array of the caller other values, in place."""
    xs = [a for a in arrays(ak) if type(a) is np.ndarray and a.flags.writeable and a.size > 1 and a.dtype.kind in "fciub"]
    xs = [a for a in xs if a.ndim > 1] or xs
    if not xs:
        return False
    a = xs[ch.draw(len(xs))]
    new = np.array(np.ascontiguousarray(a)).ravel()
    if ch.flag(0.5):
        new = new[rng.permutation(a.size)]
    else:                   # two values change places: same corners, same sum
        i, j = a.size // 2, a.size // 2 + max(1, a.size // 7)
        new[i], new[j % a.size] = new[j % a.size], new[i]
    new = new.reshape(a.shape)
    if a.ndim == 1:
        new = np.ascontiguousarray(a * 1.01 if a.dtype.kind == "f" else a)     # keeps an axis sorted
    a[...] = new
    return True


def spoil(ch, ak):
    """One argument becomes something the call was not made for."""
    args, kw = list(ak[0]), dict(ak[1])
    if args and (not kw or ch.flag(0.7)):
        i = ch.draw(len(args))
        args[i] = bad(ch, args[i])
    elif kw:
        k = sorted(kw)[ch.draw(len(kw))]
        kw[k] = bad(ch, kw[k])
    return tuple(args), kw


def bad(ch, x):
    k = ch.draw(6)
    if isinstance(x, np.ndarray) and x.ndim and k < 2:
        return x[:-1] if k else x[..., None]
    return [None, "wrong", np.zeros((0,)), (), [], {}][k]       # no numbers: a wrong number can mean a very long computation


BROKEN = {"NameError", "AttributeError", "UnboundLocalError", "ImportError", "ModuleNotFoundError"}    # a name that is not there


def run(ctx):
    """An interactive session may print arrays in short form."""
    short = ctx.ch.flag(0.5)
    with np.printoptions(**({"threshold": 6, "edgeitems": 1, "precision": 3} if short else {})):
        session(ctx)
    ctx.nontrivial = True


def session(ctx):
    ch = ctx.ch
    w = World(ctx)
    w.cpus = 2
    rng = np.random.RandomState(ctx.npseed())
    g = ops.G(ctx)
    node = w.spawn("session")
    setters = []
    past = []               # (call, argument objects it was given)
    last = None             # last returned value
    focus = fam = None
    tour = None
    how = ch.weighted([(5, "tour"), (3, "focus"), (1, "family"), (2, "any")])
    if how in ("tour", "focus"):             # one function throughout
        focus = ops.draw_call(ctx, g, at=ctx.index)
    elif how == "family":
        fam = ops.FAMILIES[ch.draw(len(ops.FAMILIES))]
    if how == "tour":       # every kind of step once, in a drawn order
        tour = ["call"] + ch.shuffle(["scribble", "rework", "tweak", "setter", "spoiled", "repeat"])
    for step in range(len(tour) if tour else 3 + ch.draw(6) + (12 if ch.flag(0.05) else 0)):
        act = tour[step] if tour else ch.weighted([(5, "call"), (3, "variant"), (5, "tweak"), (4, "repeat"), (3, "rework"), (2, "scribble"), (2, "spoiled"), (8 if focus else 4, "setter"), (1, "verbose")])
        if act in ("variant", "tweak", "repeat", "rework") and not past or act == "scribble" and last is None:
            act = "call"
        if act == "setter":
            f, vals = ch.pick(SETTERS)
            v = vals[ch.draw(len(vals))]
            with node:
                getattr(node.t2c, f)(v)
            setters.append((f, v))
            ctx.log(f, v)
            ctx.fault("settings_change")
            if not past or not tour and ch.flag(0.3):
                continue
            act = "repeat"
        if act == "verbose":
            with node:
                node.t2c.set_verbose(ch.flag(0.5))
            ctx.log("set_verbose")
            continue
        if act == "scribble":
            n = scribble(last)
            last = None
            ctx.fault("caller_overwrites_result", n)
            ctx.log("scribble", n)
            act = "repeat" if past else "call"
        if act == "call":
            c = (ops.variant(ctx, focus, g) if past else focus) if focus else ops.draw_call(ctx, g, [fam] if fam else None)
            ak = c.fresh()
        elif act == "variant":
            c = ops.variant(ctx, past[ch.draw(len(past))][0], g)
            ak = c.fresh()
        elif act == "tweak":
            c = ops.tweak(ctx, past[ch.draw(len(past))][0], g)
            ak = c.fresh()
        elif act == "spoiled":
            c = past[ch.draw(len(past))][0] if past and ch.flag(0.7) else focus or ops.draw_call(ctx, g, [fam] if fam else None)
            ak = spoil(ch, c.fresh())
        else:
            c, ak = past[-1] if ch.flag(0.6) else past[ch.draw(len(past))]
            if act == "rework":
                if not rework(ch, rng, ak):
                    ak = c.fresh()
                else:
                    ctx.fault("caller_changes_array")
        orig = ops.copy_args(ak)
        fl = ops.flags(ak)
        ctx.log(act, c.label)
        ctx.schedule(act, c.label)
        with node:
            if act == "spoiled":
                np.random.seed(5)       # the seed may be what was spoiled
            got = c.invoke(node, ak)
            mine = ops.settings(node)
        ref = w.spawn("ref%d" % step)
        with ref:
            for f, v in setters:
                getattr(ref.t2c, f)(v)
            theirs = ops.settings(ref)
            if act == "spoiled":
                np.random.seed(5)
            want = c.invoke(ref, ops.copy_args(orig))
        w.kill(ref)
        what = "step %d, %s %s, settings %s" % (step, act, c.label, setters)
        if c.name in ops.OPEN:
            ctx.check(ops.same(orig, ak), ops.changed_key(c), lambda: "%s: an argument of the caller was changed" % what)
        ctx.check(ops.agree(want, got), "history-dependent", lambda: "%s: %s, in a fresh session: %s" % (what, brief(got), brief(want)))
        if act in ("call", "variant"):
            ctx.check(want[0] == "ok" or want[1] not in BROKEN, "call-broken/" + c.name,
                      lambda: "%s cannot run in any session: %s" % (what, want[1]))
        if act != "spoiled" or want[0] == "err":
            ctx.check(ops.same(orig, ak) and fl == ops.flags(ak), ops.changed_key(c), lambda: "%s: an argument of the caller was changed" % what)
        ctx.check(ops.same_settings(theirs, mine), "settings-changed", lambda: "%s: settings differ from a fresh session: %s" % (
            what, ops.settings_diff(theirs, mine)))
        ctx.probe("%s %s" % (act, got[0]))
        if act != "spoiled":
            past.append((c, ak))
        last = got[1] if got[0] == "ok" else None
