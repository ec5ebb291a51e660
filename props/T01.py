"""Concurrent callers get the results they would get alone."""
import numpy as np

from sim import sched
from sim.core import Violation
from sim.world import World, hot_codes
from . import ops


def share(ch, a, b):
    """Lets call b use arrays of call a where they have the same form. -> number shared"""
    pool = [x for x in list(a.args) + list(a.kw.values()) if isinstance(x, np.ndarray) and type(x) is np.ndarray and x.ndim]
    n = 0

    def sub(x):
        nonlocal n
        if isinstance(x, np.ndarray) and type(x) is np.ndarray:
            for y in pool:
                if y.shape == x.shape and y.dtype == x.dtype and ch.flag(0.6):
                    n += 1
                    return y
        return x
    b.args = tuple(sub(x) for x in b.args)
    b.kw = {k: sub(v) for k, v in b.kw.items()}
    return n


def run(ctx):
    ch = ctx.ch
    w = World(ctx, tracing=True)
    w.cpus = 1 + ch.draw(3)
    g = ops.G(ctx)
    calls = [ops.draw_call(ctx, g, rand=False, skip=ops.SERIAL, at=ctx.index)]
    shared = 0
    for i in range(1 + ch.small(2, 0.25)):
        how = ch.weighted([(4, "variant"), (3, "tweak"), (2, "same"), (2, "family"), (3, "settings"), (1, "other")])
        a = calls[0]
        if how == "same":
            calls.append(a)             # the very same argument objects
            shared += 1
            continue
        if how == "variant":
            b = ops.variant(ctx, a, g)
        elif how == "tweak":
            b = ops.tweak(ctx, a, g)
        elif how == "settings":         # a short call that depends on cosmology and box
            b = ops.draw_call(ctx, g, ["cosmology", "coordinates"], rand=False, skip=ops.SERIAL)
        elif how == "family":
            b = ops.draw_call(ctx, g, [a.family], rand=False, skip=ops.SERIAL)
        else:
            b = ops.draw_call(ctx, g, rand=False, skip=ops.SERIAL)
        shared += share(ch, a, b)
        calls.append(b)
    noise = ch.flag(0.12)
    ctx.log("calls", [c.label for c in calls], "sharing", shared, "noise" if noise else "")
    # alone
    want, est, hot = {}, 0, 0
    for c in calls:
        if id(c) in want:
            est, hot = est + want[id(c)][1], hot + want[id(c)][2]
            continue
        solo = w.spawn("solo")
        with solo:
            w.hot = hot_codes(solo)
            l0, h0 = w.lines, w.hot_lines
            r = c.invoke(solo)
        want[id(c)] = (r, w.lines - l0, w.hot_lines - h0)
        est, hot = est + w.lines - l0, hot + w.hot_lines - h0
        w.kill(solo)
        ctx.probe("call fails alone" if r[0] == "err" else "call succeeds alone")
    node = w.spawn("session")
    with node:
        before = ops.settings(node)
    # each argument object is shared among callers exactly as drawn
    memo = {}
    aks = []
    for c in calls:
        aks.append(deep(c, memo))
    orig = [ops.copy_args(x) for x in aks]
    hot_plan = []
    if hot and ch.flag(0.6):
        plan = []
        hot_plan = w.draw_plan(hot, 6, 1)
    else:
        plan = w.draw_plan(est, 8, 1)
    s = sched.Sched(ctx, w, plan, hot_plan=hot_plan)
    tasks = [s.spawn("caller%d" % i, (lambda i=i: calls[i].invoke(node, aks[i])), node) for i in range(len(calls))]
    if noise:
        r = ops.draw_call(ctx, ops.G(ctx), rand=True)
        s.spawn("noise", lambda: r.invoke(node), node)
    s.run()
    ctx.nontrivial = s.switches > 0
    if s.switches:
        ctx.stats["fault:thread_switch"] += s.switches
    ctx.schedule([c.label for c in calls], s.switches)
    with node:
        for i, c in enumerate(calls):
            if c.name in ops.OPEN:
                ctx.check(ops.same(orig[i], aks[i]), ops.changed_key(c), lambda: "%s: an argument was changed" % c.label)
        for i, (c, t) in enumerate(zip(calls, tasks)):
            if t.exc is not None:
                raise t.exc
            what = "%s as caller %d of %s, %d switches" % (c.label, i, [x.label for x in calls], s.switches)
            exp = want[id(c)][0]
            ctx.check(ops.agree(exp, t.result), "concurrent-result",
                      lambda: "%s: %s, alone: %s" % (what, brief(t.result), brief(exp)))
            ctx.check(ops.same(orig[i], aks[i]), ops.changed_key(c), lambda: "%s: an argument was changed" % what)
        ctx.check(ops.same_settings(before, ops.settings(node)), "settings-changed",
                  lambda: "%s changed %s" % ([c.label for c in calls], ops.settings_diff(before, ops.settings(node))))
        if ch.flag(0.3):
            c = calls[ch.draw(len(calls))]
            r = c.invoke(node)
            ctx.check(ops.agree(want[id(c)][0], r), "afterwards", lambda: "%s after %s ran together: %s, alone: %s" % (
                c.label, [x.label for x in calls], brief(r), brief(want[id(c)][0])))


def deep(c, memo):
    def cp(x):
        if isinstance(x, np.ndarray):
            if id(x) not in memo:
                memo[id(x)] = ops.copy_args(x)
            return memo[id(x)]
        return ops.copy_args(x)
    return tuple(cp(x) for x in c.args), {k: cp(v) for k, v in c.kw.items()}


def brief(r):
    if r[0] == "err":
        return r[1]
    s = repr(ops.norm(r[1])).replace("\n", " ")
    return s if len(s) < 300 else s[:300] + "..."
