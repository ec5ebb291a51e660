"""Dictionary files: round trip, and all-or-nothing replacement under crashes and I/O errors."""
import errno
import pathlib

import numpy as np

from sim.core import Violation
from sim.world import World

FMT = ["pkl", "json", "npz", "csv", "yaml", "xlsx", "pickle", "yml"]
ERR = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT, errno.EMFILE]
DT = ["f8", "f4", "i4", "i8", "c16", "?", "u1", "U5"]
WORDS = ["AA4", "snow", "z = 7.0", "naïve µK", "", "line\nbreak", "true", "1e5x", "δT", "comma, quote\" '"]
TEXTS = [" µK", " # two", ", three", '"four"', "'five'", "; six", "\tseven", " eight ", "\nnine", "\\ten", " = 11", "%d twelve", "//13", "&<14>"]


class Bad:
    """Cannot be stored by any format."""

    def __reduce__(self):
        raise TypeError("cannot store this")


class BadCallable(Bad):
    def __call__(self):
        return 1


def unstorable(ch, fmt):
    """A value the format has no way to hold."""
    if fmt in ("pkl", "pickle"):
        return ch.pick([Bad(), lambda x: x, BadCallable(), (i for i in range(3)), {"deep": [Bad()]}])
    if fmt == "json":
        return ch.pick([Bad(), {1, 2}, 2 + 3j, object(), b"raw", BadCallable(), {"deep": [{1, 2}]}, {(6.0, 7.0): "tuple key"}])
    return ch.pick([Bad(), BadCallable()])


def scalar(ch, rng, plain=False):
    k = ch.draw(5 if plain else 7)
    if k == 0:
        return rng.uniform(-1e3, 1e3)
    if k == 1:
        return rng.randrange(-10 ** 6, 10 ** 6)
    if k == 2:
        return WORDS[ch.draw(len(WORDS))]
    if k == 3:
        return bool(ch.draw(2))
    if k == 4:
        return None
    if k == 5:
        return 10.0 ** rng.randrange(-300, 300)
    return [rng.random() for _ in range(ch.draw(4))]


def array(ch, ctx, maxn=2000):
    r = np.random.RandomState(ctx.npseed())
    dt = np.dtype(DT[ch.draw(len(DT))])
    nd = ch.draw(4)
    shape = tuple(1 + ch.draw(9) for _ in range(nd))
    if ch.flag(0.2):
        shape = (ch.pick([0, 300, maxn]),)
    if dt.kind == "U":
        return np.array(r.choice(["a", "bc", "def", "ghijk"], size=shape), dtype=dt)
    a = (r.standard_normal(shape) * 100)
    if dt.kind == "c":
        a = a + 1j * r.standard_normal(shape)
    a = np.asarray(a).astype(dt)
    return np.asfortranarray(a) if ch.flag(0.2) else a


def content(ctx, fmt):
    ch, rng = ctx.ch, ctx.aux
    d = {}
    n = 1 + ch.draw(6)
    if fmt in ("pkl", "pickle"):
        for i in range(n):
            k = "{:.3f}".format(6 + i * 0.37) if ch.flag(0.5) else "key%d" % i
            d[k] = array(ctx.ch, ctx) if ch.flag(0.6) else scalar(ch, rng)
        if ch.flag(0.3):
            d["nested"] = {"a": array(ch, ctx), "t": (1, 2.5, "x")}
    elif fmt == "npz":
        for i in range(n):
            d["{:.3f}".format(6 + i * 0.37) if ch.flag(0.5) else "key%d" % i] = array(ch, ctx)
    elif fmt in ("json", "yaml", "yml"):
        for i in range(n):
            d["key%d" % i if ch.flag(0.7) else WORDS[ch.draw(len(WORDS))]] = scalar(ch, rng)
        if ch.flag(0.4):
            d["nested"] = {"deep": {"x": scalar(ch, rng), "y": [scalar(ch, rng) for _ in range(3)]}}
        if ch.flag(0.2):
            d["long"] = [rng.random() for _ in range(800)]
    else:
        rows = 1 + ch.draw(6) if not ch.flag(0.15) else 500
        for i in range(n):
            k = ch.draw(3)
            if k == 0:
                d["col%d" % i] = [rng.uniform(-99, 99) * 10 ** rng.randrange(-9, 9) for _ in range(rows)]
            elif k == 1:
                d["col%d" % i] = [rng.randrange(-10 ** 6, 10 ** 6) for _ in range(rows)]
            else:
                t = ch.pick(TEXTS)
                d["col%d" % i if ch.flag(0.8) else "%s %d" % (t, i)] = ["w%d%s" % (rng.randrange(100), t) for _ in range(rows)]
    return d


def like(d):
    """Other content that takes the same space."""
    if isinstance(d, dict):
        return {k: like(v) for k, v in d.items()}
    if isinstance(d, np.ndarray) and d.ndim:
        return np.roll(d, 1).copy()
    if isinstance(d, list):
        return d[1:] + d[:1]
    return d


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, type(a)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return all(isinstance(x, (bool, np.bool_)) for x in (a, b)) and bool(a) == bool(b)
    if isinstance(a, float) or isinstance(b, float):
        return all(isinstance(x, (float, int)) for x in (a, b)) and (a == b or abs(a - b) <= 1e-15 * abs(a))
    return a == b


def scribble(d):
    """The owner of a dictionary changes it."""
    for k, v in list(d.items()):
        if isinstance(v, np.ndarray) and v.dtype.kind in "fci" and v.flags.writeable:
            v[...] = 7
        elif isinstance(v, list):
            v[:] = [0]
    d["scribbled"] = 1


def read(w, arg, kw):
    node = w.spawn("reader")
    try:
        with node:
            return "ok", node.t2c.read_dictionary_data(arg, **kw)
    except Violation:
        raise
    except BaseException as e:
        return "bad", "%s: %s" % (type(e).__name__, str(e)[:200])


def run(ctx):
    ch = ctx.ch
    w = World(ctx)
    d = w.use_disk()
    fmt = FMT[ch.weighted([(4, 0), (3, 1), (3, 2), (2, 3), (2, 4), (1, 5), (2, 6), (1, 7)])]
    kw = {}
    name = "data." + fmt
    if ch.flag(0.15):
        kw = {"format": fmt}
        name = ch.pick(["data.bin", "noext", "other.json", "x.y." + fmt]) if fmt != "xlsx" else "data.xlsx"
    path = d.path(name)
    arg = pathlib.Path(path) if ch.flag(0.15) and not kw else path
    neighbour = d.path("data.txt")
    d.poke(neighbour, b"not to be touched")
    writer = w.spawn("writer")
    cur = None              # what the file holds
    rounds = 2 + ch.draw(3)
    for r in range(rounds):
        new = like(cur) if cur is not None and ch.flag(0.2) else content(ctx, fmt)
        bad = ch.flag(0.12)
        mode = ch.weighted([(3, "none"), (4, "err"), (4, "crash"), (2, "power")])
        keep = {k: v for k, v in new.items()}
        if bad:
            where = ch.pick(["zz_bad", "aa_bad"])
            new = dict([(where, unstorable(ch, fmt))] + list(new.items())) if ch.flag(0.5) else dict(list(new.items()) + [(where, unstorable(ch, fmt))])
        total = 1
        if mode != "none":              # length of the undisturbed write
            probe = d.path("p_" + name)
            d.poke(probe, d.peek(path))
            d.arm()
            try:
                with w.spawn("dry") as n0:
                    n0.t2c.write_dictionary_data(new, probe, **kw)
            except Violation:
                raise
            except Exception:
                pass
            total = max(1, d.nops)
            d.disarm()
            for f in d.files():
                if f not in (path, neighbour):
                    d.poke(f, None)
        plan, power = {}, mode == "power"
        if mode == "err":
            for _ in range(1 + ch.draw(3)):
                at = ch.draw(total)
                if ch.flag(0.3):
                    plan[at] = ("short", ch.draw(4096))
                else:
                    e = ("err", ERR[ch.draw(len(ERR))])
                    plan[at] = e
                    if ch.flag(0.3):
                        for j in range(at, at + 60):
                            plan[j] = e
        elif mode in ("crash", "power"):
            plan[ch.draw(total) if ch.flag(0.8) else total - 1 - ch.small(min(3, total))] = ("crash", ch.draw(1 << 16))
        ctx.log("write", r, name, "keys", len(new), "bad" if bad else "", mode, sorted(plan.items())[:3])
        ctx.schedule(fmt, mode, sorted(plan)[:3], bad)
        d.arm(plan, power=power)
        err = None
        try:
            with writer:
                writer.t2c.write_dictionary_data(new, arg, **kw)
        except Violation:
            raise
        except BaseException as e:
            err = e
        died, fired = d.dead, d.fired
        if died:
            w.kill(writer)
            d.restart()
            writer = w.spawn("writer%d" % r)
        d.disarm()
        if bad:
            ctx.fault("unstorable_value")
        st, got = read(w, arg, kw) if d.peek(path) is not None else ("absent", None)
        what = "round %d, %s, %s" % (r, fmt, mode)
        if st == "ok" and ch.flag(0.4):         # the session that wrote reads what others read
            with writer:
                try:
                    mine = writer.t2c.read_dictionary_data(arg, **kw)
                except Violation:
                    raise
                except BaseException as e:
                    mine = e
            ctx.check(isinstance(mine, dict) and same(got, mine), "own-read", lambda: "%s: the writing session reads %.200r, a fresh one %.200r" % (
                what, mine, got))
            scribble(mine)
        if err is None and not died:
            ctx.check(not bad or fmt in ("npz", "csv", "xlsx"), "unstorable-accepted", "%s: an unstorable value was accepted" % what)
            if bad:
                cur = got if st == "ok" else None
                ctx.check(st == "ok", "torn", lambda: "%s: %s" % (what, got))
                continue
            ctx.check(st == "ok", "unreadable", lambda: "%s: after a successful write: %s %s" % (what, st, got))
            ctx.check(same(keep, got), "roundtrip", lambda: "%s: read back %.200r, written %.200r" % (what, got, keep))
            cur = keep
        else:
            if err is not None and not died:
                ctx.check(fired or bad, "write-failed", lambda: "%s: no fault, yet %s: %s" % (what, type(err).__name__, err))
                ctx.probe("write_raised")
            if cur is None and st == "absent":
                continue
            ctx.check(st != "absent", "lost", lambda: "%s: the previous content is gone" % what)
            ctx.check(st == "ok", "torn", lambda: "%s: the file is neither old nor new: %s" % (what, got))
            isold, isnew = cur is not None and same(cur, got), not bad and same(keep, got)
            ctx.check(isold or isnew, "mixture", lambda: "%s: the file holds neither old nor new content: %.200r" % (what, got))
            ctx.probe("old_kept" if isold else "new_in_place")
            cur = got
        ctx.check(d.peek(neighbour) == b"not to be touched", "neighbour", "another file was changed")
        # reading under faults: correct or an error
        if cur is not None and ch.flag(0.3):
            d.arm({ch.draw(12): ("err", errno.EIO) if ch.flag(0.6) else ("short", ch.draw(512)) for _ in range(1 + ch.draw(2))})
            st, got = read(w, arg, kw)
            fired = d.fired
            d.disarm()
            ctx.check(st == "ok" or fired, "unreadable", lambda: "%s: %s" % (what, got))
            if st == "ok":
                ctx.check(same(cur, got), "read-wrong", lambda: "%s: a disturbed read returned other content" % what)
            st, got = read(w, arg, kw)
            ctx.check(st == "ok" and same(cur, got), "read-after", lambda: "%s: a later read gives %.200r" % (what, got))
