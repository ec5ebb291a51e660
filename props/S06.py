"""Sessions that write and read one dictionary file, or fill one UV-map cache, at the same time."""
import errno

from props import S01
from props import uvlib as U
from sim import sched
from sim.core import Violation

ERR = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE]
FMT = ["pkl", "npz", "json", "csv", "yaml", "xlsx"]


class Shared:
    """Interleaves tasks at their file operations; fails or kills drawn ones."""

    def __init__(self, ctx, w, tasks_faulty):
        self.ctx, self.w = ctx, w
        self.p = [0.15, 0.35, 0.7][ctx.ch.draw(3)]
        self.faulty = tasks_faulty      # task name -> (number of file operations before it, action)
        self.count = {}
        self.hit = {}                   # task name -> "err" / "kill"
        self.clock = 0

    def now(self):
        self.clock += 1
        return self.clock

    def on_op(self, op, path, n):
        s = sched.active
        if s is None or not s.mine() or s.abort is not None:
            return
        if s.cur.name not in self.hit or self.hit[s.cur.name] != "kill":
            if self.ctx.ch.flag(self.p):
                n = s.switches
                try:
                    s.switch()
                except sched.SimAbort:
                    pass                # the task notices at its next source line or at its end
                self.ctx.stats["fault:switch_at_file_operation"] += s.switches - n

    def match(self, op, path, n, flags):
        s = sched.active
        if s is None or not s.mine():
            return None
        me = s.cur.name
        k = self.count[me] = self.count.get(me, 0) + 1
        f = self.faulty.get(me)
        if f is None or k < f[0]:
            return None
        if f[1][0] != "persist":
            del self.faulty[me]
        act = f[1] if f[1][0] != "persist" else ("err", f[1][1])
        if act[0] != "short":
            self.hit[me] = act[0]
        return act

    def run(self, s):
        d = self.w.disk
        d.arm()
        d.on_op, d.match = self.on_op, self.match
        try:
            s.run()
        finally:
            d.on_op = None
            d.disarm()
        self.ctx.nontrivial = s.switches > 0
        self.ctx.schedule(s.switches, sorted(self.hit.items()))


def draw_faults(ch, names, ops, one):
    out = {}
    if ch.flag(0.45):
        for n in names:
            if ch.flag(0.5):
                kind = ch.weighted([(4, "kill"), (4, "err"), (2, "persist"), (2, "short")])
                arg = ch.draw(4096) if kind in ("kill", "short") else ERR[ch.draw(len(ERR))]
                if one and kind == "kill":      # threads die together with their process: see S01, U01
                    kind, arg = "err", errno.EIO
                out[n] = (1 + ch.draw(ops), (kind, arg))
    return out


def linearizable(h, init):
    """h: [(begin, end, 'r' | 'w', value, sure)]; a write that is not sure may also not have happened; a read's value is the set of
    versions it may be. Is there an order that respects real time in which every read returns the latest write?"""
    n = len(h)
    seen = set()

    def go(done, state):
        if done == (1 << n) - 1:
            return True
        if (done, state) in seen:
            return False
        seen.add((done, state))
        left = [i for i in range(n) if not done >> i & 1]
        first_end = min(h[i][1] for i in left)
        for i in left:
            b, e, k, v, sure = h[i]
            if b > first_end:
                continue
            if k == "r":
                if state in v and go(done | 1 << i, state):
                    return True
            else:
                if go(done | 1 << i, v):
                    return True
                if not sure and go(done | 1 << i, state):
                    return True
        return False
    return go(0, init)


def register(ctx, w):
    ch = ctx.ch
    d = w.disk
    fmt = FMT[ch.weighted([(4, 0), (3, 1), (3, 2), (2, 3), (2, 4), (1, 5)])]
    path = d.path("data." + fmt)
    versions = [None]
    init = 0

    def new():
        old = versions[-1]
        v = S01.like(old) if old is not None and ch.flag(0.3) else S01.content(ctx, fmt)
        versions.append(v)
        return len(versions) - 1
    if ch.flag(0.7):
        init = new()
        with w.spawn("earlier") as n0:
            n0.t2c.write_dictionary_data(versions[init], path)
    names = ["s%d" % i for i in range(2 + ch.draw(2))]
    progs = []
    for i, nm in enumerate(names):
        prog = []
        for _ in range(1 + ch.draw(3)):
            prog.append(("w", new()) if ch.flag(0.55 if i else 0.8) else ("r", None))
        progs.append(prog)
    one = w.spawn("session") if ch.flag(0.35) else None         # threads of one session, or sessions
    sh = Shared(ctx, w, draw_faults(ch, names, 12, one))
    h, bad = [], []
    plan = w.draw_plan(40 * sum(len(p) for p in progs), 6) if w.tracing else []
    s = sched.Sched(ctx, w, plan)

    def session(nm, prog, node):
        for k, v in prog:
            begin = sh.now()
            before = sh.hit.get(nm)
            err = got = None
            try:
                if k == "w":
                    node.t2c.write_dictionary_data(versions[v], path)
                else:
                    got = node.t2c.read_dictionary_data(path)
                    got = {q: got[q] for q in got} if fmt == "npz" else got
            except (sched.SimAbort, Violation):
                raise
            except BaseException as e:
                err = e
            hit = sh.hit.get(nm)
            if hit == "kill":
                if k == "w":
                    h.append((begin, 1 << 60, "w", v, False))
                return
            faulted = hit is not None and (before is None or nm in sh.faulty)
            if before is None and hit is not None and nm not in sh.faulty:
                sh.hit.pop(nm)
            end = sh.now()
            if k == "w":
                if err is not None and not faulted:
                    bad.append(("write-failed", "%s: writing version %d raised %s: %s" % (nm, v, type(err).__name__, err)))
                h.append((begin, end, "w", v, err is None))
            elif err is not None:
                if isinstance(err, FileNotFoundError):
                    h.append((begin, end, "r", {0}, True))
                elif not faulted:
                    bad.append(("torn-read", "%s: reading raised %s: %s" % (nm, type(err).__name__, err)))
            else:
                vs = {i for i, x in enumerate(versions) if x is not None and S01.same(x, got)}
                if not vs:
                    bad.append(("torn-read", "%s: read something that was never written: %s" % (nm, str(got)[:200])))
                else:
                    h.append((begin, end, "r", vs, True))

    for nm, prog in zip(names, progs):
        node = one or w.spawn(nm)
        s.spawn(nm, (lambda nm=nm, prog=prog, node=node: session(nm, prog, node)), node)
    ctx.log("sessions", fmt, init, progs, "threads" if one else "sessions", sorted(sh.faulty.items()))
    ctx.schedule(fmt, progs)
    quiet = not sh.faulty
    sh.run(s)
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    what = "%s file, %s, %d switches" % (fmt, progs, s.switches)
    for key, msg in bad:
        ctx.check(False, key, lambda: "%s: %s" % (what, msg))
    st, got = S01.read(w, path, {})
    if d.peek(path) is None:
        final = {0}
    else:
        ctx.check(st == "ok", "torn-file", lambda: "%s: afterwards the file cannot be read: %s" % (what, got))
        if fmt == "npz":
            got = {q: got[q] for q in got}
        final = {i for i, x in enumerate(versions) if x is not None and S01.same(x, got)}
        ctx.check(final, "torn-file", lambda: "%s: afterwards the file holds something that was never written" % what)
    end = sh.now()
    h.append((end, sh.now(), "r", final, True))
    ctx.check(linearizable(h, init), "not-atomic", lambda: "%s: no order of the writes explains what was read: (begin, end, kind, version, certain) %s" % (
        what, sorted((b, e if e < 1 << 60 else "killed", k, v, c) for b, e, k, v, c in h)))
    if quiet:
        left = [p for p in d.files() if p != path]
        ctx.check(not left, "left-over", lambda: "%s: files left behind: %s" % (what, [d.label(p) for p in left]))
    ctx.probe("register %s" % ("faults" if not quiet else "quiet"))
    # everyone gone: the file works as ever
    v = S01.content(ctx, fmt)
    with w.spawn("later") as n:
        n.t2c.write_dictionary_data(v, path)
    st, got = S01.read(w, path, {})
    ctx.check(st == "ok" and S01.same(v, {q: got[q] for q in got} if fmt == "npz" else got), "unusable-afterwards",
              lambda: "%s: a later write and read gave %s" % (what, str(got)[:200]))


COSMO = [(), (("set_omega_matter", 0.31),), (("set_hubble_h", 0.6),)]


def cache(ctx, w):
    ch = ctx.ch
    d = w.disk
    fmt = ["pkl", "npz", "pickle"][ch.draw(3)]
    path = d.path("cache." + fmt)
    p = U.draw_params(ch, 0.3)
    pool = ch.shuffle(U.ZS)[:2 + ch.draw(5)]
    kinds = [(p, ())]
    if ch.flag(0.45):
        kinds.append((U.draw_params(ch, 1.), COSMO[ch.draw(3)]))
    if ch.flag(0.4):
        zs = pool[:1 + ch.draw(len(pool))]
        with w.spawn("earlier") as n0:
            U.request(n0, p, zs, path, 1, 16)
        ctx.log("earlier", zs)
    names = ["s%d" % i for i in range(2 + ch.draw(2))]
    progs = []
    for nm in names:
        p_, cosmo = kinds[ch.draw(len(kinds))]
        prog = []
        for _ in range(1 + ch.draw(2)):
            zs = ch.shuffle(pool)[:1 + ch.draw(len(pool))]
            prog.append((zs,) + U.draw_run(ch))
        progs.append((p_, cosmo, prog))
    mixed = any((q[0], q[1]) != (p, ()) for q in progs)
    one = None
    if ch.flag(0.35) and len({q[1] for q in progs}) == 1:
        one = w.spawn("session")
        with one:
            U.set_cosmo(one, progs[0][1])
    sh = Shared(ctx, w, draw_faults(ch, names, 40, one))
    plan = w.draw_plan(400 * len(names), 6) if w.tracing else []
    s = sched.Sched(ctx, w, plan)
    out = []

    def session(nm, q, node):
        if not one:
            U.set_cosmo(node, q[1])
        for zs, nj, ck in q[2]:
            before = sh.hit.get(nm)
            res = err = None
            try:
                res = U.request(node, q[0], zs, path, nj, ck)
                res = dict(res)
            except (sched.SimAbort, Violation):
                raise
            except BaseException as e:
                err = e
            hit = sh.hit.get(nm)
            if hit == "kill":
                return
            faulted = hit is not None and (before is None or nm in sh.faulty)
            if before is None and hit is not None and nm not in sh.faulty:
                sh.hit.pop(nm)
            out.append((nm, q, zs, res, err, faulted))

    for nm, q in zip(names, progs):
        node = one or w.spawn(nm)
        s.spawn(nm, (lambda nm=nm, q=q, node=node: session(nm, q, node)), node)
    ctx.log("cache sessions", fmt, progs, "threads" if one else "sessions", sorted(sh.faulty.items()))
    ctx.schedule(fmt, progs)
    quiet = not sh.faulty
    sh.run(s)
    for t in s.tasks:
        if t.exc is not None:
            raise t.exc
    for nm, q, zs, res, err, faulted in out:
        what = "%s of %s on one %s cache, maps %s, %d switches" % (nm, names, fmt, zs, s.switches)
        if err is not None:
            ctx.check(faulted or mixed and isinstance(err, ValueError), "request-failed",
                      lambda: "%s: raised %s: %s" % (what, type(err).__name__, str(err)[:300]))
            continue
        have = [z for z in U.ZS if U.key(z) in res]
        ctx.check(set(zs) <= set(have), "missing-map", lambda: "%s: no map for %s" % (what, sorted(set(zs) - set(have))))
        U.check_result(ctx, w, res, q[0], have, q[1], what)
    # the file: whole, of one kind, and at least as complete as one finished session needs
    what = "afterwards, %d sessions on one %s cache, %d switches" % (len(names), fmt, s.switches)
    st, data = U.read(w, path)
    ctx.check(st in ("ok", "absent"), "torn-file", lambda: "%s: the cache cannot be read: %s" % (what, data))
    if st == "ok":
        right = [k for k in kinds if all(data.get(x) == k[0][x] or str(data.get(x)) == str(k[0][x]) for x in k[0])]
        wrong = None
        for p_, cosmo in right:
            ref = U.reference(w, p_, [z for z in U.ZS if U.key(z) in data], cosmo)
            wrong = [k for k in ref if not U.same(data[k], ref[k])]
            if not wrong:
                break
        ctx.check(right and not wrong, "mixed-file", lambda: "%s: the cache holds maps that are not those of its parameters: %s" % (what, wrong))
        if quiet and not mixed:
            have = U.maps_in(data, U.ZS)
            ends = [{U.key(z) for z in zs} for nm, q, zs, res, err, f in out]
            ctx.check(any(e <= have for e in ends), "cache-lost-maps", lambda: "%s: it holds %s, the sessions were given %s" % (what, sorted(have), ends))
    else:
        ctx.check(not any(r[4] is None for r in out), "cache-lost", lambda: "%s: no cache although a request returned" % what)
    if quiet:
        left = [f for f in d.files() if f != path]
        ctx.check(not left, "left-over", lambda: "%s: files left behind: %s" % (what, [d.label(f) for f in left]))
    ctx.probe("cache %s" % ("faults" if not quiet else "quiet"))
    if not mixed:
        with w.spawn("later") as n:
            res = U.request(n, p, pool, path, 1, 16)
        U.check_result(ctx, w, res, p, pool, where="a later session")
        U.check_stored(ctx, w, path, p, U.ZS, {U.key(z) for z in pool}, where="after a later session")


def run(ctx):
    w = U.new_world(ctx, tracing=ctx.ch.flag(0.5))
    (cache if ctx.ch.flag(0.45) else register)(ctx, w)
