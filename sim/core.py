"""Choices, run context, violations, minimisation.

Every decision of a simulated run is one draw from a Choices stream.  In search mode the
stream comes from a PRNG seeded with the run's seed and is recorded; a replay feeds the
recorded (possibly minimised) list back.  0 is always the simplest choice: no fault, the
first task, the smallest size; an exhausted replay list yields zeros.
"""
import gc
import hashlib
import random
from collections import Counter


_since = [0]


class Violation(BaseException):
    """A property was broken. key: short class of the violation, stable under minimisation."""

    def __init__(self, key, msg):
        BaseException.__init__(self, key + ": " + msg)
        self.key = key
        self.msg = msg


class HarnessError(Exception):
    pass


class Choices:
    def __init__(self, seed=None, replay=None, limit=20000):
        self.replay = list(replay) if replay is not None else None
        self.rng = random.Random(seed)
        self.out = []
        self.limit = limit

    def _next(self, n, gen):
        if n <= 1:
            return 0
        i = len(self.out)
        if self.replay is not None:
            v = self.replay[i] % n if i < len(self.replay) else 0
        elif i >= self.limit:
            v = 0
        else:
            v = gen()
        self.out.append(v)
        return v

    def draw(self, n):
        """Integer in [0, n)."""
        return self._next(n, lambda: self.rng.randrange(n))

    def flag(self, p):
        return bool(self._next(2, lambda: 1 if self.rng.random() < p else 0))

    def small(self, n, p=0.5):
        """Integer in [0, n), geometric: small values likely."""
        def g():
            v = 0
            while v < n - 1 and self.rng.random() < p:
                v += 1
            return v
        return self._next(n, g)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)...]; the first is the simplest."""
        tot = float(sum(w for w, _ in pairs))

        def g():
            r = self.rng.random() * tot
            for i, (w, _) in enumerate(pairs):
                r -= w
                if r < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._next(len(pairs), g)][1]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.flag(p)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Ctx:
    """One simulated run."""

    def __init__(self, prop, seed, replay=None, tier="quick", index=0):
        self.prop = prop
        self.seed = seed
        self.index = index
        self.tier = tier
        self.ch = Choices(seed, replay)
        self.aux = random.Random("aux-%s" % seed)   # data contents; never a decision
        self.stats = Counter()
        self.events = []
        self.h = hashlib.sha256()
        self.n_events = 0
        self.sched_h = hashlib.sha256()
        self.nontrivial = False
        self.world = None
        self.values = None

    def value(self, v):
        """A result that must be the same whatever hash seed the interpreter started with."""
        import pickle
        if self.values is None:
            self.values = hashlib.sha256()
        self.values.update(pickle.dumps(v, 4))

    def values_digest(self):
        return None if self.values is None else self.values.hexdigest()[:16]

    def log(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.n_events += 1
        self.h.update(s.encode() + b"\n")
        if len(self.events) < 4000:
            self.events.append(s)

    def schedule(self, *parts):
        """Adds to the measure of distinct schedules/fault placements."""
        self.sched_h.update(repr(parts).encode())

    def fault(self, kind, n=1):
        self.stats["fault:" + kind] += n
        self.nontrivial = True
        self.schedule("fault", kind)

    def probe(self, name, n=1):
        self.stats["probe:" + name] += n

    def fail(self, key, msg):
        self.log("VIOLATION", key, msg)
        raise Violation(key, msg)

    def check(self, cond, key, msg):
        self.stats["oracle_checks"] += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def npseed(self):
        return self.aux.randrange(2 ** 31)

    def digest(self):
        return self.h.hexdigest()[:16]


def _unexpected(e):
    """An exception that no property expected: the code under test misbehaved, or the harness did."""
    import traceback
    frames = traceback.extract_tb(e.__traceback__)
    repo = [f for f in frames if "/src/tools21cm/" in f.filename]
    where = "%s:%s" % (repo[-1].filename.rsplit("/", 1)[-1], repo[-1].name) if repo else "%s:%s" % (
        frames[-1].filename.rsplit("/", 1)[-1], frames[-1].name)
    if not repo and isinstance(e, (OSError, MemoryError)):
        return None
    return Violation("exception-%s" % type(e).__name__, "%s: %s at %s" % (type(e).__name__, str(e)[:300], where))


def execute(prop_mod, prop, seed, replay=None, tier="quick", index=0):
    """Runs one simulation. Returns (ctx, violation or None)."""
    ctx = Ctx(prop, seed, replay, tier, index)
    v = None
    gc.disable()            # collections would close files at moments no seed decides
    try:
        try:
            prop_mod.run(ctx)
        finally:
            if ctx.world is not None:
                ctx.world.close()
    except Violation as e:
        v = e
    except (SystemExit, HarnessError):
        raise
    except BaseException as e:
        v = _unexpected(e)
        if v is None:
            raise HarnessError("%s: %s" % (type(e).__name__, e)) from e
        ctx.log("VIOLATION", v.key, v.msg)
    finally:
        gc.enable()
        _since[0] += 1
        if _since[0] % 10 == 0:
            gc.collect()
    return ctx, v


def minimise(prop_mod, prop, seed, choices, key, tier, index, clock, budget_s):
    """Shrinks a choice list while the same violation class persists."""
    best = list(choices)
    tries = 0
    t0 = clock()

    def bad(c):
        nonlocal tries
        tries += 1
        try:
            ctx, v = execute(prop_mod, prop, seed, c, tier, index)
        except HarnessError:
            return None
        if v is not None and v.key == key:
            out = list(ctx.ch.out)
            while out and out[-1] == 0:
                out.pop()
            return out
        return None

    def better(a, b):
        return (len(a), a) < (len(b), b)

    improved = True
    while improved and clock() - t0 < budget_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and clock() - t0 < budget_s:
            i = 0
            while i < len(best) and clock() - t0 < budget_s:
                for repl in ([], [0] * len(best[i:i + size])):
                    c = best[:i] + repl + best[i + size:]
                    if c == best:
                        continue
                    r = bad(c)
                    if r is not None and better(r, best):
                        best = r
                        improved = True
                        break
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if clock() - t0 > budget_s:
                break
            if i >= len(best) or best[i] == 0:
                continue
            for val in sorted({0, best[i] // 2, best[i] - 1}):
                if val >= best[i]:
                    continue
                r = bad(best[:i] + [val] + best[i + 1:])
                if r is not None and better(r, best):
                    best = r
                    improved = True
                    break
    return best, tries
