"""Deterministic scheduler for real threads: exactly one runs, the simulator picks which."""
import threading
import _thread

from .core import Violation

RealLock = _thread.allocate_lock
active = None           # the Sched that is running, if any


class SimAbort(BaseException):
    """Unwinds parked tasks when a run is given up."""


class Token:
    """Binary semaphore on a bare lock: threading.Semaphore would itself be built of simulated locks."""

    def __init__(self):
        self._l = RealLock()
        self._l.acquire()

    def acquire(self):
        self._l.acquire()

    def release(self):
        try:
            self._l.release()
        except RuntimeError:        # already passed on
            pass


class Task:
    def __init__(self, name, fn, node=None):
        self.name = name
        self.fn = fn
        self.node = node
        self.sem = Token()
        self.state = "ready"
        self.waiting_for = None
        self.result = None
        self.exc = None
        self.ident = None
        self.lines = 0


class Sched:
    """plan: absolute step numbers at which a switch is made; hot_plan: the same, counting only lines of functions that
    touch module-level state (world.hot)."""

    def __init__(self, ctx, world, plan=(), step_limit=3000000, hot_plan=()):
        self.ctx = ctx
        self.world = world
        self.plan = sorted(plan, reverse=True)
        self.steps = 0
        self.limit = step_limit
        self.tasks = []
        self.cur = None
        self.main = Token()
        self.abort = None
        self.switches = 0
        self.next_at = self.plan.pop() if self.plan else -1
        self.hot_plan = set(hot_plan)
        self.hot_steps = 0

    def spawn(self, name, fn, node=None):
        t = Task(name, fn, node)
        self.tasks.append(t)
        return t

    def run(self):
        global active
        assert active is None
        active = self
        home = self.world.current
        try:
            for t in self.tasks:
                th = threading.Thread(target=self._body, args=(t,), daemon=True)
                t.thread = th
                th.start()
            self._hand(self._pick(self.tasks))
            self.main.acquire()
            for t in self.tasks:
                t.thread.join()
        finally:
            active = None
            self.world.activate(home)
        if self.abort is not None:
            raise self.abort
        return self.tasks

    # ---- internals
    def _body(self, t):
        t.sem.acquire()
        t.ident = threading.get_ident()
        try:
            if self.abort is None:
                t.result = t.fn()
        except SimAbort:
            pass
        except Violation as e:
            if self.abort is None:
                self.abort = e
        except BaseException as e:
            t.exc = e
        t.state = "done"
        t.node = self.world.current
        self._next()

    def _runnable(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _pick(self, tasks):
        return tasks[self.ctx.ch.draw(len(tasks))] if len(tasks) > 1 else tasks[0]

    def _hand(self, t):
        self.cur = t
        if t.node is not None:
            self.world.activate(t.node)
        t.sem.release()

    def _next(self):
        if self.abort is not None:
            for t in self.tasks:
                if t.state in ("ready", "blocked"):
                    t.state = "aborting"
                    t.sem.release()
                    return      # it unwinds, then calls _next again
            self.main.release()
            return
        r = self._runnable()
        if r:
            t = self._pick(r)
            self.ctx.schedule("to", t.name)
            self._hand(t)
            return
        if any(t.state == "blocked" for t in self.tasks):
            self.abort = Violation("deadlock", "every remaining caller waits for a lock")
            return self._next()
        self.main.release()

    def mine(self):
        return self.cur is not None and self.cur.ident == threading.get_ident()

    def step(self, hot=False):
        """A possible switch point of the running task."""
        self.steps += 1
        if hot:
            self.hot_steps += 1
            if self.hot_steps in self.hot_plan:
                self.switch()
                return
        if self.steps == self.next_at:
            self.next_at = self.plan.pop() if self.plan else -1
            while self.next_at >= 0 and self.next_at <= self.steps:
                self.next_at = self.plan.pop() if self.plan else -1
            self.switch()
        elif self.steps > self.limit:
            self.abort = self.abort or Violation("no-progress", "more than %d steps" % self.limit)
            raise SimAbort()

    def switch(self):
        me = self.cur
        others = [t for t in self._runnable() if t is not me]
        if not others:
            return
        t = self._pick(others)
        self.switches += 1
        self.ctx.stats["preemptions"] += 1
        self.ctx.schedule(self.steps, me.name, t.name)
        self.ctx.log("switch", self.steps, me.name, "->", t.name)
        me.node = self.world.current
        self._hand(t)
        me.sem.acquire()
        if self.abort is not None:
            raise SimAbort()

    def block(self, lock):
        me = self.cur
        me.state = "blocked"
        me.waiting_for = lock
        me.node = self.world.current
        self._next()
        me.sem.acquire()
        if self.abort is not None:
            raise SimAbort()

    def wake(self, lock):
        for t in self.tasks:
            if t.state == "blocked" and t.waiting_for is lock:
                t.state = "ready"
                t.waiting_for = None


class SimLock:
    """threading.Lock that a simulated task waits on without holding the token."""
    _reent = False

    def __init__(self):
        self._l = RealLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._reent and self._owner == me:
            self._n += 1
            return True
        if not self._reent and self._owner == me and blocking and timeout == -1 and self._l.locked():
            raise Violation("deadlock", "a thread waits for a lock it already holds")
        s = active
        if s is not None and s.mine():
            while not self._l.acquire(False):
                if not blocking:
                    return False
                s.block(self)
            ok = True
        else:
            ok = self._l.acquire(blocking, timeout)
        if ok:
            self._owner = me
            self._n = 1
        return ok

    def release(self):
        if self._reent:
            if self._owner != threading.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()
        if active is not None:
            active.wake(self)

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = RealLock()

    # what threading.Condition asks of a lock
    def _is_owned(self):
        return self._owner == threading.get_ident()

    def _release_save(self):
        n, self._n = self._n, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n


class SimRLock(SimLock):
    _reent = True
