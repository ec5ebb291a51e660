"""Virtual clock. Real time is only seen while no simulation is running."""
import datetime as _dt
import time as _t

REAL = {n: getattr(_t, n) for n in ("time", "sleep", "monotonic", "perf_counter", "process_time",
                                    "time_ns", "perf_counter_ns", "monotonic_ns", "strftime", "localtime",
                                    "gmtime", "ctime", "asctime")}
_real_dt = _dt.datetime
current = None


class Clock:
    """mode: how the wall clock behaves on each reading."""

    def __init__(self, ctx, start=1.7e9):
        self.ctx = ctx
        self.now = start
        self.mono = 1000.0
        self.elapsed = 0.0
        self.readings = 0
        self.sleeps = 0
        self.mode = "tick"
        self.limit = None
        self.on_sleep = None

    def read(self):
        self.readings += 1
        if self.mode != "frozen":
            self.now += 1e-4
            self.mono += 1e-4
            self.elapsed += 1e-4
        if self.mode == "jumpy":
            j = self.ctx.ch.draw(12)
            if j:
                d = [0, 1e-3, 1.0, 3600.0, 86400.0 * 40, -1.0, -3600.0, -86400.0 * 400, 1e9, -1e9, 0.5, -0.5][j]
                self.now = max(1.0, min(self.now + d, 4e9))
                self.ctx.fault("clock_jump")
                self.ctx.log("clock-jump", d)
        elif self.mode == "backward":
            self.now = max(1.0, self.now - 7.0)
            self.ctx.fault("clock_backward")
        elif self.mode == "frozen":
            self.ctx.fault("clock_frozen")
        elif self.mode == "stall":
            self._stalled()
        self._cap()
        return self.now

    def read_mono(self):
        self.readings += 1
        self.mono += 1e-4
        self.elapsed += 1e-4
        if self.mode == "stall":
            self._stalled()
        self._cap()
        return self.mono

    def _stalled(self):
        """The process did not run for hours: every clock shows it."""
        if self.ctx.ch.flag(0.4):
            self.now += 20000.0
            self.mono += 20000.0
            self.elapsed += 20000.0
            self.ctx.fault("stall")

    def _cap(self):
        if self.limit is not None and self.readings + self.sleeps > self.limit:
            from .core import Violation
            raise Violation("no-progress", "more than %d clock readings and pauses in one call" % self.limit)

    def sleep(self, s):
        self.sleeps += 1
        s = float(s)
        self.now += s
        self.mono += s
        self.elapsed += s
        if self.mode in ("jumpy", "stall") and self.ctx.ch.flag(0.5):
            self.now += 5000.0
            self.mono += 5000.0
            self.elapsed += 5000.0
            self.ctx.fault("stall")
        self._cap()
        if self.on_sleep is not None:
            self.on_sleep()


def _wrap(name, f):
    real = REAL[name]

    def w(*a, **k):
        c = current
        if c is None:
            return real(*a, **k)
        return f(c, real, *a, **k)
    w.__name__ = name
    return w


class _Meta(type(_real_dt)):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_dt)

    def __subclasscheck__(cls, o):
        return issubclass(o, _real_dt)


class SimDateTime(_real_dt, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if current is None:
            return _real_dt.now(tz)
        return _real_dt.fromtimestamp(current.read(), tz or _dt.timezone.utc).replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


def _timearg(conv):
    def f(c, real, *a):
        return real(*a) if a and a[0] is not None else real(c.read())
    return f


def install():
    _t.time = _wrap("time", lambda c, r: c.read())
    _t.time_ns = _wrap("time_ns", lambda c, r: int(c.read() * 1e9))
    for n in ("monotonic", "perf_counter", "process_time"):
        setattr(_t, n, _wrap(n, lambda c, r: c.read_mono()))
    for n in ("monotonic_ns", "perf_counter_ns"):
        setattr(_t, n, _wrap(n, lambda c, r: int(c.read_mono() * 1e9)))
    _t.sleep = _wrap("sleep", lambda c, r, s: c.sleep(s))
    for n in ("localtime", "gmtime", "ctime"):
        setattr(_t, n, _wrap(n, _timearg(n)))
    _t.strftime = _wrap("strftime", lambda c, r, fmt, *a: r(fmt, *(a or (REAL["gmtime"](c.read()),))))


def install_datetime():
    _dt.datetime = SimDateTime
