"""Seams: clocks, logging, randomness, garbage collection, import of the code under test."""
import asyncio
import datetime as _dt
import gc
import logging
import os
import random
import signal
import sys
import time as _time

REPO = os.environ.get("DST_REPO", "/repo")

real_time = _time.time
real_monotonic = _time.monotonic
real_perf = _time.perf_counter
RealDatetime = _dt.datetime
WALL_BASE = 1_760_000_000.0  # 2025-10-09T08:53:20Z

_cur = None  # current SimClock


class SimClock:
    def __init__(self, loop):
        self.loop = loop
        self.skew = 0.0

    def wall(self):
        return WALL_BASE + (self.loop._now - self.loop.t0) + self.skew

    def now(self):
        return RealDatetime.fromtimestamp(self.wall(), _dt.UTC)


class _DtMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, RealDatetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, RealDatetime)


class SimDatetime(RealDatetime, metaclass=_DtMeta):
    @classmethod
    def now(cls, tz=None):
        if _cur is None:
            return RealDatetime.now(tz)
        return RealDatetime.fromtimestamp(_cur.wall(), tz)

    @classmethod
    def utcnow(cls):
        if _cur is None:
            return RealDatetime.now(_dt.UTC).replace(tzinfo=None)
        return RealDatetime.fromtimestamp(_cur.wall(), _dt.UTC).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class _SimDatetimeModule:
    def __init__(self):
        self.__dict__.update({k: v for k, v in vars(_dt).items() if not k.startswith("__")})
        self.datetime = SimDatetime


def _t_wall():
    return _cur.wall() if _cur is not None else real_time()


def _t_mono():
    return _cur.loop._now if _cur is not None else real_monotonic()


def _install_time():
    _time.time = _t_wall
    _time.time_ns = lambda: int(_t_wall() * 1e9)
    _time.monotonic = _t_mono
    _time.monotonic_ns = lambda: int(_t_mono() * 1e9)
    _time.perf_counter = _t_mono
    _time.perf_counter_ns = lambda: int(_t_mono() * 1e9)


_loaded = False


def load():
    """Import the package from the working tree and put its clocks behind the seam."""
    global _loaded
    if _loaded:
        return
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import givenergy_modbus  # noqa: F401
    import givenergy_modbus.client.client
    import givenergy_modbus.client.commands
    import givenergy_modbus.model.plant
    import givenergy_modbus.pdu
    import givenergy_modbus.testing.mock_plant

    root = os.path.realpath(os.path.dirname(givenergy_modbus.__file__))
    if not root.startswith(os.path.realpath(REPO)):
        raise RuntimeError(f"wrong package under test: {root}")
    dtmod = _SimDatetimeModule()
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "givenergy_modbus" or name.startswith("givenergy_modbus.")):
            continue
        for k, v in list(vars(mod).items()):
            if v is RealDatetime:
                setattr(mod, k, SimDatetime)
            elif v is _dt:
                setattr(mod, k, dtmod)
            elif v is real_time:
                setattr(mod, k, _t_wall)
            elif v is real_monotonic or v is real_perf:
                setattr(mod, k, _t_mono)
    _install_time()
    logging.raiseExceptions = False
    lg = logging.getLogger("givenergy_modbus")
    lg.propagate = False
    lg.setLevel(logging.INFO)
    lg.addHandler(_HANDLER)
    al = logging.getLogger("asyncio")
    al.propagate = False
    al.addHandler(_HANDLER)
    logging.getLogger().addHandler(logging.NullHandler())
    import warnings

    warnings.simplefilter("ignore")
    gc.disable()
    _loaded = True


class _ListHandler(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.sink = None

    def emit(self, record):
        if self.sink is not None:
            self.sink(record)

    def handle(self, record):
        self.emit(record)
        return record


_HANDLER = _ListHandler()


class WallTimeout(KeyboardInterrupt):
    """A single run did not finish within its real-time cap (a synchronous endless loop)."""


def _on_alarm(signum, frame):
    raise WallTimeout()


class active:
    """Context manager: make `loop`'s clock the process clock, capture logs, seed randomness."""

    def __init__(self, loop, seed, log_sink, wall_cap=60):
        self.loop, self.seed, self.log_sink, self.wall_cap = loop, seed, log_sink, wall_cap

    def __enter__(self):
        global _cur
        self.clock = SimClock(self.loop)
        _cur = self.clock
        random.seed(self.seed)
        _HANDLER.sink = self.log_sink
        self.old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.wall_cap)
        asyncio.set_event_loop(self.loop)
        return self.clock

    def __exit__(self, *a):
        global _cur
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        asyncio.set_event_loop(None)
        _HANDLER.sink = None
        _cur = None
        return False
