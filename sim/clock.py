"""Clock seam: wall clock readings come from a script; the time zone is the process's TZ."""
import datetime as _dt
import sys
import time as _time

_RealDT, _RealDate = _dt.datetime, _dt.date
_real_time, _real_time_ns = _time.time, _time.time_ns
_real_localtime, _real_gmtime, _real_strftime = _time.localtime, _time.gmtime, _time.strftime


class Clock:
    """readings: seconds since the epoch; after the last one the clock keeps ticking."""

    def __init__(self, readings, tick=0.001):
        self.readings = list(readings)
        self.n = 0
        self.tick = tick
        self.last = self.readings[0] if self.readings else 0.0
        self.given = []

    def now(self):
        if self.n < len(self.readings):
            self.last = self.readings[self.n]
        else:
            self.last += self.tick
        self.n += 1
        self.given.append(self.last)
        return self.last

    def install(self):
        clk = self

        class MetaDT(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, _RealDT)

            def __subclasscheck__(cls, sub):
                return issubclass(sub, _RealDT)

        class SimDT(_RealDT, metaclass=MetaDT):
            @classmethod
            def now(cls, tz=None):
                return _RealDT.fromtimestamp(clk.now(), tz)

            @classmethod
            def today(cls):
                return _RealDT.fromtimestamp(clk.now())

            @classmethod
            def utcnow(cls):
                return _RealDT.fromtimestamp(clk.now(), _dt.timezone.utc).replace(tzinfo=None)

        class MetaD(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, _RealDate)

            def __subclasscheck__(cls, sub):
                return issubclass(sub, _RealDate)

        class SimD(_RealDate, metaclass=MetaD):
            @classmethod
            def today(cls):
                return _RealDT.fromtimestamp(clk.now()).date()

        _dt.datetime, _dt.date = SimDT, SimD
        _time.time = clk.now
        _time.time_ns = lambda: int(clk.now() * 1e9)
        _time.localtime = lambda s=None: _real_localtime(clk.now() if s is None else s)
        _time.gmtime = lambda s=None: _real_gmtime(clk.now() if s is None else s)
        _time.strftime = lambda f, t=None: _real_strftime(f, _real_localtime(clk.now())
                                                          if t is None else t)
        swaps = {id(_RealDT): SimDT, id(_RealDate): SimD, id(_real_time): clk.now,
                 id(_real_localtime): _time.localtime, id(_real_time_ns): _time.time_ns}
        for name, mod in list(sys.modules.items()):
            if mod is None or not name.startswith("metcalcpy"):
                continue
            for attr, val in list(vars(mod).items()):
                if id(val) in swaps and val in (_RealDT, _RealDate, _real_time, _real_localtime,
                                                _real_time_ns):
                    setattr(mod, attr, swaps[id(val)])
        return self
