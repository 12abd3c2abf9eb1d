"""A clock the harness sets: stands in for datetime.now/utcnow/today, time.time/gmtime/... everywhere.  Import before the code under test."""
import calendar, datetime, time
_real_dt, _real_time = datetime.datetime, time.time
_now = None          # (epoch seconds, microseconds) or None for the real clock


def set(epoch, us=0):
    global _now
    _now = (epoch, us)


def real():
    global _now
    _now = None


def real_time():
    return _real_time()


def _time():
    return _real_time() if _now is None else _now[0] + _now[1] / 1e6


class FakeDateTime(_real_dt):
    @classmethod
    def now(cls, tz=None):
        if _now is None:
            return super().now(tz)
        d = cls(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=_now[0], microseconds=_now[1])
        return d.replace(tzinfo=None) if tz is None else d.astimezone(tz)

    @classmethod
    def utcnow(cls):
        return cls.now(datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


datetime.datetime = FakeDateTime
time.time = _time
time.time_ns = lambda: int(_time() * 1e9)
_gm = time.gmtime
time.gmtime = lambda s=None: _gm(_time() if s is None else s)
_lt = time.localtime
time.localtime = lambda s=None: _lt(_time() if s is None else s)


def epoch(y, mo, d, h, m, s):
    return calendar.timegm((y, mo, d, h, m, s))
