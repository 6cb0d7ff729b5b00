"""Model of datetime.date / datetime.datetime (proleptic values, glibc strftime).

A datetime built with tail= keeps "time of day and offset" as one token; that
token is what isoformat writes after the T and what arrow reads back.
"""


class timedelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.days = days
        self.hours = hours
        self.total = days * 86400 + hours * 3600 + minutes * 60 + seconds + weeks * 604800

    def _minutes(self):
        return self.total // 60

    def total_seconds(self):
        return float(self.total)

    def __bool__(self):
        return self.total != 0

    def __eq__(self, other):
        return isinstance(other, timedelta) and self.total == other.total

    def __hash__(self):
        return hash(self.total)


class tzinfo:
    pass


class timezone(tzinfo):
    def __init__(self, offset=None, name=None):
        self.offset = offset
        self.text = "+00:00"
        if isinstance(offset, timedelta):
            n = offset._minutes()
            a = -n if n < 0 else n
            self.text = f"{'-' if n < 0 else '+'}{a // 60:02d}:{a % 60:02d}"

    def __eq__(self, other):
        return isinstance(other, timezone) and self.text == other.text

    def __hash__(self):
        return hash(self.text)

    def __repr__(self):
        return "datetime.timezone.utc" if self.text == "+00:00" else f"datetime.timezone({self.text})"

    def utcoffset(self, dt):
        return self.offset if self.offset is not None else timedelta(0)

    def tzname(self, dt):
        return "UTC" if self.text == "+00:00" else "UTC" + self.text


timezone.utc = timezone()
UTC = timezone.utc
MINYEAR = 1
MAXYEAR = 9999


class date:
    def __init__(self, year, month=None, day=None):
        if month is None or day is None:
            raise TypeError("function missing required argument")
        for v in (year, month, day):
            if not isinstance(v, int):
                raise TypeError("an integer is required")
        self._check(year, month, day)
        self.year = year
        self.month = month
        self.day = day

    def _check(self, year, month, day):
        if year == 0 or month == 0 or day == 0:
            raise ValueError("year, month or day is out of range")
        if fk_concrete(month) and not 1 <= month <= 12:
            raise ValueError("month must be in 1..12")
        if fk_concrete(day):
            if not 1 <= day <= 31:
                raise ValueError("day is out of range for month")
            if fk_concrete(month) and ((month in (4, 6, 9, 11) and day > 30) or (month == 2 and day > 29)):
                raise ValueError("day is out of range for month")

    def isoformat(self):
        return f"{self.year:04d}-{self.month:02d}-{self.day:02d}"

    def __str__(self):
        return self.isoformat()

    def __repr__(self):
        return f"datetime.date({self.year!r}, {self.month!r}, {self.day!r})"

    def __eq__(self, other):
        if isinstance(self, datetime) != isinstance(other, datetime):
            return False
        if not isinstance(other, date):
            return NotImplemented
        return self._key() == other._key()

    def __hash__(self):
        return hash(self._key())

    def __ne__(self, other):
        return not self == other

    def _key(self):
        return (self.year, self.month, self.day)

    def replace(self, year=None, month=None, day=None):
        return date(
            self.year if year is None else year,
            self.month if month is None else month,
            self.day if day is None else day,
        )

    def strftime(self, fmt):
        out = fmt
        out = out.replace("%Y", str(self.year)).replace("%m", f"{self.month:02d}").replace("%d", f"{self.day:02d}")
        out = out.replace("%F", f"{self.year}-{self.month:02d}-{self.day:02d}")
        return out

    def __format__(self, spec):
        if not spec:
            return str(self)
        return self.strftime(spec)

    @classmethod
    def fromisoformat(cls, text):
        import re

        m = re.match(r"^(?P<y>\d{4})-(?P<m>\d{2})-(?P<d>\d{2})$", text)
        if m is None:
            raise ValueError("Invalid isoformat string")
        return cls(int(m.group("y")), int(m.group("m")), int(m.group("d")))


def _clock(tail):
    """Components of a concrete time of day, None if it is none."""
    import re

    m = re.match(r"^(?P<h>\d{2}):(?P<m>\d{2})(?::(?P<s>\d{2})(?:[.,](?P<f>\d{1,6})\d*)?)?(?P<z>Z|[+-]\d{2}:?\d{2})?$", tail)
    if m is None:
        return None
    f = m.group("f")
    z = m.group("z")
    zone = None
    if z is not None:
        if z in ("Z", "+00:00", "-00:00", "+0000"):
            zone = timezone.utc
        else:
            n = int(z[1:3]) * 60 + int(z[-2:])
            zone = timezone(timedelta(minutes=-n if z[0] == "-" else n))
    return (int(m.group("h")), int(m.group("m")), int(m.group("s") or 0), int((f + "000000")[:6]) if f else 0, zone)


class time:
    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self.hour = hour
        self.minute = minute
        self.second = second
        self.microsecond = microsecond
        self.tzinfo = tzinfo

    def __eq__(self, other):
        if not isinstance(other, time):
            return NotImplemented
        return (self.hour, self.minute, self.second, self.microsecond, self.tzinfo) == (other.hour, other.minute, other.second, other.microsecond, other.tzinfo)

    def __hash__(self):
        return hash((self.hour, self.minute, self.second, self.microsecond))


time.min = time(0, 0, 0, 0)
time.max = time(23, 59, 59, 999999)


class datetime(date):
    def __init__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0, tail=None):
        date.__init__(self, year, month, day)
        if tail is None:
            self._range(hour, minute, second, microsecond)
        parts = (hour, minute, second, microsecond, tzinfo)
        if tail is not None and fk_concrete(tail):
            known = _clock(tail)
            if known is not None:
                parts, tail = known, None
        self.tail = tail
        self._parts = parts
        self.fold = fold

    def _range(self, hour, minute, second, microsecond):
        if fk_concrete(hour) and not 0 <= hour <= 23:
            raise ValueError("hour must be in 0..23")
        if fk_concrete(minute) and not 0 <= minute <= 59:
            raise ValueError("minute must be in 0..59")
        if fk_concrete(second) and not 0 <= second <= 59:
            raise ValueError("second must be in 0..59")
        if fk_concrete(microsecond) and not 0 <= microsecond <= 999999:
            raise ValueError("microsecond must be in 0..999999")

    @property
    def hour(self):
        return self._parts[0] if self.tail is None else fk_part("hour", self.tail)

    @property
    def minute(self):
        return self._parts[1] if self.tail is None else fk_part("minute", self.tail)

    @property
    def second(self):
        return self._parts[2] if self.tail is None else fk_part("second", self.tail)

    @property
    def microsecond(self):
        return self._parts[3] if self.tail is None else fk_part("microsecond", self.tail)

    @property
    def tzinfo(self):
        return self._parts[4] if self.tail is None else fk_part("tzinfo", self.tail)

    def _changed(self, how):
        return datetime(self.year, self.month, self.day, tail=how + "-" + self._tail())

    def time(self):
        return time(self.hour, self.minute, self.second, self.microsecond)

    def timetz(self):
        return time(self.hour, self.minute, self.second, self.microsecond, self.tzinfo)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(self)

    def astimezone(self, tz=None):
        if self.tail is None and tz is not None and tz == self.tzinfo:
            return self
        return self._changed("in zone")

    def __add__(self, other):
        return self._changed("moved")

    def __sub__(self, other):
        return self._changed("moved")

    def _tail(self):
        if self.tail is not None:
            return self.tail
        t = f"{self.hour:02d}:{self.minute:02d}:{self.second:02d}"
        if self.microsecond:
            t += f".{self.microsecond:06d}"
        if self.tzinfo is not None:
            t += self.tzinfo.text
        return t

    def isoformat(self, sep="T", timespec="auto"):
        if timespec != "auto" and self.tail is None:
            t = f"{self.hour:02d}:{self.minute:02d}"
            if timespec != "minutes":
                t += f":{self.second:02d}"
            if timespec == "milliseconds":
                t += f".{self.microsecond // 1000:03d}"
            if timespec == "microseconds":
                t += f".{self.microsecond:06d}"
            z = "" if self.tzinfo is None else self.tzinfo.text
            return f"{self.year:04d}-{self.month:02d}-{self.day:02d}{sep}{t}{z}"
        if timespec != "auto":
            return f"{self.year:04d}-{self.month:02d}-{self.day:02d}{sep}truncated-{timespec}"
        return f"{self.year:04d}-{self.month:02d}-{self.day:02d}{sep}{self._tail()}"

    def __str__(self):
        return self.isoformat(" ")

    def __repr__(self):
        return f"datetime.datetime({self.year!r}, {self.month!r}, {self.day!r}, {self._tail()!r})"

    def date(self):
        return date(self.year, self.month, self.day)

    def _key(self):
        return (self.year, self.month, self.day, self._tail())

    def replace(self, **kw):
        y, m, d = kw.get("year", self.year), kw.get("month", self.month), kw.get("day", self.day)
        if self.tail is not None:
            if {"year", "month", "day"} >= set(kw):
                return datetime(y, m, d, tail=self.tail)
            if set(kw) == {"tzinfo"} and kw["tzinfo"] is not None:
                # a no-op for a value that is in that zone already
                return datetime(y, m, d, tail="zoned-" + self.tail)
            return datetime(y, m, d, tail="changed-" + self.tail)
        return datetime(
            y, m, d,
            kw.get("hour", self.hour),
            kw.get("minute", self.minute),
            kw.get("second", self.second),
            kw.get("microsecond", self.microsecond),
            kw.get("tzinfo", self.tzinfo),
        )

    @property
    def datetime(self):
        return self

    @classmethod
    def fromisoformat(cls, text):
        import re

        m = re.match(r"^(?P<y>\d{4})-(?P<m>\d{2})-(?P<d>\d{2})T(?P<t>.+)$", text)
        if m is None:
            raise ValueError("Invalid isoformat string")
        return cls(int(m.group("y")), int(m.group("m")), int(m.group("d")), tail=m.group("t"))
