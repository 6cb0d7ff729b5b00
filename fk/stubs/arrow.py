"""Model of arrow.get(text).datetime."""
import re

from datetime import datetime, timezone


class ParserError(ValueError):
    pass


class Arrow:
    def __init__(self, dt):
        self.datetime = dt

    @property
    def naive(self):
        return self.datetime.replace(tzinfo=None)

    def date(self):
        return self.datetime.date()

    def isoformat(self, sep="T", timespec="auto"):
        return self.datetime.isoformat(sep, timespec)

    def strftime(self, fmt):
        return self.datetime.strftime(fmt)

    def to(self, tz):
        return Arrow(self.datetime.astimezone(tz))

    def replace(self, **kw):
        return Arrow(self.datetime.replace(**kw))

    def shift(self, **kw):
        return Arrow(self.datetime._changed("shifted"))

    def floor(self, frame):
        return Arrow(self.datetime._changed("floor " + str(frame)))

    def ceil(self, frame):
        return Arrow(self.datetime._changed("ceil " + str(frame)))

    def span(self, frame):
        return (self.floor(frame), self.ceil(frame))


def get(text=None, *args, **kwargs):
    if text is None:
        raise TypeError("Cannot parse argument of type None.")
    if not isinstance(text, str):
        raise TypeError("Cannot parse argument")
    m = re.match(r"^(?P<y>\d{4})-(?P<m>\d{2})-(?P<d>\d{2})T(?P<t>.+)$", text)
    if m is None:
        m = re.match(r"^(?P<y>\d{4})-?(?P<m>\d{2})?-?(?P<d>\d{2})?$", text)
        if m is None:
            raise ParserError("Could not match input to any of the supported formats")
        y, mo, d = int(m.group("y")), int(m.group("m") or 1), int(m.group("d") or 1)
        return Arrow(datetime(y, mo, d, tail="00:00:00+00:00"))
    dt = datetime(int(m.group("y")), int(m.group("m")), int(m.group("d")), tail=m.group("t"))
    if dt.tail is None and dt.tzinfo is None:
        dt = dt.replace(tzinfo=timezone.utc)
    return Arrow(dt)


class parser:
    ParserError = ParserError
