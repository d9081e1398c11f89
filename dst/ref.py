"""Reference semantics of conditions, written from the documentation, independent of rocketry.

The same expression text which configures the real task is evaluated here in a
namespace of reference objects.  A reference condition is evaluated against a
`State`: the log records visible so far and an interval of wall clock time; its
value is True, False or None (not determined: the outcome may depend on where in
the interval the clock was read).  All times are integer microseconds.
"""
import calendar
import datetime
import re

S = 1_000_000
SCOPE = {"second": S, "minute": 60 * S, "hour": 3600 * S, "day": 86400 * S, "week": 7 * 86400 * S,
         "month": 31 * 86400 * S}
UNIT = {"second": 1000, "minute": S, "hour": 60 * S, "day": 3600 * S, "week": 86400 * S, "month": 86400 * S}
DAY = 86400 * S
EPOCH = datetime.datetime(1970, 1, 1)
WEEKDAYS = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]
MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]


def t_and(vals):
    vals = list(vals)
    if any(v is False for v in vals):
        return False
    return None if any(v is None for v in vals) else True


def t_or(vals):
    vals = list(vals)
    if any(v is True for v in vals):
        return True
    return None if any(v is None for v in vals) else False


def t_not(v):
    return None if v is None else not v


class State:
    """What a condition can see.

    lo, hi   the wall clock (us) was somewhere in [lo, hi] when the condition was evaluated
    logs     {task: [(created, action), ...]} in the order in which they were written
    task     the task whose condition it is
    tz       offset of the time zone (us)
    alive    {task: (certain, possible)} numbers of live runs
    """
    slack = 5000        # a cached time of an action may differ this much from the one of its record

    def __init__(self, lo, hi, logs, task, tz=0, alive=None, hcond=None, startup=None, cycles=None,
                 starts=None):
        self.lo, self.hi, self.logs, self.task, self.tz = lo, hi, logs, task, tz
        self.alive = alive or {}
        self.hcond = hcond
        self.startup = startup
        self.cycles = cycles
        self.starts = starts or {}

    def records(self, task, actions):
        return [c for c, a in self.logs.get(task, ()) if a in actions]


# ---------------------------------------------------------------- calendar periods
def scope_start(scope, t):
    """Start of the second/minute/.../month which contains local time `t`."""
    if scope == "week":
        # 1970-01-01 was a Thursday
        return t - (t + 3 * DAY) % (7 * DAY)
    if scope == "month":
        d = EPOCH + datetime.timedelta(microseconds=t)
        return _us(datetime.datetime(d.year, d.month, 1))
    return t - t % SCOPE[scope]


def month_length(s):
    return scope_start("month", s + 32 * DAY) - s


def _us(d):
    delta = d - EPOCH
    return (delta.days * 86400 + delta.seconds) * S + delta.microseconds


def _clock(text):
    m = re.fullmatch(r"(\d{1,2}):(\d\d)(?::(\d\d)(?:\.(\d+))?)?", text.strip())
    h, mi, s, f = m.groups()
    return int(h) * 3600 * S + int(mi) * 60 * S + int(s or 0) * S + int((f or "0").ljust(6, "0"))


def anchor(scope, val, end=False):
    """Offset of a given point from the start of the scope."""
    if isinstance(val, int):
        base = val - 1 if scope in ("week", "month") else val
        return (base + (1 if end else 0)) * UNIT[scope]
    if isinstance(val, float):
        return int(round(val * UNIT[scope]))
    if scope == "second":
        return int(round(float(val) * 1000))
    if scope == "minute":
        sec, _, frac = val.partition(".")
        return int(sec) * S + int((frac or "0").ljust(6, "0"))
    if scope == "hour":
        mi, _, rest = val.partition(":")
        sec, _, frac = rest.partition(".")
        return int(mi) * 60 * S + int(sec) * S + int((frac or "0").ljust(6, "0"))
    if scope == "day":
        return _clock(val)
    if scope == "week":
        m = re.fullmatch(r"([A-Za-z]+) ?(.*)", val)
        day = WEEKDAYS.index(m.group(1)[:3].lower())
    else:
        m = re.fullmatch(r"(\d+)(?:st|nd|rd|th|\.)? ?(.*)", val)
        day = int(m.group(1)) - 1
    tail = m.group(2)
    return day * DAY + (_clock(tail) if tail else DAY if end else 0)


class Period:
    """A window which repeats every second/minute/hour/day/week/month."""

    def __init__(self, scope, kind=None, a=None, b=None):
        self.scope = scope
        n = SCOPE[scope]
        if kind is None:
            self.a, self.b = 0, n
        elif kind == "between":
            self.a, self.b = anchor(scope, a), anchor(scope, b, True)
        elif kind == "after":
            self.a, self.b = anchor(scope, a), n
        elif kind == "before":
            self.a, self.b = 0, anchor(scope, a, True)
        elif kind in ("at", "on"):
            self.a = anchor(scope, a)
            self.b = self.a + UNIT[scope]
            if self.b >= n:
                self.b -= n
        elif kind == "starting":
            self.a = self.b = anchor(scope, a)
        self.full = self.a == self.b or (self.a == 0 and self.b == n)

    def contains(self, t):
        if self.full:
            return True
        off = t - scope_start(self.scope, t)
        if self.a <= self.b:
            return self.a <= off < self.b
        return off >= self.a or off < self.b

    def _last(self, t, off):
        """Latest point at or before t with the given offset from the start of its scope."""
        s = scope_start(self.scope, t)
        while True:
            # (a shorter month has not all the days)
            p = s + (min(off, month_length(s)) if self.scope == "month" else off)
            if p <= t:
                return p
            s = scope_start(self.scope, s - 1)

    def start(self, t):
        """Latest start of the window at or before t."""
        return self._last(t, self.a)

    def end(self, t):
        """Latest end of the window at or before t."""
        return self._last(t, self.b)

    def span(self, t):
        """The window (clipped to the past) to look back to from t."""
        while True:
            a = self.start(t)
            if self.full or self.contains(t):
                return a, t
            b = self.end(t)
            if a < b:
                return a, b
            t = a - 1       # (there is no such day in the month)


class CronPeriod:
    """The minutes a crontab expression matches."""

    def __init__(self, minute="*", hour="*", day_of_month="*", month="*", day_of_week="*"):
        self.minutes = self.field(minute, 0, 59)
        self.hours = self.field(hour, 0, 23)
        self.doms = self.field(day_of_month, 1, 31)
        self.months = self.field(month, 1, 12, MONTHS, 1)
        dows = self.field(day_of_week, 0, 7, WEEKDAYS, 1)
        self.dows = {7 if x == 0 else x for x in dows}
        self.any_dom = day_of_month == "*"
        self.any_dow = day_of_week == "*"

    @staticmethod
    def field(text, lo, hi, names=None, base=0):
        out = set()

        def num(x):
            if names and not x.isdigit():
                return [n[:3] for n in names].index(x[:3].lower()) + base
            return int(x)
        for part in text.split(","):
            rng, _, step = part.partition("/")
            step = int(step) if step else 1
            if rng == "*":
                a, b = lo, hi
                if names and names is WEEKDAYS:
                    a, b = 1, 7
            elif "-" in rng:
                a, b = map(num, rng.split("-"))
                if names is WEEKDAYS and a == 7 > b:
                    a = 0
                if names is WEEKDAYS and a == 0:
                    # 0 is Sunday, the first of the range
                    out.add(0)
                    a = step
            else:
                a = b = num(rng)
            out.update(range(a, b + 1, step))
        return out

    def contains(self, t):
        d = EPOCH + datetime.timedelta(microseconds=t)
        if d.minute not in self.minutes or d.hour not in self.hours or d.month not in self.months:
            return False
        dom, dow = d.day in self.doms, d.isoweekday() in self.dows
        if self.any_dom or self.any_dow:
            return (dom or self.any_dom) and (dow or self.any_dow)
        return dom or dow

    full = False

    def start(self, t):
        return t - t % (60 * S)

    def span(self, t):
        return self.start(t), t


def delta(text):
    """'1 hour 30 min', '700 ms' ... -> us"""
    if isinstance(text, (int, float)):
        return int(round(text * S))
    units = {"ms": 1000, "millisecond": 1000, "s": S, "sec": S, "second": S, "min": 60 * S, "minute": 60 * S,
             "h": 3600 * S, "hour": 3600 * S, "day": DAY, "d": DAY, "week": 7 * DAY}
    out = 0
    for num, unit in re.findall(r"([\d.]+) ?([a-z]+)", text):
        u = unit if unit in units else unit.rstrip("s")
        out += float(num) * units[u]
    return int(round(out))


# ---------------------------------------------------------------- conditions
class C:
    def __and__(self, o):
        return All_(self, o)

    def __or__(self, o):
        return Any_(self, o)

    def __invert__(self):
        return Not_(self)

    def value(self, st):
        raise NotImplementedError


class All_(C):
    def __init__(self, *c):
        self.c = c

    def value(self, st):
        return t_and(x.value(st) for x in self.c)


class Any_(C):
    def __init__(self, *c):
        self.c = c

    def value(self, st):
        return t_or(x.value(st) for x in self.c)


class Not_(C):
    def __init__(self, c):
        self.c = c

    def value(self, st):
        return t_not(self.c.value(st))


class Const(C):
    def __init__(self, v):
        self.v = v

    def value(self, st):
        return self.v


class InPeriod(C):
    def __init__(self, period):
        self.p = period

    def value(self, st):
        lo, hi = st.lo + st.tz, st.hi + st.tz
        a, b = self.p.contains(lo), self.p.contains(hi)
        if a != b:
            return None
        if not self.p.full and a and self.p.start(lo) != self.p.start(hi):
            return None
        if not a and (self.p.start(hi) > lo if isinstance(self.p, Period) else hi - lo >= 60 * S):
            return None         # (a whole window may lie in between)
        return a


def count(st, task, actions, span_lo, span_hi):
    """(certain, possible) number of records of `task` in the window, whichever end of the clock interval."""
    tz, k = st.tz, st.slack
    sure = maybe = 0
    inf = 1 << 62
    spans = [(x[0], inf if x[1] is None else x[1]) for x in (span_lo, span_hi)]
    for c in st.records(task, actions):
        c += tz
        if all(x + k < c < y - k for x, y in spans):
            sure += 1
        if any(x - k <= c <= y + k for x, y in spans):
            maybe += 1
    return sure, maybe


def compare(sure, maybe, op, n):
    vals = {eval("x %s n" % op, {"x": x, "n": n}) for x in range(sure, maybe + 1)}
    return vals.pop() if len(vals) == 1 else None


class Counted(C):
    """Number of records of some actions in a period, compared."""

    def __init__(self, actions, span, task=None, op=">", n=0):
        self.actions, self.span, self.task, self.op, self.n = actions, span, task, op, n

    def value(self, st):
        task = self.task or st.task
        a = self.span(st.lo + st.tz)
        b = self.span(st.hi + st.tz)
        # what ends "now" has no end: records are written before they are looked at
        fix = lambda s, t: (s[0], None) if s[1] >= t else s        # noqa: E731
        sure, maybe = count(st, task, self.actions, fix(a, st.lo + st.tz), fix(b, st.hi + st.tz))
        return compare(sure, maybe, self.op, self.n)

    def _with(self, op, n):
        return Counted(self.actions, self.span, self.task, op, n)

    def __eq__(self, n):
        return self._with("==", n)

    def __ne__(self, n):
        return self._with("!=", n)

    def __ge__(self, n):
        return self._with(">=", n)

    def __le__(self, n):
        return self._with("<=", n)

    def __gt__(self, n):
        return self._with(">", n)

    def __lt__(self, n):
        return self._with("<", n)

    __hash__ = None


class Once(C):
    """daily, hourly ...: in the period and not yet done in it."""

    def __init__(self, period, actions=("success", "inaction", "terminate", "fail")):
        self.p = period
        self.actions = actions

    def value(self, st):
        inside = InPeriod(self.p).value(st)
        if not inside:
            return inside
        if self.p.start(st.lo + st.tz) != self.p.start(st.hi + st.tz):
            return None
        return Counted(self.actions, self.p.span, None, "==", 0).value(st)


class TimeWrapper(C):
    """daily, time_of_day, succeeded(task).this_day ... with .between() and friends."""

    def __init__(self, scope, make):
        self.scope, self.make = scope, make

    def value(self, st):
        return self.make(Period(self.scope)).value(st)

    def between(self, a, b):
        return self.make(Period(self.scope, "between", a, b))

    def before(self, a):
        return self.make(Period(self.scope, "before", a))

    def after(self, a):
        return self.make(Period(self.scope, "after", a))

    def at(self, a):
        return self.make(Period(self.scope, "at", a))

    on = at

    def starting(self, a):
        return self.make(Period(self.scope, "starting", a))


class ActionWrapper(C):
    def __init__(self, actions, task=None):
        self.actions, self.task = actions, task

    def __call__(self, task):
        return ActionWrapper(self.actions, task)

    def value(self, st):
        return len(st.records(self.task or st.task, self.actions)) > 0

    def _w(self, scope):
        return TimeWrapper(scope, lambda p: Counted(self.actions, p.span, self.task))

    this_minute = property(lambda self: self._w("minute"))
    this_hour = property(lambda self: self._w("hour"))
    this_day = property(lambda self: self._w("day"))
    today = property(lambda self: self._w("day"))
    this_week = property(lambda self: self._w("week"))
    this_month = property(lambda self: self._w("month"))


class Depend(C):
    """after_success(a): a succeeded since this task last started."""

    def __init__(self, dep, actions):
        self.dep, self.actions = dep, actions

    def value(self, st):
        done = st.records(self.dep, self.actions)
        own = st.records(st.task, ("run",))
        if not done:
            return False
        if not own:
            return True
        if done[-1] == own[-1]:
            return None
        return done[-1] > own[-1]


class RetryC(C):
    def __init__(self, n=-1):
        self.n = -1 if n is None else n

    def __call__(self, n):
        return RetryC(n)

    def value(self, st):
        if self.n == 0:
            return False
        recs = st.logs.get(st.task, ())
        if not recs or recs[-1][1] != "fail":
            return False
        if self.n == -1:
            return True
        fails = 0
        for c, a in reversed(recs):
            if a == "fail":
                fails += 1
            elif a != "run":
                break
        return self.n >= fails


class Running(C):
    def __init__(self, task=None, op=">", n=0, more=None, less=None):
        self.task, self.op, self.n, self.more, self.less = task, op, n, more, less

    def __call__(self, task=None):
        return Running(task)

    def value(self, st):
        task = self.task or st.task
        if self.more is None and self.less is None:
            sure, maybe = st.alive.get(task, (0, 0))
        else:
            sure = maybe = 0
            for w, certain in st.starts.get(task, ()):
                ages = (st.lo - w, st.hi - w)
                ok = [(self.more is None or x >= self.more + d) and (self.less is None or x <= self.less - d)
                      for x in ages for d in (-st.slack, st.slack)]
                if all(ok) and certain:
                    sure += 1
                if any(ok):
                    maybe += 1
        return compare(sure, maybe, self.op, self.n)

    def more_than(self, d):
        return Running(self.task, more=delta(d))

    def less_than(self, d):
        return Running(self.task, less=delta(d))

    def between(self, a, b):
        return Running(self.task, more=delta(a), less=delta(b))

    def _with(self, op, n):
        return Running(self.task, op, n, self.more, self.less)

    def __eq__(self, n):
        return self._with("==", n)

    def __ne__(self, n):
        return self._with("!=", n)

    def __ge__(self, n):
        return self._with(">=", n)

    def __le__(self, n):
        return self._with("<=", n)

    def __gt__(self, n):
        return self._with(">", n)

    def __lt__(self, n):
        return self._with("<", n)

    __hash__ = None


class HCondRef(C):
    def __init__(self, key):
        self.key = key

    def value(self, st):
        return st.hcond(self.key, st)


class SchedRunning(C):
    def __init__(self, more=None, less=None):
        self.more, self.less = more, less

    def value(self, st):
        if st.startup is None:
            return None
        vals = set()
        lo, hi = st.lo - st.startup[1] - st.slack, st.hi - st.startup[0] + st.slack
        for age in (lo, hi):
            vals.add((self.more is None or age >= self.more) and (self.less is None or age <= self.less))
        if self.more is not None and self.less is not None and lo < self.more and hi > self.less:
            return None
        return vals.pop() if len(vals) == 1 else None


class SchedCycles(C):
    def __init__(self, more=None, less=None):
        self.more, self.less = more, less

    def value(self, st):
        if st.cycles is None:
            return None
        return (self.more is None or st.cycles > self.more) and (self.less is None or st.cycles < self.less)


def count_of(action, task=None, scope=None):
    """How often something happened: in the current minute, hour ..., in the last '2 s', or ever."""
    acts = {"run": ("run",), "success": ("success",), "fail": ("fail",), "terminate": ("terminate",),
            "inaction": ("inaction",), "finish": ("success", "fail", "terminate")}[action]
    if scope is None:
        return Counted(acts, lambda t: (-(1 << 60), t), task)
    if scope in SCOPE:
        return Counted(acts, Period(scope).span, task)
    n = delta(scope)
    return Counted(acts, lambda t: (t - n, t), task)


def every(past, based="run"):
    n = delta(past)
    acts = {"run": ("run",), "success": ("success",), "fail": ("fail",),
            "finish": ("success", "inaction", "terminate", "fail")}[based]
    return Counted(acts, lambda t: (t - n, t), None, "==", 0)


def cron(expr=None, **kw):
    return Once(CronPeriod(*(expr.split(" ") if expr else ()), **kw), ("run",))


def crontime(expr=None, **kw):
    return InPeriod(CronPeriod(*(expr.split(" ") if expr else ()), **kw))


def _dep(actions, comb=None):
    def one(task):
        return Depend(task, actions)

    def many(*tasks):
        return comb(*(Depend(t, actions) for t in tasks))
    return many if comb else one


FIN = ("success", "fail")
NS = {
    "true": Const(True), "false": Const(False), "every": every, "cron": cron, "crontime": crontime,
    "after_success": _dep(("success",)), "after_fail": _dep(("fail",)), "after_finish": _dep(FIN),
    "after_all_success": _dep(("success",), All_), "after_all_fail": _dep(("fail",), All_),
    "after_all_finish": _dep(FIN, All_),
    "after_any_success": _dep(("success",), Any_), "after_any_fail": _dep(("fail",), Any_),
    "after_any_finish": _dep(FIN, Any_),
    "started": ActionWrapper(("run",)), "failed": ActionWrapper(("fail",)),
    "succeeded": ActionWrapper(("success",)), "finished": ActionWrapper(("success", "fail", "terminate")),
    "retry": RetryC(), "running": Running(), "hcond": HCondRef, "count": count_of,
    "fcond": lambda key: HCondRef(key.partition(":")[0]), "scond": lambda key: HCondRef(key),
    "scheduler_running": lambda more_than=None, less_than=None: SchedRunning(
        None if more_than is None else delta(more_than), None if less_than is None else delta(less_than)),
    "scheduler_cycles": lambda more_than=None, less_than=None: SchedCycles(more_than, less_than),
}
for _n, _s in (("secondly", "second"), ("minutely", "minute"), ("hourly", "hour"), ("daily", "day"),
               ("weekly", "week"), ("monthly", "month")):
    NS[_n] = TimeWrapper(_s, Once)
    NS["time_of_" + _s] = TimeWrapper(_s, InPeriod)

_cache = {}


def parse(text):
    if text is None:
        return Const(False)
    if text not in _cache:
        _cache[text] = eval(text, dict(NS))
    return _cache[text]


def mentions(text):
    """Names of tasks which a condition refers to."""
    text = re.sub(r"count\('\w+'", "count(", text or "")
    return set(re.findall(r"'([a-z][\w./]*)'", text or "")) | set(re.findall(r'"([a-z][\w./]*)"', text or ""))
