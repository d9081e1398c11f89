"""Writes a condition of the condition API in rocketry's condition syntax (strings)."""
import ast

EXEC = ("secondly", "minutely", "hourly", "daily", "weekly", "monthly")
TIME = {"time_of_" + x: x for x in ("minute", "hour", "day", "week", "month")}
THIS = {"this_minute": "this minute", "this_hour": "this hour", "this_day": "today", "today": "today",
        "this_week": "this week", "this_month": "this month"}
ACTION = ("started", "succeeded", "failed", "finished")
DEP = {"success": "succeeded", "fail": "failed", "finish": "finished"}


class No(Exception):
    pass


def _text(n):
    if not (isinstance(n, ast.Constant) and isinstance(n.value, str)):
        raise No
    return n.value


def _window(call, extra=()):
    """between(a, b), after(a), ... -> ' between a and b'"""
    m = call.func.attr
    args = [_text(a) for a in call.args]
    if m == "between":
        return " between %s and %s" % tuple(args)
    if m == "at":
        m = "on"
    if m in ("before", "after") + tuple(extra):
        return " %s %s" % (m, args[0])
    raise No


def _action(n):
    """started('a').this_hour -> "task 'a' has started this hour\""""
    if isinstance(n, ast.Attribute) and n.attr in THIS:
        return _action(n.value) + " " + THIS[n.attr]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ACTION:
        return "task '%s' has %s" % (_text(n.args[0]), n.func.id)
    if isinstance(n, ast.Name) and n.id in ACTION:
        return "has %s" % n.id
    raise No


def _item(n):
    if isinstance(n, ast.Name):
        if n.id in EXEC:
            return n.id
    if isinstance(n, (ast.Name, ast.Attribute)):
        return _action(n)
    if not isinstance(n, ast.Call) or n.keywords:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "scheduler_cycles" \
                and len(n.keywords) == 1:
            k = n.keywords[0]
            return "scheduler has %s than %d cycles" % (k.arg.split("_")[0], k.value.value)
        raise No
    f = n.func
    if isinstance(f, ast.Attribute):
        v = f.value
        if isinstance(v, ast.Name) and v.id in EXEC:
            return v.id + _window(n, ("starting", "on"))
        if isinstance(v, ast.Name) and v.id in TIME:
            return "time of " + TIME[v.id] + _window(n, ("on",) if TIME[v.id] in ("week", "month") else ())
        return _action(v) + _window(n)
    if f.id in ACTION:
        return _action(n)
    if f.id == "every" and len(n.args) == 1:
        return "every " + _text(n.args[0])
    if f.id == "cron" and len(n.args) == 1:
        return "cron " + _text(n.args[0])
    if f.id == "running":
        return "task '%s' is running" % _text(n.args[0])
    if f.id.startswith("after_"):
        parts = f.id.split("_")
        names = "', '".join(_text(a) for a in n.args)
        many = {"all": "s", "any": " any"}.get(parts[1], "") if len(parts) == 3 else ""
        head = {"": "after task", "s": "after tasks", " any": "after any tasks"}[many]
        return "%s '%s' %s" % (head, names, DEP[parts[-1]])
    raise No


def _walk(n):
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
        op = " & " if isinstance(n.op, ast.BitAnd) else " | "
        return "(%s%s%s)" % (_walk(n.left), op, _walk(n.right))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
        return "~" + _walk(n.operand)
    return _item(n)


def to_syntax(text):
    """The condition as a string for start_cond, or None if the syntax does not have it."""
    try:
        out = _walk(ast.parse(text, mode="eval").body)
    except (No, IndexError, TypeError):
        return None
    return out[1:-1] if out.startswith("(") and _whole(out) else out


def _whole(s):
    depth = 0
    for i, c in enumerate(s):
        depth += c == "("
        depth -= c == ")"
        if depth == 0:
            return i == len(s) - 1
    return False
