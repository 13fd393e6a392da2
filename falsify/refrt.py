"""Concrete counterparts of the intrinsics used by pyvc/refspec.py."""


class RCtx:
    """Reference context: the column mark and where positions are."""

    def __init__(self, mark, gl):
        self.mark = mark
        self.gl = gl


def insert(label):
    return ("insert", label)


def skip(n):
    return ("skip", n)


def item(s, i):
    return s[i]


def belongs(t, cls):
    return getattr(t, cls)()


def length(x):
    return len(x)


def loc_at(ctx, s, pos):
    return ctx.gl(s, pos)


def mark_of(ctx):
    return ctx.mark


def col_of(loc):
    return loc[2]


def with_mark(ctx, m):
    return RCtx(m, ctx.gl)


def starts(s, x, i):
    return s[i:i + len(x)] == x


def matches(pat, group, s, i):
    m = pat.match(s, i)
    if m is None or m.group(group) is None:
        return (False, None, None)
    return (True, m.group(group), m.end())


def text_of(x):
    return repr(x)


def items_after(*a):
    raise NotImplementedError


operations_after = left_assoc = right_assoc = items_after


def kind_of(t):
    return t.kind


def new_token(kind, value, s, i):
    return type(s[0])(kind, value) if s else None
