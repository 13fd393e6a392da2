def t_min_none():
    best = None
    for x in MIN_XS:
        if best is None or x[0] < best[0]:
            best = x
    return best


MIN_XS = [(3, "a"), (1, "b"), (2, "c"), (1, "d")]


def t_min_none_empty():
    xs = []
    best = None
    for x in xs:
        if best is None or x[0] < best[0]:
            best = x
    return best


def t_min_none_key():
    xs = [(3, "a"), (1, "b"), (2, "c"), (1, "d")]
    best = None
    bk = None
    for x in xs:
        k = (x[0],)
        if bk is None or k < bk:
            best, bk = x, k
    return best, bk


def t_min_first():
    xs = [(3, "a"), (1, "b"), (2, "c"), (1, "d")]
    best = xs[0]
    for x in xs[1:]:
        if x[0] < best[0]:
            best = x
    return best


def t_min_first_all():
    xs = [(3, "a"), (1, "b"), (2, "c"), (1, "d")]
    best = xs[0]
    bk = best[0]
    for x in xs:
        k = x[0]
        if bk > k:
            bk = k
            best = x
    return best, bk


def t_min_first_empty():
    xs = []
    best = xs[0]
    for x in xs:
        if x[0] < best[0]:
            best = x
    return best


def t_min_iter():
    xs = [(3, "a"), (1, "b"), (2, "c"), (1, "d")]
    it = iter(xs)
    best = next(it)
    for x in it:
        if x[0] < best[0]:
            best = x
    return best


def t_min_last():
    xs = [(3, "a"), (1, "b"), (2, "c"), (1, "d")]
    best = xs[0]
    for x in xs:
        if x[0] <= best[0]:
            best = x
    return best


def t_max_first():
    xs = [(3, "a"), (1, "b"), (2, "c"), (3, "d")]
    best = None
    for x in xs:
        if best is None or x[0] > best[0]:
            best = x
    return best


def t_min_guard_late():
    xs = [(3, "a"), (1, "b")]
    best = (0, "z")
    for x in xs:
        if x[0] < best[0]:
            best = x
    return best


def t_min_tuple_init():
    best, bk = None, None
    for x in MIN_XS:
        k = x[0]
        if bk is None or k < bk:
            best, bk = x, k
    return best, bk


def t_min_chain_init():
    best = bk = None
    for x in MIN_XS:
        if bk is None or x[0] < bk:
            best = x
            bk = x[0]
    return best, bk


def t_min_none_keys():
    best, bk = None, None
    for x in [(None, 1), (3, 2), (2, 3)]:
        k = x[0]
        if bk is None or k < bk:
            best, bk = x, k
    return best, bk


def t_min_continue():
    best = None
    for x in MIN_XS:
        if best is not None and x[0] >= best[0]:
            continue
        best = x
    return best


def t_min_continue_last():
    best = None
    for x in MIN_XS:
        if best is not None and x[0] > best[0]:
            continue
        best = x
    return best


def t_min_else():
    best = MIN_XS[0]
    for x in MIN_XS:
        if not x[0] < best[0]:
            pass
        else:
            best = x
    return best


def t_sort_first():
    xs = list(MIN_XS)
    xs.sort(key=lambda x: x[0])
    return xs[0]


def t_percent():
    return "a %s b %r %% %s" % ("x", "y", 3), "%s" % "q", "100%%" % ()


def t_percent_few():
    return "a %s b %s" % ("x",)


def t_percent_many():
    return "a %s" % ("x", "y")


def t_percent_one():
    return "a %s" % 5


def t_min_default():
    return min(MIN_XS, key=lambda x: x[0], default=None), min([], key=lambda x: x[0], default=7)


def t_min_default_gen():
    return min((x for x in MIN_XS if x[0] > 1), key=lambda x: x[0], default=None)


def t_min_none_iter():
    it = iter([])
    best = None
    for x in it:
        if best is None or x[0] < best[0]:
            best = x
    return best


def t_min_none_gen():
    best = None
    for x in (y for y in MIN_XS if y[0] > 9):
        if best is None or x[0] < best[0]:
            best = x
    return best


class MinBag:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        for x in self.xs:
            yield x


def t_min_none_bag():
    bag = MinBag([])
    best = None
    for x in bag:
        if best is None or x[0] < best[0]:
            best = x
    return best


def min_key(x):
    return 1 if x is None else x


def t_min_none_elements():
    xs = [None, 3, 2]
    best = None
    for x in xs:
        if best is None or min_key(x) < min_key(best):
            best = x
    return best


def t_min_none_elements_key():
    xs = [None, 3, 2]
    best = bk = None
    for x in xs:
        if bk is None or min_key(x) < bk:
            best = x
            bk = min_key(x)
    return best, bk


def t_min_zip():
    best = None
    xs = MIN_XS
    for x in xs:
        if best is None or x < best:
            best = x
    return best


def t_min_dict():
    best = None
    xs = {3: 1, 2: 5}
    for x in xs:
        if best is None or x + 0 < best + 0:
            best = x
    return best
