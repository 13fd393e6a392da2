from typing import *
from dataclasses import dataclass
import itertools
@dataclass
class D:
    xs: list
    n: int = 0
def h_id(xs): return xs, len(xs), list(xs), [*xs], xs[:]
def h_alias(xs):
    ys = xs
    ys.append("z")
    return xs
def h_copy(xs):
    ys = list(xs)
    ys.append("z")
    return xs, ys
def h_copy2(xs):
    ys = xs[:]
    ys.extend(xs)
    return xs, ys
def h_add(xs): return xs + xs, ["q"] + xs + ["r"]
def h_loop(xs):
    out = []
    for x in xs: out.append(x)
    return out
def h_loop2(xs):
    out = ["p"]
    for x in xs:
        out.append(x)
        out.append("s")
    return out
def h_filter(xs): return [x for x in xs if x != "a"]
def h_filter2(xs):
    out = []
    for x in xs:
        if x == "a": continue
        out.append(x)
    return out
def h_break(xs):
    out = []
    for x in xs:
        if x == "a": break
        out.append(x)
    return out
def h_find(xs):
    for x in xs:
        if x == "b": return "found"
    return "no"
def h_find2(xs):
    r = None
    for x in xs:
        if x == "b":
            r = x
            break
    else:
        return "none"
    return r
def h_count(xs):
    n = 0
    for x in xs:
        if x == "a": n += 1
    return n
def h_truth(xs): return bool(xs), not xs, "y" if xs else "n"
def h_last(xs):
    x = "e"
    for x in xs: pass
    return x
def h_idx(xs):
    if xs: return xs[0], xs[-1]
    return None
def h_idx2(xs): return xs[0]
def h_pop(xs):
    if xs:
        x = xs.pop()
        return x, xs
    return xs
def h_pop0(xs):
    if xs:
        x = xs.pop(0)
        return x, xs
def h_rev(xs): return list(reversed(xs)), xs[::-1], xs
def h_rev2(xs):
    xs.reverse()
    return xs
def h_tuple(xs): return list(tuple(xs)), len(tuple(xs))
def h_extend(xs):
    out = []
    out.extend(xs); out.extend(x for x in xs)
    return out
def h_join(xs): return ",".join(xs)
def h_any(xs): return any(x == "a" for x in xs), all(x == "a" for x in xs)
def h_next(xs): return next((x for x in xs if x != "a"), "d")
def h_next2(xs): return next(iter(xs), "d")
def h_it(xs):
    it = iter(xs)
    for x in it:
        if x == "a": break
    return list(it)
def h_it2(xs):
    it = iter(xs)
    for a in it:
        return a, [b for b in it]
def h_enum(xs): return [i for i, x in enumerate(xs) if x == "a"]
def h_while(xs):
    i = 0
    while i < len(xs):
        if xs[i] == "b": return i
        i += 1
    return -1
def h_while2(xs):
    i = 0
    out = []
    while i < len(xs):
        out.append(xs[i])
        i += 1
    return out
def h_nested(xs):
    out = []
    for x in xs:
        for y in xs: out.append(y)
    return len(out)
def h_append_in(xs):
    for x in list(xs): xs.append(x)
    return xs
def h_slice(xs): return xs[1:], xs[:1], xs[:-1]
def h_splat(xs):
    a, *b = ["k", *xs]
    return a, b
def h_splat2(xs):
    try:
        a, b = xs
        return b, a
    except ValueError: return "ve"
def h_splat3(xs):
    try:
        *a, b = xs
        return b, a
    except ValueError: return "ve"
def h_eq(xs): return xs == [], xs == ["a"], len(xs) == 1
def h_in(xs): return "a" in xs
def h_dedup(xs):
    out = []
    for x in xs:
        if x not in out: out.append(x)
    return out
def h_first_rest(xs):
    first, rest = None, []
    for x in xs:
        if first is None: first = x
        else: rest.append(x)
    return first, rest
def h_obj(xs):
    d = D(xs)
    d.xs.append("t")
    return xs, d.xs
def h_obj2(xs):
    d = D(list(xs))
    xs.clear() if False else xs.append("t")
    return d.xs
def h_objs(xs):
    ds = [D([x]) for x in xs]
    for d in ds: d.n = 1
    return [d.n for d in ds]
def h_objs2(xs):
    ds = [D([x]) for x in xs]
    return [d.xs for d in ds]
def h_pairs(xs): return [(x, "c") for x in xs]
def h_pairs2(xs):
    ps = [(x, "c") for x in xs]
    return [a for a, b in ps]
def h_chain(xs): return list(itertools.chain(xs, ["c"], xs))
def h_shared(xs):
    s = []
    ds = [s for x in xs]
    for d in ds: d.append("x")
    return s
def h_try(xs):
    out = []
    try:
        for x in xs:
            if x == "b": raise ValueError
            out.append(x)
    except ValueError:
        out.append("E")
    return out
def h_gen(xs):
    def g():
        for x in xs:
            if x == "b": return
            yield x
    return list(g())
def h_gen2(xs):
    def g():
        for x in xs:
            if x == "b": raise ValueError
            yield x
    out = []
    try:
        for x in g(): out.append(x)
    except ValueError: out.append("E")
    return out
def h_last2(xs):
    last = None
    for x in xs:
        if x != "a": last = x
    return last
def h_acc(xs):
    n = 0
    out = []
    for x in xs:
        n += 1
        if n > 1: out.append(x)
    return out
def h_min(xs): return min(xs, key=len) if xs else None
def h_setdefault(xs):
    seen = set()
    out = []
    for x in xs:
        if x not in seen:
            seen.add(x); out.append(x)
    return out
def h_insert(xs):
    xs.insert(0, "i")
    return xs
def h_del(xs):
    ys = xs
    xs = []
    xs.append("n")
    return ys, xs
def h_cond_alias(xs):
    ys = xs or ["d"]
    ys.append("w")
    return xs
def h_aug(xs):
    ys = xs
    ys += ["w"]
    return xs
def h_aug2(xs):
    ys = xs
    ys = ys + ["w"]
    return xs
def h_default(xs, acc=()):
    acc = list(acc)
    for x in xs: acc.append(x)
    return acc
