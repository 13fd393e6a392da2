from typing import *
from dataclasses import dataclass, field, replace
from functools import partial, wraps, reduce
import itertools
@dataclass
class D:
    a: int
    b: int = 3
def f_cond(a, b):
    if a < b: return 1
    elif a == b: return 2
    return a - b
def f_minmax(a, b): return min(a, b), max(a, b), abs(a - b)
def f_loop(a, b):
    s = 0
    for i in range(a): s += 1
    return s
def f_loop2(a, b):
    i = a
    while i < b: i += 1
    return i
def f_loop3(a, b):
    i = 0
    n = 0
    while i < a:
        i += 1
        n = i
    return n
def f_break(a, b):
    for i in range(a):
        if i == b: break
    else:
        return -1
    return i
def f_break2(a, b):
    r = None
    for i in range(a):
        if i > b:
            r = i
            break
    return r
def f_ret(a, b):
    for i in range(a, b):
        if i > 1: return i
    return -7
def f_last(a, b):
    i = 99
    for i in range(a): pass
    return i
def f_raise(a, b):
    if a > b: raise ValueError
    if a == b: raise KeyError
    return 0
def f_try(a, b):
    try:
        return f_raise(a, b)
    except ValueError:
        return 1
    finally:
        a = 5
def f_chain(a, b): return 0 <= a < b, a <= b <= 2, not a, not b < a
def f_andor(a, b): return a and b, a or b, (a > 1 and b > 1) or 5
def f_bool(a, b): return (a > b) + 1, bool(a), (a == b) == (b == a)
def f_opt(a, b):
    x = None if a > 1 else a
    if x is None: return b
    return x
def f_opt2(a, b):
    x = None
    if a > 1: x = b
    return x is None or x > 0
def f_list(a, b):
    out = []
    if a > 0: out.append(a)
    if b > 0: out.append(b)
    return len(out), out
def f_listloop(a, b):
    out = []
    for i in range(a): out.append(i)
    return len(out)
def f_listloop2(a, b):
    out = []
    for i in range(a):
        if i != b: out.append(i)
    return out[:1], bool(out)
def f_tup(a, b): return (a, b) < (b, a), (a, b) == (b, a), (a, 1) <= (1, b)
def f_dc(a, b):
    d = D(a)
    if b > d.b: d.b = b
    return d.b + d.a
def f_alias(a, b):
    d = D(a); e = d if a > b else D(b)
    e.a += 1
    return d.a
def f_closure(a, b):
    n = a
    def g(): return n + b
    n = 3
    return g()
def f_nested(a, b):
    c = 0
    for i in range(a):
        for j in range(b):
            c += 1
    return c
def f_cont(a, b):
    c = 0
    for i in range(a):
        if i < b: continue
        c += 1
    return c
def f_dec(a, b):
    while a > 0:
        a -= 1
        if a == b: return "hit"
    return a
def f_two(a, b):
    x, y = 0, 1
    while x < a:
        x, y = x + 1, y + 2
    return x, y
def f_flag(a, b):
    found = False
    for i in range(a):
        if i == b: found = True
    return found
def f_max(a, b):
    m = -1
    for i in range(a):
        if i > m: m = i
    return m
def f_swap(a, b):
    if a > b: a, b = b, a
    return a <= b, a, b
def f_tern(a, b): return (a if a > b else b) - (b if b < a else a)
def f_walrus(a, b):
    if (c := a + b) > 2: return c
    return -c
def f_any(a, b): return any(i == b for i in range(a)), all(i < b for i in range(a))
def f_any2(a, b): return any(x > 2 for x in (a, b)), all(x > 0 for x in (a, b))
def f_next(a, b): return next((i for i in range(a) if i > b), None)
def f_sum(a, b): return sum(x for x in (a, b) if x > 0)
def f_compr(a, b): return [x for x in (a, b, 1) if x > 1]
def f_sorted(a, b): return sorted((a, b))
def f_minkey(a, b): return min((a, b), key=lambda x: -x)
def f_mintie(a, b): return min([(a, 0), (b, 1)], key=lambda t: t[0])[1], max([(a, 0), (b, 1)], key=lambda t: t[0])[1]
def f_eqneq(a, b): return a == b, a != b, a is None, (a, None) == (b, None)
def f_except_loop(a, b):
    n = 0
    for i in range(a):
        try:
            if i == b: raise ValueError
            n += 1
        except ValueError:
            n += 10
    return n
def f_break_fin(a, b):
    log = []
    for i in (1, 2, 3):
        try:
            if i == a: break
            if i == b: continue
        finally:
            log.append(i)
        log.append(0)
    return log
def f_gen(a, b):
    def g():
        if a > 0: yield a
        if b > 0: yield b
    return list(g())
def f_gen_raise(a, b):
    def g():
        yield 1
        if a > 1: raise ValueError
        yield 2
    out = []
    try:
        for x in g(): out.append(x + b)
    except ValueError:
        out.append(0)
    return out
def f_gen_loop(a, b):
    def g():
        for i in range(a):
            if i == b: return
            yield i
    return len(list(g()))
def f_whileelse(a, b):
    while a < b:
        a += 1
        if a == 2: break
    else:
        return "e"
    return a
def f_while_true(a, b):
    while True:
        if a >= b: return a
        a += 1
def f_idx(a, b):
    xs = [a, b]
    return xs[0], xs[-1], xs[1]
def f_pop(a, b):
    xs = [a, b]
    if a > b: xs.pop()
    return xs
def f_str(a, b): return str(a) + ":" + str(b), "%d" % a if a else "z"
def f_mutate_loop(a, b):
    d = D(0)
    for i in range(a):
        d.a += 1
        d.b = i
    return d.a, d.b
def f_enum(a, b):
    out = []
    for i, x in enumerate((a, b)):
        out.append(x + i)
    return out
def f_zip(a, b): return [x - y for x, y in zip((a, b), (b, a))]
def f_reduce(a, b): return reduce(lambda x, y: x * 2 + y, (a, b), 1)
def f_map(a, b): return list(map(lambda x: x + 1, filter(None, (a, b))))
def f_overwrite(a, b):
    r = a
    for x in (b, 1):
        if x > r: r = x
    return r
def f_kw(a, b):
    def g(x, y=a, *, z=b): return x + y * z
    return g(1), g(1, 2), g(z=1, x=b)
def f_late(a, b):
    fs = [lambda: a, lambda a=a: a]
    a = b
    return fs[0](), fs[1]()
