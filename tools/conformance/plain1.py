from typing import *
from dataclasses import dataclass, field, replace
from functools import partial, wraps, reduce
import itertools, copy
@dataclass
class D:
    a: int
    b: int = 3
    c: list = field(default_factory=list)
@dataclass
class P:
    a: int
    def __post_init__(self):
        self.a += 1
class B:
    x = 1
    def __init__(self, v): self.v = v
    def m(self): return self.v + self.x
    @property
    def p(self): return self.v * 2
    @classmethod
    def mk(cls, v): return cls(v + 1)
    @staticmethod
    def st(v): return v + 5
class C(B):
    x = 2
    def m(self): return super().m() * 10
class N(NamedTuple):
    a: int
    b: int = 7
class K:
    def __call__(self, x): return x + 1
def dflt(x, acc=[]):
    acc.append(x)
    return acc
G = [1, 2]
def t_mutable_default(): dflt(1); return dflt(2)
def t_closure_late():
    fs = []
    for i in (1, 2, 3): fs.append(lambda: i)
    return [f() for f in fs]
def t_closure_bound():
    fs = [lambda i=i: i for i in (1, 2, 3)]
    return [f() for f in fs]
def t_try_finally():
    out = []
    try:
        out.append(1)
        raise ValueError("x")
    except ValueError:
        out.append(2)
    finally:
        out.append(3)
    return out
def t_finally_return():
    def f():
        try:
            return 1
        finally:
            return 2
    return f()
def t_finally_order():
    out = []
    def f():
        try:
            out.append(1)
            return out
        finally:
            out.append(2)
    return f()
def t_try_else():
    out = []
    try: out.append(1)
    except ValueError: out.append(2)
    else: out.append(3)
    return out
def t_except_order():
    try: raise KeyError("a")
    except LookupError: return 1
    except KeyError: return 2
def t_except_tuple():
    try: raise KeyError("a")
    except (ValueError, KeyError): return 2
def t_except_as():
    try: raise ValueError("a")
    except Exception as e: return e.args
def t_uncaught():
    try: raise KeyError("a")
    except ValueError: return 2
def t_while_else():
    i = 0
    while i < 3:
        i += 1
    else:
        i = 10
    return i
def t_while_break_else():
    i = 0
    while i < 3:
        i += 1
        if i == 2: break
    else: i = 10
    return i
def t_for_else():
    r = 0
    for i in (1, 2, 3):
        if i == 5: break
    else: r = 9
    return r, i
def t_for_break():
    r = 0
    for i in (1, 2, 3):
        if i == 2: break
        r += i
    else: r = 9
    return r, i
def t_for_continue():
    r = []
    for i in (1, 2, 3):
        if i == 2: continue
        r.append(i)
    return r
def t_loopvar_after():
    for i in (1, 2, 3): pass
    return i
def t_comp_scope():
    i = 9
    l = [i for i in (1, 2)]
    return i, l
def t_nested_comp(): return [(a, b) for a in (1, 2) for b in (a, 3) if b > a]
def t_cond_expr(): return 1 if 0 else 2
def t_and_or(): return (0 or 5, 3 and 4, 0 and 1, None or 0, "" or "x", () and 1)
def t_chain_cmp(): return (1 < 2 < 3, 1 < 3 < 2, 3 > 2 == 2)
def t_cmp_side():
    out = []
    def f(x): out.append(x); return x
    r = f(3) < f(2) < f(1)
    return r, out
def t_eval_order():
    out = []
    def f(x): out.append(x); return x
    g = lambda a, b=0, *c, d=0: (a, b, c, d)
    r = g(f(1), f(2), f(3), d=f(4))
    return r, out
def t_kw_order():
    out = []
    def f(x): out.append(x); return x
    g = lambda a, b: (a, b)
    return g(b=f(1), a=f(2)), out
def t_assign_order():
    out = []
    def f(x): out.append(x); return x
    a = b = f(1)
    return a, b, out
def t_swap():
    a, b = 1, 2
    a, b = b, a
    return a, b
def t_star_assign():
    a, *b, c = (1, 2, 3, 4)
    return a, b, c
def t_star_list():
    a, *b = [1, 2, 3]
    return a, b
def t_unpack_err():
    a, b = (1, 2, 3)
    return a
def t_aug_list():
    a = [1]
    b = a
    a += [2]
    return a, b, a is b
def t_aug_list2():
    a = [1]
    b = a
    a = a + [2]
    return a, b
def t_alias():
    a = [1]
    b = a
    b.append(2)
    return a
def t_slice(): 
    l = [1, 2, 3, 4]
    return l[1:], l[:-1], l[::-1], l[1:3], l[-2:]
def t_slice_copy():
    l = [1, 2]
    m = l[:]
    m.append(3)
    return l, m
def t_index_neg(): return [1, 2, 3][-1], (1, 2, 3)[-3]
def t_index_err(): return [1][2]
def t_pop():
    l = [1, 2, 3]
    return l.pop(), l.pop(0), l
def t_insert():
    l = [1, 2]
    l.insert(0, 5)
    return l
def t_insert_neg():
    l = [1, 2]
    l.insert(-1, 5)
    return l
def t_extend_self():
    l = [1, 2]
    l.extend(l)
    return l
def t_reverse():
    l = [1, 2, 3]
    l.reverse()
    return l
def t_reversed(): return list(reversed([1, 2, 3]))
def t_sorted(): return sorted([3, 1, 2])
def t_sort_key():
    l = [(2, 1), (1, 2), (1, 1)]
    l.sort(key=lambda x: x[0])
    return l
def t_min_stable(): return min([(1, 'a'), (1, 'b')], key=lambda x: x[0])
def t_max_stable(): return max([(1, 'a'), (1, 'b')], key=lambda x: x[0])
def t_min2(): return min(3, 2), min(2, 3), min([4, 2, 9])
def t_sum(): return sum([1, 2, 3]), sum((1, 2), 5)
def t_any_all(): return any([0, 1]), all([1, 0]), any([]), all([])
def t_any_gen(): return any(x > 2 for x in (1, 2, 3)), all(x > 2 for x in (1, 2, 3))
def t_next(): return next((x for x in (1, 2, 3) if x > 1), None)
def t_next_none(): return next((x for x in (1, 2, 3) if x > 5), None)
def t_next_stop(): return next(x for x in (1, 2, 3) if x > 5)
def t_iter_next():
    it = iter([1, 2])
    return next(it), next(it), next(it, 0)
def t_iter_shared():
    it = iter([1, 2, 3])
    next(it)
    return list(it)
def t_zip(): return list(zip([1, 2, 3], (4, 5)))
def t_enumerate(): return list(enumerate([5, 6], 1))
def t_map(): return list(map(lambda x: x + 1, [1, 2]))
def t_filter(): return list(filter(None, [0, 1, 2]))
def t_range(): return list(range(3)), list(range(1, 4)), list(range(4, 0, -1)), list(range(0, 5, 2))
def t_range_empty(): return list(range(3, 1))
def t_gen():
    def g():
        yield 1
        yield from (2, 3)
    return list(g())
def t_gen_once():
    g = (x for x in (1, 2))
    return list(g), list(g)
def t_gen_lazy():
    out = []
    def g():
        out.append(1)
        yield 1
    x = g()
    return out
def t_gen_lazy2():
    n = 1
    g = (x + n for x in (1, 2))
    n = 10
    return list(g)
def t_gen_return():
    def g():
        yield 1
        return
        yield 2
    return list(g())
def t_gen_interleave():
    out = []
    def g():
        for i in (1, 2):
            out.append(i)
            yield i
    for x in g(): out.append(x * 10)
    return out
def t_map_lazy():
    out = []
    m = map(out.append, [1, 2])
    return out
def t_dataclass(): return D(1), D(1, 2), D(b=4, a=5)
def t_dataclass_fresh():
    a, b = D(1), D(2)
    a.c.append(1)
    return a.c, b.c
def t_post(): return P(1).a
def t_replace():
    a = D(1, 2)
    b = replace(a, b=9)
    b.c.append(1)
    return a, b
def t_copy():
    a = D(1)
    b = copy.copy(a)
    b.a = 7
    b.c.append(3)
    return a, b
def t_class(): return C(1).m(), B(1).m(), C.mk(3).v, B.st(1), C(4).p
def t_class_attr_inst():
    b = B(1)
    b.x = 5
    return b.m(), B(1).m()
def t_class_attr_set():
    B.x = 9
    try: return B(1).m()
    finally: B.x = 1
def t_isinst(): return isinstance(C(1), B), type(C(1)) is B, isinstance(1, int), isinstance(True, int), type(True) is int
def t_named():
    n = N(1)
    a, b = n
    return a, b, n.b, n[0], n._replace(b=2).b
def t_named_eq(): return N(1, 2) == N(1, 2)
def t_callobj(): return K()(3)
def t_partial():
    f = partial(lambda a, b, c=0: (a, b, c), 1, c=5)
    return f(2), f(2, c=9)
def t_reduce(): return reduce(lambda a, b: a * 10 + b, [1, 2, 3]), reduce(lambda a, b: a + b, [], 7)
def t_chain(): return list(itertools.chain([1], (2, 3)))
def t_star_call(): return (lambda *a: a)(*(1, 2), 3)
def t_kwonly():
    def f(a, *, b=2): return a, b
    return f(1, b=3), f(1)
def t_kwonly_err():
    def f(a, *, b=2): return a, b
    return f(1, 3)
def t_dflt_none():
    def f(a=None):
        if a is None: a = []
        a.append(1)
        return a
    return f(), f()
def t_missing(): return (lambda a: a)()
def t_kwargs():
    def f(a, **k): return g(a, **k)
    def g(a, b=0, c=0): return a, b, c
    return f(1, c=2)
def t_deco():
    def twice(f):
        @wraps(f)
        def g(*a): return f(*a) * 2
        return g
    @twice
    def h(x): return x + 1
    return h(2)
def t_unbound():
    if False: x = 1
    return x
def t_del():
    x = 1
    del x
    return x
def t_nonlocal():
    n = 0
    def f():
        nonlocal n
        n += 1
    f(); f()
    return n
def t_global_list():
    l = list(G)
    l.append(3)
    return l, G
def t_fmt(): return "{} {!r} {}".format(1, "a", "b"), f"{1}-{'x'!r}", "%s:%d" % ("a", 3)
def t_fmt_idx(): return "{1} {0}".format(1, 2)
def t_fmt_name(): return "{a}".format(a=1)
def t_join(): return ", ".join(["a", "b"]), "".join([])
def t_str_mul(): return "ab" * 2
def t_list_mul(): return [1] * 3
def t_int_ops(): return 7 // 2, 7 % 3, -7 // 2, -7 % 3, 2 ** 3, -3, +2, abs(-4)
def t_bool_arith(): return True + 1, False < True, (1 == True)
def t_bool_or(): 
    a = False
    a |= True
    b = True
    b &= False
    return a, b
def t_not(): return not 0, not [], not [0], not "", not None
def t_is(): return None is None, [] is [], (1 if [] is not None else 2)
def t_in(): return 1 in (1, 2), 3 not in (1, 2), None in (1, None)
def t_in_list(): return 1 in [1, 2], "a" in "abc"
def t_walrus():
    if (n := 5) > 3: return n
def t_walrus_loop():
    l = [1, 2, 0, 3]
    i = 0
    out = []
    while (x := l[i]):
        out.append(x)
        i += 1
    return out
def t_lambda_default():
    x = 1
    f = lambda y=x: y
    x = 2
    return f()
def t_lambda_late():
    x = 1
    f = lambda: x
    x = 2
    return f()
def t_nested_ret():
    for i in (1, 2):
        for j in (3, 4):
            if j == 4: return i, j
def t_nested_break():
    out = []
    for i in (1, 2):
        for j in (3, 4):
            if j == 4: break
            out.append((i, j))
    return out
def t_list_eq(): return [1, 2] == [1, 2], (1, 2) == (1, 2), [1] == (1,)
def t_list_lt(): return (1, 2) < (1, 3), (1,) < (1, 0), (2,) > (1, 5)
def t_mod_while_iter():
    l = [1, 2, 3]
    for x in l:
        if x == 1: l.append(9)
    return l
def t_remove_iter():
    l = [1, 2, 3, 4]
    for x in l:
        if x < 3: l.remove(x)
    return l
def t_setitem():
    l = [1, 2]
    l[0] = 9
    return l
def t_delitem():
    l = [1, 2, 3]
    del l[0]
    return l
def t_tuple_concat(): return (1,) + (2, 3)
def t_attr_err(): return D(1).zzz
def t_none_attr():
    x = None
    return x.foo
def t_assert():
    assert 1 == 2
def t_match():
    match (1, 2):
        case (1, x): return x
        case _: return 0
def t_match_cls():
    v = D(1, 2)
    match v:
        case B(): return 1
        case D(a=1, b=y): return y
def t_match_val():
    match 3:
        case 1 | 2: return "a"
        case 3 if False: return "b"
        case _: return "c"
def t_list_copy_deep():
    a = [[1], [2]]
    b = list(a)
    b[0].append(5)
    return a, b
def t_tuple_of_list():
    a = [1]
    t = (a, a)
    t[0].append(2)
    return t
def t_clear():
    a = [1]
    b = a
    a.clear()
    return b
def t_count(): return [1, 2, 1].count(1), [1, 2].index(2)
def t_splat_list(): return [*[1, 2], 3, *(4,)]
def t_divmod(): return divmod(7, 2)
def t_int_str(): return int("3"), str(4), bool(0)
def t_raise_from():
    try:
        raise ValueError("a")
    except ValueError as e:
        raise KeyError("b") from e
def t_reraise():
    try:
        raise ValueError("a")
    except ValueError:
        raise
def t_raise_cls():
    raise StopIteration
def t_return_none():
    def f(): pass
    return f()
def t_posonly():
    def f(a, /, b): return a, b
    return f(1, b=2)
def t_posonly_err():
    def f(a, /, b): return a, b
    return f(a=1, b=2)
def t_recursion():
    def f(n): return 0 if n == 0 else n + f(n - 1)
    return f(4)


class ArgsErr(Exception):
    def __init__(self, x, y):
        super().__init__(y)
        self.x = x


class NoArgsErr(Exception):
    def __init__(self, x):
        super().__init__()
        self.x = x


class BareErr(Exception):
    def __init__(self, x):
        self.x = x


def t_exception_args():
    return ArgsErr(1, 2).args, NoArgsErr(1).args, BareErr(1).args, BareErr(5).x


class InitErr(Exception):
    def __init__(self, x):
        Exception.__init__(self, x, 2)


def t_exception_init():
    return InitErr(1).args
