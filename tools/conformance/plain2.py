from typing import *
from dataclasses import dataclass, field, replace
from functools import partial, wraps, reduce
import itertools, copy

@dataclass
class D:
    a: int
    b: int = 3
    c: list = field(default_factory=list)

@dataclass
class P:
    a: int

    def __post_init__(self):
        self.a += 1

class B:
    x = 1

    def __init__(self, v):
        self.v = v

    def m(self):
        return self.v + self.x

    @property
    def p(self):
        return self.v * 2

    @classmethod
    def mk(cls, v):
        return cls(v + 1)

    @staticmethod
    def st(v):
        return v + 5

class C(B):
    x = 2

    def m(self):
        return super().m() * 10

class N(NamedTuple):
    a: int
    b: int = 7

class K:

    def __call__(self, x):
        return x + 1

def dflt(x, acc=[]):
    acc.append(x)
    return acc
G = [1, 2]

def t_g_partial():
    log = []

    def g():
        for i in (1, 2, 3):
            log.append(i)
            yield i
    it = g()
    a = next(it)
    return (a, list(log))

def t_g_notused():
    log = []

    def g():
        log.append(1)
        yield 1
    g()
    return log

def t_g_list_effect():
    log = []

    def g():
        log.append(1)
        yield 1
    x = list(g())
    return (x, log)

def t_g_raise_late():

    def g():
        yield 1
        raise ValueError('x')
    out = []
    try:
        for x in g():
            out.append(x)
    except ValueError:
        out.append(9)
    return out

def t_g_raise_break():

    def g():
        yield 1
        raise ValueError('x')
    for x in g():
        return x

def t_g_raise_extend():

    def g():
        yield 1
        raise ValueError('x')
    out = []
    try:
        out.extend(g())
    except ValueError:
        pass
    return out

def t_g_raise_unused():

    def g():
        raise ValueError('x')
        yield 1
    g()
    return 3

def t_g_body_changes():
    xs = [1, 2]

    def g():
        for x in xs:
            yield x
    out = []
    for x in g():
        if len(xs) < 4:
            xs.append(7)
        out.append(x)
    return out

def t_map_unused():
    log = []
    map(log.append, [1, 2])
    return log

def t_map_effect():
    log = []
    for x in map(lambda v: (log.append(v), v)[1], [1, 2]):
        log.append(x * 10)
    return log

def t_filter_effect():
    log = []
    list(filter(lambda v: log.append(v), [1, 2]))
    return log

def t_genexp_body():
    xs = [1, 2, 3]
    g = (x for x in xs)
    xs.append(4)
    return list(g)

def t_genexp_nested():
    return list(((x, y) for x in (1, 2) for y in (3, 4) if x + y != 5))

def t_iter_modify():
    xs = [1, 2]
    it = iter(xs)
    xs.append(3)
    return (next(it), list(it))

def t_for_append():
    xs = [1, 2]
    for x in xs:
        if len(xs) < 5:
            xs.append(x)
    return xs

def t_zip_late():
    xs = [1]
    z = zip(xs, (5, 6))
    xs.append(2)
    return list(z)

def t_enum_late():
    xs = [1]
    z = enumerate(xs)
    xs.append(2)
    return list(z)

def t_rev_late():
    xs = [1, 2]
    z = reversed(xs)
    xs[0:0] = []
    return list(z)

def t_any_stop():
    log = []

    def f(x):
        log.append(x)
        return x > 1
    any((f(x) for x in (1, 2, 3)))
    return log

def t_any_map():
    log = []

    def f(x):
        log.append(x)
        return x > 1
    any(map(f, (1, 2, 3)))
    return log

def t_all_list():
    log = []

    def f(x):
        log.append(x)
        return x < 2
    r = all([f(x) for x in (1, 2, 3)])
    return (r, log)

def t_in_gen():
    return 2 in (x for x in (1, 2, 3))

def t_star_gen():
    a, *b = (x for x in (1, 2, 3))
    return (a, b)

def t_tuple_gen():
    return tuple((x * 2 for x in (1, 2)))

def t_sum_gen():
    return sum((x * 2 for x in (1, 2)))

def t_yield_from():

    def h():
        yield 1
        yield 2

    def g():
        yield 0
        yield from h()
        yield 3
    return list(g())

def t_gen_closure_var():

    def g():
        yield n
    n = 1
    it = g()
    n = 2
    return list(it)

def t_gen_arg():

    def g(n):
        yield n
    n = 1
    it = g(n)
    n = 2
    return list(it)

def t_class_var_shadow():
    c = C(1)
    c.x = 7
    return (c.m(), C.x, B.x)

class E__super_chain(C):

    def m(self):
        return super().m() + 1

def t_super_chain():
    return E__super_chain(1).m()

class X_mro:

    def f(self):
        return 'X'

class Y_mro(X_mro):
    pass

class Z_mro(X_mro):

    def f(self):
        return 'Z'

class W_mro(Y_mro, Z_mro):
    pass

def t_mro():
    return W_mro().f()

def t_prop():
    return B(4).p

def t_cm():
    return (C.mk(1).v, type(C.mk(1)) is C)

def t_sm():
    return (B.st(1), B(1).st(2))

def t_bound():
    b = B(3)
    f = b.m
    b.v = 10
    return f()

def t_eq_default():
    return (B(1) == B(1), B(1) != B(1))

def t_eq_dc():
    return (D(1) == D(1), D(1) == D(2), D(1) != D(1))

def t_dc_repr():
    return repr(D(1))

def t_dc_kw():
    return D(b=1, a=2).a

def t_dc_list_shared():
    a = D(1)
    b = D(1)
    a.c.append(1)
    return (b.c, a.c)

def t_dc_missing():
    return D()

def t_dc_extra():
    return D(1, 2, [], 4)

def t_del_attr():
    b = B(1)
    try:
        return b.nope
    except AttributeError:
        return 5

def t_getattr():
    return (getattr(B(1), 'zz', 4), getattr(B(2), 'v'))

def t_hasattr():
    return (hasattr(B(1), 'v'), hasattr(B(1), 'q'))

def t_unbound_local():

    def f(c):
        if c:
            x = 1
        return x
    try:
        return f(False)
    except UnboundLocalError:
        return 'u'
x_global = 5

def t_shadow():

    def f():
        x_global = 6
        return x_global
    return (f(), x_global)

def t_unbound_shadow():
    try:
        y = x_global
        x_global = 1
        return y
    except UnboundLocalError:
        return 'u'

def t_closure_cell():

    def mk():
        out = []
        for i in (1, 2):
            out.append(lambda: i)
        return out
    return [f() for f in mk()]

def t_closure_comp():
    return [f() for f in [lambda: i for i in (1, 2)]]

def t_closure_default():
    return [f() for f in [lambda i=i: i for i in (1, 2)]]

def t_except_del():
    e = 1
    try:
        raise ValueError
    except ValueError as e:
        pass
    try:
        return e
    except NameError:
        return 'gone'

def t_finally_override():

    def f():
        try:
            raise ValueError
        finally:
            return 3
    return f()

def t_finally_break():
    for i in (1, 2):
        try:
            continue
        finally:
            break
    return i

def t_try_nested():
    try:
        try:
            raise KeyError
        except ValueError:
            return 1
        finally:
            pass
    except KeyError:
        return 2

def t_lookup_err():
    try:
        raise IndexError
    except LookupError:
        return 1

def t_exc_base():
    try:
        raise KeyboardInterrupt
    except Exception:
        return 1
    except BaseException:
        return 2

def t_stopiter_in_gen():

    def g():
        yield 1
        raise StopIteration
    try:
        return list(g())
    except RuntimeError:
        return 'rt'

def t_next_in_gen():

    def g():
        it = iter([])
        yield 1
        next(it)
        yield 2
    try:
        return list(g())
    except RuntimeError:
        return 'rt'

def t_or_val():
    return (0 or 5, None or [], '' or 'x', 3 and 4, 0 and 1)

def t_not_list():
    return (not [], not [1], bool(()), bool((0,)))

def t_cmp_chain():
    return (1 < 2 < 3, 1 < 3 < 2, 1 == 1 != 2)

def t_neg():
    return (-1 // 1 if False else --3, +2)

def t_str_idx():
    return ('abc'[1], 'abc'[-1], 'abc'[1:], len('abc'))

def t_str_cmp():
    return ('a' < 'b', 'a' == 'a', 'a' in 'ba')

def t_str_bool():
    return (bool(''), bool(' '))

def t_join_gen():
    return ','.join((str(x) for x in (1, 2)))

def t_fstr():
    return f'{1}-{'a'!r}-{(1, 2)}'

def t_bool_eq_int():
    return (True == 1, False == 0, 1 is True)

def t_tuple_cmp():
    return ((1, 2) < (1, 3), (1,) == (1,), (1, 2) == (1,), (1, 2) < (2,))

def t_none_cmp():
    return (None == None, None is None, 0 == None, [] == None)

def t_list_id():
    return ([] is [], () == ())

def t_cond_assign():
    x = 1
    if (y := (x + 1)) > 1:
        return y

def t_aug_attr():
    b = B(1)
    b.v += 4
    return b.v

def t_aug_alias():
    a = [1]
    b = a
    a = a + [2]
    return (b, a)

def t_arg_alias():

    def f(x):
        x.append(1)
        x = []
        return x
    a = []
    f(a)
    return a

def t_multi_assign():
    a = b = []
    a.append(1)
    return b

def t_swap_attr():
    b = B(1)
    c = B(2)
    b.v, c.v = (c.v, b.v)
    return (b.v, c.v)

def t_eval_order_attr():
    log = []

    def f(x):
        log.append(x)
        return B(x)
    f(1).v = f(2).v
    return log

def t_eval_order_call():
    log = []

    def f(x):
        log.append(x)
        return lambda *a: log.append(a)
    f(1)(f(2), f(3)) if False else f(1)(len(log))
    return log

def t_default_eval_once():
    log = []

    def mk():
        log.append(1)
        return 2

    def f(a=mk()):
        return a
    f()
    f()
    return log

def t_while_cond_effect():
    log = []

    def c():
        log.append(1)
        return len(log) < 3
    while c():
        pass
    return log

def t_for_tuple():
    out = []
    for a, (b, c) in [(1, (2, 3)), (4, (5, 6))]:
        out.append(a + b + c)
    return out

def t_for_reassign():
    out = []
    for i in range(3):
        out.append(i)
        i += 5
    return out

def t_for_var_leak():
    for i in (1, 2, 3):
        pass
    return i

def t_for_empty_leak():
    i = 9
    for i in ():
        pass
    return i

def t_range_rev():
    return ([x for x in range(3)], list(range(1, 3)))

class Q_nested_fn_attr:

    def __init__(self):
        self.f = lambda: 3

def t_nested_fn_attr():
    return Q_nested_fn_attr().f()

class Q_cls_attr_fn:
    f = len
    g = lambda self: 4

def t_cls_attr_fn():
    return Q_cls_attr_fn().g()

class Q_dunder_bool:

    def __bool__(self):
        return False

def t_dunder_bool():
    return 1 if Q_dunder_bool() else 2

class Q_dunder_len:

    def __len__(self):
        return 0

def t_dunder_len():
    return 1 if Q_dunder_len() else 2

class Q_dunder_eq:

    def __eq__(self, o):
        return True

def t_dunder_eq():
    return (Q_dunder_eq() == 3, 3 == Q_dunder_eq(), Q_dunder_eq() != 3)

class Q_dunder_add:

    def __add__(self, o):
        return 7

def t_dunder_add():
    return Q_dunder_add() + 1

class Q_dunder_radd:

    def __radd__(self, o):
        return 7

def t_dunder_radd():
    return 1 + Q_dunder_radd()

class Q_dunder_iter:

    def __iter__(self):
        return iter((1, 2))

def t_dunder_iter():
    return [x for x in Q_dunder_iter()]

class Q_dunder_getitem:

    def __getitem__(self, i):
        return i + 1

def t_dunder_getitem():
    return Q_dunder_getitem()[3]

class Q_dunder_str:

    def __str__(self):
        return 'q'

    def __repr__(self):
        return 'r'

def t_dunder_str():
    return (str(Q_dunder_str()), repr(Q_dunder_str()), f'{Q_dunder_str()}', f'{Q_dunder_str()!r}')

class Q_dunder_contains:

    def __contains__(self, x):
        return x == 1

def t_dunder_contains():
    return 1 in Q_dunder_contains()

class Q_dunder_lt:

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return self.v > o.v

def t_dunder_lt():
    return min(Q_dunder_lt(1), Q_dunder_lt(5)).v

class Q_dunder_hash_getattr:

    def __getattr__(self, n):
        return n

def t_dunder_hash_getattr():
    return Q_dunder_hash_getattr().abc

def t_partial_kw():

    def f(a, b=1, *, c=2):
        return (a, b, c)
    return (partial(f, 1, c=5)(2), partial(f, c=3)(1, c=4))

def t_star_mid():

    def f(a, *r, k=0):
        return (a, r, k)
    return (f(*(1, 2), 3, k=4), f(1))

def t_kw_override():

    def f(**k):
        return k['a']
    return f(a=2)

def t_pos_as_kw():

    def f(a, b):
        return a - b
    return f(b=1, a=5)

def t_dup_arg():

    def f(a):
        return a
    try:
        return f(1, a=2)
    except TypeError:
        return 'te'

def t_lambda_star():
    return (lambda *a: a)(1, 2)

def t_tern_lazy():
    log = []
    x = log.append(1) if False else 2
    return (x, log)

def t_and_lazy():
    log = []
    False and log.append(1)
    True or log.append(2)
    return log

def t_list_insert_mid():
    a = [1, 2]
    a.insert(1, 9)
    return a

def t_slice_assign():
    a = [1, 2, 3]
    a[1:] = [9]
    return a

def t_slice_neg():
    return ([1, 2, 3][-2:], [1, 2, 3][:-1], (1, 2, 3)[::-1], [1, 2, 3][5:])

def t_pop_empty():
    try:
        return [].pop()
    except IndexError:
        return 'ie'

def t_unpack_str():
    a, b = 'xy'
    return (a, b)

def t_min_key_tie():
    return min([(1, 'a'), (1, 'b')], key=lambda t: t[0])

def t_max_empty():
    try:
        return min([])
    except ValueError:
        return 've'

def t_min_default():
    return min([], default=4)

def t_sum_start():
    return sum([1, 2], 10)

def t_sorted_neg():
    return sorted([3, 1, 2], key=lambda x: -x)

def t_map_two():
    return list(map(lambda a, b: a + b, [1, 2], [3, 4]))

def t_zip_short():
    return list(zip((1, 2, 3), (4, 5)))

def t_enum_start():
    return list(enumerate('ab', 1))

def t_chain_nested():
    return list(itertools.chain((1,), [2], (x for x in (3,))))

def t_takewhile():
    return list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1]))

def t_reduce_init():
    return reduce(lambda a, b: a * 10 + b, [1, 2], 3)

def t_copy_dc():
    a = D(1)
    b = copy.copy(a)
    b.c.append(1)
    b.a = 5
    return (a.a, a.c)

def t_replace_shared():
    a = D(1)
    b = replace(a, a=2)
    b.c.append(4)
    return (a.c, b.a)

def t_cast():
    return cast(int, 4)

def t_setattr():
    b = B(1)
    setattr(b, 'v', 3)
    return b.v

def t_try_return_finally_effect():
    log = []

    def f():
        try:
            return len(log)
        finally:
            log.append(1)
    return (f(), log)

def t_raise_in_except():
    try:
        try:
            raise ValueError
        except ValueError:
            raise KeyError
    except KeyError:
        return 'k'

def t_else_raise():
    try:
        try:
            pass
        except ValueError:
            return 1
        else:
            raise ValueError
    except ValueError:
        return 2

def t_while_else_break():
    i = 0
    while i < 3:
        i += 1
        if i == 2:
            break
    else:
        i = 100
    return i

def t_continue_while():
    i = 0
    out = []
    while i < 4:
        i += 1
        if i == 2:
            continue
        out.append(i)
    return out

def t_assert_fail():
    try:
        assert 1 == 2
    except AssertionError:
        return 'ae'

def t_str_methods():
    return ('a b'.split(), ' x '.strip(), 'ab'.startswith('a'), 'a'.upper())

def t_isinstance_tuple():
    return (isinstance(1, (str, int)), isinstance('a', (int,)), isinstance(N(1), tuple), isinstance([], list), isinstance((), tuple))

def t_type_eq():
    return (type(B(1)) == B, type(C(1)) == B, type(1) is int, type(None) is type(None))

def t_callable():
    return (callable(len), callable(3))

def t_id():
    a = B(1)
    return id(a) == id(a)

def t_decor():

    def d(f):

        @wraps(f)
        def w(*a, **k):
            return f(*a, **k) + 1
        return w

    @d
    @d
    def f(x):
        return x
    return f(1)

class Q_cls_deco:
    pass

def t_cls_deco():

    def d(c):
        c.q = 4
        return c
    return Q_cls_deco.q

class Q_static_nested:

    @staticmethod
    def f(x):
        return x
    g = f

def t_static_nested():
    return (Q_static_nested.f(1), Q_static_nested().f(2))

def t_overload_last():

    def f():
        return 1

    def f():
        return 2
    return f()

def t_cond_def():
    if 1 == 2:

        def f():
            return 1
    else:

        def f():
            return 2
    return f()