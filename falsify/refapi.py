"""The library's public API on top of the reference semantics (pyvc/refspec.py)."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                "pyvc"))
import refspec as R                                   # noqa: E402
from refrt import RCtx                                # noqa: E402


class TooLong(Exception):
    pass


STEPS = [0, 20000]


def step():
    STEPS[0] += 1
    if STEPS[0] > STEPS[1]:
        raise TooLong()


class P:
    def __init__(self, fast, slow):
        self._f, self._s = fast, slow

    def parse_fast_fn(self, s, pos, ctx):
        step()
        return self._f(s, pos, ctx)

    def parse_fn(self, s, pos, ctx, ins, rem):
        step()
        return self._s(s, pos, ctx, ins, rem)

    def fmap(self, f):
        return fmap(self, f)

    def bind(self, f):
        return P(lambda *a: R.bind_fast(self, f, *a), lambda *a: R.bind_slow(self, f, *a))

    def seql(self, o):
        return sq(self, o, R.left)

    def seqr(self, o):
        return sq(self, o, R.right)

    __lshift__, __rshift__ = seql, seqr

    def __add__(self, o):
        return seq(self, o)

    def __or__(self, o):
        return alt(self, o)

    def maybe(self):
        return maybe(self)

    def many(self):
        return many(self)

    def attempt(self):
        return attempt(self)

    def label(self, x):
        return label(self, x)

    def recover(self):
        return recover(self)

    def recover_with(self, x, label=None):
        return recover_with(self, x, label)

    def recover_with_fn(self, f, label=None):
        return recover_with_fn(self, f, label)

    def sep_by(self, sep):
        return sep_by(self, sep)

    def between(self, o, c):
        return between(o, c, self)

    def chainl1(self, op):
        return chainl1(self, op)

    def chainr1(self, op):
        return chainr1(self, op)

    def then(self, o):
        return tup(sq(self, o, R.pair))


class T(P):
    def then(self, o):
        return tup(sq(self, o, R.snoc))

    def apply(self, f):
        return fmap(self, lambda t: f(*t))


def tup(p):
    return T(p._f, p._s)


def fmap(p, f):
    return P(lambda *a: R.fmap_fast(p, f, *a), lambda *a: R.fmap_slow(p, f, *a))


def sq(p, q, m):
    return P(lambda *a: R.seq_fast(p, q, m, *a), lambda *a: R.seq_slow(p, q, m, *a))


def seq(p, q):
    return sq(p, q, R.pair)


def seql(p, q):
    return sq(p, q, R.left)


def seqr(p, q):
    return sq(p, q, R.right)


def bind(p, f):
    return p.bind(f)


def alt(p, q):
    return P(lambda *a: R.alt_fast(p, q, *a), lambda *a: R.alt_slow(p, q, *a))


def maybe(p):
    return P(lambda *a: R.maybe_fast(p, *a), lambda *a: R.maybe_slow(p, *a))


def many(p):
    def run(fn, s, pos, ctx):
        v = []
        r = fn(s, pos, ctx)
        while type(r) is R.Ok and r.consumed:
            step()
            v = [*v, r.value]
            pos, ctx = r.pos, r.ctx
            r = fn(s, pos, ctx)
        return v, pos, ctx

    def fast(s, pos, ctx):
        v, i, e = run(p.parse_fast_fn, s, pos, ctx)
        return R.many_end_fast(p, v, s, i, e)

    def slow(s, pos, ctx, ins, rem):
        v, i, e = run(p.parse_fast_fn, s, pos, ctx)
        return R.many_end_slow(p, me, v, s, i, e, ins)

    me = P(fast, slow)
    return me


def attempt(p):
    return P(lambda *a: R.attempt_fast(p, *a), lambda *a: R.attempt_slow(p, *a))


def label(p, x):
    return P(lambda *a: R.label_fast(p, x, *a), lambda *a: R.label_slow(p, x, *a))


def recover(p):
    return P(p.parse_fast_fn, lambda *a: R.recover_slow(p, *a))


def recover_with_fn(p, f, label=None):
    return P(p.parse_fast_fn, lambda *a: R.recover_with_slow(p, f, label, *a))


def recover_with(p, x, label=None):
    return recover_with_fn(p, lambda s, i: x, label)


def sep_by(p, sep):
    def fast(s, pos, ctx):
        return body.parse_fast_fn(s, pos, ctx)
    body = maybe(seq(p, many(seqr(sep, p))))
    return fmap(body, lambda v: [] if v is None else [v[0], *v[1]])


def between(o, c, p):
    return seqr(o, seql(p, c))


def chainl1(p, op):
    def red(v):
        x = v[0]
        for f, y in v[1]:
            x = f(x, y)
        return x
    return fmap(seq(p, many(seq(op, p))), red)


def chainr1(p, op):
    def red(v):
        def go(x, rest):
            if not rest:
                return x
            f, y = rest[0]
            return f(x, go(y, rest[1:]))
        return go(v[0], v[1])
    return fmap(seq(p, many(seq(op, p))), red)


def late(mk):
    """A forward declaration, combined before its definition."""
    box = []
    p = P(lambda *a: box[0].parse_fast_fn(*a), lambda *a: box[0].parse_fn(*a))
    box.append(mk(p))
    return p


# ------------------------------------------------------------------ primitives
def prim(fast, slow, accept):
    def sl(s, pos, ctx, ins, rem):
        found = None
        for i in range(pos + 1, len(s)):
            if accept(s, i):
                found = i
                break
        return slow(found, s, pos, ctx, ins, rem)
    return P(fast, sl)


def eof():
    return P(R.eof_fast, R.eof_slow)


def satisfy(test):
    return prim(lambda *a: R.satisfy_fast(test, *a), lambda f, *a: R.satisfy_slow(test, f, *a),
                lambda s, i: test(s[i]))


def sym(x, label=None):
    return prim(lambda *a: R.sym_fast(x, label, *a), lambda f, *a: R.sym_slow(x, label, f, *a),
                lambda s, i: s[i] == x)


def literal(x):
    return prim(lambda *a: R.literal_fast(x, *a), lambda f, *a: R.literal_slow(x, f, *a),
                lambda s, i: s[i:i + len(x)] == x)


def regexp(pat, group=0):
    pat = re.compile(pat)

    def acc(s, i):
        m = pat.match(s, i)
        return m is not None and m.group(group) is not None
    return prim(lambda *a: R.regexp_fast(pat, group, *a),
                lambda f, *a: R.regexp_slow(pat, group, f, *a), acc)


def Pure(x):
    return P(lambda s, pos, ctx: R.pure_fast(x, s, pos, ctx),
             lambda s, pos, ctx, ins, rem: R.pure_fast(x, s, pos, ctx))


def PureFn(f):
    return P(lambda s, pos, ctx: R.pure_fast(f(), s, pos, ctx),
             lambda s, pos, ctx, ins, rem: R.pure_fast(f(), s, pos, ctx))


def unexpected(x):
    return P(lambda s, pos, ctx: R.unexpected_fast(x, s, pos, ctx),
             lambda s, pos, ctx, ins, rem: R.unexpected_fast(x, s, pos, ctx))


def char_class(cls, name):
    return label(satisfy(lambda t: R.belongs(t, cls)), name)


letter, digit = char_class("isalpha", "letter"), char_class("isdigit", "digit")


def token(kind):
    return label(satisfy(lambda t: t.kind == kind), kind)


def token_ins(kind, value):
    def f(s, pos):
        from reparsec.lexer import Token
        from reparsec import Loc
        loc = Loc(*token_loc(s, pos))
        return Token(kind, value, loc, loc)
    return recover_with_fn(token(kind), f, kind)


def block(p):
    return P(lambda *a: R.block_fast(p, *a), lambda *a: R.block_slow(p, *a))


def aligned(p):
    return P(lambda *a: R.aligned_fast(p, *a), lambda *a: R.aligned_slow(p, *a))


def indented(d, p):
    return P(lambda *a: R.indented_fast(d, p, *a), lambda *a: R.indented_slow(d, p, *a))


# ------------------------------------------------------------------ locations
def plain_loc(s, pos):
    return (pos, 0, 0)


def text_loc(s, pos):
    return (pos, s.count("\n", 0, pos), pos - (s.rfind("\n", 0, pos) + 1))


def token_loc(s, pos):
    if pos < len(s):
        return tuple(s[pos].start)
    if len(s):
        return tuple(s[len(s) - 1].end)
    return (pos, 0, 0)


GL = {"plain": plain_loc, "objs": plain_loc, "text": text_loc, "tokens": token_loc}


# ------------------------------------------------------------------ outcomes
def best(reps):
    b = None
    for r in reps:
        if b is None or (r.cost, -r.pos, r.prio is None) < (b.cost, -b.pos, b.prio is None):
            b = r
    return b


def outcomes(p, s, how, recover, n):
    """(unwrap(), unwrap(recover=True)): ("value", v) or ("errors", items)"""
    STEPS[0] = 0
    gl = GL[how]
    fmt = (lambda l: repr(l[0])) if how in ("plain", "objs") else (
        lambda l: "%d:%d" % (l[1] + 1, l[2] + 1))
    ctx = RCtx(0, gl)
    try:
        r = p.parse_fn(s, 0, ctx, n, n) if recover else p.parse_fast_fn(s, 0, ctx)
    except RuntimeError as e:
        if isinstance(e, RecursionError):
            raise
        return (("raises", "RuntimeError"),) * 2
    if type(r) is R.Ok:
        return (("value", r.value),) * 2
    if type(r) is R.Error or not r.repairs:
        return (("errors", [(tuple(r.loc), fmt(r.loc), list(r.expected), None)]),) * 2
    b = best(r.repairs)
    return (("errors", [(tuple(o.loc), fmt(o.loc), list(o.expected), o.op) for o in b.ops]),
            ("value", b.value))
