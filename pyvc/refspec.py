"""Reference semantics of every parser constructor.

These functions state what each constructor has to do, in the simplest way and
without ever changing an object.  They are used twice: the verifier executes
them symbolically next to the library's own code and proves both outcomes
equal, and the replay tool runs them in CPython to find a concrete input on
which a rejected change misbehaves.

A parser is anything with parse_fast_fn(s, pos, ctx) and
parse_fn(s, pos, ctx, ins, rem).
"""
from refrt import (belongs, col_of, insert, item, items_after, kind_of, left_assoc, length,
                   loc_at, mark_of, matches, new_token, operations_after, right_assoc, skip, starts,
                   text_of, with_mark)


class Ok:
    def __init__(self, value, pos, ctx, expected, consumed):
        self.value = value
        self.pos = pos
        self.ctx = ctx
        self.expected = expected
        self.consumed = consumed


class Error:
    def __init__(self, loc, expected, consumed):
        self.loc = loc
        self.expected = expected
        self.consumed = consumed


class Recovered:
    def __init__(self, repairs, min_prio, loc, expected, consumed):
        self.repairs = repairs
        self.min_prio = min_prio
        self.loc = loc
        self.expected = expected
        self.consumed = consumed


class OpItem:
    def __init__(self, op, loc, expected, consumed):
        self.op = op
        self.loc = loc
        self.expected = expected
        self.consumed = consumed


class Repair:
    def __init__(self, cost, prio, ins, ops, value, pos, ctx, expected, consumed):
        self.cost = cost
        self.prio = prio
        self.ins = ins
        self.ops = ops
        self.value = value
        self.pos = pos
        self.ctx = ctx
        self.expected = expected
        self.consumed = consumed


# ------------------------------------------------------------------ helpers
def after_ops(expected, consumed, ops):
    """Operations applied after a part that ended with these expectations."""
    return [
        OpItem(o.op, o.loc, o.expected if o.consumed else [*expected, *o.expected],
               o.consumed or consumed)
        for o in ops
    ]


def after(expected, consumed, r, f):
    """Outcome r of a part that follows another one; f maps its value."""
    exp = r.expected if r.consumed else [*expected, *r.expected]
    if type(r) is Ok:
        return Ok(f(r.value), r.pos, r.ctx, exp, r.consumed or consumed)
    if type(r) is Error:
        return Error(r.loc, exp, r.consumed or consumed)
    return Recovered(
        [
            Repair(x.cost, x.prio, x.ins, after_ops(expected, consumed, x.ops), f(x.value),
                   x.pos, x.ctx, x.expected if x.consumed else [*expected, *x.expected],
                   x.consumed or consumed)
            for x in r.repairs
        ],
        r.min_prio, r.loc, exp, r.consumed or consumed
    )


def resume(a, ins, rest, merge):
    """The rest of a sequence after each repair of its first part."""
    reps = []
    for r in a.repairs:
        b = rest(r.value, r.pos, r.ctx, r.ins)
        if type(b) is Ok:
            reps.append(Repair(
                r.cost, r.prio, r.ins if b.pos == r.pos else ins, r.ops,
                merge(r.value, b.value), b.pos, b.ctx,
                b.expected if b.consumed else [*r.expected, *b.expected],
                r.consumed or b.consumed))
        elif type(b) is Recovered:
            for x in b.repairs:
                reps.append(Repair(
                    r.cost + x.cost, r.prio, x.ins,
                    [*r.ops, *after_ops(r.expected, r.consumed, x.ops)],
                    merge(r.value, x.value), x.pos, x.ctx,
                    x.expected if x.consumed else [*r.expected, *x.expected],
                    r.consumed or x.consumed))
    return Recovered(reps, a.min_prio, a.loc, a.expected, a.consumed)


def relabel_ops(expected, ops):
    return [OpItem(o.op, o.loc, o.expected if o.consumed else expected, o.consumed)
            for o in ops]


def relabel(r, expected):
    """Replaces the expectations of everything that consumed nothing."""
    exp = r.expected if r.consumed else expected
    if type(r) is Ok:
        return Ok(r.value, r.pos, r.ctx, exp, r.consumed)
    if type(r) is Error:
        return Error(r.loc, exp, r.consumed)
    return Recovered(
        [
            Repair(x.cost, x.prio, x.ins, relabel_ops(expected, x.ops), x.value, x.pos, x.ctx,
                   x.expected if x.consumed else expected, x.consumed)
            for x in r.repairs
        ],
        r.min_prio, r.loc, exp, r.consumed
    )


def mapped(r, f):
    if type(r) is Ok:
        return Ok(f(r.value), r.pos, r.ctx, r.expected, r.consumed)
    if type(r) is Error:
        return r
    return Recovered(
        [Repair(x.cost, x.prio, x.ins, x.ops, f(x.value), x.pos, x.ctx, x.expected, x.consumed)
         for x in r.repairs],
        r.min_prio, r.loc, r.expected, r.consumed)


def scoped(r, ctx):
    """The surrounding column mark is in force again."""
    if type(r) is Ok:
        return Ok(r.value, r.pos, with_mark(r.ctx, mark_of(ctx)), r.expected, r.consumed)
    if type(r) is Error:
        return r
    return Recovered(
        [Repair(x.cost, x.prio, x.ins, x.ops, x.value, x.pos, with_mark(x.ctx, mark_of(ctx)),
                x.expected, x.consumed)
         for x in r.repairs],
        r.min_prio, r.loc, r.expected, r.consumed)


# ------------------------------------------------------------------ combinators
def fmap_fast(p, f, s, pos, ctx):
    return mapped(p.parse_fast_fn(s, pos, ctx), f)


def fmap_slow(p, f, s, pos, ctx, ins, rem):
    return mapped(p.parse_fn(s, pos, ctx, ins, rem), f)


def alt_fast(p, q, s, pos, ctx):
    a = p.parse_fast_fn(s, pos, ctx)
    if type(a) is Ok or a.consumed:
        return a
    b = q.parse_fast_fn(s, pos, ctx)
    if b.consumed:
        return b
    exp = [*a.expected, *b.expected]
    if type(b) is Ok:
        return Ok(b.value, b.pos, b.ctx, exp, False)
    return Error(a.loc, exp, False)


def starts_competing(r):
    """Repair of a second alternative that competes with those of the first."""
    return r.prio is not None


def alt_slow(p, q, s, pos, ctx, ins, rem):
    a = p.parse_fn(s, pos, ctx, ins, None)
    if type(a) is Ok or a.consumed:
        return a
    b = q.parse_fn(s, pos, ctx, ins, None)
    if b.consumed:
        return b
    exp = [*a.expected, *b.expected]
    if type(b) is Ok:
        return Ok(b.value, b.pos, b.ctx, exp, False)
    if rem is None:
        return Error(a.loc, exp, False)
    ra = p.parse_fn(s, pos, ctx, ins, rem)
    rb = q.parse_fn(s, pos, ctx, ins, rem)
    if type(ra) is Recovered:
        reps = competing(exp, ra.repairs)
        if type(rb) is not Recovered:
            return headed(ra, reps, exp)
        reps += [x for x in competing(exp, rb.repairs) if starts_competing(x)]
        return headed(rb if rb.consumed and not ra.consumed else ra, reps, exp)
    if type(rb) is Recovered:
        return headed(rb, competing(exp, rb.repairs), exp)
    return Error(a.loc, exp, False)


def competing(exp, reps):
    """Repairs of an alternative list what the whole choice expected."""
    return [
        Repair(x.cost, x.prio, x.ins, relabel_ops(exp, x.ops), x.value, x.pos, x.ctx,
               x.expected if x.consumed else exp, x.consumed)
        for x in reps
    ]


def headed(r, reps, exp):
    return Recovered(reps, None, r.loc, r.expected if r.consumed else exp, r.consumed)


def seq_fast(p, q, merge, s, pos, ctx):
    a = p.parse_fast_fn(s, pos, ctx)
    if type(a) is Error:
        return a
    return after(a.expected, a.consumed, q.parse_fast_fn(s, a.pos, a.ctx),
                 lambda v: merge(a.value, v))


def seq_slow(p, q, merge, s, pos, ctx, ins, rem):
    a = p.parse_fn(s, pos, ctx, ins, rem)
    if type(a) is Error:
        return a
    if type(a) is Recovered:
        return resume(a, ins, lambda v, pos, ctx, rem: q.parse_fn(s, pos, ctx, ins, rem), merge)
    return after(a.expected, a.consumed,
                 q.parse_fn(s, a.pos, a.ctx, ins, ins if a.consumed else rem),
                 lambda v: merge(a.value, v))


def pair(a, b):
    return (a, b)


def left(a, b):
    return a


def right(a, b):
    return b


def snoc(a, b):
    return (*a, b)


def bind_fast(p, f, s, pos, ctx):
    a = p.parse_fast_fn(s, pos, ctx)
    if type(a) is Error:
        return a
    return after(a.expected, a.consumed, f(a.value).parse_fast_fn(s, a.pos, a.ctx), lambda v: v)


def bind_slow(p, f, s, pos, ctx, ins, rem):
    a = p.parse_fn(s, pos, ctx, ins, rem)
    if type(a) is Error:
        return a
    if type(a) is Recovered:
        return resume(a, ins, lambda v, pos, ctx, rem: f(v).parse_fn(s, pos, ctx, ins, rem),
                      lambda a, b: b)
    return after(a.expected, a.consumed,
                 f(a.value).parse_fn(s, a.pos, a.ctx, ins, ins if a.consumed else rem),
                 lambda v: v)


def maybe_fast(p, s, pos, ctx):
    r = p.parse_fast_fn(s, pos, ctx)
    if type(r) is Ok or r.consumed:
        return r
    return Ok(None, pos, ctx, r.expected, False)


def maybe_slow(p, s, pos, ctx, ins, rem):
    r = p.parse_fn(s, pos, ctx, ins, None)
    if type(r) is Ok or r.consumed:
        return r
    return Ok(None, pos, ctx, r.expected, False)


def many_end_fast(p, values, s, pos, ctx):
    """After the values collected so far, p does not go on consuming."""
    r = p.parse_fast_fn(s, pos, ctx)
    if type(r) is Ok:
        raise RuntimeError("parser shouldn't accept empty string")
    if r.consumed:
        return r
    return Ok(values, pos, ctx, r.expected, length(values) > 0)


def many_end_slow(p, again, values, s, pos, ctx, ins):
    r = p.parse_fn(s, pos, ctx, ins, None)
    if type(r) is Ok:
        raise RuntimeError("parser shouldn't accept empty string")
    if type(r) is Recovered:
        return resume(r, ins, lambda v, pos, ctx, rem: again.parse_fn(s, pos, ctx, ins, None),
                      lambda a, b: [*values, a, *b])
    if r.consumed:
        return r
    return Ok(values, pos, ctx, r.expected, length(values) > 0)


def attempt_fast(p, s, pos, ctx):
    r = p.parse_fast_fn(s, pos, ctx)
    if type(r) is Error:
        return Error(r.loc, r.expected, False)
    return r


def attempt_slow(p, s, pos, ctx, ins, rem):
    if rem is None:
        return attempt_fast(p, s, pos, ctx)
    r = p.parse_fn(s, pos, ctx, ins, rem)
    if type(r) is Error:
        return Error(r.loc, r.expected, False)
    return r


def label_fast(p, x, s, pos, ctx):
    return relabel(p.parse_fast_fn(s, pos, ctx), [x])


def label_slow(p, x, s, pos, ctx, ins, rem):
    return relabel(p.parse_fn(s, pos, ctx, ins, rem), [x])


def recover_slow(p, s, pos, ctx, ins, rem):
    r = p.parse_fn(s, pos, ctx, ins, rem)
    if type(r) is Recovered:
        return Recovered(
            [Repair(x.cost, 0, x.ins, x.ops, x.value, x.pos, x.ctx, x.expected, x.consumed)
             for x in r.repairs],
            r.min_prio, r.loc, r.expected, r.consumed)
    return r


def recover_with_slow(p, f, label, s, pos, ctx, ins, rem):
    """f gives the value to insert; label None: its repr"""
    r = p.parse_fn(s, pos, ctx, ins, rem)
    if type(r) is Ok or r.consumed:
        return r
    if rem is None or rem == 0:
        return r
    x = f(s, pos)
    loc = loc_at(ctx, s, pos)
    op = OpItem(insert(text_of(x) if label is None else label), loc, r.expected, False)
    rep = Repair(1, 0, rem - 1, [op], x, pos, ctx, [], True)
    if type(r) is Error:
        return Recovered([rep], None, loc, r.expected, False)
    return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected, False)


def recover_with_value_slow(p, x, label, s, pos, ctx, ins, rem):
    return recover_with_slow(p, lambda s, i: x, label, s, pos, ctx, ins, rem)


def same_fast(p, s, pos, ctx):
    return p.parse_fast_fn(s, pos, ctx)


# ------------------------------------------------------------------ layout
def block_fast(p, s, pos, ctx):
    return scoped(p.parse_fast_fn(s, pos, with_mark(ctx, col_of(loc_at(ctx, s, pos)))), ctx)


def block_slow(p, s, pos, ctx, ins, rem):
    return scoped(p.parse_fn(s, pos, with_mark(ctx, col_of(loc_at(ctx, s, pos))), ins, rem), ctx)


def aligned_fast(p, s, pos, ctx):
    loc = loc_at(ctx, s, pos)
    if col_of(loc) == mark_of(ctx):
        return p.parse_fast_fn(s, pos, ctx)
    return Error(loc, ["indentation"], False)


def aligned_slow(p, s, pos, ctx, ins, rem):
    loc = loc_at(ctx, s, pos)
    if col_of(loc) == mark_of(ctx):
        return p.parse_fn(s, pos, ctx, ins, rem)
    return Error(loc, ["indentation"], False)


def indented_fast(d, p, s, pos, ctx):
    loc = loc_at(ctx, s, pos)
    if col_of(loc) == mark_of(ctx) + d:
        return scoped(p.parse_fast_fn(s, pos, with_mark(ctx, col_of(loc))), ctx)
    return Error(loc, ["indentation"], False)


def indented_slow(d, p, s, pos, ctx, ins, rem):
    loc = loc_at(ctx, s, pos)
    if col_of(loc) == mark_of(ctx) + d:
        return scoped(p.parse_fn(s, pos, with_mark(ctx, col_of(loc)), ins, rem), ctx)
    return Error(loc, ["indentation"], False)


# ------------------------------------------------------------------ primitives
def pure_fast(x, s, pos, ctx):
    return Ok(x, pos, ctx, [], False)


def pure_fn_fast(f, s, pos, ctx):
    return Ok(f(), pos, ctx, [], False)


def unexpected_fast(x, s, pos, ctx):
    return Error(loc_at(ctx, s, pos), [x], False)


def eof_fast(s, pos, ctx):
    if pos == length(s):
        return Ok(None, pos, ctx, [], False)
    return Error(loc_at(ctx, s, pos), ["end of file"], False)


def eof_slow(s, pos, ctx, ins, rem):
    r = eof_fast(s, pos, ctx)
    if type(r) is Ok or rem is None:
        return r
    n = length(s) - pos
    op = OpItem(skip(n), r.loc, ["end of file"], False)
    return Recovered([Repair(n, 0, ins, [op], None, length(s), ctx, [], False)],
                     None, r.loc, ["end of file"], False)


def satisfy_fast(test, s, pos, ctx):
    if pos < length(s) and test(item(s, pos)):
        return Ok(item(s, pos), pos + 1, ctx, [], True)
    return Error(loc_at(ctx, s, pos), [], False)


def sym_fast(x, label, s, pos, ctx):
    if pos < length(s) and item(s, pos) == x:
        return Ok(item(s, pos), pos + 1, ctx, [], True)
    return Error(loc_at(ctx, s, pos), [text_of(x) if label is None else label], False)


def literal_fast(x, s, pos, ctx):
    if starts(s, x, pos):
        return Ok(x, pos + length(x), ctx, [], True)
    return Error(loc_at(ctx, s, pos), [text_of(x)], False)


def regexp_fast(pat, group, s, pos, ctx):
    ok, value, end = matches(pat, group, s, pos)
    if ok:
        return Ok(value, end, ctx, [], end != pos)
    return Error(loc_at(ctx, s, pos), [], False)


def resync(r, value, label, found, end, s, pos, ctx, ins, rem):
    """r failed at pos.  value/label: what may be inserted (label None: nothing);
    found: nearest later position at which the parser accepts, or None;
    end: (value, end position) of the acceptance there"""
    if type(r) is Ok or rem is None:
        return r
    reps = []
    if label is not None and rem > 0:
        reps.append(Repair(1, None, rem - 1, [OpItem(insert(label), r.loc, r.expected, False)],
                           value, pos, ctx, [], True))
    if found is None:
        if label is None:
            return Error(r.loc, r.expected, False)
        return Recovered(reps, None, r.loc, r.expected, False)
    v, e = end(found)
    reps.append(Repair(found - pos, 0, ins,
                       [OpItem(skip(found - pos), r.loc, r.expected, False)],
                       v, e, ctx, [], True))
    return Recovered(reps, found - pos, r.loc, r.expected, False)


def satisfy_slow(test, found, s, pos, ctx, ins, rem):
    return resync(satisfy_fast(test, s, pos, ctx), None, None, found,
                  lambda c: (item(s, c), c + 1), s, pos, ctx, ins, rem)


def sym_slow(x, label, found, s, pos, ctx, ins, rem):
    return resync(sym_fast(x, label, s, pos, ctx), x, text_of(x) if label is None else label,
                  found, lambda c: (item(s, c), c + 1), s, pos, ctx, ins, rem)


def literal_slow(x, found, s, pos, ctx, ins, rem):
    return resync(literal_fast(x, s, pos, ctx), x, text_of(x), found,
                  lambda c: (x, c + length(x)), s, pos, ctx, ins, rem)


def regexp_slow(pat, group, found, s, pos, ctx, ins, rem):
    return resync(regexp_fast(pat, group, s, pos, ctx), None, None, found,
                  lambda c: matches(pat, group, s, c)[1:], s, pos, ctx, ins, rem)


def same_slow(p, s, pos, ctx, ins, rem):
    return p.parse_fn(s, pos, ctx, ins, rem)


# ------------------------------------------------------------------ tuples
def apply_fast(p, f, s, pos, ctx):
    return mapped(p.parse_fast_fn(s, pos, ctx), lambda t: f(*t))


def apply_slow(p, f, s, pos, ctx, ins, rem):
    return mapped(p.parse_fn(s, pos, ctx, ins, rem), lambda t: f(*t))


# ------------------------------------------------------------------ composites
def between_fast(p, q, body, s, pos, ctx):
    a = p.parse_fast_fn(s, pos, ctx)
    if type(a) is Error:
        return a
    v = body.parse_fast_fn(s, a.pos, a.ctx)
    if type(v) is Error:
        return after(a.expected, a.consumed, v, lambda x: x)
    b = q.parse_fast_fn(s, v.pos, v.ctx)
    return after(a.expected, a.consumed,
                 after(v.expected, v.consumed, b, lambda x: v.value), lambda x: x)


class Seq:
    def __init__(self, p, q, merge):
        self.p = p
        self.q = q
        self.merge = merge

    def parse_fast_fn(self, s, pos, ctx):
        return seq_fast(self.p, self.q, self.merge, s, pos, ctx)


def sep_by_fast(p, sep, s, pos, ctx):
    a = p.parse_fast_fn(s, pos, ctx)
    if type(a) is Error:
        if a.consumed:
            return a
        return Ok([], pos, ctx, a.expected, False)
    values, at, c = items_after(s, a.pos, a.ctx)
    r = after(a.expected, a.consumed,
              many_end_fast(Seq(sep, p, right), values, s, at, c),
              lambda v: [a.value, *v])
    return r


def chainl1_fast(p, op, s, pos, ctx):
    a = p.parse_fast_fn(s, pos, ctx)
    if type(a) is Error:
        return a
    values, at, c = operations_after(s, a.pos, a.ctx)
    return after(a.expected, a.consumed,
                 many_end_fast(Seq(op, p, pair), values, s, at, c),
                 lambda v: left_assoc(a.value, v))


def chainr1_fast(p, op, s, pos, ctx):
    a = p.parse_fast_fn(s, pos, ctx)
    if type(a) is Error:
        return a
    values, at, c = operations_after(s, a.pos, a.ctx)
    return after(a.expected, a.consumed,
                 many_end_fast(Seq(op, p, pair), values, s, at, c),
                 lambda v: right_assoc(a.value, v))


# ------------------------------------------------------------------ letter, digit
def class_fast(cls, name, s, pos, ctx):
    if pos < length(s) and belongs(item(s, pos), cls):
        return Ok(item(s, pos), pos + 1, ctx, [], True)
    return Error(loc_at(ctx, s, pos), [name], False)


def class_slow(cls, name, found, s, pos, ctx, ins, rem):
    return resync(class_fast(cls, name, s, pos, ctx), None, None, found,
                  lambda c: (item(s, c), c + 1), s, pos, ctx, ins, rem)


# ------------------------------------------------------------------ tokens
def token_fast(kind, s, pos, ctx):
    if pos < length(s) and kind_of(item(s, pos)) == kind:
        return Ok(item(s, pos), pos + 1, ctx, [], True)
    return Error(loc_at(ctx, s, pos), [kind], False)


def token_slow(kind, found, s, pos, ctx, ins, rem):
    return resync(token_fast(kind, s, pos, ctx), None, None, found,
                  lambda c: (item(s, c), c + 1), s, pos, ctx, ins, rem)


def token_ins_slow(kind, value, found, s, pos, ctx, ins, rem):
    r = token_slow(kind, found, s, pos, ctx, ins, rem)
    if type(r) is Ok or rem is None or rem == 0:
        return r
    loc = loc_at(ctx, s, pos)
    op = OpItem(insert(kind), loc, [kind], False)
    rep = Repair(1, 0, rem - 1, [op], new_token(kind, value, s, pos), pos, ctx, [], True)
    if type(r) is Error:
        return Recovered([rep], None, loc, [kind], False)
    return Recovered([rep, *r.repairs], r.min_prio, loc, [kind], False)
