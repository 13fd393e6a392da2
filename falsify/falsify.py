"""Looks for a concrete input on which the library breaks a property.

Run only after the verifier has rejected an obligation, to turn the rejection
into a failing input where one can be found; it never decides anything itself.

    falsify.py PROPERTY [--seed N] [--seconds S] [--repo DIR]   search
    falsify.py --replay FILE                                    replay a case
"""
import argparse
import json
import os
import random
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


def limited(f, seconds=4.0):
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


# ---------------------------------------------------------------- library side
def lib_names():
    import reparsec
    from reparsec import layout, lexer, parser, primitive, scannerless, sequence

    def late(mk):
        d = reparsec.Delay()
        p = mk(d)
        d.define(p)
        return d
    ns = {"late": late, "token": lexer.token, "token_ins": lexer.token_ins,
          "letter": sequence.letter, "digit": sequence.digit,
          "literal": scannerless.literal, "regexp": scannerless.regexp}
    for m in (sequence, primitive, layout, parser):
        for n in m.__dict__:
            if not n.startswith("_") and callable(getattr(m, n)):
                ns.setdefault(n, getattr(m, n))
    return ns


def canon(v):
    import reparsec
    from reparsec.lexer import Token
    if isinstance(v, Token):
        return ("Token", v.kind, v.value, tuple(v.start), tuple(v.end))
    if isinstance(v, tuple):
        return ("t",) + tuple(canon(x) for x in v)
    if isinstance(v, list):
        return ("l",) + tuple(canon(x) for x in v)
    if callable(v):
        return "fn"
    if isinstance(v, (int, float)):
        return ("n", type(v).__name__, v)
    return v


def canon_op(op):
    import reparsec
    if op is None:
        return None
    if type(op) is reparsec.Skip:
        return ("skip", op.count)
    return ("insert", op.label)


def attempt(f):
    """Outcome of a call of the library."""
    import reparsec
    try:
        return ("value", canon(f()))
    except reparsec.ParseError as e:
        items = []
        for x in e.errors:
            items.append((tuple(x.loc), x.loc_str, list(x.expected), canon_op(x.op)))
        return ("errors", items)
    except RecursionError:
        raise
    except Exception as e:
        return ("raises", type(e).__name__)


def run_lib(p, s, how, recover, n):
    from reparsec import lexer, scannerless
    if how in ("plain", "objs"):
        return p.parse(s, recover, max_insertions=n)
    if n == 5:
        return (scannerless.parse if how == "text" else lexer.parse)(p, s, recover)
    import refapi
    from reparsec import Loc
    gl = refapi.GL[how]
    return p.parse(s, recover, max_insertions=n,
                   get_loc=lambda _, st, i: Loc(*gl(st, i)),
                   fmt_loc=lambda l: "{}:{}".format(l.line + 1, l.col + 1))


def lib_outcomes(p, s, how, recover, n):
    try:
        r = run_lib(p, s, how, recover, n)
    except RecursionError:
        raise
    except Exception as e:
        return (("raises", type(e).__name__),) * 2
    return attempt(lambda: r.unwrap()), attempt(lambda: r.unwrap(recover=True))


# elements that are equal without being identical, and falsy ones
OBJS = {"a": [1, 1.0, True], "b": [None], "c": ["", 0, [], (1, 2)]}


def make_stream(how, xs):
    if how == "objs":
        return [OBJS[k][(i + len(xs)) % len(OBJS[k])] for i, k in enumerate(xs)]
    if how != "tokens":
        return "".join(xs)
    from reparsec import Loc
    from reparsec.lexer import Token
    # one blank between tokens, "c" tokens follow a line break
    out, line, col, pos = [], 0, len(xs) % 3, len(xs) % 3
    for i, k in enumerate(xs):
        if k == "c" or i % 4 == 3:
            line, col, pos = line + 1, i % 3, pos + 1 + i % 3
        elif i:
            col, pos = col + 1, pos + 1
        a = Loc(pos, line, col)
        col, pos = col + 1, pos + 1
        out.append(Token(k, k, a, Loc(pos, line, col)))
    return out


# ---------------------------------------------------------------- case checks
class Found(Exception):
    def __init__(self, what, expected, got):
        self.what, self.expected, self.got = what, expected, got


class Case:
    def __init__(self, how, text, xs, n):
        self.how, self.text, self.xs, self.n = how, text, xs, n
        self.s = make_stream(how, xs)

    def lib(self):
        return eval(self.text, dict(LIB))

    def ref(self):
        return eval(self.text, dict(REF))


def ref_outs(c, p, recover):
    import refapi
    a, b = refapi.outcomes(p, c.s, c.how, recover, c.n)
    f = lambda o: (o[0], canon(o[1])) if o[0] == "value" else o
    return f(a), f(b)


def diff(c, recover):
    want = ref_outs(c, c.ref(), recover)
    got = limited(lambda: lib_outcomes(c.lib(), c.s, c.how, recover, c.n))
    for name, w, g in zip(("unwrap()", "unwrap(recover=True)"), want, got):
        if w != g:
            raise Found("%s%s" % (name, " with recovery" if recover else ""), w, g)
    return want


def ck_diff(modes):
    def ck(c):
        for m in modes:
            diff(c, m)
    return ck


def precheck(c):
    """bounds the cost of the case with the reference"""
    ref_outs(c, c.ref(), False)
    ref_outs(c, c.ref(), True)


def both(c):
    p = c.lib()
    return (limited(lambda: lib_outcomes(p, c.s, c.how, False, c.n)),
            limited(lambda: lib_outcomes(p, c.s, c.how, True, c.n)))


def ck_c01(c):
    a, b = both(c)
    if a[0][0] == "value" and (b[0] != a[0] or b[1] != a[0]):
        raise Found("accepted without recovery, with recovery the outcome differs", a[0], b)


def ck_c02(c):
    a, b = both(c)
    if a[0][0] == "errors" and b[0][0] != "raises":
        if b[0][0] != "errors" or not b[0][1]:
            raise Found("rejected without recovery, with recovery unwrap()", "ParseError", b[0])
        if b[1][0] == "value":
            if any(x[3] is None for x in b[0][1]):
                raise Found("an error item of a repaired parse names no operation", "", b[0])
        elif b[1][0] != "errors" or len(b[0][1]) != len(b[1][1]):
            raise Found("unwrap(recover=True)", "ParseError", b[1])


def ck_c03(c):
    if "attempt" in c.text:
        return
    a, b = both(c)
    if a[0][0] == "errors" and b[0][0] == "errors":
        x, y = a[0][1][0], b[0][1][0]
        if x[0] != y[0] or x[1] != y[1] or x[2] != y[2]:
            raise Found("first error with recovery", x[:3], y[:3])


def ck_c09(c):
    want = ref_outs(c, c.ref(), False), ref_outs(c, c.ref(), True)
    p = c.lib()
    for rec in (False, True):
        try:
            got = limited(lambda: lib_outcomes(p, c.s, c.how, rec, c.n))
        except Hang:
            raise Found("parsing%s" % (" with recovery" if rec else ""), want[rec],
                        "no answer within 4 s")
        if want[rec][0][0] == "raises" or got[0][0] == "raises":
            if got[0] != want[rec][0]:
                raise Found("parsing%s" % (" with recovery" if rec else ""), want[rec], got)
        if got[0][0] == "errors":
            for it in got[0][1]:
                if it[3] is not None and it[3][0] == "skip" and (
                        it[3][1] < 0 or it[3][1] > len(c.xs)):
                    raise Found("a repair leaves the input", "", it)
    diff(c, False)
    diff(c, True)


def ck_c10(c):
    if c.how != "plain":
        c = Case("plain", c.text, c.xs, c.n) if c.how == "text" else c
    b = limited(lambda: lib_outcomes(c.lib(), c.s, c.how, True, c.n))
    if b[0][0] == "errors" and b[1][0] == "value":
        cnt = {}
        for it in b[0][1]:
            if it[3] is not None and it[3][0] == "insert":
                cnt[it[0]] = cnt.get(it[0], 0) + 1
        if any(v > c.n for v in cnt.values()):
            raise Found("insertions at one position (max_insertions=%d)" % c.n, c.n, b[0])
    if c.how != "tokens":
        for rep in all_reports(c):
            cnt = {}
            for it in rep:
                if it[3] is not None and it[3][0] == "insert":
                    cnt[it[0]] = cnt.get(it[0], 0) + 1
            if any(v > c.n for v in cnt.values()):
                raise Found("insertions at one position (max_insertions=%d)" % c.n, c.n, rep)


def all_reports(c):
    """No further reports are visible through the public interface."""
    return []


def ck_c11(c):
    want = ref_outs(c, c.ref(), True)
    got = limited(lambda: lib_outcomes(c.lib(), c.s, c.how, True, c.n))
    cost = lambda o: sum(x[3][1] if x[3][0] == "skip" else 1 for x in o[1])
    if got[0][0] == "errors" and got[1][0] == "value":
        if any(x[3] is None for x in got[0][1]):
            raise Found("report of a repaired parse", want, got)
        if want[1][0] == "value" and cost(want[0]) != cost(got[0]):
            raise Found("cost of the chosen repair", want, got)
    for w, g in zip(want, got):
        if w != g:
            raise Found("chosen repair and report", want, got)


def ck_locs(c):
    import refapi
    for rec in (False, True):
        got = limited(lambda: lib_outcomes(c.lib(), c.s, c.how, rec, c.n))
        if got[0][0] == "errors":
            for it in got[0][1]:
                if c.how == "text":
                    ok = 0 <= it[0][0] <= len(c.s) and it[0] == refapi.text_loc(c.s, it[0][0])
                else:
                    ok = it[0] in [refapi.token_loc(c.s, i) for i in range(len(c.s) + 1)]
                if not ok or it[1] != "%d:%d" % (it[0][1] + 1, it[0][2] + 1):
                    raise Found("location of an error item", "the location of a position", it)
        diff(c, rec)


def ck_c16(c):
    diff(c, False)
    diff(c, True)
    delay_cases()


def delay_cases():
    import reparsec
    from reparsec.sequence import sym
    d = reparsec.Delay()
    q = d + sym("x")
    for rec in (False, True):
        for p in (d, q, sym("x") | d):
            try:
                p.parse("a", rec)
                raise Found("parsing with an undefined Delay", "RuntimeError", "no exception")
            except RuntimeError:
                pass
    d.define(sym("a"))
    try:
        d.define(sym("b"))
        raise Found("second define", "RuntimeError", "no exception")
    except RuntimeError:
        pass
    for again in (d, q, reparsec.Delay()):
        try:
            d.define(again)
            raise Found("another define", "RuntimeError", "no exception")
        except RuntimeError:
            pass
    e, f = reparsec.Delay(), reparsec.Delay()
    e.define(f)
    f.define(sym("a"))
    if attempt(lambda: e.parse("a").unwrap()) != ("value", "a"):
        raise Found("Delay defined as another Delay", "a", attempt(lambda: e.parse("a").unwrap()))
    for rec in (False, True):
        for p, s, v in ((d, "a", "a"), (q, "ax", ("a", "x"))):
            if attempt(lambda: p.parse(s, rec).unwrap()) != ("value", canon(v)):
                raise Found("Delay after define", v, attempt(lambda: p.parse(s, rec).unwrap()))


def ck_c17(c):
    import copy
    p = c.lib()
    before = copy.copy(c.s) if isinstance(c.s, list) else c.s
    fresh = {m: limited(lambda: lib_outcomes(c.lib(), c.s, c.how, m, c.n))
             for m in (False, True)}
    held = []
    order = [False, True, True, False]
    random.Random(len(c.text)).shuffle(order)
    for m in order * 2:
        r = limited(lambda: attempt_obj(lambda: run_lib(p, c.s, c.how, m, c.n)))
        held.append((m, r))
        other = make_stream(c.how, c.xs[::-1] + c.xs[:1])
        limited(lambda: attempt_obj(lambda: run_lib(p, other, c.how, m, c.n).unwrap()))
        spoil(r)
        if "[" not in c.text.replace("[v]", ""):
            for kw in ({}, {"recover": True}):
                r = limited(lambda: attempt_obj(
                    lambda: run_lib(p, c.s, c.how, m, c.n).unwrap(**kw)))
                spoil_value(r)
    for m, r in held:
        if isinstance(r, tuple):
            if r != fresh[m][0]:
                raise Found("repeated parse", fresh[m][0], r)
            continue
        def go():
            return attempt(lambda: r.unwrap()), attempt(lambda: r.unwrap(recover=True))
        mapped = attempt_obj(lambda: r.fmap(lambda v: ("mapped", v)))
        for k in range(2):
            a = go()
            if a != fresh[m]:
                raise Found("the same parse again%s" % (" with recovery" if m else ""),
                            fresh[m], a)
            r, mapped = mapped, r
            go()
            r, mapped = mapped, r
    if c.s != before:
        raise Found("input changed", before, c.s)
    for m in (False, True):
        diff(c, m)


def attempt_obj(f):
    try:
        return f()
    except RecursionError:
        raise
    except Exception as e:
        return ("raises", type(e).__name__)


def spoil_value(v):
    """A user changes the lists in a value that was returned."""
    if isinstance(v, (list, tuple)):
        for x in v:
            spoil_value(x)
    if isinstance(v, list):
        v.append("spoiled")


def spoil(r):
    """A user changes the lists of an error that was raised."""
    import reparsec
    if isinstance(r, tuple):
        return
    try:
        r.unwrap()
    except reparsec.ParseError as e:
        for x in e.errors:
            x.expected.append("spoiled")
            x.op = None
        e.errors.append("spoiled")
    except Exception:
        pass


def ck_c18(c):
    want = ref_outs(c, c.ref(), False), ref_outs(c, c.ref(), True)
    p = c.lib()
    for rec in (False, True):
        got = limited(lambda: lib_outcomes(p, c.s, c.how, rec, c.n))
        if any(g[0] == "raises" and w[0] != "raises" for g, w in zip(got, want[rec])):
            raise Found("exception", want[rec], got)
        if any(g[0] == "raises" and g[1] != "RuntimeError" for g in got):
            raise Found("exception", want[rec], got)
        render(c, p, rec)
    delay_cases()


def render(c, p, rec):
    import reparsec
    r = attempt_obj(lambda: limited(lambda: run_lib(p, c.s, c.how, rec, c.n)))
    if isinstance(r, tuple):
        return
    for kw in ({}, {"recover": True}):
        try:
            r.unwrap(**kw)
        except reparsec.ParseError as e:
            want = [message(x) for x in e.errors]
            try:
                msgs = [x.msg for x in e.errors]
                got = str(e)
            except Exception as ex:
                raise Found("rendering the error", want, type(ex).__name__)
            if msgs != want or got != ", ".join(want):
                raise Found("error message", want, (msgs, got))


def ck_c22(c):
    messages()
    p = c.lib()
    f = lambda v: ("mapped", v)
    for rec in (False, True):
        render(c, p, rec)
        r = attempt_obj(lambda: limited(lambda: run_lib(p, c.s, c.how, rec, c.n)))
        if isinstance(r, tuple):
            continue
        before = [attempt(lambda: r.unwrap(**kw)) for kw in ({}, {"recover": True})]
        q = attempt_obj(lambda: r.fmap(f))
        if isinstance(q, tuple):
            raise Found("ParseResult.fmap", "a ParseResult", q)
        for kw, a0 in zip(({}, {"recover": True}), before):
            a = attempt(lambda: r.unwrap(**kw))
            if a != a0:
                raise Found("unwrap after fmap", a0, a)
            b = attempt(lambda: q.unwrap(**kw))
            w = ("value", ("t", "mapped", a[1])) if a[0] == "value" else a
            if b != w:
                raise Found("unwrap of a mapped result", w, b)
        diff(c, rec)


def ck_c23(c):
    """equality, hashes and immutability of tokens, locations, operations and error items"""
    from reparsec import ErrorItem, Insert, Loc, Skip
    from reparsec.lexer import Token
    locs = [(0, 0, 0), (1, 0, 1), (1, 1, 0), (0, 1, 0), (2, 0, 1)]
    toks = [((k, v), ("Token", k, v, a, b)) for k in ("a", "b", "") for v in ("a", "b")
            for a in locs[:3] for b in (locs[0], locs[3])]
    things = toks + [(l, ("Loc",) + l) for l in locs] + \
        [(n, ("Skip", n)) for n in (0, 1, 2, -1)] + [(x, ("Insert", x)) for x in ("", "a", "b")]
    for l in locs[:2]:
        for t in ("1:1", "x"):
            for ex in ([], ["a"], ["a", "b"], ["b", "a"]):
                for op in (None, ("Skip", 1), ("Skip", 2), ("Insert", "a")):
                    things.append(((l, t, ex, op), ("ErrorItem", l, t, ex, op)))

    def make(x):
        k = x[0]
        if k == "Loc":
            return Loc(*x[1:])
        if k == "Token":
            return Token(x[1], x[2], make(("Loc",) + x[3]), make(("Loc",) + x[4]))
        if k == "Skip":
            return Skip(x[1])
        if k == "Insert":
            return Insert(x[1])
        return ErrorItem(make(("Loc",) + x[1]), x[2], list(x[3]), x[4] and make(x[4]))

    def ask(what, want, f):
        got = attempt_obj(f)
        if got is not want:
            raise Found(what, want, got)
    for k in ("Token", "Loc", "Skip", "Insert", "ErrorItem"):
        mine = [(w, x) for w, x in things if x[0] == k]
        for i, (w1, x1) in enumerate(mine):
            a = attempt_obj(lambda: make(x1))
            if isinstance(a, tuple) and k != "Loc":
                raise Found("%s(...)" % k, "an object", a)
            for w2, x2 in mine[i:]:
                b = make(x2)
                same = w1 == w2
                ask("%r == %r" % (x1, x2), same, lambda: a == b)
                ask("%r != %r" % (x1, x2), not same, lambda: a != b)
                if same and k in ("Token", "Loc"):
                    ask("equal hashes of %r and %r" % (x1, x2), True,
                        lambda: hash(a) == hash(b))
            if k != "Loc":
                for other in (None, 1, "a", w1, make(("Skip" if k != "Skip" else "Insert", "a"))):
                    ask("%r == %r" % (x1, other), False, lambda: a == other)
            if k in ("Token", "Loc"):
                def change(n):
                    try:
                        setattr(a, n, getattr(a, n))
                    except AttributeError:
                        return True
                    return False
                for n in (("kind", "value", "start", "end") if k == "Token" else
                          ("pos", "line", "col")):
                    ask("assignment to %s of %r refused" % (n, x1), True, lambda: change(n))
    d = attempt_obj(lambda: Token("k", "v") == make(("Token", "k", "v", (1, 2, 3), (4, 5, 6))))
    if d is not True:
        raise Found("Token('k', 'v') == Token('k', 'v', Loc(1, 2, 3), Loc(4, 5, 6))", True, d)
    import copy
    import pickle
    from reparsec import ParseError
    from reparsec.lexer import LexError
    for l in locs[:2]:
        item = make(("ErrorItem", l, "1:1", ["a"], ("Insert", "a")))
        for e, n in ((LexError(make(("Loc",) + l)), "loc"), (ParseError([item]), "errors"),
                     (ParseError([]), "errors")):
            for how, f in (("copy", copy.copy),
                           ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
                ask("%s of %r has the same content" % (how, e), True, lambda: getattr(
                    f(e), n) == getattr(e, n) and str(f(e)) == str(e))
    e = attempt_obj(lambda: ErrorItem(make(("Loc", 0, 0, 0)), "", []).op is None)
    if e is not True:
        raise Found("ErrorItem(loc, text, expected).op is None", True, e)


def message(x):
    ex = list(x.expected)
    m = "at %s: " % x.loc_str
    if not ex:
        m += "unexpected input"
    else:
        m += "expected " + (ex[0] if len(ex) == 1 else ", ".join(ex[:-1]) + " or " + ex[-1])
    op = canon_op(x.op)
    if op is not None:
        if op[0] == "skip":
            m += " (skipped %d %s)" % (op[1], "token" if op[1] == 1 else "tokens")
        else:
            m += " (inserted %s)" % op[1]
    return m


def messages():
    """messages of error items made by the user"""
    from reparsec import ErrorItem, Insert, Loc, ParseError, Skip
    items = [ErrorItem(Loc(i + 3, i, i + 1), ls, list(ex), op)
             for i, ls in enumerate(["1:2", "", "%s", "{}"])
             for ex in ([], ["x"], ["x", "x"], ["", "y", "a or b"], ["b", "a", "c", "b"])
             for op in (None, Skip(0), Skip(1), Skip(2), Skip(11), Insert("w"), Insert(""))]
    for x in items:
        got = attempt_obj(lambda: x.msg)
        if got != message(x):
            raise Found("message of %r" % (x,), message(x), got)
    for es in ([], items[:1], items[5:8], items[-2:], [items[9]] * 2):
        want = ", ".join(message(x) for x in es)
        got = attempt_obj(lambda: str(ParseError(es)))
        if got != want:
            raise Found("message of ParseError(%r)" % (es,), want, got)


# ---------------------------------------------------------------- lexer
def ref_lex(src, spec):
    import refapi
    out, pos = [], 0
    while pos < len(src):
        m = spec.match(src, pos)
        if m is None or m.end() == pos:
            return out, refapi.text_loc(src, pos)
        if m.lastgroup is not None:
            out.append((m.lastgroup, m.group(m.lastgroup), refapi.text_loc(src, pos),
                        refapi.text_loc(src, m.end())))
        pos = m.end()
    return out, None


LEX = [r"(?P<num>[0-9]+)|(?P<nl>\n)|[ \t]+", r"(?P<a>a+)|(?P<b>b)|\s+", r"(?P<x>a|b)\n?|\n ",
       r"(?P<a>a)(?P<b>b)?|(?P<w>\s*)", r"(?P<m>a\nb)|(?P<n>\n)|(?P<a>a)|b| ", r"a|(?P<k>b*)",
       r"(?P<s>'[^']*')|(?P<a>a)|\s|b", r"(?P<l>(?<=a)b)|(?P<a>a)|(?P<g>^b)|\n",
       r"(?P<open>\()(a)|(?P<c>[ab])|\n+", r"(?P<e>a*)b|(?P<o>a+)|\s(?P<z>)|\n"]


def lexer_search(rng, until):
    import re
    from reparsec.lexer import LexError, split_tokens
    n = 0
    while time.time() < until:
        pat = rng.choice(LEX)
        src = "".join(rng.choice("aabb  \n\n'1(\r\t") for _ in range(rng.randrange(9)))
        lexer_case(pat, src)
        n += 1
    return n


def lexer_case(pat, src):
    import re
    from reparsec.lexer import LexError, split_tokens
    spec = re.compile(pat)
    want = ref_lex(src, spec)

    def go():
        try:
            ts = split_tokens(src, spec)
        except LexError as e:
            return ([], tuple(e.loc), str(e))
        return [(t.kind, t.value, tuple(t.start), tuple(t.end)) for t in ts], None, None
    try:
        got = limited(go)
    except Hang:
        raise LexFound(pat, src, want, "no answer within 4 s")
    except Exception as e:
        raise LexFound(pat, src, want, type(e).__name__)
    if want[1] is not None:
        msg = "Lexing error at %d:%d" % (want[1][1] + 1, want[1][2] + 1)
        if got[1] != want[1] or got[2] != msg:
            raise LexFound(pat, src, want, got)
    elif (got[0], got[1]) != want:
        raise LexFound(pat, src, want, got)


class LexFound(Exception):
    def __init__(self, pat, src, want, got):
        self.pat, self.src, self.want, self.got = pat, src, want, got


# ---------------------------------------------------------------- properties
S, SR = ck_diff([False]), ck_diff([False, True])
R_ = ck_diff([True])
ANY = ("plain", "plain", "text", "text", "tokens", "tokens", "objs")
PROPS = {
    "C01": (ck_c01, ANY, ()),
    "C02": (ck_c02, ANY, ("recw",)),
    "C03": (ck_c03, ANY, ("recw", "label", "alt")),
    "C04": (S, ANY, ("alt",)),
    "C05": (S, ANY, ("seq", "bind", "then", "between", "layout")),
    "C06": (S, ANY, ("many", "sep_by", "chain")),
    "C07": (SR, ANY, ("maybe", "attempt", "label", "recw")),
    "C08": (S, ANY, ("label", "alt", "maybe")),
    "C09": (ck_c09, ANY, ("many", "maybe")),
    "C10": (ck_c10, ("plain", "text", "objs"), ("recw", "seq", "many", "run")),
    "C11": (ck_c11, ANY, ("recw",)),
    "C12": (ck_locs, ("text",), ("layout", "many")),
    "C13": (None, (), ()),
    "C14": (ck_locs, ("tokens",), ("layout",)),
    "C15": (SR, ("text", "tokens"), ("layout", "many")),
    "C16": (ck_c16, ANY, ("late",)),
    "C17": (ck_c17, ANY, ("label", "alt", "recw", "many", "layout")),
    "C18": (ck_c18, ANY, ("late", "many", "recw")),
    "C19": (R_, ANY, ("seq", "bind", "many", "then")),
    "C20": (R_, ANY, ("alt", "recover", "recw", "maybe", "recwf")),
    "C21": (SR, ANY, ()),
    "C22": (ck_c22, ANY, ("recw",)),
    "C23": (ck_c23, ("text",), ()),
}


def has(how, name):
    return True


def search(prop, seed, seconds):
    import gen
    import refapi
    ck, hows, focus = PROPS[prop]
    rng = random.Random(seed * 1000003 + int(prop[1:]))
    start = time.time()
    until = start + seconds
    stats = {"cases": 0, "skipped": 0}
    if prop in ("C13", "C18"):
        t = until if ck is None else start + seconds / 4
        try:
            stats["lexed"] = lexer_search(rng, t)
        except LexFound as e:
            return dict(found=True, kind="lexer", pattern=e.pat, source=e.src,
                        expected=repr(e.want), got=repr(e.got)), stats
    if ck is None:
        return None, stats
    depth = 1
    while time.time() < until:
        how = rng.choice(hows)
        g = gen.Gen(rng, how, focus)
        depth = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])
        try:
            text, smp = g.expr(depth)
        except RecursionError:
            continue
        if len(text) > 700:
            continue
        if prop in ("C16",) and "late" not in text:
            continue
        for _ in range(6):
            xs = g.input(smp)
            n = rng.choice([5, 5, 0, 1, 2, 3, 5, 4, 6, 8])
            c = Case(how, text, xs, n)
            r = one(prop, c, stats)
            if r is not None:
                return shrink(prop, c, r), stats
    return None, stats


def one(prop, c, stats):
    ck = PROPS[prop][0]
    import refapi
    try:
        precheck(c)
    except (refapi.TooLong, RecursionError):
        stats["skipped"] += 1
        return None
    stats["cases"] += 1
    try:
        ck(c)
    except Found as e:
        return e
    except refapi.TooLong:
        return None
    except RecursionError:
        return None
    except Hang:
        try:
            precheck(c)
        except Exception:
            return None
        return Found("parsing", "an answer", "no answer within 4 s")
    except SyntaxError:
        raise
    return None


def shrink(prop, c, e):
    st = {"cases": 0, "skipped": 0}
    again = True
    t0 = time.time()
    while again and time.time() - t0 < 10:
        again = False
        for i in range(len(c.xs)):
            d = Case(c.how, c.text, c.xs[:i] + c.xs[i + 1:], c.n)
            r = one(prop, d, st)
            if r is not None:
                c, e, again = d, r, True
                break
    return dict(found=True, kind="parse", property=prop, parser=c.text, stream=c.how,
                input=c.xs, max_insertions=c.n, what=e.what, expected=repr(e.expected),
                got=repr(e.got))


def main():
    global LIB, REF
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=40)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(a.repo, "src"))
    sys.setrecursionlimit(3000)
    signal.signal(signal.SIGALRM, on_alarm)
    try:
        import refapi
        LIB = lib_names()
    except Exception as e:
        print(json.dumps(dict(found=True, kind="import", what="the library cannot be used",
                              got="%s: %s" % (type(e).__name__, e))))
        return 1
    REF = {n: getattr(refapi, n) for n in refapi.__dict__ if not n.startswith("_")}
    if a.replay:
        d = json.load(open(a.replay))
        d = d.get("input", d)
        try:
            if d["kind"] == "lexer":
                lexer_case(d["pattern"], d["source"])
            elif d["kind"] == "parse":
                PROPS[d["property"]][0](Case(d["stream"], d["parser"], d["input"],
                                             d["max_insertions"]))
        except Found as e:
            print("%s\n  expected %r\n  got      %r" % (e.what, e.expected, e.got))
            return 1
        except LexFound as e:
            print("split_tokens\n  expected %r\n  got      %r" % (e.want, e.got))
            return 1
        print("holds")
        return 0
    r, stats = search(a.prop, a.seed, a.seconds)
    print(json.dumps(dict(r or {"found": False}, stats=stats)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
