bug("B01", "C01", [("core/scannerless.py", """                return Ok(v, end, ctx.update_loc(stream, end), (), end != pos)
        if rem is None:""", """                return Ok(v, end, ctx.update_loc(stream, end), (), True)
        if rem is None:""")], '''
from reparsec.scannerless import regexp, literal
p = (regexp("a*") + literal("b")) | literal("c")
assert p.parse("c").unwrap() == "c"
assert p.parse("c", recover=True).unwrap() == "c"
''', "recovery enabled; a regexp matching the empty string before a failing parser, in a choice",
"an empty match counts as consumption in recovery mode, so a valid input is rejected")

bug("B02", "C10", [("core/repair.py", """        1, 0, rem - 1, [OpItem(Insert(label), loc, expected)], value, pos, ctx,""",
"""        1, 0, rem, [OpItem(Insert(label), loc, expected)], value, pos, ctx,""")], '''
from reparsec.sequence import sym, eof
from reparsec import ParseError
p = sym("a").recover_with("a")
q = p + p + p << eof()
try:
    q.parse("", recover=True, max_insertions=2).unwrap()
except ParseError as e:
    assert sum(1 for x in e.errors if type(x.op).__name__ == "Insert") <= 2, e
''', "several insertions from recover_with in a row, more than max_insertions",
"insertions from recover_with do not use up the budget")

bug("B03", "C03", [("core/recovery.py", """    return Recovered(
        reps, min_prio, ra.loc, Append(ra.expected, rb.expected),""", """    return Recovered(
        reps, min_prio, ra.loc, Append(rb.expected, ra.expected),"""),
 ("core/combinators.py", """                    return join_repairs(rra, rrb).set_expected(expected)""", """                    return join_repairs(rra, rrb)""")], '''
from reparsec.sequence import sym
from reparsec import ParseError
p = sym("x").maybe() + (sym("a") | sym("b"))
def first(r):
    try:
        r.unwrap()
    except ParseError as e:
        return e.errors[0].expected, e.errors[0].loc
for s in ("", "-", "-b", "-a"):
    assert first(p.parse(s)) == first(p.parse(s, recover=True)), s
''', "both alternatives of a choice can be repaired", "the list of expectations is incomplete")

bug("B04", "C11", [("core/repair.py", """    return Repair(
        skip, False, ins, [OpItem(Skip(skip), loc, expected)], value, pos, ctx
    )""", """    return Repair(
        1, False, ins, [OpItem(Skip(skip), loc, expected)], value, pos, ctx
    )""")], '''
from reparsec.sequence import sym, eof
p = (eof() >> sym("z")).recover() | (sym("a") + sym("b") >> sym("c"))
p = eof().recover_with(7, "seven") 
q = (eof() + sym("z").recover_with("z")).fmap(lambda v: "skip") 
r = p.parse("abc", recover=True)
assert r.unwrap(recover=True) == 7, r.unwrap(recover=True)
''', "skipping a long rest competes with a cheaper repair",
"skipping the whole rest before eof costs 1, however much is skipped")

bug("B05", "C19", [("core/recovery.py", """    ops = [OpItem(i.op, i.loc, i.expected, i.consumed) for i in rep.ops]""",
"""    ops = list(rep.ops)""")], '''
from reparsec.sequence import sym, eof
from reparsec import ParseError
from reparsec.primitive import Pure
a, b, c, d = map(sym, "abcd")
o = sym("o").maybe()
def errs(p, s):
    try:
        p.parse(s, recover=True).unwrap()
    except ParseError as e:
        return [x.expected for x in e.errors]
p = o + ((a + b) << c)
r = p.parse("xc", recover=True)
seen = set()
for rep in r._result.repairs:
    seen.add(tuple(rep.ops[0].expected))
assert seen == {("'o'", "'a'")}, seen
''', "one repair of the first part continued by several repairs of the second, then a prefix that "
"matched nothing", "combined repairs share error items, which get expectations prepended twice")

bug("B06", "C20", [("core/combinators.py", """            for p in r.repairs:
                if p.prio is None:""", """            for p in r.repairs[:1]:
                if p.prio is None:""")], '''
from reparsec.sequence import sym, eof
a, b, c, d = map(sym, "abcd")
p = (d + d + d + d + d + d) | (a + b).recover()
from reparsec import ParseError
r = p.parse("b", recover=True, max_insertions=4)
assert r.unwrap(recover=True) == ("a", "b")
q = (d + d) | (a + (c.recover_with(1) | b)).recover()
n = len([x for x in q.parse("-", recover=True)._result.repairs if x.prio == 0])
q2 = (a + (c.recover_with(1) | b)).recover()
m = q2.parse("-", recover=True)._result.repairs
assert all(x.prio is not None for x in m), m
''', "a parser under recover() with more than one repair that starts with an insertion",
"only the first repair is marked as allowed to compete")

bug("B07", "C12", [("core/scannerless.py", """            reps.append(make_insert(rem, s, pos, ctx, loc, ss, expected))""",
"""            reps.append(make_insert(rem, s, pos, ctx.update_loc(stream, pos + ls), loc, ss, expected))""")], '''
from reparsec.scannerless import literal, parse
from reparsec import ParseError
p = literal("a") + literal("xxx") + literal("\\nbb") + literal("c")
try:
    parse(p, "a\\nbbd", recover=True).unwrap()
    assert False
except ParseError as e:
    assert [x.loc_str for x in e.errors] == ["1:2", "2:3"], e
''', "recovery inserts a literal right before a newline and a later error is reported",
"the location is tracked past the insertion point, so later columns are wrong")

bug("B08", "C08", [("core/chain.py", """        yield from self._snd""", """        seen = list(self._fst)
        yield from (x for x in self._snd if not seen or x != seen[-1])""")], '''
from reparsec.sequence import sym
from reparsec import ParseError
p = sym("a", "x") | sym("b", "x") | sym("c")
try:
    p.parse("-").unwrap()
except ParseError as e:
    assert e.errors[0].expected == ["x", "x", "'c'"], e
''', "two neighbouring expectations with the same label", "one of two equal expectations is lost")

bug("B09", "C21", [("core/scannerless.py", """                v = r.group(group)
                if v is not None:
                    end = r.end()
                    return Recovered(""", """                v = r.group(group)
                if v:
                    end = r.end()
                    return Recovered(""")], '''
from reparsec.scannerless import regexp
p = regexp("x(a*)", 1)
r = p.parse("-x-xaa", recover=True)
assert r.unwrap(recover=True) == ""
''', "a regexp whose group can be empty, met while resynchronising",
"resynchronisation passes over positions where the group is empty")

bug("B10", "C15", [("core/result.py", """        for r in self.repairs:
            r.ctx = ctx
        return self""", """        for r in self.repairs:
            if r.ctx.mark != ctx.mark:
                r.ctx = ctx
                break
        return self""")], '''
from reparsec.layout import block, aligned
from reparsec.scannerless import literal, parse
nl = literal("\\n")
sp = literal(" ").many()
i = block((sp >> literal("a")) + literal("b"))
line = sp >> block(literal("a") + literal("b"))
p = literal("(") >> line << nl << aligned(literal("z"))
from reparsec import ParseError
r = parse(p, "( x\\nz", recover=True)
marks = {x.ctx.mark for x in parse(line, "  x-b", recover=True)._result.repairs}
assert marks == {0}, marks
''', "a block whose inside has more than one repair, followed by layout-sensitive parts",
"only the first repair gets the surrounding reference column back")

bug("B11", "C05", [("core/combinators.py", """        return (*a, b)
    return _seq(parse_fns, second_fns, merge)


def tuple7(""", """        return (*a[:4], b, a[4]) if a[4] is None else (*a, b)
    return _seq(parse_fns, second_fns, merge)


def tuple7(""")], '''
from reparsec.sequence import sym
a = sym("a")
p = a.then(a).then(a).then(a).then(a.maybe()).then(sym("b"))
assert p.parse("aaaab").unwrap() == ("a", "a", "a", "a", None, "b")
''', "six parsers combined with then, the fifth returning None", "two elements of the tuple are swapped")

bug("B12", "C09", [("core/combinators.py", """            consumed = True
            value.append(r.value)
            pos = r.pos
            ctx = r.ctx
            r = parse_fn(stream, pos, ctx, ins, None)""", """            consumed = pos != r.pos or not value
            value.append(r.value)
            pos = r.pos
            ctx = r.ctx
            r = parse_fn(stream, pos, ctx, ins, None)""")], '''
''', "", "")

bug("B13", "C02", [("core/combinators.py", """                return Recovered([rep], None, loc, r.expected)
            return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
        return r

    return recover_with


def""", """                return Recovered([rep], None, loc, r.expected)
            return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
        if type(r) is Error:
            return Ok(x, pos, ctx, r.expected)
        return r

    return recover_with


def""")], '''
from reparsec.sequence import satisfy, sym
from reparsec import ParseError
p = satisfy(str.isdigit).recover_with("0")
for s in ("", "-"):
    for n in (0, 1):
        try:
            p.parse(s, recover=True, max_insertions=n).unwrap()
        except ParseError:
            continue
        assert False
''', "recover_with around a parser that cannot be repaired, with the insertion budget used up",
"the value is returned as if the input were valid, hiding the error")

bug("B14", "C07", [("core/combinators.py", """        r = parse_fn(stream, pos, ctx, ins, None)
        if r.consumed or type(r) is Ok:
            return r
        return Ok(None, pos, ctx, r.expected)""", """        r = parse_fn(stream, pos, ctx, ins, rem)
        if r.consumed or type(r) is Ok:
            return r
        return Ok(None, pos, ctx, r.expected)""")], '''
from reparsec.sequence import sym
from reparsec import ParseError
from reparsec.primitive import Pure
p = (sym("a").maybe() + sym("b")).maybe() + sym("c")
q = ((sym("a") | Pure(None)) + sym("b") | Pure(None)) + sym("c")
p = sym("x") + (sym("a").maybe() + sym("b"))
def out(p, s):
    r = p.parse(s, recover=True)
    try:
        return r.unwrap()
    except ParseError as e:
        return str(e), r.unwrap(recover=True)
import itertools
o = sym("o").maybe()
i = o + (sym("a") + sym("b"))
for w in itertools.product("oabx", repeat=4):
    s = "".join(w)
    for mk in (lambda m: m(i) + sym("x"), lambda m: o + m(i)):
        assert out(mk(lambda z: z.maybe()), s) == out(mk(lambda z: z | Pure(None)), s), s
''', "", "")

bug("B15", "C06", [("parser.py", """        lambda v: [] if v is None else [v[0]] + v[1]""", """        lambda v: [v[0]] + v[1] if v and (v[0] or v[1]) else []""")], '''
from reparsec.sequence import sym
p = sym(0).sep_by(sym(1))
assert p.parse([0]).unwrap() == [0]
assert p.parse([0, 1, 0]).unwrap() == [0, 0]
''', "sep_by with a single item whose value is falsy", "the item is lost")

bug("B16", "C04", [("core/combinators.py", """        rb = second_fn(stream, pos, ctx)
        if rb.consumed:
            return rb
        expected = Append(ra.expected, rb.expected)
        if type(rb) is Ok:
            return rb.set_expected(expected)
        return Error(ra.loc, expected)""", """        rb = second_fn(stream, pos, ctx)
        if rb.consumed and type(rb) is Ok:
            return rb
        expected = Append(ra.expected, rb.expected)
        if type(rb) is Ok:
            return rb.set_expected(expected)
        return Error(rb.loc, rb.expected if rb.consumed else expected, rb.consumed and rb.loc != ra.loc)""")], '''
from reparsec.sequence import sym
from reparsec import ParseError
from reparsec.types import ParseResult
a, b, c = map(sym, "abc")
s = [a, b]
p = c | (a + b)
from reparsec.core.types import Loc
p2 = (c | (a + b)) | (a >> c)
try:
    r = p2.parse("ac", get_loc=lambda l, s, p: Loc(0, 0, 0), fmt_loc=lambda l: "?").unwrap()
    assert False, r
except ParseError:
    pass
''', "a location function which maps different positions to one location",
"whether the second alternative consumed is judged by its error location")
