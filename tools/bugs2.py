bug("B19", "C09", [("core/scannerless.py", """                return Ok(v, end, ctx.update_loc(stream, end), (), end != pos)
        if rem is None:""", """                return Ok(v, end, ctx.update_loc(stream, end), (), v != "")
        if rem is None:""")], '''
from reparsec.scannerless import regexp
p = regexp("x([a-z]?)", 1).many()
assert p.parse("xx1x").unwrap() == ["x", ""][:0] or True
q = regexp("x([0-9]?)", 1).many()
assert q.parse("x1xx2").unwrap() == ["1", "", "2"]
assert q.parse("x1xx2", recover=True).unwrap() == ["1", "", "2"]
''', "a regexp that advances but whose group is empty, with recovery enabled",
"a success that advanced the position does not count as consumption")

bug("B24", "C16", [("parser.py", """        if self._defined:
            raise RuntimeError("Delayed parser was already defined")
        self._defined = True
        self._fns = parser.to_fns()
""", """        defined = self._defined
        self._defined = True
        self._fns = parser.to_fns()
        if defined:
            raise RuntimeError("Delayed parser was already defined")
""")], '''
from reparsec import Delay
from reparsec.sequence import sym
d = Delay()
d.define(sym("a"))
try:
    d.define(sym("b"))
except RuntimeError:
    pass
else:
    assert False
assert d.parse("a").unwrap() == "a"
''', "a second define whose RuntimeError is caught, then parsing", "the second definition replaces the first")

bug("B26", "C17", [("core/result.py", """        return Ok(
            fn(self.value), self.pos, self.ctx, self.expected, self.consumed
        )""", """        self.value = fn(self.value)  # type: ignore
        return self  # type: ignore""")], '''
from reparsec.sequence import sym
r = sym("a").parse("a")
r.fmap(lambda v: v * 2)
assert r.unwrap() == "a", r.unwrap()
''', "a result that is mapped and used again", "fmap changes the result it is applied to")

bug("B29", "C22", [("types.py", """        if not self.expected:
            res += "unexpected input\"""", """        if not any(self.expected):
            res += "unexpected input\"""")], '''
from reparsec import ParseError
from reparsec.sequence import satisfy
try:
    (satisfy(str.isdigit).label("") | satisfy(str.isdigit).label("")).parse("x").unwrap()
except ParseError as e:
    assert str(e) == "at 0: expected  or ", str(e)
''', "expectations that are all empty texts", "the expected list is not rendered")

bug("B30", "C18", [("types.py", """        if not self._result.repairs:
            raise ParseError([
                ErrorItem(
                    self._result.loc,
                    self._fmt_loc(self._result.loc),
                    list(self._result.expected)
                )
            ])
""", """        if not recover and not self._result.repairs:
            raise ParseError([
                ErrorItem(
                    self._result.loc,
                    self._fmt_loc(self._result.loc),
                    list(self._result.expected)
                )
            ])
""")], '''
from reparsec import ParseError
from reparsec.sequence import sym
try:
    sym("a").parse("b", recover=True, max_insertions=0).unwrap(recover=True)
except ParseError as e:
    pass
''', "recovery without any repair, unwrapped with recovery", "min of nothing raises ValueError")

bug("B17", "C03", [("core/result.py", """            ops_prepend_expected(r.ops, expected, consumed)""",
"""            ops_prepend_expected(r.ops, expected, r.consumed)""")], '''
from reparsec import ParseError
from reparsec.sequence import sym
x, y, a = map(sym, "xya")
p = x.maybe() + (y.maybe() + a)
def first(recover):
    try:
        p.parse("*", recover=recover).unwrap()
    except ParseError as e:
        return e.errors[0].expected, e.errors[0].loc
assert first(True) == first(False), (first(True), first(False))
''', "sequences nested to the right, optional parsers before the failing one, recovery",
"the expectations of the outermost optional parser are missing in recovery mode")

bug("B18", "C07", [("core/result.py", """        if not self.consumed:
            self.expected = expected
        for r in self.repairs:""", """        self.expected = expected
        for r in self.repairs:""")], '''
from reparsec import ParseError
from reparsec.sequence import sym
p = sym("a") + sym("b")
def errors(q):
    try:
        q.parse("ax", recover=True, max_insertions=0).unwrap()
    except ParseError as e:
        return str(e)
assert errors(p) == errors(p.label("pair")), (errors(p), errors(p.label("pair")))
''', "a label around a parser that fails behind consumed input and has no repair",
"the label replaces the expectations of an outcome that has consumed input")

bug("B20", "C12", [("core/scannerless.py", """                reps.append(
                    make_skip(
                        ins, s, cur + ls, ctx.update_loc(stream, cur + ls),
                        loc, cur - pos, expected
                    )
                )""", """                end = cur + ls
                end_loc = Loc(end, loc.line, loc.col + end - pos)
                reps.append(
                    make_skip(
                        ins, s, end, Ctx(ctx.mark, end_loc, ctx._get_loc),
                        loc, cur - pos, expected
                    )
                )""")], '''
from reparsec import ParseError
from reparsec.scannerless import literal, parse
try:
    parse(literal("a") + literal("b") + literal("c") + literal("d"), "-\\nabcx", recover=True).unwrap()
except ParseError as e:
    locs = [tuple(x.loc) for x in e.errors]
    assert locs == [(0, 0, 0), (5, 1, 3)], locs
else:
    assert False
''', "recovery that skips over a newline to a literal, and a later error",
"the newlines in skipped text are not counted")

bug("B22", "C13", [("lexer.py", """            col = end - src.rfind("\\n", pos, end) - 1""",
"""            col = end - src.find("\\n", pos, end) - 1""")], '''
import re
from reparsec.lexer import split_tokens
ts = split_tokens("a\\n \\n b", re.compile(r"(?P<id>[a-z])|\\s+"))
assert [tuple(t.start) for t in ts] == [(0, 0, 0), (5, 2, 1)], [t.start for t in ts]
''', "several newlines in one match", "the column is counted from the first newline of a match")

bug("B23", "C14", [("core/layout.py", """            rem: Optional[int]) -> Result[A, S]:
        ctx = ctx.update_loc(stream, pos)
        return parse_fn(
            stream, pos, ctx.set_mark(ctx.loc.col), ins, rem""", """            rem: Optional[int]) -> Result[A, S]:
        if ctx.loc.pos < pos:
            ctx = ctx.update_loc(stream, pos)
        return parse_fn(
            stream, pos, ctx.set_mark(ctx.loc.col), ins, rem""")], '''
import re
from reparsec.layout import block, aligned
from reparsec.lexer import split_tokens, token, parse
ts = split_tokens("   a\\n   a", re.compile(r"(?P<a>a)|(?P<b>b)|(?P<c>c)|[ \\n]+"))
p = block(aligned(token("a")).many())
for recover in (False, True):
    v = parse(p, ts, recover).unwrap()
    assert len(v) == 2, (recover, v)
''', "a token stream where a location is further into the text than tokens were read, recovery",
"the column of another position is used as mark")

bug("B25", "C16", [("parser.py", """        if self._defined:
            raise RuntimeError("Delayed parser was already defined")""", """        if self._defined and parser is not self:
            raise RuntimeError("Delayed parser was already defined")""")], '''
from reparsec import Delay
from reparsec.sequence import sym
d = Delay()
d.define(sym("a"))
try:
    d.define(d)
except RuntimeError:
    pass
else:
    assert False, "no RuntimeError"
''', "defining a defined parser as itself", "the second define does not raise")

bug("B28", "C22", [("types.py", """        return ResultWrapper(self._result.fmap(fn), self._fmt_loc)""",
"""        return ResultWrapper(self._result.fmap(fn), lambda l: str(l.pos))""")], '''
from reparsec import ParseError
from reparsec.scannerless import literal, parse
r = parse(literal("a\\nb"), "a\\nc").fmap(len)
try:
    r.unwrap()
except ParseError as e:
    assert str(e) == "at 1:1: expected " + repr("a\\nb"), str(e)
''', "mapping a failed result of a parse with line tracking", "fmap changes how locations are rendered")


bug("B31", "C14", [("core/layout.py", """        ctx = ctx.update_loc(stream, pos)
        level = ctx.loc.col
        if ctx.mark + delta == level:
            return parse_fn(stream, pos, ctx.set_mark(level)).set_ctx(ctx)
        return Error(ctx.loc, ["indentation"])""", """        if pos:
            ctx = ctx.update_loc(stream, pos)
        level = ctx.loc.col
        if ctx.mark + delta == level:
            return parse_fn(stream, pos, ctx.set_mark(level)).set_ctx(ctx)
        return Error(ctx.loc, ["indentation"])""")], '''
import re
from reparsec.layout import indented
from reparsec.lexer import split_tokens, token, parse
ts = split_tokens("  a", re.compile(r"(?P<a>a)|[ ]+"))
assert parse(indented(2, token("a")), ts).unwrap().kind == "a"
''', "an indented parser at the first token, which is not at the first column", "the location of the first token is taken for the start of the text")

bug("B40", "C23", [("lexer.py", """    start: Loc = field(default=Loc(0, 0, 0), repr=False, compare=False)
""", """    start: Loc = field(
        default=Loc(0, 0, 0), repr=False, compare=False, hash=True
    )
""")], """
from reparsec.core.types import Loc
from reparsec.lexer import Token

a = Token("op", "+", Loc(0, 0, 0), Loc(1, 0, 1))
b = Token("op", "+", Loc(7, 1, 2), Loc(8, 1, 3))
assert a == b
assert hash(a) == hash(b)
assert b in {a} and {a: 1}[b] == 1
""", "two equal tokens at different places used as keys", "equal tokens have different hashes")
bug("B41", "C23", [("lexer.py", """    end: Loc = field(default=Loc(0, 0, 0), repr=False, compare=False)
""", """    end: Loc = field(default=Loc(0, 0, 0), repr=False, compare=False)

    def __eq__(self, other: object) -> bool:
        if not isinstance(other, Token):
            return NotImplemented
        same = self.kind == other.kind and self.value == other.value
        if same and self.start.line and other.start.line:
            return self.start.line == other.start.line
        return same

    def __hash__(self) -> int:
        return hash((self.kind, self.value))
""")], """
from reparsec.core.types import Loc
from reparsec.lexer import Token

for l1 in range(4):
    for l2 in range(4):
        a = Token("op", "+", Loc(l1 * 5, l1, 0), Loc(l1 * 5 + 1, l1, 1))
        b = Token("op", "+", Loc(l2 * 5, l2, 0), Loc(l2 * 5 + 1, l2, 1))
        assert a == b, (l1, l2)
""", "two tokens of the same text on different lines, neither of them the first",
"equality of tokens depends on where they are")
bug("B42", "C23", [("types.py", """    loc_str: str
""", """    loc_str: str = field(compare=False)
"""), ("types.py", "from dataclasses import dataclass\n", "from dataclasses import dataclass, field\n")], """
from reparsec import ErrorItem, Loc
a = ErrorItem(Loc(3, 1, 0), "2:1", ["x"])
b = ErrorItem(Loc(3, 1, 0), "line 2", ["x"])
assert a.msg != b.msg
assert a != b
assert a == ErrorItem(Loc(3, 1, 0), "2:1", ["x"])
""", "two error items that differ in the rendered location only", "error items with different messages are equal")
