"""Theorems about the entry points: Parser.parse, ParseResult.unwrap / fmap,
ErrorItem.msg, ParseError.__str__ on an arbitrary parser P."""
import z3
from z3 import And, BoolVal, If, Implies, IntVal, Not, Or

from . import sorts as S
from .contracts import Call, ContractHooks, TRep, TView, closure
from .interp import Interp, State, _ids
from .prove import Ob, list_segs, path_of, s
from .targets import P
from .values import *

N = z3.Const("n", S.Int)              # max_insertions
GLF, FMT = z3.Const("get_loc", S.V), z3.Const("fmt_loc", S.V)
FN = z3.Const("FN", S.V)
LOC0 = S.Loc.mk_loc(IntVal(0), IntVal(0), IntVal(0))


class Item:
    """one item of a raised error"""

    def __init__(self, loc, text, exp, op, none):
        self.loc, self.text, self.exp, self.op, self.none = loc, text, exp, op, none


class EntryHooks(ContractHooks):
    def rely_result_(self, ip, t, info):
        """The initial location is a base for every position: proved of the location
        functions of the library, a requirement on those of the user."""
        c = info["ctx"]
        return super().rely_result_(ip, t, info) + [
            Implies(S.Ctx.c_loc(c) == LOC0, S.vlow(S.Ctx.c_gl(c), info["s"], LOC0) <= 0)]


class ApiRun:
    """All runs of parse() followed by unwrap() (or fmap().unwrap())."""

    def __init__(self, pkg, clauses, entry="custom", fmap=False, timeout=8000):
        self.pkg = pkg
        self.hooks = hooks = EntryHooks(clauses)
        self.ip = ip = Interp(pkg, hooks, timeout)
        ip.streams["s"] = s
        self.obs = []
        st = State()
        ip.st = st
        st.pc.append((S.slen(s) >= 0, False))
        st.pc.append((N >= 0, False))
        self.mapped = fmap
        self.entry = entry
        ip.epoch = self.epoch = next(_ids)
        self.cases = []       # (recovering, unwrap(recover), outcome)
        for rec in (False, True):
            for o in ip.explore(lambda: self.parse(rec), st):
                if o.kind == "raise":
                    self.cases.append((rec, None, o, None))
                    continue
                for flag in (False, True):
                    for x in ip.explore(lambda: ip.call(ip.get_attr(o.val, "unwrap"), [flag]),
                                        o.st):
                        self.cases.append((rec, flag, x, o))
        self.calls()

    # --- the call
    def start(self, rec):
        ip = self.ip
        if self.entry == "custom":
            return ip.call(ip.get_attr(P, "parse"), [s, rec],
                           dict(max_insertions=N, get_loc=GLF, fmt_loc=FMT))
        if self.entry == "default":
            return ip.call(ip.get_attr(P, "parse"), [s, rec])
        return ip.call(ip.glob("reparsec." + self.entry, "parse"), [P, s, rec])

    def calls(self):
        """P is called once, at the start of the input, in the initial context"""
        ip = self.ip
        self.gl = self.n = None
        want = [None, None]
        for t, info in ip.calls.values():
            if not info["p"].eq(P) or want[info["slow"]] is not None:
                raise Unsupported("parse calls the parser more than once")
            want[info["slow"]] = info
        for slow, info in enumerate(want):
            if info is None:
                raise Unsupported("parse does not call the parser")
            c = info["ctx"]
            gl = z3.simplify(S.Ctx.c_gl(c))
            if self.gl is None:
                self.gl = gl
            self.ctx0 = S.Ctx.mk_ctx(IntVal(0), LOC0, self.gl)
            fs = [info["s"] == s, info["pos"] == 0, c == self.ctx0]
            if slow:
                self.n = z3.simplify(info["ins"])
                fs += [Not(info["rn"]), info["rem"] == info["ins"], info["ins"] >= 0]
                if self.entry == "custom":
                    fs.append(info["ins"] == N)
            ip.st = State()
            ip.assume(And(S.slen(s) >= 0, N >= 0))
            self.prove("parse/%s call of the parser" % ("recovering" if slow else "strict"),
                       And(*fs), "")
        if self.entry == "custom":
            self.prove("parse/the given get_loc is used", self.gl == GLF, "")
        self.tf = S.F(P, s, IntVal(0), self.ctx0)
        self.tg = S.G(P, s, IntVal(0), self.ctx0, self.n, BoolVal(False), self.n)
        # use the terms of the actual calls where they are the same
        for t, info in ip.calls.values():
            same = self.tg if info["slow"] else self.tf
            if ip.valid(t == same):
                if info["slow"]:
                    self.tg = t
                else:
                    self.tf = t

    def parse(self, rec):
        ip = self.ip
        r = self.start(rec)
        if self.mapped:
            ip.st.notes.append(("origin", r))
            r = ip.call(ip.get_attr(r, "fmap"), [FN])
        return r

    # --- histories
    def operate(self, r, op):
        ip = self.ip
        if op == "origin.unwrap":
            # of the result that r was made from
            for n in ip.st.notes:
                if isinstance(n, tuple) and n[0] == "origin":
                    return ip.call(ip.get_attr(n[1], "unwrap"), [True])
            return None
        if op.startswith("fmap"):
            x = ip.call(ip.get_attr(r, "fmap"), [FN])
            return x if op == "fmap" else ip.call(ip.get_attr(x, "unwrap"), [True])
        return ip.call(ip.get_attr(r, "unwrap"), [op == "unwrap(True)"])

    OPS = ("unwrap(False)", "unwrap(True)", "fmap", "fmap.unwrap", "origin.unwrap")

    def history(self):
        """whatever was done with a result before, unwrap says the same

        Either no operation on a result writes to anything that existed before (so every
        history leaves results as they are), or - where an operation keeps something for
        later - every two operations are followed by an unwrap (bounded)."""
        ip = self.ip
        seen, writes, todo = set(), [], []
        for rec, flag, x, o in self.cases:
            if o is None or id(o) in seen:
                continue
            seen.add(id(o))
            todo.append((rec, o))
        for rec, o in todo:
            ep, ip.epoch = ip.epoch, next(_ids)
            for op in self.OPS:
                for x in ip.explore(lambda: self.operate(o.val, op), o.st):
                    new = x.st.flags[len(o.st.flags):]
                    if new:
                        writes.append("%s %s" % (op, new[0]))
            ip.epoch = ep
        where = "every result, its unwrap and fmap"
        if not writes:
            self.obs.append(Ob("history/operations change no result", True, "", where))
            return
        for i, a in enumerate(self.OPS):
            for b in (None,) + self.OPS:
                self.after(todo, (a, b) if b else (a,), writes)

    def after(self, todo, ops, writes):
        ip = self.ip
        cases = []
        for rec, o in todo:
            for flag in (False, True):
                def run():
                    for op in ops:
                        try:
                            self.operate(o.val, op)
                        except RaiseSig:
                            pass
                    return ip.call(ip.get_attr(o.val, "unwrap"), [flag])
                for x in ip.explore(run, o.st):
                    cases.append((rec, flag, x, o))
        old, self.cases = self.cases, cases
        n = len(self.obs)
        self.unwrapping()
        self.cases = old
        for ob in self.obs[n:]:
            ob.name = "history (%s) after %s/%s" % (writes[0], ", ".join(ops), ob.name)

    # --- what P does on this input
    def f(self):
        return self.tf

    def g(self):
        return self.tg

    def loc_text(self, loc):
        """the documented text of a location"""
        if self.entry == "custom":
            return S.locstr(FMT, loc)
        if self.entry == "default":
            return StrX([("int", S.Loc.l_pos(loc))])
        return StrX([("int", S.Loc.l_line(loc) + 1), ":", ("int", S.Loc.l_col(loc) + 1)])

    def out(self, v):
        return S.apps(FN, S.units([v], S.SV)) if self.mapped else v

    # --- obligations
    def prove(self, name, formula, where):
        ok = self.ip.valid(formula)
        self.obs.append(Ob(name, ok, "" if ok else "not valid", where))

    def fail(self, name, why, where):
        self.obs.append(Ob(name, False, why, where))

    def items(self, x):
        """items of the ParseError raised in outcome x: Items or ('each', src, idx, Item)"""
        ip = self.ip
        ip.st = x.st.copy()
        err = x.val.obj
        lst = ip.get_attr(err, "errors")
        out = []
        for sg in list_segs(ip, lst):
            if isinstance(sg, Elem):
                out.append(self.item(ip.enter(sg.val)))
            elif isinstance(sg, For) and self.hooks.simple_for(sg):
                out.append(("each", sg.src, sg.idx,
                            self.item(self.hooks.elem_at(ip, sg, sg.idx))))
            else:
                raise Unsupported("list of error items")
        return out

    def item(self, ref):
        ip = self.ip
        f = ip.cell(ref).fields
        op = f["op"]
        return Item(ip.to_loc(f["loc"]), self.text(f["loc_str"]), self.exp(f["expected"]), op,
                    op is None)

    def exp(self, v):
        ip = self.ip
        if isinstance(v, (OneShot, GenVal)):
            raise Unsupported("list of expectations")
        self.obs.append(Ob("an error item has its expectations in a list",
                           isinstance(v, tuple) or isinstance(v, Ref) and
                           isinstance(ip.cell(v), Lst), repr(v), ""))
        return ip.to_E(v)

    def text(self, t):
        return t

    def same_text(self, name, t, loc, where):
        want = self.loc_text(loc)
        if isinstance(want, StrX) or isinstance(t, StrX):
            ok = isinstance(want, StrX) and isinstance(t, StrX) and self.eq_strx(t, want)
            self.obs.append(Ob(name, ok, "%r, expected %r" % (t, want), where))
        else:
            self.prove(name, self.ip.to_L(t) == want, where)

    def eq_strx(self, a, b):
        if len(a.parts) != len(b.parts):
            return False
        for x, y in zip(a.parts, b.parts):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if x[0] != y[0] or not self.ip.valid(x[1] == y[1]):
                    return False
            elif isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                if x.sort() != y.sort() or not self.ip.valid(x == y):
                    return False
            else:
                return False
        return True

    def unwrapping(self):
        """unwrap returns and reports what the outcome of the parse function is"""
        ip = self.ip
        for rec, flag, x, o in self.cases:
            nm = "parse(recover=%s).%sunwrap(%s)" % (rec, "fmap." if self.mapped else "", flag)
            where = path_of(x)
            t = self.g() if rec else self.f()
            v = TView(t)
            ip.st = x.st.copy()
            if flag is None or x.kind == "raise" and x.exc == "AbstractRaise":
                # only because P raised
                self.obs.append(Ob(nm + "/raises only if the parser does",
                                   x.exc == "AbstractRaise", "raises %s" % x.exc, where))
                if x.exc == "AbstractRaise":
                    self.prove(nm + "/raises only if the parser does", v.kind == 3, where)
                continue
            if x.kind == "normal":
                val = ip.to_V(x.val)
                if ip.valid(v.kind == 0):
                    self.prove(nm + "/value", val == self.out(v.val), where)
                    continue
                k = self.argmin(x, lambda k: val == self.out(S.p_val(t, k)))
                if k is None:
                    self.fail(nm + "/value", "returns a value where the parser failed", where)
                    continue
                self.prove(nm + "/value of a repair", And(
                    BoolVal(rec and flag), v.kind == 2, k >= 0, k < v.nreps,
                    val == self.out(S.p_val(t, k))), where)
                self.cheapest(nm, x, t, k, where)
                continue
            if x.exc != "ParseError":
                self.fail(nm + "/raises only ParseError", "raises %s" % x.exc, where)
                continue
            items = self.items(x)
            ip.st = x.st.copy()
            k = self.argmin(x, lambda k: items[0][1].i == k
                            if items and isinstance(items[0], tuple) and
                            items[0][1].i is not None else BoolVal(True))
            if k is None:
                self.prove(nm + "/fails", Or(v.kind == 1, And(v.kind == 2, v.nreps == 0)), where)
                ok = len(items) == 1 and isinstance(items[0], Item) and items[0].none
                self.obs.append(Ob(nm + "/one item without operation", ok, "", where))
                if ok:
                    it = items[0]
                    self.prove(nm + "/location", it.loc == v.loc, where)
                    self.same_text(nm + "/location text", it.text, v.loc, where)
                    self.prove(nm + "/expected list", it.exp == v.exp, where)
                continue
            self.prove(nm + "/reports a repair", And(
                BoolVal(rec and not flag), v.kind == 2, k >= 0, k < v.nreps), where)
            self.cheapest(nm, x, t, k, where)
            ok = len(items) == 1 and isinstance(items[0], tuple)
            if not ok and not items:
                # may be empty only if there are no operations
                self.prove(nm + "/items", S.n_ops(t, k) == 0, where)
                continue
            self.obs.append(Ob(nm + "/one item per operation", ok, "", where))
            if ok:
                _, src, idx, it = items[0]
                ok = src.kind == "ops" and src.t.eq(t) and ip.valid(src.i == k) and not it.none
                self.obs.append(Ob(nm + "/items of the repair", ok, "", where))
                if ok:
                    ip.assume(And(idx >= 0, idx < S.n_ops(t, k)))
                    self.prove(nm + "/item location", it.loc == S.o_loc(t, k, idx), where)
                    self.same_text(nm + "/item location text", it.text, S.o_loc(t, k, idx), where)
                    self.prove(nm + "/item expected list", it.exp == S.o_exp(t, k, idx), where)
                    self.prove(nm + "/item operation", it.op == S.o_op(t, k, idx), where)

    def argmin(self, x, fits=lambda k: BoolVal(True)):
        """the minimum that was used: the last one taken, if several were, the last that fits"""
        ks = [n[1] for n in x.st.notes if isinstance(n, tuple) and n[0] == "argmin"]
        for k in reversed(ks[1:]):
            if self.ip.valid(fits(k)):
                return k
        return ks[0] if ks else None

    def min_facts(self, x, j):
        ip = self.ip
        for n in x.st.notes:
            if isinstance(n, tuple) and n[0] == "argmin":
                ip.assume(n[2](j))

    def cheapest(self, nm, x, t, k, where):
        """k is the first of the best repairs"""
        ip = self.ip
        st0 = ip.st
        ip.st = st0.copy()
        j = S.fresh("other", S.Int)
        ip.assume(And(j >= 0, j < S.n_reps(t)))
        self.min_facts(x, j)
        for fct in self.hooks.rely_rep(ip, t, j):
            ip.assume(fct)
        c = lambda i: S.p_cost(t, i)
        p = lambda i: S.p_pos(t, i)
        a = lambda i: S.p_prn(t, i)
        better = lambda u, v: Or(c(u) < c(v), And(c(u) == c(v), Or(
            p(u) > p(v), And(p(u) == p(v), Not(a(u)), a(v)))))
        same = lambda u, v: And(c(u) == c(v), p(u) == p(v), a(u) == a(v))
        self.prove(nm + "/no repair is cheaper", c(k) <= c(j), where)
        self.prove(nm + "/ties are broken as documented",
                   And(Not(better(j, k)), Implies(same(j, k), k <= j)), where)
        ip.st = st0

    # --- consequences of the contract for the user
    def theorem(self, name):
        getattr(self, "t_" + name)()

    def pairs(self):
        """(strict outcome, recovering outcome) for each way to call unwrap"""
        ip = self.ip
        for r1, f1, x, _ in self.cases:
            if r1:
                continue
            for r2, f2, y, _ in self.cases:
                if not r2:
                    continue
                ip.st = x.st.copy()
                for e in y.st.pc:
                    if e not in ip.st.pc:
                        ip.st.pc.append(e)
                ip.st.heap.update(y.st.heap)
                for fct in self.hooks.rely_result(ip, self.g(), self.ginfo()):
                    ip.assume(fct)
                if ip.feasible(BoolVal(True)):
                    yield f1, x, f2, y, "%s | %s" % (path_of(x), path_of(y))

    def ginfo(self):
        return dict(p=P, s=s, pos=IntVal(0), ctx=self.ctx0, slow=True, ins=self.n,
                    rn=BoolVal(False), rem=self.n)

    def rep_facts(self, k):
        ip = self.ip
        for fct in self.hooks.rely_rep(ip, self.g(), k):
            ip.assume(fct)

    def t_C01(self):
        for f1, x, f2, y, where in self.pairs():
            if x.kind == "normal":
                nm = "C01/strict unwrap(%s), recovering unwrap(%s)" % (f1, f2)
                if y.kind != "normal":
                    self.fail(nm, "raises %s" % y.exc, where)
                else:
                    self.prove(nm, self.ip.to_V(x.val) == self.ip.to_V(y.val), where)

    def t_C02(self):
        """a rejected input is reported"""
        ip = self.ip
        for f1, x, f2, y, where in self.pairs():
            if x.kind == "normal" or x.exc != "ParseError" or f2 is None:
                continue
            nm = "C02/unwrap(%s) of a rejected input" % f2
            if y.kind == "normal":
                self.obs.append(Ob(nm, f2 is True, "returns a value", where))
                continue
            if y.exc == "AbstractRaise":
                continue
            self.obs.append(Ob(nm, y.exc == "ParseError", "raises %s" % y.exc, where))
            k = self.argmin(y)
            st = ip.st
            its = self.items(y)
            ip.st = st
            if k is None:
                self.obs.append(Ob(nm + "/an item", len(its) >= 1, "", where))
            else:
                self.rep_facts(k)
                n = IntVal(0)
                for it in its:
                    if isinstance(it, tuple):
                        n = n + it[1].length()
                        self.obs.append(Ob(nm + "/operation", not it[3].none, "", where))
                    else:
                        n = n + 1
                        self.obs.append(Ob(nm + "/operation", not it.none, "", where))
                self.prove(nm + "/an item", n >= 1, where)

    def t_C03(self):
        ip = self.ip
        for f1, x, f2, y, where in self.pairs():
            if x.kind == "normal" or x.exc != "ParseError" or y.kind != "raise" or \
                    y.exc != "ParseError":
                continue
            st = ip.st
            a, b = self.items(x), self.items(y)
            ip.st = st
            nm = "C03/first error"
            if len(a) != 1 or not isinstance(a[0], Item) or not b:
                self.fail(nm, "no error item", where)
                continue
            a, b = a[0], b[0]
            loc, exp = None, None
            if isinstance(b, tuple):
                k = self.argmin(y)
                self.rep_facts(k)
                z = IntVal(0)
                pr = [(b[2], z)]
                loc, exp = z3.substitute(b[3].loc, *pr), z3.substitute(b[3].exp, *pr)
                for fct in self.hooks.rely_op(ip, self.g(), k, z):
                    ip.assume(fct)
            else:
                loc, exp = b.loc, b.exp
            self.prove(nm, And(loc == a.loc, exp == a.exp), where)

    def t_C10(self):
        """the report lists at most n insertions at any one position"""
        from .contracts import Q
        ip = self.ip
        for rec, flag, x, o in self.cases:
            if not rec or flag is not False or x.kind != "raise" or x.exc != "ParseError":
                continue
            k = self.argmin(x)
            if k is None:
                continue
            ip.st = x.st.copy()
            self.rep_facts(k)
            ip.assume(Q >= 0)
            self.prove("C10/insertions in the report", S.m_ins(self.g(), k, Q) <= self.n, path_of(x))

    def t_C11(self):
        """the cost of the chosen repair is that of the listed operations, and
        both ways to unwrap use the same repair"""
        ip = self.ip
        vals = [(x, self.argmin(x)) for rec, flag, x, o in self.cases
                if rec and flag is True and x.kind == "normal" and self.argmin(x) is not None]
        reps = [(x, self.argmin(x)) for rec, flag, x, o in self.cases
                if rec and flag is False and x.kind == "raise" and self.argmin(x) is not None]
        self.obs.append(Ob("C11/repairs are used", bool(vals) and bool(reps), "", ""))
        for x, k in vals:
            ip.st = x.st.copy()
            self.rep_facts(k)
            self.prove("C11/cost", S.p_cost(self.g(), k) == S.m_sum(self.g(), k), path_of(x))
            for y, l in reps:
                ip.st = x.st.copy()
                for e in y.st.pc:
                    if e not in ip.st.pc:
                        ip.st.pc.append(e)
                for n in x.st.notes:
                    if isinstance(n, tuple) and n[0] == "argmin":
                        ip.assume(n[2](l))
                for n in y.st.notes:
                    if isinstance(n, tuple) and n[0] == "argmin":
                        ip.assume(n[2](k))
                self.prove("C11/one repair", k == l, path_of(x))

    def t_C12(self):
        """every reported location is that of an input position"""
        ip = self.ip
        for rec, flag, x, o in self.cases:
            if x.kind != "raise" or x.exc != "ParseError":
                continue
            its = self.items(x)
            ip.st = x.st.copy()
            k = self.argmin(x)
            for it in its:
                if isinstance(it, tuple):
                    st0 = ip.st
                    ip.st = st0.copy()
                    ip.assume(And(it[2] >= 0, it[2] < it[1].length()))
                    self.rep_facts(k)
                    for fct in self.hooks.rely_op(ip, self.g(), k, it[2]):
                        ip.assume(fct)
                    loc = it[3].loc
                    self.prove("C12/location of an operation", S.isl(self.gl, s, loc) >= 0,
                               path_of(x))
                    ip.st = st0
                else:
                    self.prove("C12/location", S.isl(self.gl, s, it.loc) >= 0, path_of(x))

    def t_C17(self):
        for rec, flag, x, o in self.cases:
            fl = x.st.flags
            self.obs.append(Ob("C17/parse and unwrap change nothing", not fl, "; ".join(fl),
                               path_of(x)))


class TextRun(ApiRun):
    """ErrorItem.msg and str(ParseError)."""

    def __init__(self, pkg, timeout=8000):
        self.pkg = pkg
        self.hooks = ContractHooks(())
        self.ip = ip = Interp(pkg, self.hooks, timeout)
        self.obs = []
        ip.st = self.base = State()
        self.message()
        self.joined()

    def reference(self, text, exp, op):
        """the documented text of an item"""
        ip = self.ip
        n = z3.Length(exp)
        parts = ["at ", text, ": "]
        if ip.decide(n == 0):
            parts.append("unexpected input")
        elif ip.decide(n == 1):
            parts += ["expected ", exp[IntVal(0)]]
        else:
            parts += ["expected ", ("join", ", ", [SeqSeg(z3.Extract(exp, IntVal(0), n - 1))]),
                      " or ", exp[n - 1]]
        if op is not None:
            if ip.decide(S.Op.is_Skip(op)):
                c = S.Op.skip_count(op)
                one = ip.decide(c == 1)
                parts += [" (skipped ", "1" if one else ("int", c), " token)" if one else " tokens)"]
            else:
                parts += [" (inserted ", S.Op.ins_label(op), ")"]
        return StrX(parts)

    def eq_part(self, x, y):
        ip = self.ip
        if isinstance(x, str) or isinstance(y, str):
            if x == y:
                return True
            for a, b in ((x, y), (y, x)):     # a number known on this path
                if isinstance(a, str) and a.isdigit() and isinstance(b, tuple) and b[0] == "int":
                    return ip.valid(b[1] == int(a))
            return False
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            return x.sort() == y.sort() and ip.valid(x == y)
        if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]):
            return False
        if x[0] == "int":
            return ip.valid(x[1] == y[1])
        if x[0] == "join":
            if x[1] != y[1]:
                return False
            a = ip.segs_term(x[2], "E")
            b = ip.segs_term(y[2], "E")
            return ip.valid(a == b)
        return False

    def split(self, t):
        """literal text broken up so that numbers known on a path compare"""
        return t.parts if isinstance(t, StrX) else [t]

    def eq_text(self, a, b):
        a, b = list(self.split(a)), list(self.split(b))
        # compare literal text character by character, other parts as a whole
        while a and b:
            x, y = a[0], b[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                a[0:1] = [x[n:]] if x[n:] else []
                b[0:1] = [y[n:]] if y[n:] else []
                continue
            for u, v, w in ((x, y, b), (y, x, a)):
                if isinstance(u, tuple) and u[0] == "int" and isinstance(v, str):
                    d = v[:len(v) - len(v.lstrip("0123456789"))]
                    if not d or not self.ip.valid(u[1] == int(d)):
                        return False
                    w[0:1] = [v[len(d):]] if v[len(d):] else []
                    break
            else:
                if not self.eq_part(x, y):
                    return False
                del a[0], b[0]
                continue
            if isinstance(x, tuple):
                del a[0]
            else:
                del b[0]
        return not a and not b

    def compare(self, name, o, text, exp, op):
        ip = self.ip
        if o.kind != "normal":
            self.fail(name, "raises %s" % o.exc, path_of(o))
            return
        for r in ip.explore(lambda: self.reference(text, exp, op), o.st):
            ip.st = r.st.copy()
            if not ip.feasible(BoolVal(True)):
                continue
            ok = self.eq_text(o.val, r.val)
            self.obs.append(Ob(name, ok, "%r, documented %r" % (o.val, r.val), path_of(r)))

    def make(self, text, exp, op):
        ip = self.ip
        loc = z3.Const("loc", S.Loc)
        cls = ip.glob("reparsec.types", "ErrorItem")
        return ip.call(cls, [loc, text, ip.new_list([SeqSeg(exp)]), op])

    def message(self):
        ip = self.ip
        text, exp = z3.Const("loc_str", S.L), z3.Const("expected", S.E)
        for op in (None, z3.Const("op", S.Op)):
            nm = "msg/%s" % ("no operation" if op is None else "operation")
            for o in ip.explore(lambda: ip.get_attr(self.make(text, exp, op), "msg"), self.base):
                self.compare(nm, o, text, exp, op)

    def joined(self):
        ip = self.ip
        t, k = z3.Const("R", S.R), z3.Const("k", S.Int)
        i = z3.Const("i", S.Int)
        src = ASrc("ops", t, k)
        cls = ip.glob("reparsec.types", "ErrorItem")
        fmt = z3.Const("fmt", S.V)

        def error(ip):
            it = ip.call(cls, [S.o_loc(t, k, i), S.locstr(fmt, S.o_loc(t, k, i)),
                               ip.new_list([SeqSeg(S.o_exp(t, k, i))]), S.o_op(t, k, i)])
            sg = For(i, src, ip.snap_seg(Elem(it), 0, set()) and [ip.snap_seg(Elem(it), 0, set())])
            e = ip.call(ip.glob("reparsec.types", "ParseError"), [ip.new_list([sg])])
            d = ip.cell(e).cls.find("__str__")
            if d is None:
                raise Unsupported("ParseError has no __str__")
            return ip.call(ip.get_attr(e, "__str__"), [])
        for o in ip.explore(lambda: error(ip), self.base):
            where = path_of(o)
            if o.kind != "normal":
                self.fail("str(ParseError)", "raises %s" % o.exc, where)
                continue
            parts = o.val.parts if isinstance(o.val, StrX) else [o.val]
            ok = len(parts) == 1 and isinstance(parts[0], tuple) and parts[0][0] == "join" and \
                parts[0][1] == ", " and len(parts[0][2]) == 1 and \
                isinstance(parts[0][2][0], For) and parts[0][2][0].src.eq(src)
            self.obs.append(Ob("str(ParseError)/messages joined by commas", ok, repr(o.val), where))
            if not ok:
                continue
            f = parts[0][2][0]
            inner = [subst_seg(x, [(f.idx, i)]) for x in f.segs]
            alts = inner[0].alts if len(inner) == 1 and isinstance(inner[0], Cond) else \
                [([], [], inner)]
            for facts, lemmas, segs in alts:
                ip.st = o.st.copy()
                for x in list(lemmas) + list(facts):
                    ip.assume(x)
                if len(segs) != 1 or not isinstance(segs[0], Elem):
                    self.fail("str(ParseError)/one message per item", "", where)
                    continue

                class R:
                    kind, val, st = "normal", segs[0].val, ip.st
                self.compare("str(ParseError)/message", R, S.locstr(fmt, S.o_loc(t, k, i)),
                             S.o_exp(t, k, i), S.o_op(t, k, i))


# ------------------------------------------------------------------ location functions
def text_loc(st, q):
    """line: newlines before q; column: distance from the last of them"""
    return S.Loc.mk_loc(q, S.NL(st, IntVal(0), q), q - S.LNL(st, q) - 1)


def plain_loc(st, q):
    return S.Loc.mk_loc(q, IntVal(0), IntVal(0))


def location_law(pkg, entry):
    """The location function that an entry point uses gives the documented location of a
    position, from the initial location or that of any earlier position."""
    from .exact import token_loc
    want = {"default": plain_loc, "scannerless": text_loc, "lexer": token_loc}[entry]
    run = ApiRun(pkg, (), entry=entry)
    ip = run.ip
    run.obs = []
    f = ip.unboxed(run.gl)
    if not isinstance(f, (Closure, BoundMethod)):
        raise Unsupported("location function")
    q, q0 = z3.Const("q", S.Int), z3.Const("q0", S.Int)
    st = State()
    st.frames = dict(run.cases[0][2].st.frames)
    st.heap = dict(run.cases[0][2].st.heap)
    st.pc.append((And(0 <= q0, q0 <= q, q <= S.slen(s)), False))
    st.pc.append((And(S.NL(s, IntVal(0), IntVal(0)) == 0, S.LNL(s, IntVal(0)) == -1), False))
    # a function that goes through the text one character at a time
    z, nl = IntVal(0), S.StrV(S.lit("\n"))
    part = [("line", S.Loc.l_line), ("col", S.Loc.l_col), ("pos", S.Loc.l_pos)]

    def invariants(ip, env0, keys, info):
        ints = [k for k in keys if keys[k] == S.Int]
        return [("%s of %s" % (n, i[-1]), lambda e, k=k, i=i, get=get:
                 e[k] == z3.simplify(get(want(s, e[i]))))
                for k in ints for i in ints for n, get in part]

    def step(ip, env, env0):
        out = []
        for k in env:
            if env[k].sort() == S.Int:
                i = env[k]
                there = S.eqv(S.sget(s, i), nl)
                out += [Implies(And(0 <= i, i < S.slen(s)), And(
                    S.NL(s, z, i + 1) == S.NL(s, z, i) + If(there, 1, 0),
                    S.LNL(s, i + 1) == If(there, i, S.LNL(s, i)))),
                    S.NL(s, z, z) == 0, S.LNL(s, z) == -1]
        return out
    run.hooks.cand_fns.append(invariants)
    run.hooks.fact_fns.append(step)
    for l in (LOC0, want(s, q0)):
        for o in ip.explore(lambda: ip.call(f, [l, s, q]), st):
            nm = "get_loc(%s)" % ("start" if l is LOC0 else "earlier")
            if o.kind != "normal":
                run.fail(nm, "raises %s" % o.exc, path_of(o))
                continue
            ip.st = o.st.copy()
            for lo in (IntVal(0), q0):
                for fct in run.hooks.nl_facts(ip, s, lo, q):
                    ip.assume(fct)
            for fct in run.hooks.nl_facts(ip, s, IntVal(0), q0):
                ip.assume(fct)
            got = ip.to_loc(o.val)
            run.prove(nm, got == want(s, q), path_of(o))
    ip.st = State()
    return run
