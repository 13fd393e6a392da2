"""The parser contract: clauses every parse function guarantees and relies on.

A clause is one formula about a call (stream, pos, ctx, ins, rem), the strict
outcome f and the outcome g with recovery enabled, or about one repair of g.
The same formula is assumed for sub-parsers (rely) and proved of every
combinator and primitive (guarantee).
"""
import z3
from z3 import And, If, Implies, IntVal, Not, Or

from . import sorts as S
from .interp import Hooks
from .values import *

Q = z3.Const("Q", S.Int)          # an arbitrary input position (budget)


class Call:
    def __init__(self, s, pos, ctx, ins=None, rn=None, rem=None):
        self.s, self.pos, self.ctx, self.ins, self.rn, self.rem = s, pos, ctx, ins, rn, rem
        self.gl = S.Ctx.c_gl(ctx)

    def pre(self):
        fs = [self.pos >= 0, self.pos <= S.slen(self.s),
              S.vlow(self.gl, self.s, S.Ctx.c_loc(self.ctx)) <= self.pos]
        if self.ins is not None:
            fs += [self.ins >= 0, Or(self.rn, And(self.rem >= 0, self.rem <= self.ins))]
        return And(*fs)


class TView:
    """View of a result given by its term."""

    def __init__(self, t):
        self.t = t
        self.kind = S.kind(t)
        self.val, self.pos, self.ctx = S.r_val(t), S.r_pos(t), S.r_ctx(t)
        self.exp, self.cons, self.loc = S.r_exp(t), S.r_cons(t), S.r_loc(t)
        self.mpn, self.mp = S.r_mpn(t), S.r_mp(t)
        self.nreps = S.n_reps(t)


class TRep:
    def __init__(self, t, i):
        self.cost, self.prn, self.prio, self.ins = (S.p_cost(t, i), S.p_prn(t, i),
                                                    S.p_prio(t, i), S.p_ins(t, i))
        self.val, self.pos, self.ctx = S.p_val(t, i), S.p_pos(t, i), S.p_ctx(t, i)
        self.exp, self.cons = S.p_exp(t, i), S.p_cons(t, i)
        self.nops = S.n_ops(t, i)
        z = IntVal(0)
        self.op0 = (S.o_op(t, i, z), S.o_loc(t, i, z), S.o_exp(t, i, z), S.o_cons(t, i, z))
        self.sum = S.m_sum(t, i)
        self.n = lambda q: S.m_ins(t, i, q)


# ---------------------------------------------------------------- clauses
def ok(v):
    return v.kind == 0


def err(v):
    return v.kind == 1


def rec(v):
    return v.kind == 2


def ISL(c, loc):
    return S.isl(c.gl, c.s, loc)


def VLOW(c, ctx):
    return S.vlow(S.Ctx.c_gl(ctx), c.s, S.Ctx.c_loc(ctx))


CLAUSES = {}


class Clause:
    def __init__(self, name, doc, f=None, g=None, rep=None, op=None, needs=(), skip=()):
        self.name, self.doc, self.f, self.g, self.rep, self.op = name, doc, f, g, rep, op
        self.needs, self.skip = tuple(needs), tuple(skip)
        CLAUSES[name] = self


def clause(*a, **k):
    return Clause(*a, **k)


clause("conv", "recovery succeeds exactly where strict parsing succeeds",
       g=lambda c, f, g: And(ok(f) == ok(g), Implies(f.kind == 3, g.kind == 3),
                             Implies(And(err(f), Not(f.cons), c.rn), g.kind != 3)),
       needs=("okeq", "cons0"))
clause("okeq", "a success is the same with recovery enabled",
       g=lambda c, f, g: Implies(ok(f), And(g.val == f.val, g.pos == f.pos, g.ctx == f.ctx,
                                            g.cons == f.cons)),
       needs=("conv", "cons0"))
clause("okexp", "a success has the same expected list with recovery enabled",
       g=lambda c, f, g: Implies(ok(f), g.exp == f.exp), needs=("conv", "okeq", "cons0", "errexp0"))
clause("errexp0", "where repairing is not allowed a failure that consumed nothing "
       "has the strict expected list",
       g=lambda c, f, g: Implies(And(err(f), err(g), c.rn, Not(f.cons)), g.exp == f.exp),
       needs=("conv", "okeq", "cons0", "okexp"))
clause("cons0", "where repairing is not allowed, consumption is as in strict parsing, "
       "and only failures that consumed input are repaired",
       g=lambda c, f, g: Implies(And(c.rn, err(f), Or(err(g), rec(g))),
                                 And(g.cons == f.cons, Implies(rec(g), g.cons))),
       needs=("conv", "okeq"))
clause("consE", "an irreparable failure counts as consumed exactly as in strict parsing",
       g=lambda c, f, g: Implies(And(err(f), err(g)), g.cons == f.cons),
       needs=("conv", "okeq", "cons0"))
clause("ops1", "every repair applies at least one operation",
       rep=lambda c, f, g, r: r.nops >= 1, needs=())
clause("bounds", "successes advance within the input and consume exactly if they advance",
       f=lambda c, f: Implies(And(c.pre(), ok(f)),
                              And(c.pos <= f.pos, f.pos <= S.slen(c.s),
                                  f.cons == (f.pos > c.pos))),
       g=lambda c, f, g: Implies(And(c.pre(), ok(g)),
                                 And(c.pos <= g.pos, g.pos <= S.slen(c.s),
                                     g.cons == (g.pos > c.pos))),
       needs=("vl",))
clause("rbounds", "repairs end within the input, not before their start, and advance if "
       "repairing was not allowed at the start",
       rep=lambda c, f, g, r: Implies(c.pre(), And(
           c.pos <= r.pos, r.pos <= S.slen(c.s), Implies(c.rn, r.pos > c.pos))),
       needs=("bounds", "vl", "cons0", "conv", "okeq", "rins"))
clause("rins", "the remaining insertion budget stays within bounds",
       rep=lambda c, f, g, r: Implies(c.pre(), And(r.ins >= 0, r.ins <= c.ins)),
       needs=("bounds", "vl", "rbounds"))
clause("mark", "the column mark is never changed",
       f=lambda c, f: Implies(ok(f), S.Ctx.c_mark(f.ctx) == S.Ctx.c_mark(c.ctx)),
       g=lambda c, f, g: Implies(ok(g), S.Ctx.c_mark(g.ctx) == S.Ctx.c_mark(c.ctx)),
       rep=lambda c, f, g, r: S.Ctx.c_mark(r.ctx) == S.Ctx.c_mark(c.ctx), needs=())
clause("vl", "contexts keep a location from which later locations can be computed",
       f=lambda c, f: Implies(And(c.pre(), ok(f)),
                              And(S.Ctx.c_gl(f.ctx) == c.gl, VLOW(c, f.ctx) <= f.pos)),
       g=lambda c, f, g: Implies(And(c.pre(), ok(g)),
                                 And(S.Ctx.c_gl(g.ctx) == c.gl, VLOW(c, g.ctx) <= g.pos)),
       rep=lambda c, f, g, r: Implies(c.pre(), And(S.Ctx.c_gl(r.ctx) == c.gl,
                                                   VLOW(c, r.ctx) <= r.pos)),
       needs=("bounds", "rbounds", "rins", "cons0", "conv", "okeq"))
clause("locs", "every reported location is the location of an input position",
       f=lambda c, f: Implies(And(c.pre(), err(f)), ISL(c, f.loc) >= c.pos),
       g=lambda c, f, g: Implies(And(c.pre(), Or(err(g), rec(g))), ISL(c, g.loc) >= c.pos),
       op=lambda c, f, g, r, o: Implies(c.pre(), ISL(c, o[1]) >= c.pos),
       needs=("vl", "bounds", "rbounds", "rins", "cons0", "conv", "okeq"))
clause("eloc", "a failure that consumed nothing is reported at its start",
       f=lambda c, f: Implies(And(c.pre(), err(f), Not(f.cons)),
                              f.loc == S.LOC(c.gl, c.s, c.pos)),
       needs=("vl", "bounds"), skip=("attempt",))
clause("first", "the first error is the strict one, repaired or not",
       g=lambda c, f, g: And(
           Implies(And(c.pre(), Or(err(g), rec(g))),
                   And(err(f), g.loc == f.loc, g.exp == f.exp, g.cons == f.cons))),
       rep=lambda c, f, g, r: Implies(c.pre(), And(
           r.nops >= 1, r.op0[1] == f.loc, r.op0[2] == f.exp, r.op0[3] == f.cons)),
       needs=("conv", "okeq", "okexp", "cons0", "errexp0", "eloc", "vl", "bounds", "ops1",
              "rbounds", "rins"),
       skip=("attempt",))
clause("cost", "the cost of a repair is the number of insertions and skipped elements",
       rep=lambda c, f, g, r: r.cost == r.sum, needs=())
clause("budget", "insertions at one position never exceed the budget",
       rep=lambda c, f, g, r: Implies(And(c.pre(), Q >= 0), And(
           r.n(Q) <= c.ins, r.n(Q) >= 0,
           Implies(r.n(Q) > 0, And(c.pos <= Q, Q <= r.pos)),
           Implies(Q == c.pos, r.n(Q) <= If(c.rn, IntVal(0), c.rem)),
           Implies(Q == r.pos, r.n(Q) + r.ins <= If(
               And(r.pos == c.pos, Not(c.rn)), c.rem, c.ins)),
           r.ins >= 0, r.ins <= c.ins,
           Implies(And(r.pos == c.pos, Not(c.rn)), r.ins <= c.rem))),
       needs=("bounds", "rbounds", "rins", "vl", "cons0", "conv", "okeq"))
clause("prio", "priorities are comparable",
       g=lambda c, f, g: Implies(And(c.pre(), rec(g)), Or(g.mpn, g.mp >= 1)),
       rep=lambda c, f, g, r: Implies(c.pre(), Or(r.prn, r.prio == 0)), needs=("vl",))


def closure(names):
    out, todo = [], list(names)
    while todo:
        n = todo.pop(0)
        if n in out:
            continue
        out.append(n)
        todo.extend(CLAUSES[n].needs)
    return [n for n in CLAUSES if n in out]


# ---------------------------------------------------------------- hooks
class ContractHooks(Hooks):
    def __init__(self, clauses=(), inject=True, attempt_free=True):
        self.clauses = [CLAUSES[n] for n in clauses]
        self.pre = "vl" in clauses      # clauses are relative to the precondition
        self.inject = inject            # LOC is injective (budget)
        self.cache = {}
        self.cand_fns = []
        self.fact_fns = []
        self.desc_facts = None
        self.mins = []

    def call_of(self, info):
        return Call(info["s"], info["pos"], info["ctx"], info.get("ins"), info.get("rn"),
                    info.get("rem"))

    def rely_result(self, ip, t, info):
        return self.memo(("res", t.get_id()), t, lambda: self.rely_result_(ip, t, info))

    def rely_rep(self, ip, t, i):
        return self.memo(("rep", t.get_id(), i.get_id()), (t, i),
                         lambda: self.rely_rep_(ip, t, i))

    def rely_op(self, ip, t, i, k):
        return self.memo(("op", t.get_id(), i.get_id(), k.get_id()), (t, i, k),
                         lambda: self.rely_op_(ip, t, i, k))

    def memo(self, key, keep, fn):
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = (fn(), keep)
        return r[0]

    def rely_result_(self, ip, t, info):
        out = []
        c = self.call_of(info)
        if not info["slow"]:
            out.append(And(S.kind(t) >= 0, S.kind(t) <= 3, S.kind(t) != 2))
            v = TView(t)
            out += self.given(c, [cl.f(c, v) for cl in self.clauses if cl.f is not None])
            if self.desc_facts is not None:
                out += self.desc_facts(ip, t, info)
            return out
        out.append(And(S.kind(t) >= 0, S.kind(t) <= 3))
        ft = S.F(info["p"], info["s"], info["pos"], info["ctx"])
        cf = Call(info["s"], info["pos"], info["ctx"])
        f, g = TView(ft), TView(t)
        out.append(And(S.kind(ft) >= 0, S.kind(ft) <= 3, S.kind(ft) != 2))
        out += self.given(cf, [cl.f(cf, f) for cl in self.clauses if cl.f is not None])
        out += self.given(c, [cl.g(c, f, g) for cl in self.clauses if cl.g is not None])
        return out

    def given(self, c, fs):
        return [Implies(c.pre(), And(*fs))] if self.pre and fs else fs

    def info_of(self, ip, t):
        x = ip.calls.get(t.get_id())
        if x is not None:
            return x[1]
        if t.decl().eq(S.G.d):
            a = t.children()
            return dict(p=a[0], s=a[1], pos=a[2], ctx=a[3], slow=True, ins=a[4], rn=a[5], rem=a[6])
        return None

    def rely_rep_(self, ip, t, i):
        info = self.info_of(ip, t)
        if info is None:
            return []
        c = self.call_of(info)
        f = TView(S.F(info["p"], info["s"], info["pos"], info["ctx"]))
        g, r = TView(t), TRep(t, i)
        rng = And(rec(g), i >= 0, i < S.n_reps(t), c.pre() if self.pre else True)
        out = [r.nops >= 0]
        for cl in self.clauses:
            if cl.rep is not None:
                out.append(Implies(rng, cl.rep(c, f, g, r)))
        return out

    def rely_op_(self, ip, t, i, k):
        info = self.info_of(ip, t)
        if info is None:
            return []
        c = self.call_of(info)
        f = TView(S.F(info["p"], info["s"], info["pos"], info["ctx"]))
        g, r = TView(t), TRep(t, i)
        o = (S.o_op(t, i, k), S.o_loc(t, i, k), S.o_exp(t, i, k), S.o_cons(t, i, k))
        rng = And(rec(g), i >= 0, i < S.n_reps(t), k >= 0, k < S.n_ops(t, i),
                  c.pre() if self.pre else True)
        return [Implies(rng, cl.op(c, f, g, r, o)) for cl in self.clauses if cl.op is not None]

    # --- locations
    def loc_facts(self, gl, s, pos):
        l = S.LOC(gl, s, pos)
        inr = And(pos >= 0, pos <= S.slen(s))
        return [Implies(inr, S.isl(gl, s, l) == pos if self.inject else S.isl(gl, s, l) >= pos),
                S.vlow(gl, s, l) <= pos]

    def gl_facts(self, ip, gl, loc, s, pos, t):
        out = [Implies(And(S.vlow(gl, s, loc) <= pos, pos >= 0, pos <= S.slen(s)),
                       t == S.LOC(gl, s, pos))]
        return out + self.loc_facts(gl, s, pos)

    # --- text
    def sw_facts(self, ip, s, x, p):
        return [Implies(And(S.sw(s, x, p), p >= 0, S.slen(x) >= 1), p + S.slen(x) <= S.slen(s)),
                S.slen(s) >= 0, S.slen(x) >= 0]

    def match_facts(self, ip, pat, s, pos):
        e = S.m_end(pat, s, pos)
        return [Implies(And(S.m_ok(pat, s, pos), pos >= 0, pos <= S.slen(s)),
                        And(e >= pos, e <= S.slen(s))),
                Implies(And(S.m_ok(pat, s, pos), Not(S.m_lgnone(pat, s, pos))),
                        And(S.lnonempty(S.m_lg(pat, s, pos)),
                            Not(S.m_gnone(pat, s, pos, S.StrV(S.m_lg(pat, s, pos))))))]

    def group_facts(self, ip, m, g):
        if g.eq(S.IntV(IntVal(0))):            # the whole match
            return [Not(S.m_gnone(m.pat, m.s, m.pos, g))]
        return []

    def nl_facts(self, ip, s, lo, hi):
        n, r = S.NL(s, lo, hi), S.RF(s, lo, hi)
        z = IntVal(0)
        return [n >= 0,
                S.NL(s, z, hi) == S.NL(s, z, lo) + n,
                S.NL(s, z, z) == 0, S.LNL(s, z) == -1,
                Implies(n == 0, And(S.LNL(s, hi) == S.LNL(s, lo), r == -1)),
                Implies(n > 0, And(S.LNL(s, hi) == r, lo <= r, r < hi)),
                S.LNL(s, lo) >= -1, S.LNL(s, lo) < If(lo > 0, lo, 1)]

    # --- loops
    def loop_candidates(self, ip, env0, keys, info):
        out = []
        for f in self.cand_fns:
            out += f(ip, env0, keys, info)
        return out

    def loop_facts(self, ip, env, env0):
        out = []
        for f in self.fact_fns:
            out += f(ip, env, env0)
        return out

    def call_desc(self, ip, f, args, kwargs):
        raise Unsupported("descriptor call")

    # --- min(list, key=...)
    def min_element(self, ip, lst, key, index=False, default=()):
        segs, src = ip.iter_segs(lst)
        if len(segs) == 1 and isinstance(segs[0], (Abs, For)) and self.simple_for(segs[0]):
            a = segs[0].src
            n = a.length()
            if not ip.decide(n > 0):
                if default:
                    return default[0]
                raise RaiseSig("IndexError" if index else "ValueError")
            k = S.fresh("argmin", S.Int)
            ip.assume(And(k >= 0, k < n), True)
            el = self.elem_at(ip, segs[0], k)
            kk = self.key_of(ip, key, el)

            # universally quantified fact, instantiated by the client
            frames = {f: dict(v) for f, v in ip.st.frames.items()}

            def forall(j):
                for f, vars_ in frames.items():
                    ip.st.frames.setdefault(f, vars_)
                e2 = self.elem_at(ip, segs[0], j)
                k2 = self.key_of(ip, key, e2)
                import ast as _ast
                le = ip.lex(_ast.LtE(), kk, k2)
                lt = ip.lex(_ast.Lt(), kk, k2)
                return Implies(And(j >= 0, j < n), And(le, Implies(j < k, lt)))
            ip.st.notes.append(("argmin", k, forall))
            return el
        if all(isinstance(s, Elem) for s in segs) and segs:
            best = ip.enter(segs[0].val)
            bk = self.key_of(ip, key, best)
            import ast as _ast
            for s in segs[1:]:
                v = ip.enter(s.val)
                vk = self.key_of(ip, key, v)
                if ip.decide(ip.lex(_ast.Lt(), vk, bk)):
                    best, bk = v, vk
            return best
        raise Unsupported("min")

    def simple_for(self, sg):
        if isinstance(sg, Abs):
            return True
        inner = sg.segs
        if len(inner) == 1 and isinstance(inner[0], Cond) and len(inner[0].alts) == 1 and \
                not inner[0].alts[0][0]:
            inner = inner[0].alts[0][2]
        return not sg.partial and len(inner) == 1 and isinstance(inner[0], Elem)

    def elem_at(self, ip, sg, j):
        if isinstance(sg, Abs):
            return ip.materialise_elem(sg.src, j)
        inner = [subst_seg(x, [(sg.idx, j)]) for x in sg.segs]
        if isinstance(inner[0], Cond):
            _, lemmas, inner = inner[0].alts[0]
            for f in lemmas:
                ip.assume(f)
        return ip.enter(inner[0].val)

    def key_of(self, ip, key, el):
        if key is None:
            raise Unsupported("min without key")
        base = ip.st
        outs = ip.explore(lambda: ip.call(key, [el]), base.copy())
        r = None
        for o in outs:
            if o.kind != "normal":
                raise Unsupported("key function raises")
            if o.st.flags != base.flags:
                raise Unsupported("key function with side effects")
            v = o.val if isinstance(o.val, tuple) else (o.val,)
            if any(x is None for x in v):
                raise Unsupported("None in a key")
            if r is None and len(outs) == 1:
                ip.st = o.st
                return v
            v = tuple(ip.to_int(x) for x in v)
            c = And(*[f for f, br in o.st.pc[len(base.pc):] if br])
            if r is None:
                r = v
            elif len(r) != len(v):
                raise Unsupported("key function")
            else:
                r = tuple(If(c, x, y) for x, y in zip(v, r))
        if r is None:
            raise Unsupported("key function")
        return r
