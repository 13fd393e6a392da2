"""The parser constructors under contract."""
import z3

from . import sorts as S
from .interp import canon_ctx
from .values import *

P, P2, P3 = z3.Const("P", S.V), z3.Const("P2", S.V), z3.Const("P3", S.V)
FN = z3.Const("FN", S.V)
X = z3.Const("X", S.V)
PAT = z3.Const("PAT", S.V)
LBL = z3.Const("LBL", S.L)
DELTA = z3.Const("DELTA", S.Int)
PSELF = z3.Const("Pself", S.V)

TARGETS = {}


class Target:
    def __init__(self, name, fn, modes=("fast", "none", "rem"), composite=False):
        self.name, self.fn, self.modes, self.composite = name, fn, modes, composite
        self.pself = PSELF
        TARGETS[name] = self

    def wants(self, m):
        return m in self.modes

    def setup(self, run):
        pass

    def begin(self, run, o):
        pass

    def build(self, ip):
        p = self.fn(ip)
        return fns_of(ip, p)


def fns_of(ip, p):
    """(fast, slow) parse functions of a parser object, as a combinator gets them"""
    fns = ip.call(ip.get_attr(p, "to_fns"), [])
    return ip.get_attr(fns, "fast_fn"), ip.get_attr(fns, "fn")


def api(mod, name):
    def f(ip, *args, **kw):
        return ip.call(ip.glob(mod, name), list(args), kw)
    return f


PM = "reparsec.parser"


class Rep:
    """Recursive specification of where a repetition that has accumulated some values stops
    consuming; elem(st, pos, ctx, canon) describes one application:
    (goes on, end position, end context, value)."""

    def __init__(self, name, elem):
        self.elem = elem
        if name == "":
            self.fs = S.XP, S.XC, S.XA
        else:
            self.fs = [S.Function(f + name, S.V, S.V, S.Int, S.Ctx, S.SV, r)
                       for f, r in (("XP", S.Int), ("XC", S.Ctx), ("XA", S.SV))]

    def terms(self, st, pos, ctx, acc, canon):
        if canon:
            ctx = canon_ctx(st, pos, ctx)
        return [f(P, st, pos, ctx, acc) for f in self.fs]

    def unfold(self, st, pos, ctx, acc, canon):
        """Defining equations."""
        if canon:
            ctx = canon_ctx(st, pos, ctx)
        go, p, c, v = self.elem(st, pos, ctx, canon)
        here = self.terms(st, pos, ctx, acc, False)
        nxt = self.terms(st, p, c, S.cat(acc, z3.Unit(v)), canon)
        return ([z3.Implies(go, x == y) for x, y in zip(here, nxt)] +
                [z3.Implies(z3.Not(go), x == y) for x, y in zip(here, (pos, ctx, acc))])

    def keys(self, keys):
        return [(i, c, q) for i in keys if keys[i] == S.Int
                for c in keys if keys[c] == S.Ctx
                for q in keys if keys[q] == S.SV]

    def cands(self, ip, env0, keys, info):
        out = []
        st = ip.streams["s"]
        for i, c, q in self.keys(keys):
            t0 = self.terms(st, env0[i], env0[c], env0[q], ip.canon)
            out.append(("spec(%s,%s)" % (i[-1], c[-1]),
                        lambda e, i=i, c=c, q=q, t0=t0: z3.And(*[
                            x == y for x, y in zip(
                                self.terms(st, e[i], e[c], e[q], ip.canon), t0)])))
        return out

    def facts(self, ip, env, env0):
        out = []
        st = ip.streams["s"]
        keys = {k: v.sort() for k, v in env.items()}
        for i, c, q in self.keys(keys):
            for e in (env, env0):
                out += self.unfold(st, e[i], e[c], e[q], ip.canon)
                _, p, cx, v = self.elem(st, e[i], canon_ctx(st, e[i], e[c]) if ip.canon
                                        else e[c], ip.canon)
                out += self.unfold(st, p, cx, S.cat(e[q], z3.Unit(v)), ip.canon)
        return out


def one(st, pos, ctx, canon):
    r = S.F(P, st, pos, ctx)
    return z3.And(S.kind(r) == 0, S.r_cons(r)), S.r_pos(r), S.r_ctx(r), S.r_val(r)


def two(first, second, merge):
    """an application of two parsers in sequence"""
    def f(st, pos, ctx, canon):
        a = S.F(first, st, pos, ctx)
        c = S.r_ctx(a)
        b = S.F(second, st, S.r_pos(a), canon_ctx(st, S.r_pos(a), c) if canon else c)
        return (z3.And(S.kind(a) == 0, S.kind(b) == 0, z3.Or(S.r_cons(a), S.r_cons(b))),
                S.r_pos(b), S.r_ctx(b), merge(S.r_val(a), S.r_val(b)))
    return f


class ManyTarget(Target):
    """Repetition: tied to its recursive specification."""

    def __init__(self, name, fn, rep, **kw):
        super().__init__(name, fn, **kw)
        self.rep = rep

    def setup(self, run):
        if self.rep is not MANY:
            abstract_seqs(run)
        run.hooks.cand_fns.append(self.rep.cands)
        run.hooks.fact_fns.append(self.rep.facts)


# sequences of two abstract parsers, known by their contract (proved of seq, seql, seqr)
SEQK = S.Function("SEQK", S.Int, S.V, S.V, S.V)
MERGES = {"seq": lambda a, b: S.TupV(S.units([a, b], S.SV)), "seql": lambda a, b: a,
          "seqr": lambda a, b: b}
MERGE_IDS = {n: z3.IntVal(i) for i, n in enumerate(sorted(MERGES))}


def abstract_seqs(run):
    """constructing such a sequence gives an abstract parser with that contract"""
    def handler(name):
        def h(ip, f, args, kwargs):
            if kwargs or len(args) != 2 or ip.spec or not all(
                    isinstance(a, z3.ExprRef) and a.sort() == S.V for a in args):
                return None
            return SEQK(MERGE_IDS[name], *args)
        return h
    for n in MERGES:
        for m in ("reparsec.parser", "reparsec.core.combinators"):
            run.ip.intercept[(m, n)] = handler(n)
    run.hooks.desc_facts = seq_facts


def seq_facts(ip, t, info):
    """what a sequence does without recovery, by the rules proved of the constructors"""
    p = info["p"]
    if info["slow"] or not p.decl().eq(SEQK.d):
        return []
    name = sorted(MERGES)[p.arg(0).as_long()]
    st, i, c = info["s"], info["pos"], info["ctx"]
    a = S.F(p.arg(1), st, i, c)
    ca = S.r_ctx(a)
    b = S.F(p.arg(2), st, S.r_pos(a), canon_ctx(st, S.r_pos(a), ca) if ip.canon else ca)
    ka, kb, k = S.kind(a), S.kind(b), S.kind(t)
    exp = z3.If(S.r_cons(b), S.r_exp(b), z3.Concat(S.r_exp(a), S.r_exp(b)))
    cons = z3.Or(S.r_cons(a), S.r_cons(b))
    x, y = S.r_ctx(t), S.r_ctx(b)
    return [
        k == z3.If(ka == 0, kb, ka),
        z3.Implies(ka == 1, z3.And(S.r_loc(t) == S.r_loc(a), S.r_exp(t) == S.r_exp(a),
                                   S.r_cons(t) == S.r_cons(a))),
        z3.Implies(z3.And(ka == 0, z3.Or(kb == 0, kb == 1)),
                   z3.And(S.r_exp(t) == exp, S.r_cons(t) == cons)),
        z3.Implies(z3.And(ka == 0, kb == 1), S.r_loc(t) == S.r_loc(b)),
        z3.Implies(z3.And(ka == 0, kb == 0), z3.And(
            S.r_val(t) == MERGES[name](S.r_val(a), S.r_val(b)), S.r_pos(t) == S.r_pos(b),
            S.Ctx.c_mark(x) == S.Ctx.c_mark(y), S.Ctx.c_gl(x) == S.Ctx.c_gl(y)))]


MANY = Rep("", one)
SEPS = Rep("s", two(P2, P, lambda a, b: b))
OPS = Rep("o", two(P2, P, lambda a, b: S.TupV(S.units([a, b], S.SV))))


def t(name, mod, fname, *args, **kw):
    return Target(name, lambda ip: api(mod, fname)(ip, *args), **kw)


t("fmap", PM, "fmap", P, FN)
t("alt", PM, "alt", P, P2)
t("bind", PM, "bind", P, FN)
t("seq", PM, "seq", P, P2)
t("seql", PM, "seql", P, P2)
t("seqr", PM, "seqr", P, P2)
t("maybe", PM, "maybe", P)
ManyTarget("many", lambda ip: api(PM, "many")(ip, P), MANY)
t("attempt", PM, "attempt", P)
t("label", PM, "label", P, LBL)
t("recover", PM, "recover", P)
t("recover_with", PM, "recover_with", P, X, None)
t("recover_with_l", PM, "recover_with", P, X, LBL)
t("recover_with_fn", PM, "recover_with_fn", P, FN, None)
t("recover_with_fn_l", PM, "recover_with_fn", P, FN, LBL)
t("eof", "reparsec.sequence", "eof")
t("satisfy", "reparsec.sequence", "satisfy", FN)
t("sym", "reparsec.sequence", "sym", X, None)
t("sym_l", "reparsec.sequence", "sym", X, LBL)
t("literal", "reparsec.scannerless", "literal", X)
TARGETS["literal"].texts = (X,)
t("regexp", "reparsec.scannerless", "regexp", PAT, X)
t("block", "reparsec.layout", "block", P)
t("aligned", "reparsec.layout", "aligned", P)
t("indented", "reparsec.layout", "indented", DELTA, P)
t("pure", "reparsec.primitive", "Pure", X)
t("pure_fn", "reparsec.primitive", "PureFn", FN)
t("unexpected", "reparsec.primitive", "unexpected", LBL)


# ------------------------------------------------------------------ tuples
PT = z3.Const("PT", S.V)          # a parser of tuples of k values


class Stand:
    """A parser object of the class that an API call returned, about which nothing is
    known but its parse functions (those of the parser `term`)."""

    def __init__(self, cls, term):
        self.cls, self.term = cls, term


def tuple_class(ip, k):
    """class of the parser of tuples of k values"""
    q = ip.call(ip.get_attr(P, "then"), [P2])
    for _ in range(k - 2):
        q = ip.call(ip.get_attr(stand(ip, q), "then"), [P2])
    return ip.cell(q).cls


def stand(ip, q):
    return ip.alloc(Obj(ip.cell(q).cls, {"parse_fast_fn": AbsFn(PT, False),
                                         "parse_fn": AbsFn(PT, True),
                                         "to_fns": Builtin("to_fns", lambda ip, a, k: PT)}))


def then_k(k):
    def f(ip):
        if k == 2:
            return ip.call(ip.get_attr(P, "then"), [P2])
        r = ip.alloc(Obj(tuple_class(ip, k - 1), {}))
        return ip.call(ip.get_attr(stand(ip, r), "then"), [P2])
    return f


def apply_k(k):
    def f(ip):
        r = ip.alloc(Obj(tuple_class(ip, k), {}))
        return ip.call(ip.get_attr(stand(ip, r), "apply"), [FN])
    return f


for _k in range(2, 9):
    Target("then%d" % _k, then_k(_k))
    Target("apply%d" % _k, apply_k(_k))


# ------------------------------------------------------------------ parser objects
class MethodsTarget(Target):
    """the parse_fn and parse_fast_fn methods of a parser object"""

    def build(self, ip):
        p = self.fn(ip)
        return ip.get_attr(p, "parse_fast_fn"), ip.get_attr(p, "parse_fn")


MethodsTarget("object", lambda ip: ip.call(ip.glob(PM, "FnParser"), [P]))
Target("object_fns", lambda ip: ip.call(ip.glob(PM, "FnParser"), [P]))
for _k in range(2, 9):
    MethodsTarget("tuple%d" % _k, lambda ip, k=_k: ip.call(tuple_class(ip, k), [P]))
    Target("tuple%d_fns" % _k, lambda ip, k=_k: ip.call(tuple_class(ip, k), [P]))
MethodsTarget("pure_object", lambda ip: api("reparsec.primitive", "Pure")(ip, X))
MethodsTarget("pure_fn_object", lambda ip: api("reparsec.primitive", "PureFn")(ip, FN))


# ------------------------------------------------------------------ Delay


class DelayTarget(Target):
    """functions of a Delay defined as P, obtained before or after the definition"""

    def __init__(self, name, before, methods):
        self.before, self.methods = before, methods
        super().__init__(name, None)

    def get(self, ip, d):
        if self.methods:
            return ip.get_attr(d, "parse_fast_fn"), ip.get_attr(d, "parse_fn")
        return fns_of(ip, d)

    def build(self, ip):
        d = ip.call(ip.glob(PM, "Delay"), [])
        if self.before:
            fns = self.get(ip, d)
        ip.call(ip.get_attr(d, "define"), [P])
        return fns if self.before else self.get(ip, d)


for _b in (True, False):
    for _m in (True, False):
        DelayTarget("delay_%s%s" % ("before" if _b else "after", "_object" if _m else ""), _b, _m)


# ------------------------------------------------------------------ composites
# left- and right-associative application of operators to operands; q holds
# (operator, operand) pairs, or (operand, operator) pairs for UNW
FL = S.Function("FL", S.SV, S.V, S.V)
FR = S.Function("FR", S.SV, S.V, S.V)
UNW = S.Function("UNW", S.SV, S.V, S.V)


def part(x, i):
    return S.untup(x)[z3.IntVal(i)]


def app2(f, a, b):
    return S.apps(f, S.units([a, b], S.SV))


def fold_unfold(q, r):
    """Defining equations of FL, FR, UNW for one pair of arguments."""
    n = z3.Length(q)
    x, tail = q[z3.IntVal(0)], z3.Extract(q, z3.IntVal(1), n - 1)
    y, init = q[n - 1], z3.Extract(q, z3.IntVal(0), n - 1)
    return [z3.Implies(n == 0, z3.And(FL(q, r) == r, FR(q, r) == r, UNW(q, r) == r)),
            z3.Implies(n > 0, z3.And(
                FL(q, r) == FL(tail, app2(part(x, 0), r, part(x, 1))),
                FR(q, r) == app2(part(x, 0), r, FR(tail, part(x, 1))),
                UNW(q, r) == UNW(init, app2(part(y, 1), part(y, 0), r))))]


class ChainTarget(ManyTarget):
    def setup(self, run):
        super().setup(run)
        run.hooks.cand_fns.append(self.folds)
        run.hooks.fact_fns.append(self.fold_facts)

    def rests(self, ip, keys, env):
        return [f for _, _, f in ip.rest_views(keys)[0] if f(env).sort() == S.SV]

    def folds(self, ip, env0, keys, info):
        out = []
        vs = [k for k in keys if keys[k] == S.V]
        lists = [k for k in keys if keys[k] == S.SV and k[-1] != "$rest"]
        rests = self.rests(ip, keys, env0)
        for r in vs:
            for q in rests:
                for f in (FL, UNW):
                    out.append(("%s(%s)" % (f, r[-1]), lambda e, q=q, r=r, f=f:
                                f(q(e), e[r]) == f(q(env0), env0[r])))
                for a in lists:
                    out.append(("UNW(%s,FR(%s))" % (a[-1], r[-1]), lambda e, q=q, r=r, a=a:
                                UNW(e[a], FR(q(e), e[r])) ==
                                UNW(env0[a], FR(q(env0), env0[r]))))
            for a in lists:
                out.append(("UNW(%s,%s)" % (a[-1], r[-1]), lambda e, r=r, a=a:
                            UNW(e[a], e[r]) == UNW(env0[a], env0[r])))
        return out

    def fold_facts(self, ip, env, env0):
        out = []
        keys = {k: v.sort() for k, v in env.items()}
        lists = [k for k in keys if keys[k] == S.SV and k[-1] != "$rest"]
        rests = self.rests(ip, keys, env0)
        for r in [k for k in keys if keys[k] == S.V]:
            for e in (env, env0):
                for a in lists:
                    out += fold_unfold(e[a], e[r])
                for q in [f(e) for f in rests]:
                    out += fold_unfold(q, e[r])
                    for a in lists:
                        out += fold_unfold(e[a], FR(q, e[r]))
                        # one more operand is set aside
                        n = z3.Length(q)
                        x = q[z3.IntVal(0)]
                        y = FR(z3.Extract(q, z3.IntVal(1), n - 1), part(x, 1))
                        t = S.TupV(S.units([e[r], part(x, 0)], S.SV))
                        out.append(z3.Implies(n > 0, UNW(S.cat(e[a], z3.Unit(t)), y) ==
                                   UNW(e[a], app2(part(x, 0), e[r], y))))
        return out


t("between", PM, "between", P2, P3, P)
ManyTarget("sep_by", lambda ip: api(PM, "sep_by")(ip, P, P2), SEPS)
ChainTarget("chainl1", lambda ip: api(PM, "chainl1")(ip, P, P2), OPS)
ChainTarget("chainr1", lambda ip: api(PM, "chainr1")(ip, P, P2), OPS)

KIND, INSV = z3.Const("KIND", S.L), z3.Const("INSV", S.V)
CLASSES = {"letter": "isalpha", "digit": "isdigit"}
for _n in CLASSES:
    Target(_n, lambda ip, n=_n: ip.glob("reparsec.sequence", n))
t("token", "reparsec.lexer", "token", KIND)
t("token_ins", "reparsec.lexer", "token_ins", KIND, INSV)


class DelayTwice(DelayTarget):
    """a second definition is refused and changes nothing"""

    def __init__(self, name, before, methods, second):
        self.second = second
        super().__init__(name, before, methods)

    def build(self, ip):
        d = ip.call(ip.glob(PM, "Delay"), [])
        if self.before:
            fns = self.get(ip, d)
        ip.call(ip.get_attr(d, "define"), [P])
        try:
            ip.call(ip.get_attr(d, "define"), [self.second(ip, d)])
        except RaiseSig as e:
            if e.name != "RuntimeError":
                raise Unsupported("a second define raises %s" % e.name)
        else:
            raise Unsupported("a second define is accepted")
        return fns if self.before else self.get(ip, d)


class DelayChain(DelayTarget):
    """defined as a Delay that is defined later"""

    def build(self, ip):
        d = ip.call(ip.glob(PM, "Delay"), [])
        e = ip.call(ip.glob(PM, "Delay"), [])
        if self.before:
            fns = self.get(ip, d)
        ip.call(ip.get_attr(d, "define"), [e])
        ip.call(ip.get_attr(e, "define"), [P])
        return fns if self.before else self.get(ip, d)


DELAYS = ["delay_before", "delay_after", "delay_before_object", "delay_after_object"]
SECONDS = {"other": lambda ip, d: P2, "same": lambda ip, d: P, "itself": lambda ip, d: d,
           "undefined": lambda ip, d: ip.call(ip.glob(PM, "Delay"), [])}
for _b in (True, False):
    for _m in (True, False):
        _s = "%s%s" % ("before" if _b else "after", "_object" if _m else "")
        for _n in SECONDS:
            DelayTwice("delay_twice_%s_%s" % (_n, _s), _b, _m, SECONDS[_n])
            DELAYS.append("delay_twice_%s_%s" % (_n, _s))
        DelayChain("delay_chain_%s" % _s, _b, _m)
        DELAYS.append("delay_chain_%s" % _s)
