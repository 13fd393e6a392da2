"""Proves outcomes of the real code equal to the reference semantics."""
import z3
from z3 import And, Implies, IntVal, Not, Or

from . import sorts as S
from .contracts import Call, ContractHooks
from .interp import Interp, State, _ids, canon_ctx
from .prove import INTRINSICS, CView, Ob, Run, brief, elems, ins, list_segs, opt, path_of, pos, rem, s, ctx
from .targets import (CLASSES, DELAYS, DELTA, FN, LBL, P, P2, P3, PAT, PSELF, PT, TARGETS, X, FL, FR, INSV, KIND, MANY, OPS, SEPS,
                      fold_unfold)
from .values import *

RELY = ("conv", "okeq", "cons0", "bounds", "rbounds", "rins", "mark", "vl", "prio")


# ------------------------------------------------------------------ intrinsics
def i_matches(ip, pat, group, st, at):
    g, at = ip.to_V(group), ip.to_int(at)
    for f in ip.hooks.match_facts(ip, pat, st, at):
        ip.assume(f)
    if not ip.decide(S.m_ok(pat, st, at)):
        return (False, None, None)
    if ip.decide(S.m_gnone(pat, st, at, g)):
        return (False, None, None)
    v = S.m_group(pat, st, at, g)
    ip.assume(v != S.NoneV)
    return (True, v, S.m_end(pat, st, at))


def i_loc_at(ip, c, st, at):
    at = ip.to_int(at)
    gl = S.Ctx.c_gl(c)
    for f in ip.hooks.loc_facts(gl, st, at):
        ip.assume(f)
    return S.LOC(gl, st, at)


INTRINSICS.update({
    "insert": lambda ip, l: S.Op.Insert(ip.to_L(l)),
    "skip": lambda ip, n: S.Op.Skip(ip.to_int(n)),
    "item": lambda ip, st, i: S.sget(st, ip.to_int(i)),
    "length": lambda ip, x: ip.length(x),
    "loc_at": i_loc_at,
    "mark_of": lambda ip, c: S.Ctx.c_mark(c),
    "col_of": lambda ip, l: S.Loc.l_col(l),
    "with_mark": lambda ip, c, m: S.Ctx.mk_ctx(ip.to_int(m), S.Ctx.c_loc(c), S.Ctx.c_gl(c)),
    "starts": lambda ip, st, x, i: S.sw(st, x, ip.to_int(i)),
    "matches": i_matches,
    "text_of": lambda ip, x: ip.to_L(ip.fmt(x, "r")),
})


# ------------------------------------------------------------------ comparison
class Cmp:
    """Compares an outcome of the code with the outcome of the reference."""

    def __init__(self, run, name, fields, where):
        self.run, self.ip, self.name, self.fields, self.where = run, run.ip, name, fields, where

    def prove(self, what, formula):
        return self.run.prove("%s/%s" % (self.name, what), formula, self.where)

    def fail(self, what, detail):
        self.run.obs.append(Ob("%s/%s" % (self.name, what), False, detail, self.where))

    def ctxs(self, what, a, b):
        self.prove(what, And(S.Ctx.c_mark(a) == S.Ctx.c_mark(b), S.Ctx.c_gl(a) == S.Ctx.c_gl(b)))

    def outcomes(self, a, b):
        fl = self.fields
        ip = self.ip
        if a.k() != b.k():
            self.fail("outcome", "the code %s where the reference %s" % (
                KINDNAME[a.k()], KINDNAME[b.k()]))
            return
        if a.k() == 3:
            self.run.obs.append(Ob("%s/exception" % self.name, a.exc == b.exc,
                                   "raises %s, expected %s" % (a.exc, b.exc), self.where))
            return
        if a.k() == 0:
            if "value" in fl:
                self.prove("value", a.val == b.val)
            if "pos" in fl:
                self.prove("end position", a.pos == b.pos)
            if "ctx" in fl:
                self.ctxs("end context", a.ctx, b.ctx)
        elif "loc" in fl:
            self.prove("location", a.loc == b.loc)
        elif "cloc" in fl:
            self.prove("location", Implies(b.cons, a.loc == b.loc))
        if "exp" in fl:
            self.prove("expected list", a.exp == b.exp)
        if "cons" in fl:
            self.prove("consumption", a.cons == b.cons)
        if a.k() == 2 and ("repairs" in fl or "oploc" in fl):
            self.lists("repairs", list_segs(ip, a.repairs), list_segs(ip, b.repairs), self.repair)
        elif a.k() == 0 or a.k() == 1:
            self.prove("outcome", z3.BoolVal(True))

    # --- lists
    def lists(self, what, A, B, cmp):
        ip = self.ip
        A, B = list(A), list(B)
        st0 = ip.st
        for side in (0, 1):
            L = (A, B)[side]
            if L and isinstance(L[0], Cond):
                n = 0
                for facts, lemmas, inner in L[0].alts:
                    ip.st = st0.copy()
                    for f in list(lemmas) + list(facts):
                        ip.assume(f)
                    if ip.feasible(z3.BoolVal(True)):
                        n += 1
                        L2 = list(inner) + L[1:]
                        self.lists(what, L2 if side == 0 else A, B if side == 0 else L2, cmp)
                    ip.st = st0
                return
        if not A and not B:
            return
        if A and B:
            a, b = A[0], B[0]
            if isinstance(a, Elem) and isinstance(b, Elem):
                ip.st = st0.copy()
                cmp(what, ip.enter(a.val), ip.enter(b.val))
                ip.st = st0
                return self.lists(what, A[1:], B[1:], cmp)
            if isinstance(a, (Abs, For)) and isinstance(b, (Abs, For)) and \
                    self.same_src(a.src, b.src):
                if isinstance(a, Abs) and isinstance(b, Abs) and a.src.eq(b.src):
                    return self.lists(what, A[1:], B[1:], cmp)
                if getattr(a, "partial", False) or getattr(b, "partial", False):
                    raise Unsupported("partial loop")
                ip.st = st0.copy()
                i = S.fresh("e", S.Int)
                ip.assume(And(i >= 0, i < a.src.length()))
                self.lists(what, self.inner(a, i), self.inner(b, i), cmp)
                ip.st = st0
                return self.lists(what, A[1:], B[1:], cmp)
        # one side may be empty
        for side in (0, 1):
            L = (A, B)[side]
            if L and isinstance(L[0], (Abs, For)) and ip.valid(L[0].src.length() == 0):
                return self.lists(what, A[1:] if side == 0 else A, B if side == 0 else B[1:], cmp)
        if ip.feasible(z3.BoolVal(True)):
            self.fail(what, "the lists differ: code %s, reference %s" % (show(A), show(B)))

    def inner(self, seg, i):
        ip = self.ip
        if isinstance(seg, Abs):
            return [Elem(ip.materialise_elem(seg.src, i))]
        return [subst_seg(x, [(seg.idx, i)]) for x in seg.segs]

    def same_src(self, a, b):
        if a.kind != b.kind:
            return False
        return self.ip.valid(And(a.t == b.t, True if a.i is None else a.i == b.i))

    def repair(self, what, ra, rb):
        ip = self.ip
        fa, fb = ip.cell(ra).fields, ip.cell(rb).fields
        if "repairs" not in self.fields:
            self.ctxs("repair end context", ip.to_ctx(fa["ctx"]), ip.to_ctx(fb["ctx"]))
            self.lists("repair operations", list_segs(ip, fa["ops"]), list_segs(ip, fb["ops"]),
                       self.oper)
            return
        self.prove("repair cost", ip.to_int(fa["cost"]) == ip.to_int(fb["cost"]))
        (an, av), (bn, bv) = opt(ip, fa["prio"]), opt(ip, fb["prio"])
        self.prove("repair priority", And(an == bn, Or(an, av == bv)))
        self.prove("repair budget", ip.to_int(fa["ins"]) == ip.to_int(fb["ins"]))
        self.prove("repair value", ip.to_V(fa["value"]) == ip.to_V(fb["value"]))
        self.prove("repair end position", ip.to_int(fa["pos"]) == ip.to_int(fb["pos"]))
        self.ctxs("repair end context", ip.to_ctx(fa["ctx"]), ip.to_ctx(fb["ctx"]))
        self.prove("repair expected list", ip.to_E(fa["expected"]) == ip.to_E(fb["expected"]))
        self.prove("repair consumption",
                   ip.to_bool_term(fa["consumed"]) == ip.to_bool_term(fb["consumed"]))
        self.lists("repair operations", list_segs(ip, fa["ops"]), list_segs(ip, fb["ops"]),
                   self.oper)

    def oper(self, what, oa, ob):
        ip = self.ip
        fa, fb = ip.cell(oa).fields, ip.cell(ob).fields
        if "repairs" not in self.fields:
            self.prove("operation location", ip.to_loc(fa["loc"]) == ip.to_loc(fb["loc"]))
            return
        self.prove("operation", fa["op"] == fb["op"])
        self.prove("operation location", ip.to_loc(fa["loc"]) == ip.to_loc(fb["loc"]))
        self.prove("operation expected list", ip.to_E(fa["expected"]) == ip.to_E(fb["expected"]))
        self.prove("operation consumption",
                   ip.to_bool_term(fa["consumed"]) == ip.to_bool_term(fb["consumed"]))


KINDNAME = {0: "succeeds", 1: "fails", 2: "is repaired", 3: "raises"}


def show(L):
    return "[%s]" % ", ".join(
        type(x).__name__ + (" %s" % str(x.src)[:80] if hasattr(x, "src") else "") for x in L)


# ------------------------------------------------------------------ running
def spec(ip, name, *args):
    return ip.call(ip.glob("refspec", name), list(args))


class ExactRun(Run):
    def __init__(self, pkg, target, spec_fast, spec_slow, fields, modes, timeout=8000,
                 hooks=None):
        self.want_modes = modes
        self.spec_fast, self.spec_slow, self.fields = spec_fast, spec_slow, fields
        hooks = hooks or ContractHooks(RELY)
        acc = ACCEPT.get(target.name)
        if acc is not None:
            hooks.cand_fns.append(lambda *a: scan_cands(acc, *a))
            hooks.fact_fns.append(lambda ip, env, env0: scan_facts(acc, env, env0))
        super().__init__(pkg, target, hooks, timeout, canon=True, modes=modes)
        self.prove_frame()
        self.compare()

    def compare(self):
        ip = self.ip
        for kind, o, res in self.cases:
            if kind == "raise":
                continue
            for mode in self.want_modes:
                st = o.st.copy()
                if ip.hooks.pre and mode != "fast":
                    st.pc.append((Call(s, pos, ctx, ins, z3.BoolVal(mode == "none"),
                                       IntVal(0) if mode == "none" else rem).pre(), False))
                args = [s, pos, ctx]
                if mode != "fast":
                    args += [ins, None if mode == "none" else rem]
                f = self.spec_fast if mode == "fast" else self.spec_slow
                ip.spec = True
                try:
                    outs = ip.explore(lambda: f(self, ip, *args), st)
                    bviews = [(CView(ip, y), y) for y in outs]
                finally:
                    ip.spec = False
                for x in res[mode]:
                    av = CView(ip, x)
                    n = 0
                    for bv, y in bviews:
                        ip.st = x.st.copy()
                        ip.st.heap = dict(y.st.heap)
                        ip.st.heap.update(x.st.heap)
                        for e in y.st.pc:
                            if e not in ip.st.pc:
                                ip.st.pc.append(e)
                        self.instantiate(x.st.notes + y.st.notes)
                        if not ip.feasible(z3.BoolVal(True)):
                            continue
                        n += 1
                        c = Cmp(self, "%s/exact/%s" % (self.target.name, mode), self.fields,
                                "%s | %s" % (path_of(x), path_of(y)))
                        ip.spec = True
                        try:
                            c.outcomes(av, bv)
                        finally:
                            ip.spec = False
                    self.obs.append(Ob("%s/exact/%s/cover" % (self.target.name, mode), n > 0,
                                       "no outcome of the reference corresponds", path_of(x)))


    def instantiate(self, notes):
        """what holds of every element of a list holds of the one a loop stopped at"""
        ip = self.ip
        ns = [n for n in notes if isinstance(n, tuple)]
        for a in [n for n in ns if n[0] == "idx"]:
            for b in [n for n in ns if n[0] == "each"]:
                if a[1].kind == b[1].kind:
                    same = a[1].t == b[1].t
                    if a[1].i is not None:
                        same = And(same, a[1].i == b[1].i)
                    ip.assume(Implies(And(same, a[2] >= 0, a[2] < a[1].length()),
                                      z3.substitute(b[3], (b[2], a[2]))))


# ------------------------------------------------------------------ references
def simple(name, *a):
    return lambda run, ip, *args: spec(ip, name, *a, *args)


def merged(name, p, q, m):
    return lambda run, ip, *args: spec(ip, name, p, q, ip.glob("refspec", m), *args)


def x_state(ip, rep, st, at, c):
    """Where the repetition that starts here stops consuming."""
    for f in rep.unfold(st, at, c, S.SV0, True):
        ip.assume(f)
    i, e, a = rep.terms(st, at, c, S.SV0, True)
    gl = S.Ctx.c_gl(c)
    # contexts are canonical by definition
    ip.assume(And(S.Ctx.c_gl(e) == gl, S.Ctx.c_loc(e) == S.LOC(gl, st, i)))
    for f in ip.hooks.loc_facts(gl, st, i):
        ip.assume(f)
    return S.ListV(a), i, e


def many_fast(run, ip, st, at, c):
    v, i, e = x_state(ip, MANY, st, at, c)
    return spec(ip, "many_end_fast", P, v, st, i, e)


def many_slow(run, ip, st, at, c, n, r):
    v, i, e = x_state(ip, MANY, st, at, c)
    return spec(ip, "many_end_slow", P, PSELF, v, st, i, e, n)


# --- nearest later position at which a primitive accepts
RPAT = S.apps(z3.Const("re_compile", S.V), S.units([PAT], S.SV))
SC_ = S.Function("Sc", S.V, S.Int, S.Int)


def matched(st, c):
    return And(S.m_ok(RPAT, st, c), Not(S.m_gnone(RPAT, st, c, X)))


ACCEPT = {
    "satisfy": lambda st, c: S.truthy(S.apps(FN, S.units([S.sget(st, c)], S.SV))),
    "sym": lambda st, c: S.eqv(S.sget(st, c), X),
    "sym_l": lambda st, c: S.eqv(S.sget(st, c), X),
    "literal": lambda st, c: S.sw(st, X, c),
    "regexp": matched,
    "letter": lambda st, c: S.STRP["isalpha"](S.sget(st, c)),
    "digit": lambda st, c: S.STRP["isdigit"](S.sget(st, c)),
    "token": lambda st, c: S.a_kind(S.sget(st, c)) == KIND,
    "token_ins": lambda st, c: S.a_kind(S.sget(st, c)) == KIND,
}


def scan_unfold(acc, st, c):
    """Defining equations: SC(c) is the first accepting position from c on,
    or the length of the input if there is none."""
    c = z3.simplify(c)
    n, SC = S.slen(st), SCAN.get(acc, SC_)
    return [Implies(And(c < n, acc(st, c)), SC(st, c) == c),
            Implies(And(c < n, Not(acc(st, c))), SC(st, c) == SC(st, c + 1)),
            Implies(c >= n, SC(st, c) == n),
            Implies(SC(st, c) < n, And(SC(st, c) >= c, acc(st, SC(st, c))))]


# str.find is such a search
SCAN = {ACCEPT["literal"]: lambda st, c: S.fsw(st, X, z3.simplify(c))}


def scan_points(env0):
    """Where a loop may have got to: positions that start at the one after pos."""
    for k in env0:
        if env0[k].sort() == S.Int:
            yield k, (lambda e, k=k: e[k]), env0[k]
            yield k, (lambda e, k=k, c0=env0[k]: z3.simplify(e[k] - c0 + pos + 1)), pos + 1


def scan_cands(acc, ip, env0, keys, info):
    SC = SCAN.get(acc, SC_)
    return [("found(%s)" % k[-1], lambda e, at=at, c0=c0: SC(s, at(e)) == SC(s, z3.simplify(c0)))
            for k, at, c0 in scan_points(env0)]


def scan_facts(acc, env, env0):
    out = []
    for k, at, _ in scan_points(env0):
        out += scan_unfold(acc, s, at(env))
    return out


def scan(name, *a):
    """the reference of a resynchronising primitive"""
    def f(run, ip, st, at, *rest):
        nx = ip.to_int(at) + 1
        acc = ACCEPT[run.target.name]
        nx, SC = z3.simplify(nx), SCAN.get(acc, SC_)
        for x in scan_unfold(acc, st, nx):
            ip.assume(x)
        found = SC(st, nx) if ip.decide(SC(st, nx) < S.slen(st)) else None
        return spec(ip, name, *a, found, st, at, *rest)
    return f


def strict(name, *a):
    """the same with and without recovery"""
    return lambda run, ip, *args: spec(ip, name, *a, *args[:3])


REF = {
    "recover": (simple("same_fast", P), simple("recover_slow", P)),
    "recover_with": (simple("same_fast", P), simple("recover_with_value_slow", P, X, None)),
    "recover_with_l": (simple("same_fast", P), simple("recover_with_value_slow", P, X, LBL)),
    "recover_with_fn": (simple("same_fast", P), simple("recover_with_slow", P, FN, None)),
    "recover_with_fn_l": (simple("same_fast", P), simple("recover_with_slow", P, FN, LBL)),
    "eof": (simple("eof_fast"), simple("eof_slow")),
    "satisfy": (simple("satisfy_fast", FN), scan("satisfy_slow", FN)),
    "sym": (simple("sym_fast", X, None), scan("sym_slow", X, None)),
    "sym_l": (simple("sym_fast", X, LBL), scan("sym_slow", X, LBL)),
    "literal": (simple("literal_fast", X), scan("literal_slow", X)),
    "regexp": (simple("regexp_fast", RPAT, X), scan("regexp_slow", RPAT, X)),
    "pure": (strict("pure_fast", X), strict("pure_fast", X)),
    "pure_fn": (strict("pure_fn_fast", FN), strict("pure_fn_fast", FN)),
    "unexpected": (strict("unexpected_fast", LBL), strict("unexpected_fast", LBL)),
    "fmap": (simple("fmap_fast", P, FN), simple("fmap_slow", P, FN)),
    "alt": (simple("alt_fast", P, P2), simple("alt_slow", P, P2)),
    "bind": (simple("bind_fast", P, FN), simple("bind_slow", P, FN)),
    "seq": (merged("seq_fast", P, P2, "pair"), merged("seq_slow", P, P2, "pair")),
    "seql": (merged("seq_fast", P, P2, "left"), merged("seq_slow", P, P2, "left")),
    "seqr": (merged("seq_fast", P, P2, "right"), merged("seq_slow", P, P2, "right")),
    "maybe": (simple("maybe_fast", P), simple("maybe_slow", P)),
    "many": (many_fast, many_slow),
    "attempt": (simple("attempt_fast", P), simple("attempt_slow", P)),
    "label": (simple("label_fast", P, LBL), simple("label_slow", P, LBL)),
    "block": (simple("block_fast", P), simple("block_slow", P)),
    "aligned": (simple("aligned_fast", P), simple("aligned_slow", P)),
    "indented": (simple("indented_fast", DELTA, P), simple("indented_slow", DELTA, P)),
}

SAME = (simple("same_fast", P), simple("same_slow", P))
for _k in range(2, 9):
    _m = ("pair", P) if _k == 2 else ("snoc", PT)
    REF["then%d" % _k] = (merged("seq_fast", _m[1], P2, _m[0]),
                          merged("seq_slow", _m[1], P2, _m[0]))
    REF["apply%d" % _k] = (simple("apply_fast", PT, FN), simple("apply_slow", PT, FN))
    REF["tuple%d" % _k] = REF["tuple%d_fns" % _k] = SAME
for _n in ["object", "object_fns"] + DELAYS:
    REF[_n] = SAME
REF["pure_object"], REF["pure_fn_object"] = REF["pure"], REF["pure_fn"]


def repeated(rep):
    """intrinsic: (values, position, context) where the repetition stops consuming"""
    def f(ip, st, at, c):
        return x_state(ip, rep, st, ip.to_int(at), ip.to_ctx(c))
    return f


INTRINSICS["items_after"] = repeated(SEPS)
INTRINSICS["operations_after"] = repeated(OPS)
REF["between"] = (simple("between_fast", P2, P3, P), None)
REF["sep_by"] = (simple("sep_by_fast", P, P2), None)


def folded(fn):
    def f(ip, q, r):
        q, r = ip.seq_of(q, "SV"), ip.to_V(r)
        for x in fold_unfold(q, r):
            ip.assume(x)
        return fn(q, r)
    return f


INTRINSICS["left_assoc"] = lambda ip, v, q: folded(FL)(ip, q, v)
INTRINSICS["right_assoc"] = lambda ip, v, q: folded(FR)(ip, q, v)
REF["chainl1"] = (simple("chainl1_fast", P, P2), None)
REF["chainr1"] = (simple("chainr1_fast", P, P2), None)


def token_loc(st, i):
    """location of position i of a stream of tokens"""
    n = S.slen(st)
    return z3.If(i < n, S.a_start(S.sget(st, i)),
                 z3.If(n > 0, S.a_end(S.sget(st, n - 1)), S.Loc.mk_loc(i, IntVal(0), IntVal(0))))


def i_new_token(ip, kind, value, st, i):
    l = token_loc(st, ip.to_int(i))
    return S.TokV(ip.to_L(kind), ip.to_V(value), l, l)


INTRINSICS["kind_of"] = lambda ip, t: S.a_kind(t)
INTRINSICS["new_token"] = i_new_token
INTRINSICS["belongs"] = lambda ip, t, cls: S.STRP[cls](ip.to_V(t))
for _n, _c in CLASSES.items():
    REF[_n] = (simple("class_fast", _c, _n), scan("class_slow", _c, _n))
REF["token"] = (simple("token_fast", KIND), scan("token_slow", KIND))
REF["token_ins"] = (simple("token_fast", KIND), scan("token_ins_slow", KIND, INSV))
