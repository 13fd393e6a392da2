"""Runs the real parse functions symbolically and discharges contract clauses."""
import time
import traceback

import z3
from z3 import And, Implies, IntVal, Not, Or

from . import sorts as S
from .contracts import (CLAUSES, Call, ContractHooks, Q, TRep, TView, closure)
from .interp import Interp, State, _ids
from .source import Package
from .values import *

s, pos, ctx = z3.Const("s", S.V), z3.Const("pos", S.Int), z3.Const("ctx", S.Ctx)
ins, rem = z3.Const("ins", S.Int), z3.Const("rem", S.Int)


class Ob:
    """One proof obligation."""
    __slots__ = ("name", "ok", "detail", "where")

    def __init__(self, name, ok, detail="", where=""):
        self.name, self.ok, self.detail, self.where = name, ok, detail, where


class CView:
    """View of a concrete outcome (terms in the outcome's state)."""

    def __init__(self, ip, o):
        self.o = o
        self.repairs = None
        ip.st = o.st
        d = lambda n, so: z3.Const("any_" + n, so)
        self.val, self.pos, self.ctx = d("val", S.V), d("pos", S.Int), d("ctx", S.Ctx)
        self.exp, self.cons, self.loc = d("exp", S.E), d("cons", S.Bool), d("loc", S.Loc)
        self.mpn, self.mp, self.nreps = d("mpn", S.Bool), d("mp", S.Int), d("nreps", S.Int)
        self.exc = None
        if o.kind == "raise":
            self.kind = IntVal(3)
            self.exc = o.exc
            return
        if o.kind != "normal" or not isinstance(o.val, Ref):
            raise Unsupported("outcome %r" % (o,))
        c = ip.cell(o.val)
        if not isinstance(c, Obj):
            raise Unsupported("outcome is not a result")
        n = c.cls.name
        f = c.fields
        need = {"Ok": ("value", "pos", "ctx", "expected", "consumed"),
                "Error": ("loc", "expected", "consumed"),
                "Recovered": ("repairs", "min_prio", "loc", "expected", "consumed")}
        if n not in need or any(x not in f for x in need[n]):
            raise Unsupported("outcome is not a result: %s" % n)
        self.kind = IntVal({"Ok": 0, "Error": 1, "Recovered": 2}[n])
        self.exp = ip.to_E(f["expected"])
        self.cons = ip.to_bool_term(f["consumed"])
        if n == "Ok":
            self.val = ip.to_V(f["value"])
            self.pos, self.ctx = ip.to_int(f["pos"]), ip.to_ctx(f["ctx"])
        else:
            self.loc = ip.to_loc(f["loc"])
        if n == "Recovered":
            self.mpn, self.mp = opt(ip, f["min_prio"])
            self.repairs = f["repairs"]
            self.nreps = ip.length(self.repairs)
            if isinstance(self.nreps, int):
                self.nreps = IntVal(self.nreps)

    def k(self):
        return self.kind.as_long()


def opt(ip, v):
    if v is None:
        return z3.BoolVal(True), IntVal(0)
    if isinstance(v, OptInt):
        return v.none, v.val
    return z3.BoolVal(False), ip.to_int(v)


def elems(ip, segs):
    """Yields every template element of a list in an extended state."""
    for sg in segs:
        st0 = ip.st
        if isinstance(sg, Elem):
            ip.st = st0.copy()
            yield ip.enter(sg.val)
            ip.st = st0
        elif isinstance(sg, Abs):
            ip.st = st0.copy()
            i = S.fresh("e", S.Int)
            ip.assume(And(i >= 0, i < sg.src.length()))
            yield ip.materialise_elem(sg.src, i)
            ip.st = st0
        elif isinstance(sg, For):
            ip.st = st0.copy()
            i = S.fresh("e", S.Int)
            ip.assume(And(i >= 0, i < sg.src.length()))
            yield from elems(ip, [subst_seg(x, [(sg.idx, i)]) for x in sg.segs])
            ip.st = st0
        elif isinstance(sg, Cond):
            for facts, lemmas, inner in sg.alts:
                ip.st = st0.copy()
                for f in list(lemmas) + list(facts):
                    ip.assume(f)
                if ip.feasible(z3.BoolVal(True)):
                    yield from elems(ip, inner)
            ip.st = st0
        else:
            raise Unsupported("list contents %s" % type(sg).__name__)


def op_of(ip, ref):
    if not isinstance(ref, Ref) or not isinstance(ip.cell(ref), Obj) or \
            any(k not in ip.cell(ref).fields for k in ("op", "loc", "expected", "consumed")):
        raise Unsupported("operation")
    f = ip.cell(ref).fields
    op = f["op"]
    if not (isinstance(op, z3.ExprRef) and op.sort() == S.Op):
        raise Unsupported("operation")
    return op, ip.to_loc(f["loc"]), ip.to_E(f["expected"]), ip.to_bool_term(f["consumed"])


def list_segs(ip, ref):
    if isinstance(ref, SnapList):
        return ref.segs
    if isinstance(ref, tuple):
        return [Elem(x) for x in ref]
    if isinstance(ref, Ref) and isinstance(ip.cell(ref), Lst):
        return ip.cell(ref).segs
    raise Unsupported("list %r" % (ref,))


def first_cases(ip, segs):
    """Yields the first element of a list, by case (state extended)."""
    for n, sg in enumerate(segs):
        st0 = ip.st
        if isinstance(sg, Elem):
            ip.st = st0.copy()
            yield ip.enter(sg.val)
            ip.st = st0
            return
        if isinstance(sg, (Abs, For)):
            ip.st = st0.copy()
            ip.assume(sg.src.length() > 0)
            if ip.feasible(z3.BoolVal(True)):
                if isinstance(sg, Abs):
                    yield ip.materialise_elem(sg.src, IntVal(0))
                else:
                    yield from first_cases(
                        ip, [subst_seg(x, [(sg.idx, IntVal(0))]) for x in sg.segs])
            ip.st = st0.copy()
            ip.assume(sg.src.length() == 0)
            if ip.feasible(z3.BoolVal(True)):
                yield from first_cases(ip, segs[n + 1:])
            ip.st = st0
            return
        if isinstance(sg, Cond):
            for facts, lemmas, inner in sg.alts:
                ip.st = st0.copy()
                for f in list(lemmas) + list(facts):
                    ip.assume(f)
                if ip.feasible(z3.BoolVal(True)):
                    yield from first_cases(ip, list(inner) + list(segs[n + 1:]))
            ip.st = st0
            return
        raise Unsupported("list contents %s" % type(sg).__name__)
    yield None


def keeps(ip, sg):
    """every element of a rewritten operation list keeps operation and location"""
    def ok(x, src, idx):
        if isinstance(x, Elem) and isinstance(x.val, Snap):
            f = x.val.fields
            return (f["op"].eq(S.o_op(src.t, src.i, idx)) and
                    f["loc"].eq(S.o_loc(src.t, src.i, idx)))
        if isinstance(x, Cond):
            return all(len(a[2]) == 1 and ok(a[2][0], src, idx) for a in x.alts)
        return False
    return sg.src.kind == "ops" and len(sg.segs) == 1 and ok(sg.segs[0], sg.src, sg.idx)


def op_measure(ip, segs, q):
    """(total cost, insertions at position q) of a list of operations"""
    total, n = IntVal(0), IntVal(0)
    gl = S.Ctx.c_gl(ctx)
    for sg in segs:
        if isinstance(sg, Elem):
            op, loc, _, _ = op_of(ip, ip.enter(sg.val))
            total = total + S.op_cost(op)
            n = n + z3.If(And(S.Op.is_Insert(op), S.isl(gl, s, loc) == q), IntVal(1), IntVal(0))
        elif isinstance(sg, Abs) or (isinstance(sg, For) and keeps(ip, sg)):
            total = total + S.m_sum(sg.src.t, sg.src.i)
            n = n + S.m_ins(sg.src.t, sg.src.i, q)
        else:
            raise Unsupported("operations are not carried over unchanged")
    return total, n


class RView:
    def __init__(self, ip, ref, want):
        c = ip.cell(ref) if isinstance(ref, Ref) else None
        if not isinstance(c, Obj) or c.cls.name != "Repair":
            raise Unsupported("repair %r" % (ref,))
        f = c.fields
        self.cost, self.ins = ip.to_int(f["cost"]), ip.to_int(f["ins"])
        self.prn, self.prio = opt(ip, f["prio"])
        self.val, self.pos, self.ctx = ip.to_V(f["value"]), ip.to_int(f["pos"]), ip.to_ctx(f["ctx"])
        self.exp, self.cons = ip.to_E(f["expected"]), ip.to_bool_term(f["consumed"])
        self.ops = f["ops"]
        self.segs = list_segs(ip, self.ops)
        self.nops = ip.length(self.ops)
        if isinstance(self.nops, int):
            self.nops = IntVal(self.nops)
        self.op0 = None
        if want:
            tot, n = op_measure(ip, self.segs, Q)
            self.sum, self._n = tot, n
            self.n = self.n_at
        else:
            self.sum, self.n = None, None

    def n_at(self, q):
        assert q.eq(Q)
        return self._n


INTRINSICS = {}


class Run:
    """All outcomes of one target."""

    def __init__(self, pkg, target, hooks, timeout=8000, canon=False, modes=None):
        self.pkg, self.target, self.hooks = pkg, target, hooks
        self.ip = ip = Interp(pkg, hooks, timeout)
        ip.streams["s"] = s
        ip.canon = canon
        ip.texts |= {str(x) for x in getattr(target, "texts", ())}
        self.modes = modes
        ip.intrinsics = INTRINSICS
        hooks.target = target
        self.obs = []
        self.cases = []       # (fast outs, none outs, rem outs)
        target.setup(self)
        base = State()
        ip.st = base
        self.build_outs = ip.explore(lambda: target.build(ip), base)
        for o in self.build_outs:
            if o.kind == "raise":
                self.cases.append(("raise", o, None))
                continue
            self.cases.append(("ok", o, self.run_case(o)))

    def run_case(self, o):
        ip = self.ip
        fast, slow = o.val
        st = o.st
        ip.epoch = o.epoch = next(_ids)
        st.flags = []
        st.pc.append((S.slen(s) >= 0, False))
        if self.hooks.pre:
            st.pc.append((Call(s, pos, ctx).pre(), False))
        res = {}
        t = self.target
        t.begin(self, o)
        if self.wants("fast"):
            res["fast"] = ip.explore(lambda: ip.call(fast, [s, pos, ctx]), st)
        if self.wants("none"):
            res["none"] = self.slow(o, slow, True)
        if self.wants("rem"):
            res["rem"] = self.slow(o, slow, False)
        return res

    def wants(self, m):
        return self.target.wants(m) and (self.modes is None or m in self.modes)

    def slow(self, o, slow, none):
        ip = self.ip
        ip.selfs = []
        fn = self.unwrap(slow)
        if isinstance(fn, Closure):
            ip.selfs = [(fn, AbsFn(self.target.pself, True))]
        try:
            st = o.st.copy()
            if self.hooks.pre:
                st.pc.append((Call(s, pos, ctx, ins, z3.BoolVal(none),
                                   IntVal(0) if none else rem).pre(), False))
            return ip.explore(lambda: ip.call(slow, [s, pos, ctx, ins, None if none else rem]),
                              st)
        finally:
            ip.selfs = []

    def unwrap(self, f):
        return f if isinstance(f, Closure) else None

    # ------------------------------------------------------------ obligations
    def prove(self, name, formula, where):
        ip = self.ip
        ok = ip.valid(formula)
        detail = ""
        if not ok:
            ip._sync()
            ip.solver.push()
            ip.solver.add(Not(formula))
            r = ip.solver.check()
            detail = "verifier answer: %s\n" % ("not valid" if r == z3.sat else r)
            if r == z3.sat:
                detail += "counterexample:\n" + brief(ip.solver.model())
            ip.solver.pop()
        self.obs.append(Ob(name, ok, detail, where))
        return ok

    framed = False

    def prove_frame(self):
        """A call changes nothing that existed before; every other clause relies on it."""
        if self.framed:
            return
        self.framed = True
        for kind, o, res in self.cases:
            for mode in res or ():
                for x in res[mode]:
                    self.obs.append(Ob("%s/frame/%s" % (self.target.name, mode), not x.st.flags,
                                       "; ".join(x.st.flags), path_of(x)))

    def prove_clauses(self, clauses):
        """Guarantee side of the generic parser contract."""
        tname = self.target.name
        want = any(c in ("cost", "budget") for c in clauses)
        cls = [CLAUSES[c] for c in clauses if self.target.name not in CLAUSES[c].skip]
        self.prove_frame()
        for kind, o, res in self.cases:
            if kind == "raise":
                continue
            fviews = [(CView(self.ip, x), x) for x in res["fast"]]
            for fv, x in fviews:
                self.ip.st = x.st.copy()
                c = Call(s, pos, ctx)
                for cl in cls:
                    if cl.f is not None:
                        self.prove("%s/%s/strict" % (tname, cl.name), cl.f(c, fv), path_of(x))
            for mode in ("none", "rem"):
                c = Call(s, pos, ctx, ins, z3.BoolVal(mode == "none"),
                         IntVal(0) if mode == "none" else rem)
                for y in res[mode]:
                    gv = CView(self.ip, y)
                    npair = 0
                    for fv, x in fviews:
                        self.ip.st = y.st.copy()
                        for e in x.st.pc:
                            if e not in self.ip.st.pc:
                                self.ip.st.pc.append(e)
                        if not self.ip.feasible(z3.BoolVal(True)):
                            continue
                        npair += 1
                        self.pair(tname, mode, cls, c, fv, gv, x, y, want)
                    self.obs.append(Ob("%s/cover/%s" % (tname, mode), npair > 0,
                                       "no strict outcome corresponds to this outcome",
                                       path_of(y)))

    def pair(self, tname, mode, cls, c, fv, gv, x, y, want):
        ip = self.ip
        where = "%s | %s" % (path_of(x), path_of(y))
        for cl in cls:
            if cl.g is not None:
                self.prove("%s/%s/%s" % (tname, cl.name, mode), cl.g(c, fv, gv), where)
        if gv.repairs is None:
            return
        rcls = [cl for cl in cls if cl.rep is not None]
        ocls = [cl for cl in cls if cl.op is not None]
        if not rcls and not ocls:
            return
        st0 = ip.st
        first = any(cl.name == "first" for cl in rcls)
        for ref in elems(ip, list_segs(ip, gv.repairs)):
            r = RView(ip, ref, want)
            for cl in rcls:
                if cl.name == "first":
                    st1 = ip.st
                    for op in first_cases(ip, r.segs):
                        r.op0 = op_of(ip, op) if op is not None else (
                            S.fresh("op", S.Op), S.fresh("loc", S.Loc), S.fresh("exp", S.E),
                            S.fresh("c", S.Bool))
                        self.prove("%s/%s/%s/repair" % (tname, cl.name, mode),
                                   cl.rep(c, fv, gv, r), where)
                    ip.st = st1
                else:
                    self.prove("%s/%s/%s/repair" % (tname, cl.name, mode),
                               cl.rep(c, fv, gv, r), where)
            if ocls:
                for op in elems(ip, r.segs):
                    o = op_of(ip, op)
                    for cl in ocls:
                        self.prove("%s/%s/%s/operation" % (tname, cl.name, mode),
                                   cl.op(c, fv, gv, r, o), where)
        ip.st = st0


def brief(m):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            out.append("  %s = %s" % (d.name(), str(m[d])[:100]))
    return "\n".join(sorted(out)[:40])


def path_of(o):
    return " & ".join(str(f).replace("\n", " ")[:90] for f, b in o.st.pc if b)[-600:]
