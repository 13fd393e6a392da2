"""Parser objects: methods and operators build what the functions build."""
import ast

import z3

from . import sorts as S
from .exact import REF, ExactRun
from .interp import Interp, State, _ids, free_names
from .prove import Ob, path_of
from .targets import DELTA, FN, LBL, P, P2, P3, PM, Target, TARGETS, X, api, fns_of
from .values import *

FIELDS = ("value", "pos", "ctx", "loc", "exp", "cons", "repairs")
NOARG = {"recover": "recover", "maybe": "maybe", "many": "many", "attempt": "attempt"}

# method, its arguments, keyword arguments -> function, arguments, reference
ALIASES = [
    ("fmap", (FN,), {}, "fmap", (P, FN), "fmap"),
    ("bind", (FN,), {}, "bind", (P, FN), "bind"),
    ("seql", (P2,), {}, "seql", (P, P2), "seql"),
    ("seqr", (P2,), {}, "seqr", (P, P2), "seqr"),
    ("__lshift__", (P2,), {}, "seql", (P, P2), "seql"),
    ("__rshift__", (P2,), {}, "seqr", (P, P2), "seqr"),
    ("__add__", (P2,), {}, "seq", (P, P2), "seq"),
    ("__or__", (P2,), {}, "alt", (P, P2), "alt"),
    ("maybe", (), {}, "maybe", (P,), "maybe"),
    ("many", (), {}, "many", (P,), "many"),
    ("attempt", (), {}, "attempt", (P,), "attempt"),
    ("label", (LBL,), {}, "label", (P, LBL), "label"),
    ("recover", (), {}, "recover", (P,), "recover"),
    ("recover_with", (X,), {}, "recover_with", (P, X, None), "recover_with"),
    ("recover_with", (X, LBL), {}, "recover_with", (P, X, LBL), "recover_with_l"),
    ("recover_with", (X,), {"label": LBL}, "recover_with", (P, X, LBL), "recover_with_l"),
    ("recover_with_fn", (FN,), {}, "recover_with_fn", (P, FN, None), "recover_with_fn"),
    ("recover_with_fn", (FN, LBL), {}, "recover_with_fn", (P, FN, LBL), "recover_with_fn_l"),
    ("recover_with_fn", (FN,), {"label": LBL}, "recover_with_fn", (P, FN, LBL),
     "recover_with_fn_l"),
    (None, (P, X), {}, "recover_with", (P, X, None), "recover_with"),
    (None, (P, FN), {}, "recover_with_fn", (P, FN, None), "recover_with_fn"),
    ("sep_by", (P2,), {}, "sep_by", (P, P2), "sep_by"),
    ("between", (P2, P3), {}, "between", (P2, P3, P), "between"),
    ("chainl1", (P2,), {}, "chainl1", (P, P2), "chainl1"),
    ("chainr1", (P2,), {}, "chainr1", (P, P2), "chainr1"),
]


def same(ip, a, b, seen, sta, stb):
    """Two engine values are the same up to the identity of what they were built from."""
    if isinstance(a, Ref) and isinstance(b, Ref):
        if (a.id, b.id) in seen:
            return True
        seen.add((a.id, b.id))
        ca, cb = (x.heap.get(r.id) or ip.statics[r.id] for x, r in ((sta, a), (stb, b)))
        if isinstance(ca, Obj) and isinstance(cb, Obj):
            return ca.cls is cb.cls and set(ca.fields) == set(cb.fields) and all(
                same(ip, ca.fields[k], cb.fields[k], seen, sta, stb) for k in ca.fields)
        if isinstance(ca, Lst) and isinstance(cb, Lst):
            return len(ca.segs) == len(cb.segs) and all(
                type(x) is type(y) and (
                    isinstance(x, Elem) and same(ip, x.val, y.val, seen, sta, stb) or
                    isinstance(x, SeqSeg) and x.term.eq(y.term))
                for x, y in zip(ca.segs, cb.segs))
        return False
    if isinstance(a, Closure) and isinstance(b, Closure):
        if a.node is not b.node or a.owner is not b.owner:
            return False
        key = (id(a.node), a.frame, b.frame)
        if key in seen:
            return True
        seen.add(key)
        names = free_names(a.node)
        da, db = a.defaults, b.defaults
        if len(da) != len(db) or set(a.kwdefaults) != set(b.kwdefaults):
            return False
        if not all(same(ip, x, y, seen, sta, stb) for x, y in zip(da, db)) or not all(
                same(ip, a.kwdefaults[k], b.kwdefaults[k], seen, sta, stb)
                for k in a.kwdefaults):
            return False
        fa, fb = a.frame, b.frame
        while not isinstance(fa, tuple) and not isinstance(fb, tuple):
            if fa == fb:
                return True
            va, vb = (x.frames.get(f) or ip.static_frames[f] for x, f in ((sta, fa), (stb, fb)))
            for n in names:
                if (n in va) != (n in vb):
                    return False
                if n in va and not same(ip, va[n], vb[n], seen, sta, stb):
                    return False
            names = names - set(va)
            fa, fb = va["__parent__"], vb["__parent__"]
        return fa == fb
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return same(ip, a.fn, b.fn, seen, sta, stb) and \
            same(ip, a.self_, b.self_, seen, sta, stb)
    if isinstance(a, AbsFn) and isinstance(b, AbsFn):
        return a.parser.eq(b.parser) and a.slow == b.slow
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(ip, x, y, seen, sta, stb) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and isinstance(a, (int, str, bool)) and a == b)


def stand_in(ip, cls):
    """an object of a parser class of which only the parse functions are known (those of P)"""
    return ip.alloc(Obj(cls, {"parse_fast_fn": AbsFn(P, False), "parse_fn": AbsFn(P, True),
                              "to_fns": Builtin("to_fns", lambda ip, a, k: P)}))


def parser_classes(ip):
    out = []
    base = None
    for mod in ("reparsec.parser", "reparsec.primitive"):
        for name, d in ip.pkg.modules[mod].defs.items():
            if d[0] == "class":
                c = ip.glob(mod, name)
                if c.name == "Parser":
                    base = c
                out.append(c)
    if base is None:
        raise Unsupported("class Parser not found")
    return [c for c in out if c.is_subclass(base)]


def aliases(pkg, res, only=None):
    """Every method of every parser class builds what the function of that name builds."""
    from .jobs import merge_ip
    ip = Interp(pkg)
    obs = []
    done = set()
    for cls in parser_classes(ip):
        for i, (m, args, kw, fn, fargs, ref) in enumerate(ALIASES):
            if only is not None and fn not in only:
                continue
            if m is None:
                # the function with its default arguments
                if i in done:
                    continue
                done.add(i)
                compare_built(pkg, ip, res, obs, "functions/%s" % fn,
                              lambda ip, fn=fn, args=args: api(PM, fn)(ip, *args),
                              lambda ip, fn=fn, fargs=fargs: api(PM, fn)(ip, *fargs), ref,
                              "the default of %s" % fn)
                continue
            d = cls.find(m)
            nm = "methods/%s%s" % (m, "/%d" % i)
            if d is None:
                obs.append(Ob(nm, False, "%s has no method %s" % (cls.name, m), ""))
                continue
            key = (id(d[1]), i)
            if key in done:
                continue
            done.add(key)

            def build(ip, cls=cls, m=m, args=args, kw=kw):
                return ip.call(ip.get_attr(stand_in(ip, cls), m), list(args), dict(kw))

            compare_built(pkg, ip, res, obs, nm, build,
                          lambda ip, fn=fn, fargs=fargs: api(PM, fn)(ip, *fargs), ref,
                          "%s.%s" % (cls.name, m))
    merge_ip(res, ip)
    res.obs += [(o.name, o.ok, o.detail, o.where) for o in obs]


def compare_built(pkg, ip, res, obs, nm, build, other, ref, what):
    """what `build` makes is what `other` makes, or at least does what the reference says"""
    from .jobs import merge_run

    def fns(f):
        ip.st = State()
        return ip.explore(lambda: fns_of(ip, f(ip)), State())

    oa, ob = fns(build), fns(other)
    ok = len(oa) == 1 and len(ob) == 1 and oa[0].kind == ob[0].kind == "normal" and \
        same(ip, oa[0].val, ob[0].val, set(), oa[0].st, ob[0].st)
    if ok:
        obs.append(Ob(nm, True, "", ""))
        return
    # built differently: compare what they do
    if ref not in REF:
        obs.append(Ob(nm, False, "%s does not build what is documented" % what, ""))
        return
    t = TARGETS[ref]
    mt = type(t)(nm, build)
    r = REF[ref]
    REF[nm] = r
    merge_run(res, ExactRun(pkg, mt, r[0], r[1], FIELDS, mt.modes))


# ------------------------------------------------------------------ composites
API = {
    "reparsec.parser": ["fmap", "bind", "seq", "seql", "seqr", "alt", "maybe", "many", "attempt",
                        "label", "recover", "recover_with", "recover_with_fn"],
    "reparsec.sequence": ["eof", "satisfy", "sym"],
    "reparsec.scannerless": ["literal", "regexp"],
    "reparsec.layout": ["block", "aligned", "indented"],
    "reparsec.primitive": ["unexpected"],
}
COMPOSITES = ["between", "sep_by", "chainl1", "chainr1"]


def composites(pkg, res):
    """These constructors only compose constructors that are under contract, so the contract
    holds of what they build."""
    from .jobs import merge_ip
    ip = Interp(pkg)
    used, given = [], []

    def handler(name):
        def h(ip, f, args, kwargs):
            used.append(name)
            given.extend(x for x in list(args) + list(kwargs.values())
                         if isinstance(x, (Closure, BoundMethod)))
            return S.fresh("made", S.V)
        return h
    for m, names in API.items():
        for n in names:
            ip.intercept[(m, n)] = handler(n)
    for n in COMPOSITES:
        used.clear()
        given.clear()
        outs = ip.explore(lambda: TARGETS[n].build(ip), State())
        ok = bool(outs) and all(
            o.kind == "normal" and all(isinstance(x, AbsFn) for x in o.val) and
            o.val[0].parser.eq(o.val[1].parser) and not o.val[0].slow and o.val[1].slow
            for o in outs)
        res.obs.append(("composites/%s is a composition of constructors under contract" % n, ok,
                        "", ""))
        for o in outs:
            for f in given if o.kind == "normal" else ():
                st = o.st.copy()
                st.flags = []
                ip.epoch = next(_ids)
                arg = z3.Const("argument", S.V)
                for x in ip.explore(lambda: ip.call(f, [arg]), st):
                    res.obs.append(("composites/%s: the function it passes on modifies nothing" % n,
                                    not x.st.flags, "; ".join(x.st.flags), path_of(x)))
            ip.epoch = 0
    merge_ip(res, ip)


def undefined(pkg, res):
    """Parsing with a Delay that is not defined raises RuntimeError."""
    from .jobs import merge_ip
    from .prove import ctx, ins, path_of, pos, rem, s
    ip = Interp(pkg)
    for how in ("methods", "functions"):
        def build(ip):
            d = ip.call(ip.glob(PM, "Delay"), [])
            if how == "functions":
                return fns_of(ip, d)
            return ip.get_attr(d, "parse_fast_fn"), ip.get_attr(d, "parse_fn")
        for o in ip.explore(lambda: build(ip), State()):
            if o.kind != "normal":
                res.obs.append(("undefined Delay/%s" % how, False, "raises %s" % o.exc, ""))
                continue
            for slow in (0, 1):
                a = [s, pos, ctx] + ([ins, rem] if slow else [])
                for x in ip.explore(lambda: ip.call(o.val[slow], list(a)), o.st):
                    res.obs.append(("undefined Delay/%s" % how,
                                    x.kind == "raise" and x.exc == "RuntimeError",
                                    "%s %s" % (x.kind, x.exc), path_of(x)))
    for rec in (False, True):
        for x in ip.explore(lambda: ip.call(ip.get_attr(ip.call(ip.glob(PM, "Delay"), []),
                                                        "parse"), [s, rec]), State()):
            res.obs.append(("undefined Delay/parse", x.kind == "raise" and
                            x.exc == "RuntimeError", "%s %s" % (x.kind, x.exc), path_of(x)))
    merge_ip(res, ip)
