"""The lexer: split_tokens tiles its input."""
import z3
from z3 import And, Concat, Implies, IntVal, Not, Or

from . import sorts as S
from .api import text_loc
from .contracts import ContractHooks
from .interp import Interp, State
from .prove import Ob, path_of
from .values import *

SRC, SPEC = z3.Const("src", S.V), z3.Const("spec", S.V)

# Reference, by recursion over the rest of the input:
#   TILES(q)   the tokens of the matches from q on, up to the first failure
#   STUCK(q)   the first position from q on at which nothing is matched, or -1
TILES = S.Function("Tiles", S.V, S.V, S.Int, S.SV)
STUCK = S.Function("Stuck", S.V, S.V, S.Int, S.Int)


def unfold(q):
    """Defining equations of TILES and STUCK at q."""
    n = S.slen(SRC)
    e = S.m_end(SPEC, SRC, q)
    ok = And(S.m_ok(SPEC, SRC, q), e != q)
    lg = S.m_lg(SPEC, SRC, q)
    tok = S.TokV(lg, S.m_group(SPEC, SRC, q, S.StrV(lg)), text_loc(SRC, q), text_loc(SRC, e))
    t, k = TILES(SPEC, SRC, q), STUCK(SPEC, SRC, q)
    return [
        Implies(And(q < n, ok, S.m_lgnone(SPEC, SRC, q)), t == TILES(SPEC, SRC, e)),
        Implies(And(q < n, ok, Not(S.m_lgnone(SPEC, SRC, q))),
                t == Concat(z3.Unit(tok), TILES(SPEC, SRC, e))),
        Implies(Or(q >= n, Not(ok)), t == S.SV0),
        Implies(And(q < n, ok), k == STUCK(SPEC, SRC, e)),
        Implies(And(q < n, Not(ok)), k == q),
        Implies(q >= n, k == -1),
    ]


def ground(ip, q):
    """facts about q: definitions, matches, newlines"""
    return unfold(q) + ip.hooks.match_facts(ip, SPEC, SRC, q) + \
        ip.hooks.nl_facts(ip, SRC, IntVal(0), q)


def views(keys):
    """The integers of the loop state: its integer variables and the positions of its
    locations."""
    out = [(str(k[-1]), lambda e, k=k: e[k]) for k in keys if keys[k] == S.Int]
    return out + [("%s.pos" % k[-1], lambda e, k=k: S.Loc.l_pos(e[k]))
                  for k in keys if keys[k] == S.Loc]


def cands(ip, env0, keys, info):
    out = []
    ints = views(keys)
    z = IntVal(0)
    for n, p in ints:
        out.append(("tiled up to %s" % n,
                    lambda e, p=p: STUCK(SPEC, SRC, p(e)) == STUCK(SPEC, SRC, z)))
        if n.endswith(".pos"):
            out.append(("%s is in the input" % n,
                        lambda e, p=p: And(p(e) >= 0, p(e) <= S.slen(SRC))))
        for q in keys:
            if keys[q] == S.SV:
                out.append(("%s holds the tokens up to %s" % (q[-1], n),
                            lambda e, p=p, q=q: Concat(e[q], TILES(SPEC, SRC, p(e))) ==
                            TILES(SPEC, SRC, z)))
            if keys[q] == S.Loc:
                out.append(("%s is the location of %s" % (q[-1], n),
                            lambda e, p=p, q=q: e[q] == text_loc(SRC, p(e))))
        for m, q in ints:
            if m != n:
                out.append(("%s is the line of %s" % (m, n),
                            lambda e, p=p, q=q: q(e) == S.NL(SRC, z, p(e))))
                out.append(("%s is the column of %s" % (m, n),
                            lambda e, p=p, q=q: q(e) == p(e) - S.LNL(SRC, p(e)) - 1))
                out.append(("%s is the start of the line of %s" % (m, n),
                            lambda e, p=p, q=q: q(e) == S.LNL(SRC, p(e)) + 1))
    return out


def facts(ip, env, env0):
    out = []
    for _, p in views({k: env[k].sort() for k in env}):
        out += ground(ip, p(env))
    return out


def lexer(pkg, res):
    from .jobs import merge_ip
    hooks = ContractHooks(())
    hooks.cand_fns.append(cands)
    hooks.fact_fns.append(facts)
    ip = Interp(pkg, hooks)
    ip.streams["src"] = SRC
    obs = []

    def prove(name, f, where):
        ok = ip.valid(f)
        detail = ""
        if not ok:
            ip._sync()
            ip.solver.push()
            ip.solver.add(Not(f))
            r = ip.solver.check()
            detail = "verifier answer: %s" % ("not valid" if r == z3.sat else r)
            if r == z3.sat:
                from .prove import brief
                detail += "\n" + brief(ip.solver.model())
            ip.solver.pop()
        obs.append(Ob("split_tokens/" + name, ok, detail, where))

    st = State()
    st.pc.append((S.slen(SRC) >= 0, False))
    z = IntVal(0)
    for f in ground(ip, z):
        st.pc.append((f, False))
    ip.st = st
    fn = lambda: ip.call(ip.glob("reparsec.lexer", "split_tokens"), [SRC, SPEC])
    outs = ip.explore(fn, st)
    stuck = STUCK(SPEC, SRC, z)
    for o in outs:
        ip.st = o.st.copy()
        where = path_of(o)
        if o.kind == "normal":
            prove("returns only if the input is covered", stuck == -1, where)
            v = ip.to_V(o.val)
            isl = isinstance(o.val, Ref) and isinstance(ip.cell(o.val), Lst)
            obs.append(Ob("split_tokens/returns a list", isl, repr(o.val), where))
            prove("returns the tokens of all matches in order",
                  v == S.ListV(TILES(SPEC, SRC, z)), where)
        elif o.exc == "LexError":
            prove("raises only where nothing matches", And(stuck >= 0, stuck < S.slen(SRC)), where)
            e = o.val.obj
            loc = ip.to_loc(ip.get_attr(e, "loc"))
            prove("reports the location of the position where nothing matches",
                  loc == text_loc(SRC, stuck), where)
        else:
            obs.append(Ob("split_tokens/raises only LexError", False, "raises %s" % o.exc, where))
    obs.append(Ob("split_tokens/returns on some inputs", any(o.kind == "normal" for o in outs),
                  "", ""))
    obs.append(Ob("split_tokens/raises on some inputs", any(o.kind == "raise" for o in outs), "", ""))
    # the message of a LexError
    loc = z3.Const("loc", S.Loc)

    def message():
        e = ip.call(ip.glob("reparsec.lexer", "LexError"), [loc])
        if ip.cell(e).cls.find("__str__") is None:
            raise Unsupported("LexError has no __str__")
        return ip.call(ip.get_attr(e, "__str__"), [])
    for o in ip.explore(message, State()):
        ip.st = o.st.copy()
        ok = o.kind == "normal" and isinstance(o.val, StrX) and any(
            isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "int" and m == ":" and
            ip.valid(And(a[1] == S.Loc.l_line(loc) + 1, b[1] == S.Loc.l_col(loc) + 1))
            for a, m, b in zip(o.val.parts, o.val.parts[1:], o.val.parts[2:]))
        obs.append(Ob("LexError/message shows line:col", ok, repr(o.val), path_of(o)))
    terms = ip.terminations
    obs.append(Ob("split_tokens/terminates", bool(terms) and all(t[1] for t in terms),
                  "no decreasing measure found", ""))
    merge_ip(res, ip)
    res.obs += [(o.name, o.ok, o.detail, o.where) for o in obs]
