"""SMT vocabulary: sorts and function symbols shared by engine and contracts.

V     opaque Python values (tokens, streams, user values, parsers, callables)
L     text (labels, kinds);  E = Seq(L) contents of `expected` iterables
SV    Seq(V) contents of value lists / tuples
Loc, Ctx, Op   value classes of the library (NamedTuple Loc, Ctx, Skip|Insert)
R     result of applying a parser that is known by its contract only
"""
import z3
from z3 import BoolSort, Const, Datatype, DeclareSort, IntSort, SeqSort

Int, Bool = IntSort(), BoolSort()
V = DeclareSort("V")
R = DeclareSort("R")
L = DeclareSort("L")
E = SeqSort(L)
SV = SeqSort(V)


class Fn:
    """Function symbol with memoised application."""

    def __init__(self, d):
        self.d = d
        self.memo = {}

    def __call__(self, *args):
        k = tuple([a.get_id() if isinstance(a, z3.AstRef) else a for a in args])
        r = self.memo.get(k)
        if r is None:
            r = self.d(*args)
            self.memo[k] = r
        return r

    def __str__(self):
        return self.d.name()


def memo_data(sort):
    for i in range(sort.num_constructors()):
        c = sort.constructor(i)
        setattr(sort, c.name(), Fn(c))
        setattr(sort, "is_" + c.name(), Fn(sort.recognizer(i)))
        for j in range(c.arity()):
            a = sort.accessor(i, j)
            setattr(sort, a.name(), Fn(a))
    return sort


_sorts = {}
_sort0 = z3.ExprRef.sort


def _sort(self):
    k = self.get_id()
    r = _sorts.get(k)
    if r is None:
        r = _sort0(self)
        _sorts[k] = r
        _keep.append(self)
    return r


_keep = []
z3.ExprRef.sort = _sort
for _c in (z3.ArithRef, z3.BoolRef, z3.SeqRef, z3.DatatypeRef):
    if "sort" in _c.__dict__:
        _c.sort = _sort


def Function(name, *sorts):
    return Fn(z3.Function(name, *sorts))


_d = Datatype("Loc")
_d.declare("mk_loc", ("l_pos", Int), ("l_line", Int), ("l_col", Int))
Loc = memo_data(_d.create())
_d = Datatype("Ctx")
_d.declare("mk_ctx", ("c_mark", Int), ("c_loc", Loc), ("c_gl", V))
Ctx = memo_data(_d.create())
_d = Datatype("Op")
_d.declare("Skip", ("skip_count", Int))
_d.declare("Insert", ("ins_label", L))
Op = memo_data(_d.create())

E0 = z3.Empty(E)
SV0 = z3.Empty(SV)

# --- values
NoneV = Const("NoneV", V)
IntV = Function("IntV", Int, V)
BoolV = Function("BoolV", Bool, V)
StrV = Function("StrV", L, V)
LocV = Function("LocV", Loc, V)
ListV = Function("ListV", SV, V)
unlist = Function("unlist", V, SV)
TupV = Function("TupV", SV, V)
untup = unlist          # both: what iteration yields
EV = Function("EV", E, V)
TokV = Function("TokV", L, V, Loc, Loc, V)
apps = Function("apps", V, SV, V)          # result of a user callable
truthy = Function("truthy", V, Bool)
eqv = Function("eqv", V, V, Bool)          # user-level ==
reprv = Function("reprv", V, L)
strv = Function("strv", V, L)
slen = Function("slen", V, Int)
sget = Function("sget", V, Int, V)
a_kind = Function("a_kind", V, L)
a_value = Function("a_value", V, V)
a_start = Function("a_start", V, Loc)
a_end = Function("a_end", V, Loc)
STRP = {n: Function("str_" + n, V, Bool) for n in (
    "isalpha", "isdigit", "isalnum", "isspace", "isupper", "islower", "isdecimal", "isnumeric",
    "isidentifier", "isprintable", "isascii")}
locstr = Function("locstr", V, Loc, L)     # user supplied fmt_loc

# --- strings and regular expressions
sw = Function("sw", V, V, Int, Bool)        # stream.startswith(s, pos)
fsw = Function("fsw", V, V, Int, Int)       # first position from c on where s has x
cut = Function("cut", V, Int, Int, V)        # stream[lo:hi]
NL = Function("NL", V, Int, Int, Int)       # number of newlines in [a, b)
Rev = {"SV": Function("RevSV", SV, SV), "E": Function("RevE", E, E)}   # a sequence backwards
LNL = Function("LNL", V, Int, Int)          # index of last newline before p
RF = Function("RF", V, Int, Int, Int)       # s.rfind("\n", a, b)
m_ok = Function("m_ok", V, V, Int, Bool)
m_end = Function("m_end", V, V, Int, Int)
m_gnone = Function("m_gnone", V, V, Int, V, Bool)
m_group = Function("m_group", V, V, Int, V, V)
m_lgnone = Function("m_lgnone", V, V, Int, Bool)
m_lg = Function("m_lg", V, V, Int, L)
lnonempty = Function("lnonempty", L, Bool)

# --- location functions
GL = Function("GL", V, Loc, V, Int, Loc)    # get_loc(loc, stream, pos)
LOC = Function("LOC", V, V, Int, Loc)       # the location of a position
vlow = Function("vlow", V, V, Loc, Int)     # loc is a base valid from here on
isl = Function("isl", V, V, Loc, Int)       # largest q with LOC(q) == loc, or -1

# --- abstract parsers
F = Function("F", V, V, Int, Ctx, R)
G = Function("G", V, V, Int, Ctx, Int, Bool, Int, R)
kind = Function("kind", R, Int)             # 0 Ok, 1 Error, 2 Recovered, 3 raise
r_val = Function("r_val", R, V)
r_pos = Function("r_pos", R, Int)
r_ctx = Function("r_ctx", R, Ctx)
r_exp = Function("r_exp", R, E)
r_cons = Function("r_cons", R, Bool)
r_loc = Function("r_loc", R, Loc)
r_mpn = Function("r_mpn", R, Bool)          # min_prio is None
r_mp = Function("r_mp", R, Int)
n_reps = Function("n_reps", R, Int)
p_cost = Function("p_cost", R, Int, Int)
p_prn = Function("p_prn", R, Int, Bool)     # prio is None
p_prio = Function("p_prio", R, Int, Int)
p_ins = Function("p_ins", R, Int, Int)
p_val = Function("p_val", R, Int, V)
p_pos = Function("p_pos", R, Int, Int)
p_ctx = Function("p_ctx", R, Int, Ctx)
p_exp = Function("p_exp", R, Int, E)
p_cons = Function("p_cons", R, Int, Bool)
n_ops = Function("n_ops", R, Int, Int)
o_op = Function("o_op", R, Int, Int, Op)
o_loc = Function("o_loc", R, Int, Int, Loc)
o_exp = Function("o_exp", R, Int, Int, E)
o_cons = Function("o_cons", R, Int, Int, Bool)
# where a repetition that has accumulated some values stops consuming
XP = Function("XP", V, V, Int, Ctx, SV, Int)
XC = Function("XC", V, V, Int, Ctx, SV, Ctx)
XA = Function("XA", V, V, Int, Ctx, SV, SV)

# measures of operation lists
m_sum = Function("m_sum", R, Int, Int)           # cost of the operations
m_ins = Function("m_ins", R, Int, Int, Int)      # insertions at a position

_ctr = [0]
_lits = {}


def fresh(name, sort):
    _ctr[0] += 1
    return Const("%s!%d" % (name, _ctr[0]), sort)


def lit(s):
    """Constant of sort L for a literal string."""
    if s not in _lits:
        _lits[s] = Const("lit:%r" % s, L)
    return _lits[s]


def units(vs, sort):
    """Seq term from a python list of element terms."""
    us = [z3.Unit(v) for v in vs]
    if not us:
        return z3.Empty(sort)
    if len(us) == 1:
        return us[0]
    return z3.Concat(*us)


def is_empty(t):
    return t.decl().kind() == z3.Z3_OP_SEQ_EMPTY


def cat(*ts):
    parts = []

    def flat(t):
        if is_empty(t):
            return
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children():
                flat(c)
        else:
            parts.append(t)
    for t in ts:
        flat(t)
    if not parts:
        return z3.Empty(ts[0].sort())
    if len(parts) == 1:
        return parts[0]
    return z3.Concat(*parts)


def op_cost(op):
    return z3.If(Op.is_Skip(op), Op.skip_count(op), z3.IntVal(1))
