"""Which jobs decide which property."""
from .jobs import Job
from .targets import DELAYS

WEIGHT = {"chainr1": 60, "chainl1": 40, "sep_by": 40, "many": 20, "between": 10, "alt": 6, "bind": 4, "seq": 4, "seql": 4, "seqr": 4}
PARSERS = ["fmap", "alt", "bind", "seq", "seql", "seqr", "maybe", "many", "attempt", "label",
           "recover", "recover_with", "recover_with_l", "recover_with_fn", "recover_with_fn_l",
           "eof", "satisfy", "sym", "sym_l", "literal", "regexp", "block", "aligned", "indented",
           "pure", "pure_fn", "unexpected"]
THEN = ["then%d" % k for k in range(2, 9)]
APPLY = ["apply%d" % k for k in range(2, 9)]
TOKENS = ["token", "token_ins", "letter", "digit"]
# constructors whose own parse functions are put under contract
UNITS = PARSERS + THEN + APPLY + TOKENS
# constructors that only give another form to a parser: they do what it does
FORMS = (["object", "object_fns", "pure_object", "pure_fn_object"] +
         ["tuple%d%s" % (k, f) for k in range(2, 9) for f in ("", "_fns")])
# between, sep_by, chainl1, chainr1: the generic contract holds of them since they are
# compositions (job "composites"); what they do in strict mode is under an exact contract
CHAINS = ["between", "sep_by", "chainl1", "chainr1"]

BASE = [
    "callables supplied by the user (fmap/bind functions, tests, inserted-value functions, "
    "operators, get_loc, fmt_loc) are total, deterministic and free of side effects",
    "Python's RecursionError and MemoryError are not modelled",
    "integers are mathematical (as in Python)",
]
INDUCT = ("contracts of sub-parsers may be assumed because a call terminates before its caller "
          "does (induction over the depth of calls)")
TRUST = ["pyvc (symbolic executor for the Python subset used, /verif/pyvc)",
         "z3 5 (SMT solver)", "CPython executes that subset as pyvc models it",
         "stub specifications of len, str.startswith/count/rfind, re.Pattern.match/Match, list "
         "and tuple operations, min, itertools-free builtins (pyvc/interp.py)"]

PROPS = {}


class Prop:
    def __init__(self, id, jobs, assumptions=(), note=""):
        self.id, self.jobs, self.note = id, jobs, note
        self.assumptions = list(BASE) + list(assumptions)
        PROPS[id] = self


def contract(clauses, targets=None):
    return [Job("contract", t, tuple(clauses), weight=WEIGHT.get(t, 1))
            for t in (targets or PARSERS)]


FAST, SLOW = ("fast",), ("none", "rem")
ALLM = FAST + SLOW
ALL = ("value", "pos", "ctx", "loc", "exp", "cons", "repairs")
RELY = ("the clauses of the generic parser contract relied on for sub-parsers (same acceptance in "
        "both modes, bounds, budget, mark, valid contexts, priorities) are themselves proved, by the checks "
        "of C01, C09, C10, C12, C15, C18 and C20")
GETLOC = ("a location function supplied by the user depends on the position only, and accepts as "
          "its starting point Loc(0, 0, 0) and every location it returned for an earlier position "
          "(proved of the library's own location functions by the loclaw jobs)")
ARITY = ("values have the types the annotations promise (tuple lengths of then/apply, pairs in "
         "operator chains)")


def exact(targets, fields, modes):
    return [Job("exact", t, tuple(fields), tuple(modes),
                weight=WEIGHT.get(t, 1) * (2 if "rem" in modes else 1)) for t in targets]


def one(kind, *params, weight=1):
    return [Job(kind, kind, *params, weight=weight)]


def api(clauses, entries, theorems):
    return [Job("api", e, tuple(clauses), (e,), tuple(theorems), weight=8) for e in entries]


def methods(*names):
    return one("methods", tuple(names))


EVERY = ("custom", "default", "scannerless", "lexer")
GENERIC = one("composites") + one("methods") + exact(FORMS + ["delay_before", "delay_after"],
                                                     ALL, ALLM)
SEQS = ["seq", "seql", "seqr", "bind"]
LAYOUT = ["block", "aligned", "indented"]
PRIMS = ["eof", "satisfy", "sym", "sym_l", "literal", "regexp", "pure", "pure_fn", "unexpected"]
RECS = ["recover", "recover_with", "recover_with_l", "recover_with_fn", "recover_with_fn_l"]
OUT = ("value", "pos", "ctx", "loc", "cons")

Prop("C01", contract(["conv", "okeq", "bounds"]) + GENERIC + api(["conv", "okeq"], EVERY, ["C01"]),
     [INDUCT])
Prop("C02", contract(["conv", "ops1", "bounds"]) + GENERIC + api(["conv", "ops1"], EVERY, ["C02"]),
     [INDUCT])
Prop("C03", contract(["first", "okexp", "bounds"]) + GENERIC + api(["first", "okexp"], EVERY, ["C03"]),
     [INDUCT, GETLOC])
Prop("C04", exact(["alt"], ("value", "pos", "ctx", "cloc", "cons"), FAST) + methods("alt"),
     [INDUCT, RELY])
Prop("C05", exact(SEQS + ["fmap", "between"] + THEN + APPLY + FORMS, OUT, FAST) +
     methods("seq", "seql", "seqr", "bind", "fmap", "between"), [INDUCT, RELY, ARITY])
Prop("C06", exact(["many", "sep_by", "chainl1", "chainr1"], OUT, FAST) +
     methods("many", "sep_by", "chainl1", "chainr1"), [INDUCT, RELY, ARITY])
Prop("C07", exact(["maybe", "attempt", "label"], ALL, ALLM) +
     methods("maybe", "attempt", "label"), [INDUCT, RELY])
Prop("C08", exact(PARSERS + THEN + APPLY + TOKENS + CHAINS + FORMS, ("exp",), FAST) + one("methods"),
     [INDUCT, RELY, ARITY])
Prop("C09", contract(["bounds", "rbounds", "rins"]) + GENERIC +
     [Job("raises", t, weight=WEIGHT.get(t, 1)) for t in UNITS] + exact(["many"], OUT, FAST),
     [INDUCT, GETLOC])
Prop("C10", contract(["budget", "bounds"]) + GENERIC + api(["budget"], EVERY, ["C10"]), [INDUCT, GETLOC])
Prop("C11", contract(["cost", "bounds"]) + GENERIC + api(["cost"], EVERY, ["C11"]), [INDUCT])
Prop("C12", contract(["locs", "bounds"]) + GENERIC + api(["locs"], ["scannerless"], ["C12"]) +
     one("loclaw", ("scannerless",)), [INDUCT])
Prop("C13", one("lexer"), ["the tokeniser calls only re.Pattern.match, Match.end/group/lastgroup, "
                           "str.count and str.rfind, whose documented behaviour is assumed"])
Prop("C14", one("loclaw", ("lexer",)) + exact(UNITS, ("loc", "ctx", "oploc"), ALLM) +
     contract(["locs", "bounds"]) + GENERIC + api(["locs"], ["lexer"], ["C12"]), [INDUCT, RELY])
Prop("C15", contract(["mark", "bounds"]) + exact(LAYOUT, ALL, ALLM) + GENERIC +
     api(["mark"], EVERY, []), [INDUCT, RELY])
Prop("C16", exact(DELAYS, ALL, ALLM) + one("undefined"), [])
Prop("C17", [Job("owner", t, weight=WEIGHT.get(t, 1)) for t in UNITS] + GENERIC +
     one("apimap") + one("history") + api([], EVERY, ["C17"]), [INDUCT])
Prop("C18", contract(["prio"]) + [Job("raises", t, weight=WEIGHT.get(t, 1)) for t in UNITS] + GENERIC +
     api(["prio"], EVERY, []) + one("apimap") + one("text") + one("lexer") + one("undefined"),
     [INDUCT, ARITY])
Prop("C19", exact(SEQS + ["many", "fmap"] + THEN + APPLY, ALL, SLOW), [INDUCT, RELY, ARITY])
Prop("C20", exact(["alt", "maybe", "many", "label", "attempt"] + RECS, ALL, SLOW) +
     contract(["prio"]) + one("composites") +
     methods("alt", "maybe", "many", "label", "attempt", "recover", "recover_with",
             "recover_with_fn"), [INDUCT, RELY])
Prop("C21", exact(PRIMS + TOKENS + ["pure_object", "pure_fn_object"], ALL, ALLM), [INDUCT, RELY])
Prop("C22", one("apimap") + one("text") + one("history") + api([], EVERY, []), [])
Prop("C23", one("equality"), [])


def _grounded():
    """every clause that some job assumes of parsers is proved of every constructor"""
    from .contracts import closure
    from .exact import RELY as R
    used = set(R) | {"conv", "bounds", "rbounds", "prio"}
    proved = {}
    for p in PROPS.values():
        for j in p.jobs:
            if j.kind == "api":
                used |= set(j.params[0])
            if j.kind == "contract":
                for c in closure(j.params[0]):
                    proved.setdefault(c, set()).add(j.target)
    for c in closure(sorted(used)):
        if proved.get(c, set()) < set(PARSERS):
            raise AssertionError("clause %s is assumed but not proved" % c)


_grounded()
