"""What each kind of job proves."""
from .contracts import ContractHooks, closure
from .jobs import kind, merge_run
from . import sorts as S
from .owner import ownership
from .prove import Run
from .source import Package
from .targets import TARGETS, X


@kind("contract")
def contract(job, res):
    """The parse functions of a constructor satisfy the contract clauses."""
    cl = closure(job.params[0])
    run = Run(Package(), TARGETS[job.target], ContractHooks(cl))
    run.prove_clauses(cl)
    merge_run(res, run)


@kind("exact")
def exact(job, res):
    """The outcomes of a constructor's parse functions equal the reference semantics."""
    from .exact import REF, ExactRun
    fields, modes = job.params
    ref = REF[job.target]
    run = ExactRun(Package(), TARGETS[job.target], ref[0], ref[1], fields, modes)
    if "repairs" in fields:
        ownership(run)
    merge_run(res, run)


@kind("owner")
def owner(job, res):
    """Parse functions change nothing that existed before the call and share nothing."""
    run = Run(Package(), TARGETS[job.target], ContractHooks(closure(("bounds",))))
    ownership(run)
    merge_run(res, run)


@kind("api")
def api(job, res):
    """parse and unwrap report what the parser did; consequences for the user."""
    from .api import ApiRun
    clauses, entries, theorems = job.params
    for e in entries:
        run = ApiRun(Package(), closure(clauses), entry=e)
        run.unwrapping()
        for t in theorems:
            run.theorem(t)
        for o in run.obs:
            o.name = "api:%s/%s" % (e, o.name)
        merge_run(res, run)


@kind("apimap")
def apimap(job, res):
    """fmap on a result applies the function to the value and changes nothing else."""
    from .api import ApiRun
    run = ApiRun(Package(), (), fmap=True)
    run.unwrapping()
    run.theorem("C17")
    merge_run(res, run)


@kind("history")
def history(job, res):
    """What unwrap says does not depend on what was done with results before."""
    from .api import ApiRun
    for mapped in (False, True):
        run = ApiRun(Package(), (), fmap=mapped)
        run.obs = []
        run.history()
        merge_run(res, run)


@kind("text")
def text(job, res):
    """Messages of error items and of ParseError."""
    from .api import TextRun
    merge_run(res, TextRun(Package()))


@kind("equality")
def equality(job, res):
    """Tokens, locations, repair operations and error items are values."""
    from .equality import prove
    prove(Package(), res)


@kind("methods")
def methods(job, res):
    """Methods and operators of parser objects build what the functions build."""
    from .objects import aliases
    aliases(Package(), res, job.params[0] if job.params else None)


@kind("composites")
def composites(job, res):
    """Derived combinators are compositions of combinators under contract."""
    from .objects import composites
    composites(Package(), res)


@kind("loclaw")
def loclaw(job, res):
    """The location functions of the entry points are exact."""
    from .api import location_law
    for e in job.params[0]:
        run = location_law(Package(), e)
        for o in run.obs:
            o.name = "loclaw:%s/%s" % (e, o.name)
        merge_run(res, run)


@kind("undefined")
def undefined(job, res):
    """A Delay that is not defined refuses to parse."""
    from .objects import undefined
    undefined(Package(), res)


@kind("lexer")
def lexer(job, res):
    """split_tokens returns the tokens of a tiling or raises LexError where it gets stuck."""
    from .lexing import lexer
    lexer(Package(), res)


# RuntimeError of a repetition: see the exact contract of many for when it is raised
# a literal must not be empty
REFUSES = {"literal": ("ValueError", S.slen(X) == 0)}
RAISES = {"many": ("RuntimeError",)}


@kind("raises")
def raises(job, res):
    """Parse functions raise only what their sub-parsers and the user's callables raise, and
    every loop terminates."""
    from .prove import Ob, path_of
    t = TARGETS[job.target]
    hooks = ContractHooks(closure(("conv", "bounds", "rbounds", "prio")))
    run = Run(Package(), t, hooks)
    ok = ("AbstractRaise",) + RAISES.get(job.target, ())
    n = 0
    for kind, o, outs in run.cases:
        if kind == "raise":
            exc, when = REFUSES.get(job.target, (None, False))
            nm = "%s/raises/constructor" % t.name
            run.ip.st = o.st.copy()
            if o.exc != exc:
                run.obs.append(Ob(nm, False, "raises %s" % o.exc, path_of(o)))
            else:
                run.prove(nm, when, path_of(o))
            continue
        for mode, xs in outs.items():
            for x in xs:
                n += 1
                run.obs.append(Ob("%s/raises/%s" % (t.name, mode),
                                  x.kind != "raise" or x.exc in ok,
                                  "raises %s" % x.exc, path_of(x)))
    run.obs.append(Ob("%s/raises/cover" % t.name, n > 0, "no outcome", ""))
    for x in run.ip.terminations:
        run.obs.append(Ob("%s/loop terminates" % t.name, bool(x[1]),
                          "no measure is known to decrease in the loop at line %s" % getattr(
                              x[0], "lineno", "?"), ""))
    merge_run(res, run)
