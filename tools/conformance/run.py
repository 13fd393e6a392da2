"""Differential test of the symbolic executor pyvc against CPython (not part of any check).

Every function of the snippet files is executed by CPython and by pyvc; pyvc must refuse the
function or have, among the outcomes that are possible for the input, the one CPython gives.
Functions t_* take nothing, f_* take two integers and h_* a list of strings: pyvc runs those once
with unknown arguments, and its outcomes are compared for a number of concrete ones.

usage: python3-vt tools/conformance/run.py        exit 1 if an outcome is missing
"""
import importlib.util
import os
import shutil
import sys
import tempfile
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.setrecursionlimit(5000)
REPO = os.environ.get("PYVC_REPO", "/repo")
tree = tempfile.mkdtemp()
os.makedirs(tree + "/src")
shutil.copytree(REPO + "/src/reparsec", tree + "/src/reparsec")
FILES = ["minima", "plain1", "plain2", "ints", "lists"]
for f in FILES:
    shutil.copy("%s/%s.py" % (HERE, f), "%s/src/reparsec/snip_%s.py" % (tree, f))
os.environ["PYVC_REPO"] = tree

import z3  # noqa: E402
from pyvc import sorts as S  # noqa: E402
from pyvc.contracts import ContractHooks  # noqa: E402
from pyvc.interp import Interp, State  # noqa: E402
from pyvc.source import Package  # noqa: E402
from pyvc.values import Elem, Lst, OptInt, Ref, SeqSeg, StrX, Unsupported  # noqa: E402

WORDS = "a b c d e k z s p q r w t E n i x found no none ve".split()
UNKNOWN = "?"


def conv(ip, v):
    """the Python value of a symbolic one where it is determined"""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, StrX):
        if all(isinstance(p, str) for p in v.parts):
            return "".join(v.parts)
        return (UNKNOWN, repr(v))
    if isinstance(v, tuple):
        return tuple(conv(ip, x) for x in v)
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        if v.sort() == S.Int:
            for c in range(-5, 60):
                if ip.valid(v == c):
                    return c
        if v.sort() == S.Bool:
            if ip.valid(v):
                return True
            if ip.valid(z3.Not(v)):
                return False
        if v.sort() == S.L:
            for w in WORDS:
                if ip.valid(v == S.lit(w)):
                    return w
        if v.sort() in (S.E, S.SV):
            return seq(ip, v)
        if v.sort() == S.V:
            u = ip.unboxed(v)
            if not isinstance(u, z3.ExprRef):
                return conv(ip, u)
            if v.decl().eq(S.IntV.d) or v.decl().eq(S.StrV.d):
                return conv(ip, v.arg(0))
            if v.eq(S.NoneV):
                return None
            if v.decl().eq(S.ListV.d) or v.decl().eq(S.TupV.d):
                r = seq(ip, v.arg(0))
                return r if v.decl().eq(S.ListV.d) else tuple(r)
        return (UNKNOWN, str(v))
    if isinstance(v, OptInt):
        return None if ip.valid(v.none) else conv(ip, v.val)
    if isinstance(v, Ref):
        c = ip.cell(v)
        if isinstance(c, Lst):
            out = []
            for s in c.segs:
                if isinstance(s, Elem):
                    out.append(conv(ip, s.val))
                elif isinstance(s, SeqSeg):
                    out += seq(ip, s.term)
                else:
                    return (UNKNOWN, repr(s))
            return out
        return (c.cls.name, {k: conv(ip, x) for k, x in c.fields.items()})
    return (UNKNOWN, repr(v))


def seq(ip, t):
    for n in range(12):
        if ip.valid(z3.Length(t) == n):
            return [conv(ip, z3.simplify(t[z3.IntVal(i)])) for i in range(n)]
    return [(UNKNOWN, "?")]


def plain(v):
    if isinstance(v, list):
        return [plain(x) for x in v]
    if type(v) is tuple:
        return tuple(plain(x) for x in v)
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if hasattr(v, "__dict__") and not callable(v):
        return (type(v).__name__, {k: plain(x) for k, x in v.__dict__.items()})
    return (UNKNOWN, "?")


def covers(got, want):
    """does a possible outcome include want"""
    if isinstance(got, (tuple, list)) and UNKNOWN in got:
        return True
    if isinstance(got, list) and isinstance(want, list) and any(
            isinstance(x, tuple) and UNKNOWN in x for x in got):
        return True
    if type(got) is not type(want):
        return False
    if isinstance(got, (tuple, list)):
        return len(got) == len(want) and all(map(covers, got, want))
    if isinstance(got, dict):
        return got.keys() == want.keys() and all(covers(got[k], want[k]) for k in got)
    return got == want


PAIRS = [(a, b) for a in range(-1, 5) for b in range(-1, 5)]
LISTS = [[], ["a"], ["b"], ["a", "b"], ["b", "a", "a"], ["c", "a", "b"]]


def arguments(name):
    if name.startswith("t_"):
        return (lambda ip: []), [((), lambda ip: None)]
    if name.startswith("f_"):
        a, b = z3.Ints("A B")

        def fix(x, y):
            return lambda ip: ip.assume(z3.And(a == x, b == y))
        return (lambda ip: [a, b]), [((x, y), fix(x, y)) for x, y in PAIRS]
    q = z3.Const("Q", S.E)

    def fixl(xs):
        return lambda ip: ip.assume(q == S.units([S.lit(x) for x in xs], S.E))
    return (lambda ip: [ip.new_list([SeqSeg(q)])]), [((xs,), fixl(xs)) for xs in LISTS]


def run(pkg, module, real, name):
    ip = Interp(pkg, ContractHooks(()))
    ip.st = st = State()
    make, inputs = arguments(name)
    outs = ip.explore(lambda: ip.call(ip.glob("reparsec." + module, name), make(ip)), st)
    exact = True
    for args, fix in inputs:
        try:
            want = ("normal", plain(getattr(real, name)(*[list(x) if isinstance(x, list) else x
                                                          for x in args])))
        except Exception as e:
            want = ("raise", type(e).__name__)
        got = []
        for o in outs:
            ip.st = o.st.copy()
            fix(ip)
            ip.assume(z3.Distinct(*[S.lit(w) for w in WORDS]))
            if ip.feasible(z3.BoolVal(True)):
                got.append(("normal", conv(ip, o.val)) if o.kind == "normal"
                           else ("raise", o.exc))
        if not any(covers(g, want) for g in got):
            return "MISSING %r: CPython %r, pyvc %r" % (args, want, got)
        exact = exact and len(got) == 1 and repr(got[0]) == repr(want)
    return "exact" if exact else "covered"


def main():
    warnings.simplefilter("ignore")
    sys.path.insert(0, tree + "/src")
    pkg = Package()
    count = {}
    for f in FILES:
        module = "snip_" + f
        real = importlib.import_module("reparsec." + module)
        for name in dir(real):
            if name[:2] not in ("t_", "f_", "h_"):
                continue
            if any("%s:" % module in p and ".__" in p and
                   p.split(": ")[1].split(".")[0].endswith(name[1:]) for p in pkg.problems):
                r = "refused"            # by pyvc.shape
            else:
                try:
                    r = run(pkg, module, real, name)
                except Unsupported:
                    r = "refused"
            kind = r.split()[0]
            count[kind] = count.get(kind, 0) + 1
            if kind == "MISSING":
                print(name, r[:300])
    print(", ".join("%d %s" % (n, k) for k, n in sorted(count.items())))
    return 1 if "MISSING" in count else 0


try:
    rc = main()
finally:
    shutil.rmtree(tree)
sys.exit(rc)
