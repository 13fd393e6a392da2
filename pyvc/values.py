"""Symbolic values, heap cells and list segments."""
import re

import ast

import z3

from . import sorts as S


class Unsupported(Exception):
    """The code uses something outside the verified subset."""


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    """The path ends here (loop back edge)."""


class ReturnSig(Exception):
    def __init__(self, val):
        self.val = val


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class RaiseSig(Exception):
    def __init__(self, name, obj=None, where=None):
        self.name = name
        self.obj = obj
        self.where = where


# ---------------------------------------------------------------- functions
class Closure:
    def __init__(self, node, frame, module, qual, defaults=(), kwdefaults=None,
                 owner=None):
        self.node = node
        self.frame = frame
        self.module = module
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.owner = owner
        self.self_parser = None

    def same(self, other):
        return (isinstance(other, Closure) and self.node is other.node
                and self.frame == other.frame)


class BoundMethod:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class ClassVal:
    def __init__(self, module, node, bases):
        self.module = module
        self.node = node
        self.bases = bases        # ClassVal or External
        self.name = node.name
        self._mro = None
        self.attrs = {}
        for n in node.body:
            if hasattr(n, "name"):
                self.attrs[n.name] = n
            elif isinstance(n, ast.Assign):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        self.attrs[x.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and \
                    isinstance(n.target, ast.Name):
                self.attrs[n.target.id] = n.value

    def __repr__(self):
        return "<class %s.%s>" % (self.module, self.name)

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, ClassVal)]
            seqs.append([b for b in self.bases if isinstance(b, ClassVal)])
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported("inconsistent MRO of %s" % self.name)
                out.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        del s[0]
            self._mro = out
        return self._mro

    def external_bases(self):
        return [b.name for c in self.mro() for b in c.bases
                if not isinstance(b, ClassVal)]

    def is_exception(self):
        return any(b.split(".")[-1].endswith(("Exception", "Error", "BaseException"))
                   for b in self.external_bases())

    def is_subclass(self, other):
        return other in self.mro()

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None


class External:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<external %s>" % self.name


class Kw(tuple):
    """Keyword arguments gathered by a ** parameter: (name, value) pairs."""


class ModuleVal:
    def __init__(self, name):
        self.name = name


class AbsFn:
    """parse_fast_fn / parse_fn of a parser known only by its contract."""
    def __init__(self, parser, slow):
        self.parser = parser     # V term
        self.slow = slow


class SuperVal:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class MatchVal:
    def __init__(self, pat, s, pos):
        self.pat, self.s, self.pos = pat, s, pos


class OptInt:
    def __init__(self, none, val):
        self.none = none
        self.val = val


class Poison:
    def __init__(self, why):
        self.why = why


class GenVal:
    def __init__(self, closure, frame):
        self.closure = closure
        self.frame = frame


class RangeVal:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step


class RevSeq:
    """reversed(...) of a value list given by a Seq term."""
    def __init__(self, seq):
        self.seq = seq


class EnumVal:
    """enumerate(over, start)"""
    def __init__(self, over, start):
        self.over, self.start = over, start


class SortedVal:
    """sorted(lst, key=key)"""
    def __init__(self, lst, key):
        self.lst, self.key = lst, key


class PDesc:
    """Parse functions produced by a contracted constructor: kind + arguments."""
    def __init__(self, kind, args, term):
        self.kind, self.args, self.term = kind, args, term


class DescFn:
    def __init__(self, desc, slow):
        self.desc, self.slow = desc, slow


class ExcVal:
    """Instance of a builtin exception class."""
    def __init__(self, name, args=()):
        self.name, self.args = name, args


# ---------------------------------------------------------------- heap
class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return "#%d" % self.id


class Obj:
    """ident: names the object while it lives in abstract lists only.
    loose: taken out of an abstract list that still has it."""
    __slots__ = ("cls", "fields", "rterm", "ident", "loose")

    def __init__(self, cls, fields, rterm=None, ident=None, loose=None):
        self.cls, self.fields, self.rterm = cls, fields, rterm
        self.ident, self.loose = ident, loose

    def copy(self):
        return Obj(self.cls, dict(self.fields), None, self.ident, self.loose)


class Lst:
    """moved: the elements are also reachable through another list.
    frozen: the list was handed out as an (immutable) iterable.
    part: what it was filtered from, with which condition."""
    __slots__ = ("segs", "moved", "frozen", "ident", "part")

    def __init__(self, segs, moved=False, frozen=False, ident=None):
        self.segs, self.moved, self.frozen, self.ident = segs, moved, frozen, ident
        self.part = None

    def copy(self):
        return Lst(list(self.segs), self.moved, self.frozen, self.ident)


# ---------------------------------------------------------------- segments
class Elem:
    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val


class SeqSeg:
    """A run of opaque values (SV) or labels (E) given by a term."""
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term


class ASrc:
    """Abstract list: repairs of result t, or operations of repair i of t."""
    __slots__ = ("kind", "t", "i")

    def __init__(self, kind, t, i=None):
        self.kind, self.t, self.i = kind, t, i

    def length(self):
        return S.n_reps(self.t) if self.kind == "reps" else S.n_ops(self.t, self.i)

    def subst(self, pairs):
        return ASrc(self.kind, z3.substitute(self.t, *pairs),
                    None if self.i is None else z3.substitute(self.i, *pairs))

    def eq(self, o):
        return (self.kind == o.kind and self.t.eq(o.t)
                and (self.i is None or self.i.eq(o.i)))

    def __repr__(self):
        return "%s(%s%s)" % (self.kind, self.t, "" if self.i is None else ", %s" % self.i)


class Abs:
    __slots__ = ("src",)

    def __init__(self, src):
        self.src = src


class For:
    """for idx in range(len(src)): segs (exactly the elements of one iteration)"""
    __slots__ = ("idx", "src", "segs", "partial")

    def __init__(self, idx, src, segs, partial=False):
        self.idx, self.src, self.segs, self.partial = idx, src, segs, partial


class Cond:
    """Exclusive and exhaustive alternatives: [(facts, lemmas, segs)]."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class Opaque:
    """Contents unknown inside a summarised loop."""


class Snap:
    """Frozen copy of an object graph (element of a template)."""
    __slots__ = ("cls", "fields", "cell", "rterm", "ident")

    def __init__(self, cls, fields, cell=None, rterm=None, ident=None):
        self.cls, self.fields, self.cell, self.rterm = cls, fields, cell, rterm
        self.ident = ident


class SnapList:
    __slots__ = ("segs", "moved", "cell", "ident")

    def __init__(self, segs, moved=False, cell=None, ident=None):
        self.segs, self.moved, self.cell, self.ident = segs, moved, cell, ident


class StrX:
    """Text built by concatenation: str | L term | (tag, ...) atoms."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, StrX):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] = out[-1] + q
                        continue
                out.append(q)
        self.parts = out

    def __repr__(self):
        return "StrX(%r)" % (self.parts,)


class OneShot:
    """A generator object (elements already evaluated into a list cell)."""

    def __init__(self, ref, heap=None, names=(), reads=frozenset(), err=None, writes=()):
        self.ref = ref
        self.heap, self.names = heap, names      # when it was made
        self.reads = reads                       # the cells its body reads
        self.err = err                           # what its body raises after the elements
        self.writes = writes                     # [(cell, before, after)] of running its body


class TypeOf:
    """type(x) of a symbolic value."""

    def __init__(self, val):
        self.val = val


def subst_val(v, pairs):
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, Snap):
        return Snap(v.cls, {k: subst_val(x, pairs) for k, x in v.fields.items()}, v.cell,
                    v.rterm if v.rterm is None else z3.substitute(v.rterm, *pairs),
                    v.ident)
    if isinstance(v, SnapList):
        return SnapList([subst_seg(s, pairs) for s in v.segs], v.moved, v.cell, v.ident)
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst_val(x, pairs) for x in v]
    if isinstance(v, OptInt):
        return OptInt(subst_val(v.none, pairs), subst_val(v.val, pairs))
    if isinstance(v, StrX):
        return StrX([subst_val(x, pairs) for x in v.parts])
    if isinstance(v, (Elem, SeqSeg, Abs, For, Cond)):
        return subst_seg(v, pairs)
    return v


def subst_seg(s, pairs):
    if isinstance(s, Elem):
        return Elem(subst_val(s.val, pairs))
    if isinstance(s, SeqSeg):
        return SeqSeg(z3.substitute(s.term, *pairs))
    if isinstance(s, Abs):
        return Abs(s.src.subst(pairs))
    if isinstance(s, For):
        return For(s.idx, s.src.subst(pairs), [subst_seg(x, pairs) for x in s.segs], s.partial)
    if isinstance(s, Cond):
        return Cond([([z3.substitute(f, *pairs) for f in fs],
                      [z3.substitute(f, *pairs) for f in ls],
                      [subst_seg(x, pairs) for x in segs]) for fs, ls, segs in s.alts])
    return s


_keys = {}


def src_key(src):
    """the call a list comes from, whatever the iteration of the loops around it"""
    k = src.t.get_id()
    if k not in _keys:
        _keys[k] = (src.t, re.sub(r"\b[ik]!\d+", "i", src.t.sexpr()))
    return _keys[k][1]


def idents(v, out):
    """the objects an abstract list has, all the way down"""
    if isinstance(v, (list, tuple)):
        for x in v:
            idents(x, out)
    elif isinstance(v, Abs):
        k = src_key(v.src)
        out.add(("abs", v.src.kind, k))
        if v.src.kind == "reps":
            out.add(("abs", "ops", k))
            out.add(("abs", "oplist", k))
    elif isinstance(v, Elem):
        idents(v.val, out)
    elif isinstance(v, For):
        idents(v.segs, out)
    elif isinstance(v, Cond):
        for a in v.alts:
            idents(a[2], out)
    elif isinstance(v, Snap):
        out.add(v.ident)
        idents(list(v.fields.values()), out)
    elif isinstance(v, SnapList):
        out.add(v.ident)
        idents(v.segs, out)
    return out


def rename(v, new):
    """the same with other identities"""
    if isinstance(v, list):
        return [rename(x, new) for x in v]
    if isinstance(v, tuple):
        return tuple(rename(x, new) for x in v)
    if isinstance(v, Elem):
        return Elem(rename(v.val, new))
    if isinstance(v, For):
        return For(v.idx, v.src, rename(v.segs, new), v.partial)
    if isinstance(v, Cond):
        return Cond([(f, l, rename(s, new)) for f, l, s in v.alts])
    if isinstance(v, Snap):
        return Snap(v.cls, {k: rename(x, new) for k, x in v.fields.items()}, v.cell, v.rterm,
                    new.get(v.ident, v.ident))
    if isinstance(v, SnapList):
        return SnapList(rename(v.segs, new), v.moved, v.cell, new.get(v.ident, v.ident))
    return v
