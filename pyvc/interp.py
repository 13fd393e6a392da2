"""Symbolic executor for the verified Python subset.

The functions of the package are executed from their source text: every
feasible path is explored, loops over abstract collections are summarised
exactly as comprehensions, other loops are cut at an inferred and checked
invariant.  Calls to parsers known only by their contract produce terms F/G.
Anything outside the subset raises Unsupported.
"""
import ast
import builtins
import itertools
import time

import z3

from . import sorts as S
from .equality import by_content, objects_equal
from .values import *

PURE_BUILTIN_EXC = ("RuntimeError", "ValueError", "TypeError", "IndexError",
                    "AttributeError", "KeyError", "AssertionError",
                    "NotImplementedError", "StopIteration", "Exception",
                    "LookupError", "ArithmeticError", "OverflowError")


class NoFork(Exception):
    pass


class State:
    __slots__ = ("heap", "frames", "pc", "flags", "notes", "written")

    def __init__(self):
        self.heap, self.frames, self.pc, self.flags, self.notes = {}, {}, [], [], []
        self.written = frozenset()

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.pc = list(self.pc)
        s.flags = list(self.flags)
        s.notes = list(self.notes)
        s.written = self.written
        return s


class Outcome:
    __slots__ = ("kind", "val", "st", "exc", "epoch")

    def __init__(self, kind, val, st, exc=None):
        self.kind, self.val, self.st, self.exc = kind, val, st, exc

    def __repr__(self):
        return "<%s %r %s>" % (self.kind, self.val, self.exc)


class Stats:
    def __init__(self):
        self.checks = 0
        self.time = 0.0
        self.unknown = 0
        self.paths = 0


class Hooks:
    """Contract side of the executor; overridden by contracts.py."""

    def rely_result(self, ip, t, info):
        return []

    def rely_rep(self, ip, t, i):
        return []

    def rely_op(self, ip, t, i, k):
        return []

    def loop_facts(self, ip, env, env0):
        return []

    def loop_candidates(self, ip, env0, keys, info):
        return []


_ids = itertools.count(1)


class Interp:
    def __init__(self, pkg, hooks=None, timeout=8000):
        self.pkg = pkg
        self.hooks = hooks or Hooks()
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout)
        self.sstack = []
        self.st = State()
        self.dec, self.dpos, self.newalts = [], 0, []
        self.globals = {}
        self.rewritten = {}
        self.statics = {}        # objects created when the modules are loaded
        self.static_frames = {}  # and variables that functions made then refer to
        self.epoch = 0
        self.depth = 0
        self.active = []
        self.reading = []
        self.terms = True        # locations, tokens and repair operations are terms
        self.handling = []       # exceptions being handled
        self.present = {"P", "P2", "P3", "PT", "FN"}     # parsers, functions: never None
        self.indexed = []        # sequences read at a computed index
        self.nofork = 0
        self.boxed = {}          # name of V constant -> engine value
        self.boxkeys = {}
        self.selfs = []          # [(closure, AbsFn)]
        self.intercept = {}      # (module, name) -> handler
        self.calls = {}          # R term key -> call info
        self.texts = set()       # names of V constants that are texts
        self.iterated = []       # lists being iterated over
        self.classes = {}
        self._ctx_roles = None
        self.streams = {}        # names of stream constants
        self.terminations = []   # (where, ok)
        self.visited = set()     # functions executed (qualified names)
        self.loop_log = []
        self.spec = False        # executing the reference semantics
        self.canon = False       # parsers are applied to canonical contexts
        self.intrinsics = {}
        for m in pkg.modules.values():
            for name, d in m.defs.items():
                if d[0] == "class" and m.name != "refspec":
                    self.classes.setdefault(name, (m.name, d[1]))

    # ------------------------------------------------------------ solver
    def _sync(self):
        pc = self.st.pc
        n = 0
        ss = self.sstack
        m = min(len(ss), len(pc))
        while n < m and ss[n] is pc[n]:
            n += 1
        while len(ss) > n:
            self.solver.pop()
            ss.pop()
        for e in pc[n:]:
            self.solver.push()
            self.solver.add(e[0])
            ss.append(e)

    def check(self, cond):
        """sat / unsat / unknown of pc + cond."""
        self._sync()
        t0 = time.time()
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        self.stats.checks += 1
        self.stats.time += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def feasible(self, cond):
        return self.check(cond) != z3.unsat

    def valid(self, cond):
        if cond is True:
            return True
        if isinstance(cond, bool):
            return not self.feasible(z3.BoolVal(True))
        if z3.is_true(z3.simplify(cond)):
            return True
        return self.check(z3.Not(cond)) == z3.unsat

    def assume(self, f, branch=False):
        if f is True or f is None:
            return
        if isinstance(f, bool):
            raise Infeasible()
        if z3.is_true(f):
            return
        self.st.pc.append((f, branch))

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.dpos < len(self.dec):
            v = self.dec[self.dpos]
            self.dpos += 1
            self.assume(cond if v else z3.Not(cond), True)
            return v
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise Infeasible()
        if t and f:
            if self.nofork:
                raise NoFork()
            self.newalts.append(self.dec + [False])
            v = True
        else:
            v = t
        self.dec.append(v)
        self.dpos += 1
        self.assume(cond if v else z3.Not(cond), True)
        return v

    def choose(self, n):
        """Non-deterministic choice (all alternatives explored)."""
        for j in range(n - 1):
            if self.dpos < len(self.dec):
                v = self.dec[self.dpos]
                self.dpos += 1
            else:
                if self.nofork:
                    raise NoFork()
                self.newalts.append(self.dec + [False])
                v = True
                self.dec.append(v)
                self.dpos += 1
            if v:
                return j
        return n - 1

    def explore(self, run, base, limit=3000):
        saved = (self.st, self.dec, self.dpos, self.newalts, self.nofork, self.depth)
        outs = []
        stack = [[]]
        try:
            while stack:
                prefix = stack.pop()
                self.st = base.copy()
                self.dec, self.dpos, self.newalts = list(prefix), 0, []
                self.nofork = 0
                self.depth = saved[5]
                try:
                    try:
                        v = run()
                        outs.append(Outcome("normal", v, self.st))
                    except ReturnSig as e:
                        outs.append(Outcome("return", e.val, self.st))
                    except BreakSig:
                        outs.append(Outcome("break", None, self.st))
                    except ContinueSig:
                        outs.append(Outcome("normal", None, self.st))
                    except RaiseSig as e:
                        outs.append(Outcome("raise", e, self.st, e.name))
                except Infeasible:
                    pass
                stack.extend(self.newalts)
                self.stats.paths += 1
                if len(outs) > limit:
                    raise Unsupported("too many paths")
        finally:
            self.st, self.dec, self.dpos, self.newalts, self.nofork, self.depth = saved
        return outs

    def flag(self, msg):
        self.st.flags.append(msg)

    # ------------------------------------------------------------ heap
    def alloc(self, cell):
        i = next(_ids)
        self.st.heap[i] = cell
        return Ref(i)

    def frame_vars(self, f):
        v = self.st.frames.get(f)
        return self.static_frames[f] if v is None else v

    def cell(self, ref):
        if self.reading:
            self.reading[-1].add(ref.id)
        c = self.st.heap.get(ref.id)
        return self.statics[ref.id] if c is None else c

    def cell_w(self, ref, why=""):
        if ref.id in self.statics:
            raise Unsupported("changes an object that outlives the call (%s)" % why)
        if ref.id < self.epoch:
            self.flag("writes to an object that existed before the call (%s)" % why)
        c = self.st.heap[ref.id]
        if isinstance(c, Lst) and c.frozen:
            self.flag("modifies a list that was handed out (%s)" % why)
        if isinstance(c, Obj) and c.loose is not None:
            raise Unsupported("writes to an object taken out of an abstract list")
        if c.ident is not None:
            self.st.written |= {c.ident}
        c = c.copy()
        c.ident = None
        self.st.heap[ref.id] = c
        return c

    def new_list(self, segs):
        return self.alloc(Lst(list(segs)))

    # ------------------------------------------------------------ classes
    def klass(self, name):
        if self.spec and name in self.pkg.modules["refspec"].defs and \
                self.pkg.modules["refspec"].defs[name][0] == "class":
            return self.glob("refspec", name)
        if name not in self.classes:
            raise Unsupported("class %s not found" % name)
        m, _ = self.classes[name]
        return self.glob(m, name)

    def is_namedtuple(self, c):
        return any(b.split(".")[-1] == "NamedTuple" for b in c.external_bases())

    def is_dataclass(self, c):
        for k in c.mro():
            for d in k.node.decorator_list:
                n = d.func if isinstance(d, ast.Call) else d
                n = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "")
                if n == "dataclass":
                    return True
        return False

    def class_fields(self, c):
        out = []
        for k in reversed(c.mro()):
            for n in k.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    ann = ast.unparse(n.annotation)
                    if "ClassVar" in ann:
                        continue
                    out = [x for x in out if x[0] != n.target.id]
                    out.append((n.target.id, n.value, k))
        return out

    def field_default(self, node, k):
        if isinstance(node, ast.Call):
            f = node.func
            fn = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if fn == "field":
                for kw in node.keywords:
                    if kw.arg == "default":
                        return self.eval(kw.value, self.module_frame(k.module))
                    if kw.arg == "default_factory":
                        return self.call(self.eval(kw.value, self.module_frame(k.module)), [], {})
                return NODEFAULT
        return self.eval(node, self.module_frame(k.module))

    def instantiate(self, c, args, kwargs):
        if c.name == "Ctx":
            return self.make_ctx(c, args, kwargs)
        return self.instantiate_raw(c, args, kwargs)

    def keep_args(self, ref, args, kwargs={}):
        """what BaseException.__new__ and __init__ do"""
        if isinstance(ref, Ref) and isinstance(self.cell(ref), Obj) and any(
                b.split(".")[-1] in ("Exception", "BaseException")
                for b in self.cell(ref).cls.external_bases()):
            if kwargs:
                raise RaiseSig("TypeError")
            self.set_field(ref, "args", tuple(args), init=True)

    def instantiate_raw(self, c, args, kwargs):
        init = c.find("__init__")
        if init is not None and isinstance(init[1], ast.FunctionDef):
            ref = self.alloc(Obj(c, {}))
            self.keep_args(ref, args)
            self.call_func_node(init[1], init[0].module, None, [ref] + list(args), kwargs,
                                owner=init[0])
            return ref
        if self.is_namedtuple(c) or self.is_dataclass(c):
            fields = self.class_fields(c)
            vals = {}
            if len(args) > len(fields):
                raise RaiseSig("TypeError")
            for (n, d, k), a in zip(fields, args):
                vals[n] = a
            for k2, v in kwargs.items():
                if k2 in vals or all(k2 != f[0] for f in fields):
                    raise RaiseSig("TypeError")
                vals[k2] = v
            for n, d, k in fields:
                if n not in vals:
                    x = NODEFAULT if d is None else self.field_default(d, k)
                    if x is NODEFAULT:
                        raise RaiseSig("TypeError")
                    vals[n] = x
            names = [f[0] for f in fields]
            if c.name == "Loc" and self.terms:
                if names != ["pos", "line", "col"]:
                    raise Unsupported("fields of Loc")
                return S.Loc.mk_loc(*[self.to_int(vals[n]) for n in names])
            if c.name == "Skip" and names == ["count"] and self.terms:
                return S.Op.Skip(self.to_int(vals["count"]))
            if c.name == "Insert" and names == ["label"] and self.terms:
                return S.Op.Insert(self.to_L(vals["label"]))
            if c.name == "Token" and names == ["kind", "value", "start", "end"] and self.terms:
                k, v = self.to_L(vals["kind"]), self.to_V(vals["value"])
                s, e = self.to_loc(vals["start"]), self.to_loc(vals["end"])
                t = S.TokV(k, v, s, e)
                self.assume(z3.And(S.a_kind(t) == k, S.a_value(t) == v,
                                   S.a_start(t) == s, S.a_end(t) == e))
                return t
            ref = self.alloc(Obj(c, {}))
            for n in names:
                self.set_field(ref, n, vals[n], init=True)
            post = c.find("__post_init__")
            if post is not None and self.is_dataclass(c):
                self.call(self.class_attr(post, ref), [])
            return ref
        if c.is_exception():
            ref = self.alloc(Obj(c, {"args": tuple(args)}))
            return ref
        if args or kwargs:
            raise RaiseSig("TypeError")
        return self.alloc(Obj(c, {}))

    def ctx_roles(self):
        if self._ctx_roles is None:
            c = self.klass("Ctx")
            m, l, g = S.fresh("cm", S.Int), S.fresh("cl", S.Loc), S.fresh("cg", S.V)
            saved = self.st
            self.st = State()
            try:
                ep, self.epoch = self.epoch, 0
                ref = self.instantiate_raw(c, [m, l, g], {})
                self.epoch = ep
                fields = self.st.heap[ref.id].fields
            finally:
                self.st = saved
            roles = {}
            for n, v in fields.items():
                if isinstance(v, z3.ExprRef) and v.eq(m):
                    roles[n] = S.Ctx.c_mark
                elif isinstance(v, z3.ExprRef) and v.eq(l):
                    roles[n] = S.Ctx.c_loc
                elif isinstance(v, z3.ExprRef) and v.eq(g):
                    roles[n] = S.Ctx.c_gl
                else:
                    raise Unsupported("field %s of Ctx" % n)
            if len(roles) != 3:
                raise Unsupported("fields of Ctx")
            self._ctx_roles = roles
        return self._ctx_roles

    def make_ctx(self, c, args, kwargs):
        roles = self.ctx_roles()
        ref = self.instantiate_raw(c, args, kwargs)
        fields = self.st.heap[ref.id].fields
        inv = {str(r): n for n, r in roles.items()}
        try:
            return S.Ctx.mk_ctx(self.to_int(fields[inv["c_mark"]]),
                                self.to_loc(fields[inv["c_loc"]]),
                                self.to_V(fields[inv["c_gl"]]))
        except KeyError:
            raise Unsupported("Ctx.__init__")

    def set_field(self, ref, name, val, init=False):
        if name == "expected" and not (self.cell(ref).cls.name == "ErrorItem" and
                                       isinstance(val, Ref)):
            val = self.to_E(val)
        c = self.st.heap[ref.id] if init else self.cell_w(ref, "attribute " + name)
        c.fields[name] = val

    # ------------------------------------------------------------ coercions
    def to_int(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, z3.ExprRef):
            if v.sort() == S.Int:
                return v
            if v.sort() == S.Bool:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, OptInt):
            if self.decide(v.none):
                raise RaiseSig("TypeError")
            return v.val
        if v is None:
            raise RaiseSig("TypeError")
        raise Unsupported("int from %r" % (v,))

    def to_bool_term(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, z3.ExprRef) and v.sort() == S.Bool:
            return v
        t = self.truth(v)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def to_loc(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() == S.Loc:
            return v
        raise Unsupported("Loc from %r" % (v,))

    def to_ctx(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() == S.Ctx:
            return v
        raise Unsupported("Ctx from %r" % (v,))

    def to_L(self, v):
        if isinstance(v, str):
            return S.lit(v)
        if isinstance(v, z3.ExprRef) and v.sort() == S.L:
            return v
        if isinstance(v, StrX):
            if not v.parts:
                return S.lit("")
            if len(v.parts) == 1:
                return self.to_L(v.parts[0])
        raise Unsupported("text from %r" % (v,))

    def seq_of(self, v, what):
        """contents as a Seq term (SV or E)"""
        sort, conv = (S.SV, self.to_V) if what == "SV" else (S.E, self.to_L)
        if isinstance(v, z3.ExprRef):
            if v.sort() == sort:
                return v
            if v.sort() == S.V and what == "SV":
                return self.unlist(v)
        if isinstance(v, tuple):
            return S.units([conv(x) for x in v], sort)
        segs, _ = self.iter_segs(v)
        return self.segs_term(segs, what)

    def segs_term(self, segs, what):
        sort, conv = (S.SV, self.to_V) if what == "SV" else (S.E, self.to_L)
        parts = [z3.Empty(sort)]
        for s in segs:
            if isinstance(s, Elem):
                parts.append(z3.Unit(conv(s.val)))
            elif isinstance(s, SeqSeg) and s.term.sort() == sort:
                parts.append(s.term)
            else:
                raise Unsupported("contents of a list as %s" % what)
        return S.cat(*parts)

    def backwards(self, segs):
        for what in ("SV", "E"):
            try:
                q = self.segs_term(segs, what)
            except Unsupported:
                continue
            if q.decl().eq(S.Rev[what].d):
                return SeqSeg(q.arg(0))
            r = S.Rev[what](q)
            self.assume(z3.Length(r) == z3.Length(q))
            return SeqSeg(r)
        raise Unsupported("reversed copy")

    def to_E(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() == S.E:
            return v
        if isinstance(v, (OneShot, GenVal)):
            self.flag("one-shot iterator stored as expected")
        if isinstance(v, str):
            raise Unsupported("str stored as expected")
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst) and not c.frozen:
                c = c.copy()
                c.frozen = True
                self.st.heap[v.id] = c
        return self.seq_of(v, "E")

    def unlist(self, v):
        if v.decl().eq(S.ListV.d):
            return v.arg(0)
        return S.unlist(v)

    def box(self, v):
        """V constant standing for an engine value (function, object)."""
        if isinstance(v, Closure):
            key = ("cl", id(v.node), self.captured(v), v.owner and v.owner.name)
        elif isinstance(v, BoundMethod):
            key = ("bm", id(v.fn) if not isinstance(v.fn, Closure) else id(v.fn.node),
                   v.self_.get_id() if isinstance(v.self_, z3.ExprRef) else repr(v.self_))
        elif isinstance(v, Ref):
            key = ("ref", v.id)
        elif isinstance(v, PDesc):
            return v.term
        elif isinstance(v, AbsFn):
            key = ("abs", v.parser.sexpr(), v.slow)
        else:
            key = ("obj", repr(v) if isinstance(v, (External, ClassVal)) else id(v))
        if key not in self.boxkeys:
            k = S.fresh("box", S.V)
            self.boxkeys[key] = (k, v)
            self.boxed[str(k)] = v
        return self.boxkeys[key][0]

    def captured(self, c):
        """frame of a closure, if its code depends on it"""
        if not isinstance(c.frame, int) or c.defaults or c.kwdefaults:
            return c.frame
        names = free_names(c.node)
        frame = c.frame
        while not isinstance(frame, tuple):
            f = self.frame_vars(frame)
            if names & (set(f) - {"__parent__", "__owner__", "__self__"}) or "super" in names:
                return c.frame
            frame = f["__parent__"]
        return frame

    def to_V(self, v):
        if v is None:
            return S.NoneV
        if isinstance(v, bool):
            return S.BoolV(z3.BoolVal(v))
        if isinstance(v, int):
            return S.IntV(z3.IntVal(v))
        if isinstance(v, str):
            return S.StrV(S.lit(v))
        if isinstance(v, z3.ExprRef):
            s = v.sort()
            if s == S.V:
                return v
            if s == S.Int:
                return S.IntV(v)
            if s == S.Bool:
                return S.BoolV(v)
            if s == S.L:
                return S.StrV(v)
            if s == S.Loc:
                return S.LocV(v)
            if s == S.E:
                return S.EV(v)
            raise Unsupported("value of sort %s" % s)
        if isinstance(v, tuple):
            sv = S.units([self.to_V(x) for x in v], S.SV)
            t = S.TupV(sv)
            self.assume(S.untup(t) == sv)
            return t
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                sv = self.segs_term(c.segs, "SV")
                t = S.ListV(sv)
                self.assume(S.unlist(t) == sv)
                return t
            if c.cls.name == "Token" and set(c.fields) == {"kind", "value", "start", "end"}:
                f = c.fields
                return S.TokV(self.to_L(f["kind"]), self.to_V(f["value"]),
                              self.to_loc(f["start"]), self.to_loc(f["end"]))
            return self.box(v)
        if isinstance(v, StrX):
            return S.StrV(self.to_L(v))
        if isinstance(v, (Closure, BoundMethod, Builtin, PDesc, AbsFn, External, ClassVal,
                          DescFn)):
            return self.box(v)
        if isinstance(v, OptInt):
            return z3.If(v.none, S.NoneV, S.IntV(v.val))
        raise Unsupported("value %r" % (v,))

    def unboxed(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() == S.V and v.num_args() == 0:
            return self.boxed.get(str(v), v)
        return v

    # ------------------------------------------------------------ truth / equality
    def truth(self, v):
        """python bool or z3 Bool"""
        if v is None:
            return False
        if isinstance(v, (bool, int, str, tuple)):
            return bool(v)
        if isinstance(v, z3.ExprRef):
            s = v.sort()
            if s == S.Bool:
                return v
            if s == S.Int:
                return v != 0
            if s == S.E:              # of whatever class: only a list or a tuple can be false
                b = S.fresh("true", S.Bool)
                self.assume(z3.Implies(z3.Length(v) > 0, b))
                return b
            if s == S.SV:
                return z3.Length(v) > 0
            if s == S.V:
                if str(v) in self.streams:
                    return S.slen(v) > 0
                if self.as_cut(v) is not None:
                    return self.length(v) > 0
                if str(v) in self.texts:
                    self.assume(S.slen(v) >= 0)
                    return S.slen(v) > 0
                if str(v) in self.present and str(v) != "FN":
                    return True
                return S.truthy(v)
            if s == S.L:
                return S.lnonempty(v)
            return True
        if isinstance(v, OptInt):
            return z3.And(z3.Not(v.none), v.val != 0)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                n = self.length(v)
                return n > 0
            if c.cls.find("__bool__") or c.cls.find("__len__"):
                raise Unsupported("__bool__/__len__")
            return True
        if isinstance(v, StrX):
            if any(isinstance(p, str) for p in v.parts):
                return True
            if not v.parts:
                return False
            raise Unsupported("truth of text")
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return True

    def length(self, v):
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, z3.ExprRef):
            if v.sort() in (S.E, S.SV):
                return z3.Length(v)
            if v.sort() == S.V:
                if v.decl().eq(S.ListV.d):
                    return z3.Length(v.arg(0))
                c = self.as_cut(v)
                if c is not None:
                    src, lo, hi = c
                    self.assume(S.slen(src) >= 0)
                    hi = z3.If(hi > S.slen(src), S.slen(src), hi)
                    return z3.If(hi > lo, hi - lo, z3.IntVal(0))
                self.assume(S.slen(v) >= 0)
                return S.slen(v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                n = 0
                for s in c.segs:
                    if isinstance(s, Elem):
                        n = n + 1
                    elif isinstance(s, SeqSeg):
                        n = n + z3.Length(s.term)
                    elif isinstance(s, Abs):
                        self.assume(s.src.length() >= 0)
                        n = n + s.src.length()
                    elif isinstance(s, (For, Cond)):
                        n = n + self.seg_length(s)
                    else:
                        raise Unsupported("length inside a summarised loop")
                return n
        if isinstance(v, RangeVal):
            raise Unsupported("len(range)")
        raise Unsupported("len of %r" % (v,))

    def as_cut(self, v):
        """(stream, from, to) of a part of a text"""
        if v.decl().eq(S.cut.d):
            return v.children()
        if v.decl().eq(S.m_group.d) and v.arg(3).eq(S.IntV(z3.IntVal(0))):
            return v.arg(1), v.arg(2), S.m_end(v.arg(0), v.arg(1), v.arg(2))
        return None

    def seg_length(self, s):
        if isinstance(s, For) and not s.partial:
            n = 0
            for x in s.segs:
                if isinstance(x, Elem):
                    n += 1
                elif isinstance(x, Cond) and all(
                        len(a[2]) == 1 and isinstance(a[2][0], Elem) for a in x.alts):
                    n += 1
                else:
                    break
            else:
                self.assume(s.src.length() >= 0)
                return s.src.length() * n
        k = S.fresh("len", S.Int)
        self.assume(k >= 0)
        return k

    def eq(self, a, b):
        """python bool or z3 Bool for a == b"""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of a loop variable")
        if a is None or b is None:
            o = b if a is None else a
            return self.is_none(o) if not (isinstance(o, z3.ExprRef) and o.sort() == S.V) or \
                str(o) in self.present else o == S.NoneV
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if isinstance(a, OptInt) or isinstance(b, OptInt):
            if not isinstance(a, OptInt):
                a, b = b, a
            if isinstance(b, OptInt):
                return z3.Or(z3.And(a.none, b.none),
                             z3.And(z3.Not(a.none), z3.Not(b.none), a.val == b.val))
            return z3.And(z3.Not(a.none), a.val == self.to_int(b))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        num = lambda x: isinstance(x, (bool, int)) or (
            isinstance(x, z3.ExprRef) and x.sort() in (S.Int, S.Bool))
        if num(a) and num(b):
            if (isinstance(a, bool) or isinstance(a, z3.ExprRef) and a.sort() == S.Bool) and \
                    (isinstance(b, bool) or isinstance(b, z3.ExprRef) and b.sort() == S.Bool):
                return self.to_bool_term(a) == self.to_bool_term(b)
            return self.to_int(a) == self.to_int(b)
        txt = lambda x: isinstance(x, str) or (isinstance(x, z3.ExprRef) and x.sort() == S.L)
        if txt(a) and txt(b):
            return self.to_L(a) == self.to_L(b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() == b.sort():
                if a.sort() == S.V:
                    return self.eqv(a, b)
                if a.sort() in (S.Loc, S.Op) and all(
                        by_content(self, n) for n in
                        (["Loc"] if a.sort() == S.Loc else ["Skip", "Insert"])):
                    return a == b
                raise Unsupported("== on %s" % a.sort())
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (ClassVal, External)) or isinstance(b, (ClassVal, External)):
            return self.identical(a, b)
        if isinstance(a, z3.ExprRef) and a.sort() == S.V or \
                isinstance(b, z3.ExprRef) and b.sort() == S.V:
            return self.eqv(self.to_V(a), self.to_V(b))
        if all(isinstance(x, Ref) and isinstance(self.cell(x), Obj) for x in (a, b)):
            return objects_equal(self, a, b)
        raise Unsupported("== on %r, %r" % (a, b))

    def eqv(self, a, b):
        """user-level == (assumed symmetric)"""
        for x, y in ((a, b), (b, a)):
            c = self.as_cut(x)
            if c is not None and x.decl().eq(S.cut.d):
                src, lo, hi = c
                if not self.valid(z3.And(0 <= lo, lo <= S.slen(src), hi == lo + S.slen(y))):
                    raise Unsupported("comparison of a part of a text")
                for f in self.hooks.sw_facts(self, src, y, lo):
                    self.assume(f)
                return S.sw(src, y, lo)
        if a.num_args() == 0 and b.num_args() > 0:
            a, b = b, a
        return S.eqv(a, b)

    def conj(self, xs):
        ys = []
        for x in xs:
            if x is False:
                return False
            if x is not True:
                ys.append(x)
        if not ys:
            return True
        return z3.And(*ys) if len(ys) > 1 else ys[0]

    def is_none(self, v):
        if v is None:
            return True
        if isinstance(v, OptInt):
            return v.none
        if isinstance(v, z3.ExprRef) and v.sort() == S.V:
            if v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.num_args() > 0 and \
                    any(v.decl().eq(f.d) for f in (S.ListV, S.TupV, S.IntV, S.StrV, S.TokV, S.BoolV)):
                return False
            if not isinstance(self.unboxed(v), z3.ExprRef) or str(v) in self.present:
                return False
            return v == S.NoneV
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return False

    def identical(self, a, b):
        if a is None or b is None:
            return self.is_none(b if a is None else a)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if not isinstance(a, TypeOf):
                a, b = b, a
            if isinstance(b, TypeOf):
                raise Unsupported("type comparison")
            return self.type_is(a.val, b)
        if isinstance(a, ClassVal) or isinstance(b, ClassVal):
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, z3.ExprRef) and a.sort() == S.Bool and isinstance(b, bool):
            return a if b else z3.Not(a)
        if isinstance(a, External) and isinstance(b, External):
            return a.name == b.name
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort() \
                and a.sort() == S.V:
            if a.eq(b):
                return True
        raise Unsupported("is on %r, %r" % (a, b))

    def type_is(self, v, cls):
        name = cls.name.split(".")[-1] if isinstance(cls, (ClassVal, External)) else "?"
        if isinstance(v, z3.ExprRef):
            if v.sort() == S.Op:
                if name == "Skip":
                    return S.Op.is_Skip(v)
                if name == "Insert":
                    return S.Op.is_Insert(v)
                return False
            m = {S.Int: "int", S.Bool: "bool", S.L: "str", S.Loc: "Loc", S.Ctx: "Ctx"}
            if v.sort() in m:
                return m[v.sort()] == name
        if isinstance(v, OptInt) and name == "int":
            return z3.Not(v.none)
        if v is None:
            return False
        if isinstance(v, (bool, int, str, tuple)):
            return type(v).__name__ == name
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                if name in ("list", "tuple"):
                    raise Unsupported("type of a list or tuple")
                return False
            return c.cls is cls
        raise Unsupported("type of %r" % (v,))

    # ------------------------------------------------------------ names
    def module_frame(self, module):
        return ("mod", module)

    def glob(self, module, name):
        key = (module, name)
        if key in self.globals:
            return self.globals[key]
        m = self.pkg.modules[module]
        if name not in m.defs:
            sub = module + "." + name
            if sub in self.pkg.modules:
                return ModuleVal(sub)
            return self.builtin(name)
        d = m.defs[name]
        if d[0] == "func":
            v = v0 = self.make_closure(d[1], self.module_frame(module), module, name)
            if d[1].decorator_list:
                v = self.at_import(lambda: self.decorate(v0, d[1], self.module_frame(module)))
        elif d[0] == "class":
            bases = []
            for b in d[1].bases:
                if isinstance(b, ast.Name) and b.id == "typing__NamedTuple":
                    bases.append(External("typing.NamedTuple"))
                    continue
                n = b.value if isinstance(b, ast.Subscript) else b
                bases.append(self.eval(n, self.module_frame(module)))
            v = ClassVal(module, d[1], [b if isinstance(b, ClassVal) else
                                        External(getattr(b, "name", "?")) for b in bases])
        elif d[0] == "import":
            base, attr = d[1], d[2]
            if attr is None:
                v = ModuleVal(base) if base in self.pkg.modules else External(base)
            elif base in self.pkg.modules:
                v = self.glob(base, attr)
            else:
                v = External(base + "." + attr)
        else:
            v = self.static(d[1], module)
        self.globals[key] = v
        return v

    def static(self, node, module):
        """Evaluates an expression at import time: its objects exist before every
        call and in every state."""
        return self.at_import(lambda: self.eval(node, self.module_frame(module)))

    def at_import(self, f):
        saved, ep = self.st, self.epoch
        self.st, self.epoch = State(), 0
        try:
            v = f()
            self.statics.update(self.st.heap)
            self.static_frames.update(self.st.frames)
            if self.st.pc:
                raise Unsupported("module-level expression")
        finally:
            self.st, self.epoch = saved, ep
        return v

    def builtin(self, name):
        if name in BUILTINS:
            return Builtin(name, BUILTINS[name])
        if name in PURE_BUILTIN_EXC:
            return External(name)
        if name in ("int", "bool", "str", "object", "float", "dict", "set", "frozenset",
                    "staticmethod", "property", "classmethod", "NotImplemented"):
            return External(name)
        raise Unsupported("name %s" % name)

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if isinstance(f, tuple):
                return self.glob(f[1], name)
            vars_ = self.frame_vars(f)
            if name in vars_:
                v = vars_[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why + ": " + name)
                if v is UNBOUND:
                    raise RaiseSig("UnboundLocalError")
                if self.reading:
                    self.reading[-1].add((f, name))
                return v
            f = vars_["__parent__"]
        raise Unsupported("name %s" % name)

    def make_closure(self, node, frame, module, qual, owner=None):
        a = node.args
        ev = self.eval
        if isinstance(frame, tuple):
            ev = lambda d, frame: self.default_of(d, frame[1])
        defaults = tuple(ev(d, frame) for d in a.defaults)
        kwd = {}
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[n.arg] = ev(d, frame)
        return Closure(node, frame, module, qual, defaults, kwd, owner)

    def default_of(self, node, module):
        if isinstance(node, ast.Constant):
            return self.eval(node, self.module_frame(module))
        key = (module, node)
        if key not in self.globals:
            self.globals[key] = self.static(node, module)
        return self.globals[key]

    def frame_module(self, frame):
        while not isinstance(frame, tuple):
            frame = self.frame_vars(frame)["__parent__"]
        return frame[1]

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.unboxed(f)
        if isinstance(f, Closure):
            for c, a in self.selfs:
                if c.same(f) and self.depth > 0:
                    return self.call_abs(a, args, kwargs)
            h = self.intercept.get((f.module, f.qual))
            if h is not None:
                r = h(self, f, args, kwargs)
                if r is not None:
                    return r
            return self.call_func_node(f.node, f.module, f.frame, args, kwargs, closure=f,
                                       owner=f.owner)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, AbsFn):
            return self.call_abs(f, args, kwargs)
        if isinstance(f, DescFn):
            return self.hooks.call_desc(self, f, args, kwargs)
        if isinstance(f, External):
            return self.call_external(f, args, kwargs)
        if isinstance(f, z3.ExprRef) and f.sort() == S.V:
            return self.call_value(f, args, kwargs)
        if f is None:
            raise RaiseSig("TypeError")
        if isinstance(f, Ref) and isinstance(self.cell(f), Obj):
            d = self.cell(f).cls.find("__call__")
            if d is not None:
                return self.call(self.class_attr(d, f), args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def call_value(self, f, args, kwargs):
        if kwargs:
            raise Unsupported("keyword arguments of a user callable")
        sorts = [a.sort() if isinstance(a, z3.ExprRef) else
                 (S.Int if isinstance(a, int) and not isinstance(a, bool) else None)
                 for a in args]
        if sorts == [S.Loc, S.V, S.Int]:
            return self.get_loc_term(f, args[0], args[1], self.to_int(args[2]))
        if sorts == [S.Loc]:
            return S.locstr(f, args[0])
        return S.apps(f, S.units([self.to_V(a) for a in args], S.SV))

    def get_loc_term(self, gl, loc, s, pos):
        t = S.GL(gl, loc, s, pos)
        for fct in self.hooks.gl_facts(self, gl, loc, s, pos, t):
            self.assume(fct)
        return t

    def call_external(self, f, args, kwargs):
        n = f.name.split(".")[-1]
        if f.name.startswith("refrt."):
            return self.intrinsics[n](self, *args)
        if f.name in PURE_BUILTIN_EXC:
            return ExcVal(f.name, tuple(args))
        if f.name == "re.compile":
            return S.apps(z3.Const("re_compile", S.V), S.units([self.to_V(a) for a in args], S.SV))
        if f.name == "bool" and len(args) == 1:
            return self.truth(args[0])
        if f.name == "int" and len(args) == 1:
            return self.to_int(args[0])
        if f.name == "str" and len(args) == 1:
            return self.fmt(args[0], "s")
        if f.name == "object" or n in ("cast",):
            if n == "cast" and len(args) == 2:
                return args[1]
        if f.name in ("Exception.__init__", "BaseException.__init__") and args and \
                isinstance(args[0], Ref) and self.class_of(args[0]).is_exception():
            return self.keep_args(args[0], args[1:], kwargs)
        if f.name == "dataclasses.replace" and len(args) == 1:
            return self.dc_replace(args[0], kwargs)
        if f.name in ("typing.final", "typing_extensions.final", "typing.override",
                      "typing_extensions.override", "typing.no_type_check"):
            return args[0]
        if f.name == "functools.wraps":
            return Builtin("wraps", lambda ip, a, k: a[0])
        if f.name == "copy.copy" and len(args) == 1 and not kwargs:
            return self.shallow_copy(args[0])
        if f.name == "functools.reduce":
            if kwargs or len(args) not in (2, 3):
                raise Unsupported("functools.reduce")
            return self.reduce(*args)
        if f.name == "functools.partial":
            fn, first, kw = args[0], list(args[1:]), dict(kwargs)
            return Builtin("partial", lambda ip, a, k: ip.call(fn, first + list(a),
                                                               {**kw, **k}))
        if f.name == "itertools.chain":
            segs = []
            for a in args:
                ss, src = self.iter_segs(self.plain(a, "chain"))
                segs.extend(self.share(ss, src))
            return self.late(segs, args)
        raise Unsupported("call of %s" % f.name)

    def dc_replace(self, v, kwargs):
        v = self.unboxed(v)
        if isinstance(v, z3.ExprRef) and v.sort() == S.Op:
            c = self.klass("Skip" if self.decide(S.Op.is_Skip(v)) else "Insert")
        else:
            c = self.class_of(v)
        if not self.is_dataclass(c):
            raise RaiseSig("TypeError")
        kw = {n: self.get_attr(v, n) for n, _, _ in self.class_fields(c) if n not in kwargs}
        return self.instantiate(c, [], {**kw, **kwargs})

    def shallow_copy(self, v):
        v = self.unboxed(v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                return list_method(self, v, "copy", [], {})
            if c.cls.find("__copy__") is None:
                ref = self.alloc(Obj(c.cls, {}))
                for n in c.fields:
                    self.set_field(ref, n, self.get_attr(v, n), init=True)
                return ref
        elif v is None or isinstance(v, (bool, int, str, tuple)) or (
                isinstance(v, z3.ExprRef) and v.sort() in (S.Int, S.Bool, S.Loc, S.Op, S.Ctx,
                                                           S.L)):
            return v
        raise Unsupported("copy of %r" % (v,))

    def bind_params(self, node, args, kwargs, defaults, kwdefaults):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise RaiseSig("TypeError")
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        more = []
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if k in posonly or (k not in names and all(k != x.arg for x in a.kwonlyargs)):
                if a.kwarg is None:
                    raise RaiseSig("TypeError")
                more.append((k, v))
                continue
            if k in env:
                raise RaiseSig("TypeError")
            env[k] = v
        nd = len(defaults)
        for n, d in zip(names[len(names) - nd:], defaults):
            env.setdefault(n, d)
        for k, v in kwdefaults.items():
            env.setdefault(k, v)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise RaiseSig("TypeError")
        if a.kwarg is not None:
            env[a.kwarg.arg] = Kw(more)
        return env

    def call_func_node(self, node, module, frame, args, kwargs, closure=None, owner=None):
        if closure is None:
            closure = self.make_closure(node, frame or self.module_frame(module), module,
                                        getattr(node, "name", "<lambda>"), owner)
        if isinstance(node, ast.AsyncFunctionDef):
            raise Unsupported("async")
        env = self.bind_params(node, args, kwargs, closure.defaults, closure.kwdefaults)
        for v in itertools.chain(args, kwargs.values()):
            if isinstance(v, Poison):
                raise Unsupported(v.why)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        if self.active.count(node) > 12:
            raise Unsupported("recursion")
        self.active.append(node)
        fid = next(_ids)
        env["__parent__"] = closure.frame
        env["__owner__"] = owner
        env["__self__"] = args[0] if args else None
        self.st.frames[fid] = env
        self.visited.add((module, closure.qual, getattr(node, "lineno", 0)))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fid)
            for n in local_names(node):
                env.setdefault(n, UNBOUND)
            if is_generator(node):
                lst = self.new_list([])
                env["__yield__"] = lst

                def run():
                    try:
                        self.exec_block(node.body, fid)
                    except ReturnSig:
                        pass
                    return lst
                return self.one_shot(run, lst, own=fid)
            try:
                self.exec_block(node.body, fid)
            except ReturnSig as e:
                return e.val
            return None
        finally:
            self.depth -= 1
            self.active.pop()

    # ------------------------------------------------------------ abstract parsers
    def call_abs(self, f, args, kwargs):
        args = list(args)
        if kwargs:
            names = ["stream", "pos", "ctx", "ins", "rem"][:5 if f.slow else 3]
            for n in names[len(args):]:
                if n not in kwargs:
                    raise Unsupported("keyword call of a parse function")
                args.append(kwargs[n])
        if len(args) != (5 if f.slow else 3):
            raise RaiseSig("TypeError")
        s, pos, ctx = self.to_V(args[0]), self.to_int(args[1]), self.to_ctx(args[2])
        p = f.parser
        if self.canon:
            ctx = self.canonical(s, pos, ctx)
        if not f.slow:
            t = S.F(p, s, pos, ctx)
            info = dict(p=p, s=s, pos=pos, ctx=ctx, slow=False)
        else:
            ins = self.to_int(args[3])
            rem = args[4]
            if rem is None:
                rn, rv = z3.BoolVal(True), z3.IntVal(0)
            elif isinstance(rem, OptInt):
                rn, rv = rem.none, z3.If(rem.none, z3.IntVal(0), rem.val)
            else:
                rn, rv = z3.BoolVal(False), self.to_int(rem)
            t = S.G(p, s, pos, ctx, ins, rn, rv)
            info = dict(p=p, s=s, pos=pos, ctx=ctx, slow=True, ins=ins, rn=rn, rem=rv)
        return self.materialise(t, info)

    def canonical(self, s, pos, ctx):
        """The context with its base location moved to pos, where that is possible."""
        gl, loc = S.Ctx.c_gl(ctx), S.Ctx.c_loc(ctx)
        if self.spec or self.valid(S.vlow(gl, s, loc) <= pos):
            for f in self.hooks.loc_facts(gl, s, pos):
                self.assume(f)
            return canon_ctx(s, pos, ctx)
        return ctx

    def materialise(self, t, info):
        self.calls[t.get_id()] = (t, info)
        for fct in self.hooks.rely_result(self, t, info):
            self.assume(fct)
        k = S.kind(t)
        if self.decide(k == 0):
            return self.alloc(Obj(self.klass("Ok"), dict(
                value=S.r_val(t), pos=S.r_pos(t), ctx=S.r_ctx(t), expected=S.r_exp(t),
                consumed=S.r_cons(t)), t))
        if self.decide(k == 1):
            return self.alloc(Obj(self.klass("Error"), dict(
                loc=S.r_loc(t), expected=S.r_exp(t), consumed=S.r_cons(t)), t))
        if info["slow"] and self.decide(k == 2):
            reps = self.new_list([Abs(ASrc("reps", t))])
            self.assume(S.n_reps(t) >= 0)
            return self.alloc(Obj(self.klass("Recovered"), dict(
                repairs=reps, min_prio=OptInt(S.r_mpn(t), S.r_mp(t)), loc=S.r_loc(t),
                expected=S.r_exp(t), consumed=S.r_cons(t)), t))
        raise RaiseSig("AbstractRaise", t)

    def materialise_elem(self, src, idx, loose=False):
        t = src.t
        ident = ("abs", src.kind, src_key(src))
        loose = src if loose else None
        if src.kind == "reps":
            for fct in self.hooks.rely_rep(self, t, idx):
                self.assume(fct)
            ops = self.alloc(Lst([Abs(ASrc("ops", t, idx))], False, loose is not None,
                                 ("abs", "oplist", src_key(src))))
            return self.alloc(Obj(self.klass("Repair"), dict(
                cost=S.p_cost(t, idx), prio=OptInt(S.p_prn(t, idx), S.p_prio(t, idx)),
                ins=S.p_ins(t, idx), ops=ops, value=S.p_val(t, idx), pos=S.p_pos(t, idx),
                ctx=S.p_ctx(t, idx), expected=S.p_exp(t, idx), consumed=S.p_cons(t, idx)),
                None, ident, loose))
        for fct in self.hooks.rely_op(self, t, src.i, idx):
            self.assume(fct)
        return self.alloc(Obj(self.klass("OpItem"), dict(
            op=S.o_op(t, src.i, idx), loc=S.o_loc(t, src.i, idx),
            expected=S.o_exp(t, src.i, idx), consumed=S.o_cons(t, src.i, idx)),
            None, ident, loose))

    # ------------------------------------------------------------ attributes
    def get_attr(self, v, name):
        v = self.unboxed(v)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                return Builtin("list." + name, lambda ip, a, k: list_method(ip, v, name, a, k))
            if name in c.fields:
                x = c.fields[name]
                if isinstance(x, Poison):
                    raise Unsupported(x.why)
                return x
            d = c.cls.find(name)
            if d is not None:
                return self.class_attr(d, v)
            if name == "__class__":
                return c.cls
            raise RaiseSig("AttributeError", name)
        if isinstance(v, ModuleVal):
            return self.glob(v.name, name)
        if isinstance(v, ClassVal):
            d = v.find(name)
            if d is None:
                if name == "__name__":
                    return v.name
                raise RaiseSig("AttributeError", name)
            if isinstance(d[1], ast.expr):
                return self.class_value(d[0], d[1])
            cl = self.make_closure(d[1], self.module_frame(d[0].module), d[0].module,
                                   d[0].name + "." + name, d[0])
            for x in d[1].decorator_list:
                x = x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?")
                if x == "classmethod":
                    return BoundMethod(cl, v)
                if x not in ("staticmethod", "abstractmethod", "final", "override"):
                    raise Unsupported("decorator %s" % x)
            return cl
        if isinstance(v, SuperVal):
            cls = self.class_of(v.self_)
            mro = cls.mro()
            for k in mro[mro.index(v.cls) + 1:]:
                if name in k.attrs:
                    return self.class_attr((k, k.attrs[name]), v.self_)
            if name == "__init__":
                return Builtin("object.__init__", lambda ip, a, k: ip.keep_args(v.self_, a, k))
            raise RaiseSig("AttributeError", name)
        if isinstance(v, External):
            if v.name == "str" and name in S.STRP:
                return Builtin("str." + name, lambda ip, a, k: S.STRP[name](ip.to_V(a[0])))
            return External(v.name + "." + name)
        if isinstance(v, (str, StrX)):
            return Builtin("str." + name, lambda ip, a, k: str_method(ip, v, name, a, k))
        if isinstance(v, MatchVal):
            return Builtin("match." + name, lambda ip, a, k: match_method(ip, v, name, a, k)) \
                if name in ("group", "end", "start", "span") else match_attr(self, v, name)
        if isinstance(v, PDesc):
            if name == "fast_fn":
                return DescFn(v, False)
            if name == "fn":
                return DescFn(v, True)
            raise RaiseSig("AttributeError", name)
        if isinstance(v, z3.ExprRef):
            s = v.sort()
            if s == S.Loc:
                for n, f in (("pos", S.Loc.l_pos), ("line", S.Loc.l_line), ("col", S.Loc.l_col)):
                    if n == name:
                        return f(v)
                if name == "_replace":
                    def rep(ip, a, k):
                        return S.Loc.mk_loc(*[ip.to_int(k.get(n, f(v))) for n, f in (
                            ("pos", S.Loc.l_pos), ("line", S.Loc.l_line), ("col", S.Loc.l_col))])
                    return Builtin("_replace", rep)
                raise RaiseSig("AttributeError", name)
            if s == S.Ctx:
                r = self.ctx_roles()
                if name in r:
                    return r[name](v)
                if name == "__class__":
                    return self.klass("Ctx")
                d = self.klass("Ctx").find(name)
                if d is None:
                    raise RaiseSig("AttributeError", name)
                return self.class_attr(d, v)
            if s == S.Op:
                if name == "count":
                    if self.decide(S.Op.is_Skip(v)):
                        return S.Op.skip_count(v)
                elif name == "label":
                    if self.decide(S.Op.is_Insert(v)):
                        return S.Op.ins_label(v)
                raise RaiseSig("AttributeError", name)
            if s == S.V:
                return self.value_attr(v, name)
            if s == S.L:
                return Builtin("str." + name, lambda ip, a, k: str_method(ip, v, name, a, k))
            if s == S.E:
                return Builtin("list." + name, lambda ip, a, k: eterm_method(ip, v, name, a, k))
        if v is None:
            raise RaiseSig("AttributeError", name)
        if isinstance(v, (Closure,)):
            if name == "__name__":
                return v.qual
        raise Unsupported("attribute %s of %r" % (name, v))

    def class_of(self, v):
        if isinstance(v, Ref):
            return self.cell(v).cls
        if isinstance(v, z3.ExprRef) and v.sort() == S.Ctx:
            return self.klass("Ctx")
        raise Unsupported("class of %r" % (v,))

    def class_attr(self, d, self_):
        k, node = d
        if isinstance(node, ast.FunctionDef):
            decs = [x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?")
                    for x in node.decorator_list]
            cl = self.make_closure(node, self.module_frame(k.module), k.module,
                                   k.name + "." + node.name, k)
            if "property" in decs:
                return self.call(cl, [self_])
            if "staticmethod" in decs:
                return cl
            if "classmethod" in decs:
                return BoundMethod(cl, self.class_of(self_))
            if [x for x in decs if x not in ("abstractmethod", "final", "override")]:
                raise Unsupported("decorator %s" % decs)
            return BoundMethod(cl, self_)
        if isinstance(node, ast.expr):
            v = self.class_value(k, node)
            return BoundMethod(v, self_) if isinstance(v, Closure) else v
        raise Unsupported("class attribute")

    def class_value(self, k, node):
        """A value assigned in the body of a class, evaluated when it is created."""
        if any(isinstance(n, ast.Name) and n.id in k.attrs for n in ast.walk(node)):
            raise Unsupported("class attribute that depends on another one")
        return self.default_of(node, k.module)

    def value_attr(self, v, name):
        if name == "kind":
            return S.a_kind(v)
        if name == "value":
            return S.a_value(v)
        if name == "start":
            return S.a_start(v)
        if name == "end":
            return S.a_end(v)
        if name == "fast_fn" or name == "parse_fast_fn":
            return AbsFn(v, False)
        if name == "fn" or name == "parse_fn":
            return AbsFn(v, True)
        if name == "to_fns":
            return Builtin("to_fns", lambda ip, a, k: v)
        if name in S.STRP:
            return Builtin("str." + name, lambda ip, a, k: S.STRP[name](v))
        if name in ("startswith", "count", "rfind", "find", "index", "rindex"):
            return Builtin("stream." + name, lambda ip, a, k: stream_method(ip, v, name, a, k))
        if name == "match":
            def match(ip, a, k):
                s = ip.to_V(a[0])
                pos = a[1] if len(a) > 1 else k.get("pos", 0)
                if len(a) > 2 or set(k) - {"pos"}:
                    raise Unsupported("match arguments")
                pos = ip.to_int(pos)
                for fct in ip.hooks.match_facts(ip, v, s, pos):
                    ip.assume(fct)
                if ip.decide(S.m_ok(v, s, pos)):
                    return MatchVal(v, s, pos)
                return None
            return Builtin("match", match)
        for c in ("Parser", "TupleParser"):
            if c in self.classes:
                d = self.klass(c).find(name)
                if d is not None:
                    return self.class_attr(d, v)
        raise Unsupported("attribute %s of a value" % name)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, frame):
        for st in minima(body):
            self.exec(st, frame)

    def exec(self, n, frame):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(n).__name__, n.lineno))
        return m(n, frame)

    def s_Expr(self, n, frame):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, frame)

    def s_Pass(self, n, frame):
        pass

    def s_Assert(self, n, frame):
        if not self.decide(self.truth(self.eval(n.test, frame))):
            raise RaiseSig("AssertionError")

    def s_Import(self, n, frame):
        raise Unsupported("local import")

    s_ImportFrom = s_Import

    def s_Assign(self, n, frame):
        v = self.eval(n.value, frame)
        for t in n.targets:
            self.assign(t, v, frame)

    def s_AnnAssign(self, n, frame):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, frame), frame)

    def s_AugAssign(self, n, frame):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, frame)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, frame)
            cur = self.get_attr(obj, t.attr)
        else:
            raise Unsupported("augmented assignment")
        if isinstance(n.op, ast.Add) and isinstance(cur, Ref) and isinstance(self.cell(cur), Lst):
            list_method(self, cur, "extend", [self.eval(n.value, frame)], {})
            return
        if isinstance(cur, z3.ExprRef) and cur.sort() in (S.V, S.E, S.SV) and not any(
                cur.decl().eq(f.d) for f in (S.TupV, S.IntV, S.StrV)):
            raise Unsupported("in-place operation on a value of unknown type")
        v = self.binop(n.op, cur, self.eval(n.value, frame))
        if isinstance(t, ast.Name):
            self.assign(t, v, frame)
        else:
            self.set_attr(obj, t.attr, v)

    def s_Return(self, n, frame):
        raise ReturnSig(None if n.value is None else self.eval(n.value, frame))

    def s_If(self, n, frame):
        if self.decide(self.truth(self.eval(n.test, frame))):
            self.exec_block(n.body, frame)
        else:
            self.exec_block(n.orelse, frame)

    def s_Try(self, n, frame):
        if not n.finalbody:
            return self.try_(n, frame)
        try:
            self.try_(n, frame)
        except (ReturnSig, BreakSig, ContinueSig, RaiseSig) as sig:
            self.exec_block(n.finalbody, frame)
            raise sig
        self.exec_block(n.finalbody, frame)

    def try_(self, n, frame):
        try:
            self.exec_block(n.body, frame)
        except RaiseSig as e:
            for h in n.handlers:
                if not self.catches(h, e, frame):
                    continue
                if h.name:
                    self.set_var(frame, h.name, ExcVal(e.name) if e.obj is None or
                                 not isinstance(e.obj, (Ref, ExcVal)) else e.obj)
                self.handling.append(e)
                try:
                    self.exec_block(h.body, frame)
                finally:
                    self.handling.pop()
                    if h.name:
                        self.set_var(frame, h.name, UNBOUND)
                return
            raise
        self.exec_block(n.orelse, frame)

    def catches(self, h, e, frame):
        if h.type is None:
            return True
        ts = self.eval(h.type, frame)
        for t in ts if isinstance(ts, tuple) else (ts,):
            name = t.name if isinstance(t, (External, Builtin)) else None
            if name in ("Exception", "BaseException"):
                return True
            if e.name == "AbstractRaise":
                raise Unsupported("except clause around a parser")
            if isinstance(t, ClassVal):
                if isinstance(e.obj, Ref) and self.cell(e.obj).cls.is_subclass(t):
                    return True
                continue
            have = getattr(builtins, e.name, None)
            want = getattr(builtins, name, None) if name else None
            if want is None:
                raise Unsupported("except clause")
            if isinstance(e.obj, Ref):
                bases = [b.split(".")[-1] for b in self.cell(e.obj).cls.external_bases()]
                if any(issubclass(getattr(builtins, b, BaseException), want) for b in bases):
                    return True
            elif have is None:
                raise Unsupported("except clause")
            elif issubclass(have, want):
                return True
        return False

    def s_Raise(self, n, frame):
        if n.exc is None:
            if not self.handling:
                raise Unsupported("re-raise")
            raise self.handling[-1]
        v = self.eval(n.exc, frame)
        if isinstance(v, External):
            v = ExcVal(v.name)
        if isinstance(v, ClassVal):
            v = self.instantiate(v, [], {})
        if isinstance(v, ExcVal):
            raise RaiseSig(v.name, v, "explicit")
        if isinstance(v, Ref) and self.cell(v).cls.is_exception():
            raise RaiseSig(self.cell(v).cls.name, v, "explicit")
        raise RaiseSig("TypeError")

    def s_FunctionDef(self, n, frame):
        cl = self.make_closure(n, frame, self.frame_module(frame), n.name)
        self.set_var(frame, n.name, self.decorate(cl, n, frame))

    def decorate(self, f, n, frame):
        for d in reversed([self.eval(x, frame) for x in n.decorator_list]):
            f = self.call(d, [f])
        return f

    def s_Nonlocal(self, n, frame):
        raise Unsupported("nonlocal")

    s_Global = s_Nonlocal

    def s_Break(self, n, frame):
        raise BreakSig()

    def s_Continue(self, n, frame):
        raise ContinueSig()

    def s_Delete(self, n, frame):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.set_var(frame, t.id, UNBOUND)
            else:
                raise Unsupported("del")

    def s_While(self, n, frame):
        m = self.indexed_while(n, frame)
        if m is not None:
            return self.exec(m, frame)

        def iteration():
            if not self.decide(self.truth(self.eval(n.test, frame))):
                raise LoopDone()
            try:
                self.exec_block(n.body, frame)
            except ContinueSig:
                pass
        self.inv_loop(iteration, {}, n)
        # normal termination falls through; break raises BreakSig
        self.loop_tail(n, frame)

    def loop_tail(self, n, frame):
        b = self.st.notes.pop() if self.st.notes and self.st.notes[-1] == "broke" else None
        if b is None and n.orelse:
            self.exec_block(n.orelse, frame)

    def s_For(self, n, frame):
        m = self.indexed_for(n, frame) or lazy_for(n)
        if m is not None:
            return self.exec(m, frame)
        it = self.eval(n.iter, frame)

        def body(v):
            self.assign(n.target, v, frame)
            try:
                self.exec_block(n.body, frame)
            except ContinueSig:
                pass
        try:
            self.for_each(it, body, n)
        except BreakSig:
            return
        if n.orelse:
            self.exec_block(n.orelse, frame)

    def indexed_for(self, n, frame):
        """for i in range(len(L)): ... L[i] ... is an iteration over the abstract list L"""
        it = n.iter
        if not (isinstance(n.target, ast.Name) and call_of(it, "range") and len(it.args) == 1 and
                call_of(it.args[0], "len") and len(it.args[0].args) == 1):
            return None
        e = it.args[0].args[0]
        if not path_expr(e):
            return None
        v = self.unboxed(self.eval(e, frame))
        if not (isinstance(v, Ref) and isinstance(self.cell(v), Lst)) or \
                all(isinstance(s, Elem) for s in self.cell(v).segs):
            return None
        key = (id(n), "for")
        if key not in self.rewritten:
            t = Indexed(n.target.id, ast.dump(e), e)
            body = [t.visit(x) for x in ast_copy(n.body)]
            x = ast.Name(t.var, ast.Store())
            if t.other:
                x = ast.Tuple([n.target, x], ast.Store())
                e = ast.Call(ast.Name("enumerate", ast.Load()), [e], [])
            m = ast.For(x, e, body, n.orelse, None)
            self.rewritten[key] = None if t.bad or not t.used else \
                ast.fix_missing_locations(ast.copy_location(m, n))
        return self.rewritten[key]

    def indexed_while(self, n, frame):
        """while i < len(L): ... L[i] ...; i += 1   from i = 0"""
        c = n.test
        if not (isinstance(c, ast.Compare) and isinstance(c.left, ast.Name) and len(c.ops) == 1 and
                isinstance(c.ops[0], (ast.Lt, ast.NotEq)) and call_of(c.comparators[0], "len")):
            return None
        i, last = c.left.id, n.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and
                isinstance(last.target, ast.Name) and last.target.id == i and
                isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        if any(isinstance(x, (ast.Continue, ast.Break)) for b in n.body for x in ast.walk(b)) or \
                n.orelse or isinstance(frame, tuple):
            return None
        v = self.st.frames[frame].get(i)
        if isinstance(v, bool) or not isinstance(v, int) or v != 0:
            return None
        key = (id(n), "while")
        if key not in self.rewritten:
            size = c.comparators[0]
            m = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [size], []),
                        n.body[:-1] or [ast.Pass()], [], None)
            ast.fix_missing_locations(ast.copy_location(m, n))
            end = ast.Assign([ast.Name(i, ast.Store())], size)
            ast.fix_missing_locations(ast.copy_location(end, n))
            self.rewritten[key] = (m, end)
        m, end = self.rewritten[key]
        m = self.indexed_for(m, frame)
        return None if m is None else ast.copy_location(ast.If(ast.Constant(True), [m, end], []), n)

    # ------------------------------------------------------------ assignment
    def set_var(self, frame, name, v):
        if isinstance(frame, tuple):
            raise Unsupported("module assignment")
        self.st.frames[frame][name] = v

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.set_var(frame, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, y, frame)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value, frame), t.attr, v)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def set_attr(self, obj, name, v):
        if isinstance(obj, Ref):
            c = self.cell(obj)
            if isinstance(c, Obj):
                if c.cls.is_exception() and c.cls.find("__init__") is None:
                    raise Unsupported("attribute of exception")
                if isinstance(v, (OneShot, GenVal)) and name != "expected":
                    raise Unsupported("generator stored in an object")
                self.set_field(obj, name, v)
                return
        if isinstance(obj, z3.ExprRef) and obj.sort() == S.V:
            self.flag("writes attribute %s of a user value" % name)
            return
        if isinstance(obj, z3.ExprRef):
            raise Unsupported("mutation of a %s" % obj.sort())
        if obj is None:
            raise RaiseSig("AttributeError", name)
        raise Unsupported("attribute assignment")

    def label_list(self, v):
        if isinstance(v, Ref) and isinstance(self.cell(v), Lst):
            segs = self.cell(v).segs
            if len(segs) == 1 and isinstance(segs[0], SeqSeg):
                v = segs[0].term
        if isinstance(v, z3.ExprRef) and v.sort() in (S.E, S.SV):
            return v
        return None

    def unpack(self, v, elts):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, tuple):
            vals = list(v)
        elif isinstance(v, z3.ExprRef) and v.sort() == S.Loc:
            vals = [S.Loc.l_pos(v), S.Loc.l_line(v), S.Loc.l_col(v)]
        elif isinstance(v, z3.ExprRef) and v.sort() == S.V:
            if star:
                raise Unsupported("starred unpacking of a value")
            if v.decl().eq(S.TupV.d):
                q = v.arg(0)
            else:
                q = S.untup(v)
            # typing assumption: values unpacked by the library have the arity
            # their types promise
            xs = [S.fresh("u", S.V) for _ in range(n)]
            self.assume(q == S.units(xs, S.SV))
            self.st.notes.append(("unpack", v, n))
            return xs
        elif self.label_list(v) is not None:
            q = self.label_list(v)
            if not star:
                if not self.decide(z3.Length(q) == n):
                    raise RaiseSig("ValueError")
                return [q[z3.IntVal(i)] for i in range(n)]
            i, j = star[0], n - 1 - star[0]
            ln = z3.Length(q)
            if not self.decide(ln >= n - 1):
                raise RaiseSig("ValueError")
            return ([q[z3.IntVal(x)] for x in range(i)] +
                    [self.new_list([SeqSeg(z3.Extract(q, z3.IntVal(i), ln - i - j))])] +
                    [q[ln - j + x] for x in range(j)])
        elif isinstance(v, OneShot) and not v.writes and v.err is None and \
                all(isinstance(s, Elem) for s in self.cell(v.ref).segs):
            vals = [self.enter(s.val) for s in self.consume(v)]
        elif isinstance(v, Ref) and isinstance(self.cell(v), Lst) and \
                all(isinstance(s, Elem) for s in self.cell(v).segs):
            vals = [self.enter(s.val) for s in self.cell(v).segs]
        else:
            raise Unsupported("unpacking of %r" % (v,))
        if star:
            i = star[0]
            if len(vals) < n - 1:
                raise RaiseSig("ValueError")
            k = len(vals) - (n - 1)
            return vals[:i] + [self.new_list([Elem(x) for x in vals[i:i + k]])] + vals[i + k:]
        if len(vals) != n:
            raise RaiseSig("ValueError")
        return vals

    # ------------------------------------------------------------ expressions
    def eval(self, n, frame):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n, frame)

    def e_Constant(self, n, frame):
        v = n.value
        if v is None or isinstance(v, (bool, int, str, Poison)):
            return v
        if v is Ellipsis:
            return None
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, n, frame):
        v = self.lookup(n.id, frame)
        if isinstance(v, Kw):
            raise Unsupported("** parameter other than handed on")
        return v

    def e_NamedExpr(self, n, frame):
        v = self.eval(n.value, frame)
        self.assign(n.target, v, frame)
        return v

    def e_Attribute(self, n, frame):
        return self.get_attr(self.eval(n.value, frame), n.attr)

    def e_Lambda(self, n, frame):
        return self.make_closure(n, frame, self.frame_module(frame), "<lambda>")

    def e_Tuple(self, n, frame):
        return self.make_tuple(n.elts, frame)

    def make_tuple(self, elts, frame):
        vals = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, frame)
                if isinstance(v, tuple):
                    vals.extend(v)
                elif isinstance(v, z3.ExprRef) and v.sort() == S.V:
                    vals.append(SeqSeg(S.untup(v)))
                elif isinstance(v, Ref) and isinstance(self.cell(v), Lst):
                    for s in self.cell(v).segs:
                        if isinstance(s, Elem):
                            vals.append(self.enter(s.val))
                        elif isinstance(s, SeqSeg) and s.term.sort() == S.SV:
                            vals.append(s)
                        elif isinstance(s, SeqSeg):
                            vals.append(s)
                        else:
                            raise Unsupported("tuple of abstract list")
                else:
                    for s in self.iter_segs(v)[0]:
                        if not isinstance(s, (Elem, SeqSeg)):
                            raise Unsupported("tuple of abstract list")
                        vals.append(s if isinstance(s, SeqSeg) else self.enter(s.val))
            else:
                vals.append(self.eval(e, frame))
        if any(isinstance(v, SeqSeg) and v.term.sort() == S.E for v in vals):
            return self.new_list([v if isinstance(v, SeqSeg) else Elem(v) for v in vals])
        if any(isinstance(v, SeqSeg) for v in vals):
            parts = [v.term if isinstance(v, SeqSeg) else z3.Unit(self.to_V(v)) for v in vals]
            q = S.cat(S.SV0, *parts)
            t = S.TupV(q)
            self.assume(S.untup(t) == q)
            return t
        return tuple(vals)

    def e_List(self, n, frame):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, frame)
                ss, src = self.iter_segs(v)
                segs.extend(self.share(ss, src))
            else:
                segs.append(Elem(self.eval(e, frame)))
        return self.new_list(segs)

    def share(self, segs, src):
        """elements of list src become reachable through another list, too"""
        if src is not None and any(not isinstance(s, SeqSeg) for s in segs):
            c = self.cell(src)
            if isinstance(c, Lst):
                mut = any(self.mutable_seg(s) for s in segs)
                if mut:
                    if c.moved:
                        self.flag("elements of a list end up in two other lists")
                    c = c.copy()
                    c.moved = True
                    self.st.heap[src.id] = c
                    # concrete elements stay identified by their cells
        return list(segs)

    def mutable_seg(self, s):
        if isinstance(s, Abs):
            return True
        if isinstance(s, Elem):
            return isinstance(s.val, Snap)
        if isinstance(s, For):
            return any(self.mutable_seg(x) or (isinstance(x, Elem) and isinstance(x.val, Ref))
                       for x in s.segs)
        if isinstance(s, Cond):
            return any(self.mutable_seg(x) for a in s.alts for x in a[2])
        return False

    def comp(self, n, frame):
        if len(n.generators) == 1 and isinstance(n.elt, ast.Name):
            g = n.generators[0]
            if not g.ifs and not g.is_async and isinstance(g.target, ast.Name) and \
                    g.target.id == n.elt.id:
                v = self.eval(g.iter, frame)
                if not isinstance(v, (EnumVal, RevSeq, RangeVal)):
                    return b_list(self, [v], {})
                return self.comp_over(n, frame, v)
            if g.ifs and not g.is_async and isinstance(g.target, ast.Name) and \
                    g.target.id == n.elt.id and all(map(reads_only, g.ifs)):
                v = self.eval(g.iter, frame)
                acc = self.comp_over(n, frame, v)
                self.filtered(acc, v, n, frame)
                return acc
        return self.comp_over(n, frame)

    def filtered(self, acc, v, n, frame):
        """acc is [x for x in v if c]: notes what is needed to run over v instead"""
        v = self.unboxed(v)
        if not isinstance(v, Ref) or not isinstance(self.cell(v), Lst) or \
                not any(isinstance(s, (Abs, For)) for s in self.cell(v).segs):
            return
        c = self.cell(acc).copy()
        self.st.heap[acc.id] = c
        c.part = (v, n, frame, list(c.segs), self.names_of(n, frame))
        c.part += (dict(self.st.heap),)

    def part_of(self, it):
        """the list and the condition a list was filtered with, if nothing changed since"""
        if not isinstance(it, Ref):
            return None
        c = self.cell(it)
        if not isinstance(c, Lst) or c.part is None:
            return None
        v, n, frame, segs, names, heap = c.part
        if len(segs) != len(c.segs) or any(a is not b for a, b in zip(segs, c.segs)):
            return None
        return (v, n.generators[0], frame) if self.as_before(names, heap) else None

    def as_before(self, names, heap, but=None):
        for cid, c in heap.items():
            now = self.st.heap.get(cid)
            if now is not c and cid != but and not same_cell(c, now, True):
                return False
        return all(f in self.st.frames and n in self.st.frames[f] and
                   same_val(self.st.frames[f][n], x) for f, n, x in names)

    def names_of(self, node, frame):
        names = []
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                f = frame
                while not isinstance(f, tuple) and n.id not in self.frame_vars(f):
                    f = self.frame_vars(f)["__parent__"]
                if not isinstance(f, tuple):
                    names.append((f, n.id, self.frame_vars(f)[n.id]))
        return names

    def comp_over(self, n, frame, *first, acc=None):
        fid = next(_ids)
        self.st.frames[fid] = {"__parent__": frame}
        if acc is None:
            acc = self.new_list([])

        def gen(k):
            if k == len(n.generators):
                v = self.eval(n.elt, fid)
                list_method(self, acc, "append", [v], {})
                return
            g = n.generators[k]
            if g.is_async:
                raise Unsupported("async")
            it = first[0] if first and k == 0 else self.eval(g.iter, frame if k == 0 else fid)

            def body(v):
                self.assign(g.target, v, fid)
                for c in g.ifs:
                    if not self.decide(self.truth(self.eval(c, fid))):
                        return
                gen(k + 1)
            self.for_each(it, body, n)
        gen(0)
        return acc

    def reduce(self, fn, it, *init):
        it = self.unboxed(it)
        if not init:
            segs, _ = self.iter_segs(it)
            if not segs or not isinstance(segs[0], Elem):
                raise Unsupported("functools.reduce without a start value")
            init, it = [self.enter(segs[0].val)], self.new_list(list(segs[1:]))
        hid = next(_ids)
        self.st.frames[hid] = {"__parent__": None, "$acc": init[0]}

        def body(x):
            acc = self.st.frames[hid]["$acc"]
            if isinstance(acc, Poison):
                raise Unsupported(acc.why)
            self.st.frames[hid]["$acc"] = self.call(fn, [acc, x])
        self.for_each(it, body, None)
        acc = self.st.frames[hid]["$acc"]
        if isinstance(acc, Poison):
            raise Unsupported(acc.why)
        return acc

    def e_ListComp(self, n, frame):
        return self.comp(n, frame)

    def e_GeneratorExp(self, n, frame):
        g = n.generators[0]
        first = self.eval(g.iter, frame)
        if len(n.generators) == 1 and isinstance(n.elt, ast.Name) and not g.ifs and \
                not g.is_async and isinstance(g.target, ast.Name) and \
                g.target.id == n.elt.id and not isinstance(first, (EnumVal, RevSeq, RangeVal)):
            return b_iter(self, [first], {})
        if isinstance(first, EnumVal):
            self.plain(first.over, "enumerate")
        self.plain(first, "generator expression")
        acc = self.new_list([])
        return self.one_shot(lambda: self.comp_over(n, frame, first, acc=acc), acc, frame, n)

    def e_Yield(self, n, frame):
        v = None if n.value is None else self.eval(n.value, frame)
        f = frame
        while "__yield__" not in self.st.frames[f]:
            f = self.st.frames[f]["__parent__"]
        list_method(self, self.st.frames[f]["__yield__"], "append", [v], {})
        return None

    def e_YieldFrom(self, n, frame):
        v = self.eval(n.value, frame)
        list_method(self, self.st.frames[frame]["__yield__"], "extend", [v], {})
        return None

    def e_Starred(self, n, frame):
        raise Unsupported("starred")

    def e_JoinedStr(self, n, frame):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    raise Unsupported("format spec")
                parts.append(self.fmt(self.eval(v.value, frame),
                                      {-1: "s", 115: "s", 114: "r"}.get(v.conversion, "?")))
        return self.strx(parts)

    def strx(self, parts):
        x = StrX(parts)
        if not x.parts:
            return ""
        if len(x.parts) == 1 and isinstance(x.parts[0], (str,)):
            return x.parts[0]
        if len(x.parts) == 1 and isinstance(x.parts[0], z3.ExprRef):
            return x.parts[0]
        return x

    def fmt(self, v, conv):
        """str()/repr() of a value as text"""
        if isinstance(v, bool) or isinstance(v, int):
            return str(v)
        if isinstance(v, z3.ExprRef) and v.sort() == S.Int:
            if z3.is_int_value(v):
                return str(v.as_long())
            return StrX([("int", v)])
        if conv == "s":
            if isinstance(v, str):
                return v
            if isinstance(v, StrX):
                return v
            if isinstance(v, z3.ExprRef) and v.sort() == S.L:
                return v
            if isinstance(v, z3.ExprRef) and v.sort() == S.V:
                return S.strv(v)
        if conv == "r":
            if isinstance(v, z3.ExprRef) and v.sort() == S.V:
                return S.reprv(v)
            if isinstance(v, str):
                return repr(v)
            return S.reprv(self.to_V(v))
        raise Unsupported("text of %r" % (v,))

    def e_IfExp(self, n, frame):
        c = self.truth(self.eval(n.test, frame))
        if isinstance(c, bool):
            return self.eval(n.body if c else n.orelse, frame)
        m = self.try_merge(c, n.body, n.orelse, frame)
        if m is not None:
            return m
        if self.decide(c):
            return self.eval(n.body, frame)
        return self.eval(n.orelse, frame)

    def simple(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.Call, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.Yield,
                              ast.YieldFrom, ast.List, ast.Lambda, ast.Await)):
                return False
        return True

    def under(self, cond, n, frame):
        """evaluate a simple expression assuming cond, without forking"""
        if not self.simple(n):
            return None
        base = self.st
        sd = (self.dec, self.dpos, self.newalts)
        self.st = base.copy()
        self.dec, self.dpos, self.newalts = [], 0, []
        self.nofork += 1
        try:
            self.assume(cond, True)
            v = self.eval(n, frame)
            if len(self.st.heap) != len(base.heap):
                return None
            return (v,)
        except (NoFork, RaiseSig, Infeasible, Unsupported):
            return None
        finally:
            self.nofork -= 1
            self.st = base
            self.dec, self.dpos, self.newalts = sd

    def try_merge(self, c, a, b, frame):
        if not (self.simple(a) and self.simple(b)):
            return None
        x = self.under(c, a, frame)
        if x is None:
            return None
        y = self.under(z3.Not(c), b, frame)
        if y is None:
            return None
        x, y = x[0], y[0]
        return self.merge_vals(c, x, y)

    def merge_vals(self, c, x, y):
        isint = lambda v: (isinstance(v, int) and not isinstance(v, bool)) or (
            isinstance(v, z3.ExprRef) and v.sort() == S.Int)
        isbool = lambda v: isinstance(v, bool) or (
            isinstance(v, z3.ExprRef) and v.sort() == S.Bool)
        if isint(x) and isint(y):
            return z3.If(c, self.to_int(x), self.to_int(y))
        if isbool(x) and isbool(y):
            return z3.If(c, self.to_bool_term(x), self.to_bool_term(y))
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == y.sort() \
                and x.sort() in (S.V, S.Loc, S.L, S.E):
            return z3.If(c, x, y)
        return None

    def e_BoolOp(self, n, frame):
        vals = n.values
        isand = isinstance(n.op, ast.And)
        v = self.eval(vals[0], frame)
        for k in range(1, len(vals)):
            c = self.truth(v)
            if isinstance(c, bool):
                if c != isand:
                    return v
                v = self.eval(vals[k], frame)
                continue
            isb = isinstance(v, z3.ExprRef) and v.sort() == S.Bool
            if isb:
                w = self.under(c if isand else z3.Not(c), vals[k], frame)
                if w is not None and (isinstance(w[0], bool) or (
                        isinstance(w[0], z3.ExprRef) and w[0].sort() == S.Bool)):
                    w = self.to_bool_term(w[0])
                    v = z3.And(c, w) if isand else z3.Or(c, w)
                    continue
            if self.decide(c) != isand:
                return v
            v = self.eval(vals[k], frame)
        return v

    def e_UnaryOp(self, n, frame):
        v = self.eval(n.operand, frame)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(n.op, ast.USub):
            if isinstance(v, int):
                return -v
            return -self.to_int(v)
        if isinstance(n.op, ast.UAdd):
            return self.to_int(v)
        raise Unsupported("unary operator")

    def e_BinOp(self, n, frame):
        a = self.eval(n.left, frame)
        b = self.eval(n.right, frame)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        a, b = self.unboxed(a), self.unboxed(b)
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported(v.why)
        num = lambda x: isinstance(x, (bool, int, OptInt)) or (
            isinstance(x, z3.ExprRef) and x.sort() in (S.Int, S.Bool))
        boo = lambda x: isinstance(x, bool) or (isinstance(x, z3.ExprRef) and x.sort() == S.Bool)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor)) and boo(a) and boo(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a | b if isinstance(op, ast.BitOr) else (
                    a & b if isinstance(op, ast.BitAnd) else a ^ b)
            x, y = self.to_bool_term(a), self.to_bool_term(b)
            return z3.Or(x, y) if isinstance(op, ast.BitOr) else (
                z3.And(x, y) if isinstance(op, ast.BitAnd) else z3.Xor(x, y))
        if num(a) and num(b):
            conc = not isinstance(a, (z3.ExprRef, OptInt)) and not isinstance(b, (z3.ExprRef, OptInt))
            x = a if conc else self.to_int(a)
            y = b if conc else self.to_int(b)
            if isinstance(op, ast.Add):
                return x + y
            if isinstance(op, ast.Sub):
                return x - y
            if isinstance(op, ast.Mult):
                return x * y
            raise Unsupported("operator %s" % type(op).__name__)
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            txt = lambda x: isinstance(x, (str, StrX)) or (
                isinstance(x, z3.ExprRef) and x.sort() == S.L)
            if txt(a) and txt(b):
                return self.strx([a, b])
            isl = lambda x: isinstance(x, Ref) and isinstance(self.cell(x), Lst)
            if (isl(a) or isl(b)) and all(isl(x) or (isinstance(x, z3.ExprRef) and x.sort() in
                                                     (S.V, S.SV)) for x in (a, b)):
                segs = []
                for x in (a, b):
                    ss, src = self.iter_segs(x)
                    segs.extend(self.share(ss, src))
                return self.new_list(segs)
            if isinstance(a, z3.ExprRef) and a.sort() == S.V and \
                    isinstance(b, (tuple,)):
                q = S.cat(S.untup(a), S.units([self.to_V(x) for x in b], S.SV))
                t = S.TupV(q)
                self.assume(S.untup(t) == q)
                return t
        name = {ast.BitOr: "__or__", ast.Add: "__add__", ast.LShift: "__lshift__",
                ast.RShift: "__rshift__"}.get(type(op))
        if name and (isinstance(a, Ref) or (isinstance(a, z3.ExprRef) and a.sort() == S.V)):
            return self.call(self.get_attr(a, name), [b])
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.percent(a, b)
        if a is None or b is None:
            raise RaiseSig("TypeError")
        raise Unsupported("operator %s on %r, %r" % (type(op).__name__, a, b))

    def percent(self, text, v):
        """text % v"""
        import re
        if not isinstance(v, tuple):
            if not isinstance(v, (str, StrX, int)) and not (
                    isinstance(v, z3.ExprRef) and v.sort() in (S.L, S.Int)):
                raise Unsupported("%% with %r" % (v,))
            v = (v,)
        parts, args = [], list(v)
        for p in re.split(r"(%[^%a-zA-Z]*(?:[%a-zA-Z]|$))", text):
            if p == "%%":
                parts.append("%")
            elif p in ("%s", "%r"):
                if not args:
                    raise RaiseSig("TypeError")
                parts.append(self.fmt(args.pop(0), p[1]))
            elif "%" in p:
                raise Unsupported("format %s" % p)
            else:
                parts.append(p)
        if args:
            raise RaiseSig("TypeError")
        return self.strx(parts)

    def e_Compare(self, n, frame):
        left = self.eval(n.left, frame)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, frame)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                res = self.conj([res, c])
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            r = self.identical(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return self.lex(op, a, b)
            x, y = self.to_int(a), self.to_int(b)
            r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            r2 = z3.simplify(r)
            return True if z3.is_true(r2) else False if z3.is_false(r2) else r
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, tuple):
            cs = []
            for x in b:
                cs.append(self.identical(a, x) if isinstance(x, (ClassVal, type(None)))
                          else self.eq(a, x))
            if any(c is True for c in cs):
                r = True
            else:
                cs = [c for c in cs if c is not False]
                r = z3.Or(*cs) if cs else False
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        raise Unsupported("comparison %s" % type(op).__name__)

    def key_term(self, x):
        if isinstance(x, bool):
            return z3.IntVal(int(x))
        return self.to_int(x)

    def lex(self, op, a, b):
        """lexicographic comparison of tuples of numbers"""
        if len(a) != len(b):
            raise Unsupported("tuples of different length")
        strict = isinstance(op, (ast.Lt, ast.Gt))
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
        res = z3.BoolVal(not strict)
        for x, y in reversed(list(zip(a, b))):
            x, y = self.key_term(x), self.key_term(y)
            res = z3.Or(x < y, z3.And(x == y, res))
        return res

    def e_Call(self, n, frame):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = frame
            while True:
                fr = self.frame_vars(f)
                if fr.get("__owner__") is not None:
                    return SuperVal(fr["__owner__"], fr["__self__"])
                f = fr["__parent__"]
                if isinstance(f, tuple):
                    raise Unsupported("super()")
        fn = self.eval(n.func, frame)
        if isinstance(fn, Builtin) and fn.name in ("next", "any", "all") and n.args and \
                isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            return self.search(fn.name, n.args[0], n.args[1:], frame)
        args = []
        vstar = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, frame)
                if isinstance(v, tuple):
                    args.extend(v)
                elif isinstance(v, z3.ExprRef) and v.sort() == S.V:
                    if vstar is not None or args:
                        raise Unsupported("starred arguments")
                    vstar = v
                else:
                    raise Unsupported("starred arguments")
            else:
                if vstar is not None:
                    raise Unsupported("starred arguments")
                args.append(self.eval(a, frame))
        kwargs = {}
        for k in n.keywords:
            if k.arg is not None:
                more = [(k.arg, self.eval(k.value, frame))]
            elif isinstance(k.value, ast.Name):
                more = self.lookup(k.value.id, frame)
                if not isinstance(more, Kw):
                    raise Unsupported("**")
            else:
                raise Unsupported("**")
            for name, x in more:
                if name in kwargs:
                    raise RaiseSig("TypeError")
                kwargs[name] = x
        for a in itertools.chain(args, kwargs.values()):
            if isinstance(a, Poison):
                raise Unsupported(a.why)
        if vstar is not None:
            fn = self.unboxed(fn)
            if isinstance(fn, z3.ExprRef) and fn.sort() == S.V:
                return S.apps(fn, S.untup(vstar))
            raise Unsupported("starred call")
        return self.call(fn, args, kwargs)

    def search(self, what, g, rest, frame):
        """next, any or all over a generator expression: evaluated as far as needed only"""
        default = [self.eval(x, frame) for x in rest]
        fid = next(_ids)
        self.st.frames[fid] = {"__parent__": frame, "$found": UNBOUND}

        def gen(k):
            if k == len(g.generators):
                v = self.eval(g.elt, fid)
                if what == "next":
                    self.st.frames[fid]["$found"] = v
                    raise BreakSig()
                if self.decide(self.truth(v)) == (what == "any"):
                    raise BreakSig()
                return
            c = g.generators[k]
            it = self.eval(c.iter, frame if k == 0 else fid)

            def body(v):
                self.assign(c.target, v, fid)
                for x in c.ifs:
                    if not self.decide(self.truth(self.eval(x, fid))):
                        return
                gen(k + 1)
            self.for_each(it, body, g)
        try:
            gen(0)
        except BreakSig:
            if what == "next":
                return self.st.frames[fid]["$found"]
            return what == "any"
        if what == "next":
            if not default:
                raise RaiseSig("StopIteration")
            return default[0]
        return what == "all"

    def e_Subscript(self, n, frame):
        v = self.eval(n.value, frame)
        if isinstance(v, (External, ClassVal)):
            return v          # typing subscript
        self.no_list(v)
        if isinstance(n.slice, ast.Slice):
            lo = None if n.slice.lower is None else self.eval(n.slice.lower, frame)
            hi = None if n.slice.upper is None else self.eval(n.slice.upper, frame)
            st = None if n.slice.step is None else self.eval(n.slice.step, frame)
            return self.slice(v, lo, hi, st)
        return self.index(v, self.eval(n.slice, frame))

    def no_list(self, v):
        """collections of expectations can be of any class: all one can do is iterate"""
        if isinstance(v, z3.ExprRef) and v.sort() == S.E:
            raise Unsupported("expectations used as a list")

    def slice(self, v, lo, hi, st):
        if isinstance(v, (tuple, str)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return v[lo:hi:st]
        if st is not None and st != 1:
            if st == -1 and lo is None and hi is None:
                return reversed_(self, [v], {}, as_list=True)
            raise Unsupported("slice step")
        if isinstance(v, Ref) and isinstance(self.cell(v), Lst):
            segs = self.cell(v).segs
            if lo is None and hi is None:
                return self.new_list(self.share(segs, v))
            if all(isinstance(s, Elem) for s in segs) and all(
                    x is None or isinstance(x, int) for x in (lo, hi)):
                return self.new_list(segs[lo:hi])
            what = None
            for s in segs:
                if isinstance(s, SeqSeg):
                    what = "SV" if s.term.sort() == S.SV else "E"
            if what is None:
                if lo == 1 and hi is None and isinstance(segs[0], Elem):
                    return self.new_list(self.share(segs[1:], v))
                raise Unsupported("slice of abstract list")
            q = self.slice(self.segs_term(segs, what), lo, hi, None)
            return self.new_list([SeqSeg(q)])
        if isinstance(v, z3.ExprRef) and v.sort() == S.V and \
                any(v.eq(x) for x in self.streams.values()):
            lo = z3.IntVal(0) if lo is None else self.to_int(lo)
            hi = S.slen(v) if hi is None else self.to_int(hi)
            if not self.valid(z3.And(lo >= 0, hi >= 0)):
                raise Unsupported("slice bound")
            return S.cut(v, lo, hi)
        if isinstance(v, z3.ExprRef) and v.sort() == S.V:
            return self.new_list([SeqSeg(self.slice(self.unlist(v), lo, hi, None))])
        if isinstance(v, z3.ExprRef) and v.sort() in (S.E, S.SV):
            n = z3.Length(v)

            def norm(x, dflt):
                if x is None:
                    return dflt
                if isinstance(x, int):
                    x2 = z3.IntVal(x) if x >= 0 else n + x
                else:
                    x2 = self.to_int(x)
                    if not self.valid(x2 >= 0):
                        raise Unsupported("slice bound")
                return z3.If(x2 < 0, z3.IntVal(0), z3.If(x2 > n, n, x2))
            a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
            return z3.Extract(v, a, z3.If(b > a, b - a, z3.IntVal(0)))
        raise Unsupported("slice of %r" % (v,))

    def index(self, v, i):
        if isinstance(v, MatchVal):
            return match_method(self, v, "group", [i], {})
        if isinstance(v, SortedVal):
            if i == 0:
                return self.hooks.min_element(self, v.lst, v.key, True)
            raise Unsupported("element of a sorted list")
        if isinstance(v, tuple):
            if isinstance(i, int):
                if -len(v) <= i < len(v):
                    return v[i]
                raise RaiseSig("IndexError")
            raise Unsupported("symbolic tuple index")
        if isinstance(v, Ref) and isinstance(self.cell(v), Lst):
            segs = self.cell(v).segs
            if isinstance(i, int):
                seq = segs if i >= 0 else segs[::-1]
                k = i if i >= 0 else -i - 1
                if all(isinstance(s, Elem) for s in seq[:k + 1]):
                    if len(seq) > k:
                        return self.enter(seq[k].val)
                    raise RaiseSig("IndexError")
                if len(seq) == 1 and isinstance(seq[0], SeqSeg):
                    return self.index(seq[0].term, i)
                if isinstance(seq[0], Abs) and i in (0, -1) and len(seq) == 1:
                    n = seq[0].src.length()
                    if not self.decide(n > 0):
                        raise RaiseSig("IndexError")
                    return self.materialise_elem(seq[0].src, z3.IntVal(0) if i == 0 else n - 1,
                                                True)
            for what in ("SV", "E"):
                try:
                    q = self.segs_term(segs, what)
                except Unsupported:
                    continue
                return self.index(q, i)
            raise Unsupported("index into abstract list")
        if isinstance(v, z3.ExprRef):
            if v.sort() == S.Loc and isinstance(i, int) and -3 <= i < 3:
                return [S.Loc.l_pos(v), S.Loc.l_line(v), S.Loc.l_col(v)][i]
            if v.sort() in (S.E, S.SV):
                n = z3.Length(v)
                x = z3.IntVal(i) if isinstance(i, int) else self.to_int(i)
                if isinstance(i, int) and i < 0:
                    x = n + i
                self.indexed.append(v)
                if not self.decide(z3.And(x >= 0, x < n)):
                    if not self.valid(x >= n) and not self.valid(n == 0):
                        if not (isinstance(i, int) and i < 0):
                            raise Unsupported("negative index")
                    raise RaiseSig("IndexError")
                return v[x]
            if v.sort() == S.V:
                if v.decl().eq(S.TupV.d) and isinstance(i, int):
                    return self.index(v.arg(0), i)
                if v.decl().eq(S.ListV.d):
                    return self.index(v.arg(0), i)
                if str(v) in self.streams:
                    n = S.slen(v)
                    self.assume(n >= 0)
                    x = self.to_int(i)
                    if self.decide(z3.And(x >= 0, x < n)):
                        return S.sget(v, x)
                    if self.decide(z3.And(x < 0, x >= -n)):
                        return S.sget(v, n + x)
                    raise RaiseSig("IndexError")
                if isinstance(i, int):
                    # component of a tuple value (arity by typing)
                    q = S.untup(v)
                    self.st.notes.append(("unpack", v, i + 1))
                    return q[z3.IntVal(i)]
                if isinstance(i, z3.ExprRef) and i.sort() == S.Int:
                    return self.index(self.unlist(v), i)
        raise Unsupported("index of %r" % (v,))

    # ------------------------------------------------------------ iteration
    def iter_segs(self, v):
        """(segments, Ref of the source list or None)"""
        v = self.unboxed(v)
        if isinstance(v, EnumVal):
            segs = self.iter_segs(v.over)[0]
            if all(isinstance(s, Elem) for s in segs):
                return [Elem((self.plus(v.start, i), s.val)) for i, s in enumerate(segs)], None
        if isinstance(v, tuple):
            return [Elem(x) for x in v], None
        if isinstance(v, OneShot):
            return self.consume(v), None
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst):
                return list(c.segs), v
            d = c.cls.find("__iter__")
            if d is not None:
                r = self.call(self.class_attr(d, v), [])
                return self.iter_segs(r)[0], None
            raise RaiseSig("TypeError")
        if isinstance(v, RevSeq):
            return [v], None
        if isinstance(v, RangeVal):
            return [v], None
        if isinstance(v, z3.ExprRef):
            if v.sort() in (S.E, S.SV):
                return [SeqSeg(v)], None
            if v.sort() == S.V:
                return [SeqSeg(self.unlist(v))], None
        if v is None:
            raise RaiseSig("TypeError")
        raise Unsupported("iteration over %r" % (v,))

    def one_shot(self, run, acc=None, frame=None, node=None, own=None):
        """A generator whose body is run: it adds its elements to the list acc. The body is run
        here, what it writes is undone until the elements are asked for."""
        if not callable(run):
            run, acc = (lambda made=run: made), run
        base = self.st.copy()
        names = [] if node is None else self.names_of(node, frame)
        self.reading.append(set())
        err = None
        try:
            run()
        except RaiseSig as e:
            if e.name == "StopIteration":
                raise Unsupported("StopIteration in a generator")
            err = e
        finally:
            reads = self.reading.pop()
            if self.reading:
                self.reading[-1] |= reads
        if self.st.written != base.written:
            raise Unsupported("a generator that changes elements of a list")
        for f, vars_ in base.frames.items():
            for n, v in self.st.frames.get(f, {}).items():
                if f != own and (n not in vars_ or not (
                        vars_[n] is v or same_val(vars_[n], v))):
                    raise Unsupported("a generator that assigns a variable around it")
        names += [(f, n, base.frames[f][n]) for f, n in
                  (x for x in reads if isinstance(x, tuple))
                  if f in base.frames and f != own]
        writes = []
        for cid, c in base.heap.items():
            now = self.st.heap.get(cid)
            if now is not c and cid != acc.id and not same_cell(c, now, True):
                writes.append((cid, c, now))
                self.st.heap[cid] = c
        heap = dict(base.heap)
        heap.pop(acc.id, None)
        return OneShot(acc, (heap, next(_ids)), names,
                       frozenset(x for x in reads if x in heap), err, writes)

    def late(self, segs, over):
        """an iterator over values: it reads the lists among them when it is used"""
        v = self.one_shot(self.new_list(segs))
        v.reads |= {x.id for x in map(self.unboxed, over) if isinstance(x, Ref)}
        return v

    def undisturbed(self, v):
        """The elements of a generator were computed when it was made: what it reads must not
        have changed since."""
        if v.heap is not None:
            heap, birth = v.heap
            for cid, c in heap.items():
                now = self.st.heap.get(cid)
                if now is not c and not same_cell(c, now, True):
                    raise Unsupported("something changed between the making of a generator and "
                                      "its use")
            for f, n, x in v.names:
                if f not in self.st.frames or n not in self.st.frames[f] or \
                        not same_val(self.st.frames[f][n], x):
                    raise Unsupported("variable of a generator changed before its use")

    def consume(self, v, whole=True):
        """The elements of a generator: all of them at once if whole, else for a loop over
        them"""
        self.undisturbed(v)
        if v.writes and not whole:
            raise Unsupported("a generator with side effects")
        for cid, before, after in v.writes:
            self.st.heap[cid] = after
        c = self.cell(v.ref)
        segs = list(c.segs)
        c = c.copy()
        c.segs = [Opaque()]
        self.st.heap[v.ref.id] = c
        if v.err is not None and whole:
            raise v.err
        return segs

    def plain(self, v, what):
        """v, if it is no generator that raises or has side effects"""
        if isinstance(v, OneShot) and (v.err is not None or v.writes):
            raise Unsupported("%s of a generator with side effects" % what)
        return v

    def over_generator(self, v, body, node):
        """a loop over a generator"""
        heap = v.heap[0] if v.heap is not None else {}

        def guarded(x):
            before = [(cid, self.st.heap.get(cid)) for cid in v.reads]
            names = [(f, n, self.st.frames[f][n]) for f, n, _ in v.names]
            try:
                body(x)
            finally:
                for cid, c in before:
                    now = self.st.heap.get(cid)
                    if now is not c and not same_cell(c, now, True):
                        raise Unsupported("a loop changes what the generator it is over reads")
                for f, n, x in names:
                    if not same_val(self.st.frames[f].get(n, UNBOUND), x):
                        raise Unsupported("a loop assigns what the generator it is over reads")
        segs = self.consume(v, False)
        self.for_each(self.new_list(segs), guarded, node)
        if v.err is not None:
            raise v.err

    def enter(self, v):
        """value of a list element in the current state"""
        if isinstance(v, Snap):
            fields = {k: self.enter(x) for k, x in v.fields.items()}
            return self.alloc(Obj(v.cls, fields, v.rterm, v.ident))
        if isinstance(v, SnapList):
            return self.alloc(Lst(list(v.segs), v.moved, False, v.ident))
        if isinstance(v, tuple):
            return tuple(self.enter(x) for x in v)
        return v

    def for_each(self, it, body, node):
        """executes body for the elements; BreakSig propagates"""
        if isinstance(it, EnumVal):
            self.plain(it.over, "enumerate")
            return self.for_each_numbered(it, body, node)
        if isinstance(it, OneShot):
            return self.over_generator(it, body, node)
        part = self.part_of(it)
        if part is not None:
            v, g, frame = part
            fid = next(_ids)
            self.st.frames[fid] = {"__parent__": frame}

            def if_in(x):
                self.assign(g.target, x, fid)
                for c in g.ifs:
                    if not self.decide(self.truth(self.eval(c, fid))):
                        return
                body(x)
            return self.for_each(v, if_in, node)
        segs, src = self.iter_segs(it)
        if src is not None:
            body = self.kept(src, segs, body)
        before = self.st.written
        outer = self.iterated[0] if self.iterated else None
        if outer is not None and src is not None and src.id < outer[1] and \
                (before - outer[2]) & idents(segs, set()) and \
                all(r is None or r.id != src.id for r, _, _ in self.iterated):
            raise Unsupported("elements were modified through another list")
        self.iterated.append((src, next(_ids), before))
        try:
            new = self.process(segs, body, node)
        except (BreakSig, ReturnSig):
            if self.st.written - before:
                raise Unsupported("loop that writes to elements is left early")
            raise
        finally:
            self.iterated.pop()
        if src is not None:
            self.kept(src, segs, lambda: None)()
        if src is not None and new is not None and any(a is not b for a, b in
                                                       itertools.zip_longest(segs, new)):
            cur = self.cell(src)
            if [id(x) for x in cur.segs] != [id(x) for x in segs]:
                raise Unsupported("list changed while iterated")
            c = cur.copy()
            c.segs = new
            self.st.heap[src.id] = c
        changed = self.st.written - before
        if changed:
            keep = {r.id for r, _, _ in self.iterated if r is not None}
            if src is not None:
                keep.add(src.id)
            # what other lists have of these elements is no longer known
            for cid, c in list(self.st.heap.items()):
                if cid in keep or (outer is not None and cid < outer[1] and not (
                        isinstance(c, Lst) and c.segs and isinstance(c.segs[0], Opaque))):
                    continue
                if isinstance(c, Lst):
                    if changed & idents(c.segs, set()):
                        c = c.copy()
                        c.segs = [Opaque()]
                        self.st.heap[cid] = c
                elif c.loose is not None and changed & idents(Abs(c.loose), set()):
                    c = c.copy()
                    why = "an element was taken out of a list and then modified in it"
                    c.fields = {k: Poison(why) for k in c.fields}
                    self.st.heap[cid] = c

    def kept(self, src, segs, body):
        """body, run while the list src still has the segments segs"""
        segs = list(segs)

        def checked(*a):
            c = self.cell(src)
            if isinstance(c, Lst) and (len(c.segs) != len(segs) or any(
                    x is not y and (isinstance(x, Elem) or isinstance(y, Elem))
                    for x, y in zip(c.segs, segs))):
                raise Unsupported("list changed while iterated")
            body(*a)
        return checked

    def for_each_numbered(self, it, body, node):
        n = [it.start]

        def numbered(v):
            i, n[0] = n[0], self.add1(n[0])
            body((i, v))
        segs = self.iter_segs(it.over)[0]
        if all(isinstance(s, Elem) for s in segs):
            return self.for_each(it.over, numbered, node)
        if len(segs) == 1 and isinstance(segs[0], Abs):
            return self.for_each(it.over, lambda v: body((self.plus(self._idx, it.start), v)),
                                 node)
        raise Unsupported("enumerate")

    def add1(self, x):
        return self.plus(x, 1)

    def plus(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return self.to_int(a) + self.to_int(b)

    def process(self, segs, body, node):
        out = []
        for s in segs:
            if isinstance(s, Elem):
                v = self.enter(s.val)
                body(v)
                out.append(s if v is s.val else Elem(v))
            elif isinstance(s, SeqSeg):
                self.seq_loop(s.term, body, node)
                out.append(s)
            elif isinstance(s, RevSeq):
                self.rev_loop(s.seq, body, node)
                out.append(s)
            elif isinstance(s, RangeVal):
                self.range_loop(s, body, node)
                out.append(s)
            elif isinstance(s, Cond):
                k = self.choose(len(s.alts))
                facts, lemmas, inner = s.alts[k]
                for f in lemmas:
                    self.assume(f)
                for f in facts:
                    self.assume(f, True)
                if not self.feasible(z3.BoolVal(True)):
                    raise Infeasible()
                out.extend(self.process(inner, body, node))
            elif isinstance(s, (Abs, For)):
                out.append(self.summarise(s, body, node))
            else:
                raise Unsupported("iteration over a list under construction")
        return out

    # --- exact summary of a loop over an abstract list
    def one_iter(self, seg, body, node):
        idx = S.fresh("i", S.Int)
        self._idx = idx
        if isinstance(seg, Abs):
            guard = z3.And(idx >= 0, idx < seg.src.length())
            self.assume(guard, True)
            self.st.notes.append(("idx", seg.src, idx))
            ref = self.materialise_elem(seg.src, idx)
            body(ref)
            return idx, guard, seg.src, [Elem(ref)]
        if seg.partial:
            raise Unsupported("iteration over a partial list")
        pairs = [(seg.idx, idx)]
        guard = z3.And(idx >= 0, idx < seg.src.length())
        self.assume(guard, True)
        self.st.notes.append(("idx", seg.src, idx))
        inner = [subst_seg(x, pairs) for x in seg.segs]
        res = self.process(inner, body, node)
        return idx, guard, seg.src, res

    def summarise(self, seg, body, node):
        base = self.st
        bvars, blists = {}, {}
        birth = next(_ids)
        frames0 = list(base.frames)
        for _round in range(12):
            start = base.copy()
            for (fid, n) in bvars:
                start.frames[fid][n] = Poison("value of a loop variable")
            for cid in blists:
                c = start.heap[cid].copy()
                c.segs = [Opaque()]
                start.heap[cid] = c
            outs = self.explore(lambda: self.one_iter(seg, body, node), start)
            grew = False
            for o in outs:
                for fid in frames0:
                    f0, f1 = start.frames[fid], o.st.frames[fid]
                    for n, v in f1.items():
                        if n not in f0 or not same_val(f0[n], v):
                            if (fid, n) not in bvars:
                                bvars[(fid, n)] = True
                                grew = True
                for cid, c0 in start.heap.items():
                    c1 = o.st.heap[cid]
                    if c1 is c0 or same_cell(c0, c1):
                        continue
                    if isinstance(c1, Lst) and len(c1.segs) >= len(c0.segs) and \
                            all(a is b for a, b in zip(c0.segs, c1.segs)):
                        if cid not in blists and len(c1.segs) > len(c0.segs):
                            blists[cid] = True
                            grew = True
                        if (c1.moved and not c0.moved):
                            o.st.flags.append("the same elements are stored once per iteration")
                    elif o.kind == "normal":
                        for fl in o.st.flags:
                            if fl not in base.flags:
                                base.flags.append(fl)
                        raise Unsupported("loop modifies an outer object")
            if not grew:
                break
        else:
            raise Unsupported("loop summary does not stabilise")
        normals = [o for o in outs if o.kind == "normal"]
        exits = [o for o in outs if o.kind != "normal"]
        idx = S.fresh("k", S.Int)
        src = seg.src
        alts = []
        for o in normals:
            oidx, guard, _, res = o.val
            pairs = [(oidx, idx)]
            facts, lemmas = [], []
            for f, br in o.st.pc[len(base.pc):]:
                if f is guard or f.eq(guard):
                    continue
                (facts if br else lemmas).append(z3.substitute(f, *pairs))
            self.st = o.st
            reach_src = set()
            sseg = [self.snap_seg(x, birth, reach_src) for x in res]
            accs = {}
            reach_acc = {}
            for cid in blists:
                r = set()
                accs[cid] = [self.snap_seg(x, birth, r) for x in o.st.heap[cid].segs[1:]]
                reach_acc[cid] = r
            self.st = base
            escaped = any(reach_src & r for r in reach_acc.values())
            ks = list(reach_acc)
            for a in range(len(ks)):
                for b in range(a + 1, len(ks)):
                    if reach_acc[ks[a]] & reach_acc[ks[b]]:
                        o.st.flags.append("one object stored in two lists")
            alts.append((facts, lemmas,
                         [subst_seg(x, pairs) for x in sseg],
                         {c: [subst_seg(x, pairs) for x in s] for c, s in accs.items()},
                         escaped, o))
        changed = frozenset().union(*[o.st.written for o in outs]) - base.written
        if changed:
            new_id = {k: ("new", next(_ids)) for k in changed}
            alts = [a[:2] + (rename(a[2], new_id), {c: rename(s, new_id)
                                                    for c, s in a[3].items()}) + a[4:]
                    for a in alts]
        nx = len(exits)
        which = self.choose(1 + nx) if nx else 0
        if which > 0:
            o = exits[which - 1]
            self.st = o.st.copy()
            for cid in blists:
                c = self.st.heap[cid].copy()
                part = [For(idx, src, self.alt_segs([(a[0], a[1], a[3][cid]) for a in alts]),
                            partial=True)] if any(a[3][cid] for a in alts) else []
                c.segs = list(base.heap[cid].segs) + part + c.segs[1:]
                self.st.heap[cid] = c
            self.resignal(o)
        self.st = base
        if exits and any(o.st.written - base.written for o in normals):
            if any(o.kind != "raise" for o in exits):
                raise Unsupported("loop that writes to elements is left early")
        for a in alts:
            base.written |= a[5].st.written
            for fl in a[5].st.flags:
                if fl not in base.flags:
                    base.flags.append(fl)
            for nt in a[5].st.notes[len(base.notes):]:
                if not (isinstance(nt, tuple) and nt[0] in ("idx", "each")):
                    base.notes.append(nt)
        if nx:
            # no element takes an exit
            base.notes.append(("each", src, idx, z3.Or(*[
                z3.And(*(list(a[0]) + list(a[1]))) for a in alts])))
        for (fid, n) in bvars:
            base.frames[fid][n] = Poison("value of a loop variable after the loop")
        for cid in blists:
            if any(a[3][cid] for a in alts):
                c = self.cell_w(Ref(cid), "append")
                c.segs = c.segs + [For(idx, src, self.alt_segs(
                    [(a[0], a[1], a[3][cid]) for a in alts]))]
        esc = any(a[4] for a in alts)
        new = For(idx, src, self.alt_segs([(a[0], a[1], a[2]) for a in alts]))
        if esc:
            base.notes.append(("escaped", None))
        if isinstance(seg, Abs) and self.unchanged(seg.src, new):
            return seg
        return new

    def unchanged(self, src, new):
        def is_same(snap):
            if not isinstance(snap, Snap):
                return False
            saved = self.st
            self.st = State()
            try:
                ref = self.materialise_elem(src, new.idx)
                fresh = self.snap(ref, 0, set())
            finally:
                self.st = saved
            return snap_same(fresh, snap)
        for s in new.segs:
            if isinstance(s, Elem):
                if not is_same(s.val):
                    return False
            elif isinstance(s, Cond):
                for a in s.alts:
                    if len(a[2]) != 1 or not isinstance(a[2][0], Elem) or not is_same(a[2][0].val):
                        return False
            else:
                return False
        return len(new.segs) == 1

    def alt_segs(self, alts):
        if len(alts) == 1 and not alts[0][0] and not alts[0][1]:
            return alts[0][2]
        return [Cond(alts)]

    def snap(self, v, birth, reach):
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, Lst) or c.cls.name in ("Repair", "OpItem", "Recovered", "Ok", "Error"):
                reach.add(v.id)
            if v.id < birth:
                return v
            if isinstance(c, Lst):
                return SnapList([self.snap_seg(s, birth, reach) for s in c.segs], c.moved, v.id,
                                c.ident or ("cell", v.id))
            return Snap(c.cls, {k: self.snap(x, birth, reach) for k, x in c.fields.items()},
                        v.id, c.rterm, c.ident or ("cell", v.id))
        if isinstance(v, tuple):
            return tuple(self.snap(x, birth, reach) for x in v)
        return v

    def snap_seg(self, s, birth, reach):
        if isinstance(s, Elem):
            return Elem(self.snap(s.val, birth, reach))
        if isinstance(s, For):
            return For(s.idx, s.src, [self.snap_seg(x, birth, reach) for x in s.segs], s.partial)
        if isinstance(s, Cond):
            return Cond([(f, l, [self.snap_seg(x, birth, reach) for x in ss])
                         for f, l, ss in s.alts])
        return s

    def resignal(self, o):
        if o.kind == "return":
            raise ReturnSig(o.val)
        if o.kind == "break":
            raise BreakSig()
        if o.kind == "raise":
            raise o.val
        if o.kind == "done":
            return
        raise Unsupported("loop exit %s" % o.kind)

    # --- loops cut at an invariant
    def range_loop(self, r, body, node):
        a, b = self.to_int(r.a), self.to_int(r.b)
        if r.step != 1:
            raise Unsupported("range step")
        hid = next(_ids)
        self.st.frames[hid] = {"__parent__": None, "$i": a}

        def iteration():
            i = self.st.frames[hid]["$i"]
            if not self.decide(i < b):
                raise LoopDone()
            body(i)
            self.st.frames[hid]["$i"] = self.to_int(i) + 1
        self.inv_loop(iteration, {"range": (("v", hid, "$i"), a, b)}, node)
        if self.st.notes and self.st.notes[-1] == "broke":
            self.st.notes.pop()
            raise BreakSig()

    def seq_loop(self, q, body, node):
        if S.is_empty(q):
            return
        parts = q.children() if q.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [q]
        for p in parts:
            if p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                body(p.arg(0))
            elif any(p.decl().eq(f.d) for f in S.Rev.values()):
                self.rev_loop(p.arg(0), body, node)
            else:
                self.seq_loop1(p, body, node, False)

    def rev_loop(self, q, body, node):
        if any(q.decl().eq(f.d) for f in S.Rev.values()):
            return self.seq_loop(q.arg(0), body, node)
        self.seq_loop1(q, body, node, True)

    def seq_loop1(self, q, body, node, rev):
        hid = next(_ids)
        self.st.frames[hid] = {"__parent__": None, "$rest": q}
        es = S.V if q.sort() == S.SV else S.L

        def iteration():
            rest = self.st.frames[hid]["$rest"]
            if not self.decide(z3.Length(rest) > 0):
                raise LoopDone()
            x, r2 = S.fresh("x", es), S.fresh("rest", q.sort())
            self.assume(rest == (z3.Concat(r2, z3.Unit(x)) if rev else
                                 z3.Concat(z3.Unit(x), r2)))
            self.st.frames[hid]["$rest"] = r2
            body(x)
        self.inv_loop(iteration, {"rest": (hid, rev)}, node)
        if self.st.notes and self.st.notes[-1] == "broke":
            self.st.notes.pop()
            raise BreakSig()

    def inv_loop(self, iteration, info, node):
        outer, self.indexed = self.indexed, []
        try:
            self.inv_loop1(iteration, info, node)
        finally:
            self.indexed = outer

    def inv_loop1(self, iteration, info, node):
        base = self.st.copy()
        this = birth = next(_ids)
        frames0 = [f for f in base.frames]
        changed, lists = {}, {}

        def scan(outs, start):
            grew = False
            for o in outs:
                if o.kind != "normal":
                    continue
                for fid in frames0:
                    f0, f1 = start.frames[fid], o.st.frames[fid]
                    for n, v in f1.items():
                        if n not in f0 or not same_val(f0[n], v):
                            if (fid, n) not in changed:
                                changed[(fid, n)] = []
                                grew = True
                            changed[(fid, n)].append((v, o.st))
                for cid, c0 in start.heap.items():
                    c1 = o.st.heap[cid]
                    if c1 is c0 or same_cell(c0, c1):
                        continue
                    if isinstance(c1, Lst):
                        if cid not in lists:
                            lists[cid] = []
                            grew = True
                        lists[cid].append((c1, o.st))
                    else:
                        raise Unsupported("loop modifies an object")
            return grew

        def iter1():
            try:
                iteration()
            except LoopDone:
                return DONE
            return None

        def run(start_fn):
            outs = self.explore(start_fn, base)
            for o in outs:
                if o.kind == "normal" and o.val is DONE:
                    o.kind = "done"
            return outs

        outs = run(iter1)
        scan(outs, base)
        specs = {}
        cands = None
        keep = []
        for _round in range(40):
            for key, vs in changed.items():
                if key not in specs:
                    specs[key] = self.havoc_spec(base.frames[key[0]].get(key[1], UNBOUND), base, vs)
            for cid, vs in lists.items():
                if cid not in specs:
                    specs[cid] = self.havoc_list_spec(base.heap[cid], base, vs)
            # entry environment
            env0 = self.loop_env(specs, base)
            head = {}
            keys = {k: v.sort() for k, v in env0.items()}
            if cands is None or set(keys) != set(cands_keys):
                cands = self.default_candidates(env0, keys, info)
                cands += self.hooks.loop_candidates(self, env0, keys, info)
                cands_keys = set(keys)
                saved, self.st = self.st, base
                cands = [c for c in cands if self.cand_holds(c, env0)]
                self.st = saved

            def start():
                env = self.havoc(specs, env0, [c[2] for c in cands if len(c) > 2])
                head["env"] = env
                seen = set()
                for c in cands:
                    f = c[1](env)
                    if not isinstance(f, bool) and f.get_id() not in seen:
                        seen.add(f.get_id())
                        keep.append(f)
                        if not (z3.is_eq(f) and f.arg(0).eq(f.arg(1))):
                            self.assume(f)
                for f in self.hooks.loop_facts(self, env, env0) + [
                        x for g in self.rest_views(keys)[1] for e in (env, env0) for x in g(e)]:
                    if f.get_id() not in seen:
                        seen.add(f.get_id())
                        keep.append(f)
                        self.assume(f)
                self.havoc_results(specs, env)
                self.st.notes.append(("env", env, this))
                return iter1()
            outs = run(start)
            before = set(map(str, changed)), set(map(str, lists))
            hb = self.head_base(specs, base)
            if scan(outs, hb) or self.need_more(specs, outs):
                continue
            bad = []
            saved = self.st
            for o in outs:
                if o.kind != "normal":
                    continue
                self.st = o.st
                envb = self.loop_env(specs, o.st, strict=True)
                if envb is None:
                    self.st = saved
                    raise Unsupported("loop variable changes its kind")
                for c in cands:
                    if c in bad:
                        continue
                    if not self.cand_holds(c, envb):
                        bad.append(c)
            self.st = saved
            if bad:
                cands = [c for c in cands if c not in bad]
                continue
            break
        else:
            raise Unsupported("no loop invariant found")
        self.loop_log.append((getattr(node, "lineno", 0), [c[0] for c in cands]))
        # termination
        backs = [o for o in outs if o.kind == "normal"]
        if backs:
            self.terminations.append((node, self.decreases(specs, backs, info, this)))
        else:
            self.terminations.append((node, True))
        exits = [o for o in outs if o.kind != "normal"]
        if not exits:
            raise Infeasible()
        o = exits[self.choose(len(exits))]
        self.st = o.st.copy()
        if o.kind == "break":
            self.st.notes.append("broke")
            return
        self.resignal(o)

    def decreases(self, specs, backs, info, this):
        """every back edge decreases a measure bounded from below"""
        def env_of(o):
            return [n[1] for n in o.st.notes if isinstance(n, tuple) and n[0] == "env" and
                    n[2] == this][-1]
        saved = self.st
        try:
            ok_all = True
            first = env_of(backs[0])
            cand = []
            if "range" in info:
                i, _, end = info["range"]
                cand.append(lambda e: self.to_int(end) - e[i])
            for k, v in first.items():
                if v.sort() == S.Int:
                    for s in list(self.streams.values()):
                        cand.append(lambda e, k=k, s=s: S.slen(s) - e[k])
                    cand.append(lambda e, k=k: e[k])
                if v.sort() == S.Loc:
                    for s in list(self.streams.values()):
                        cand.append(lambda e, k=k, s=s: S.slen(s) - S.Loc.l_pos(e[k]))
                if v.sort() in (S.SV, S.E) and k[-1] == "$rest":
                    cand.append(lambda e, k=k: z3.Length(e[k]))
            for m in cand:
                ok = True
                for o in backs:
                    self.st = o.st
                    env = env_of(o)
                    envb = self.loop_env(specs, o.st, strict=True)
                    if envb is None or not self.valid(z3.And(m(env) >= 0, m(envb) < m(env))):
                        ok = False
                        break
                if ok:
                    return True
            return False
        finally:
            self.st = saved

    def head_base(self, specs, base):
        """state to compare back edges with: everything havoced counts as known"""
        s = base.copy()
        return HeadBase(s, specs)

    def need_more(self, specs, outs):
        return False

    def cand_holds(self, c, env):
        try:
            f = c[1](env)
        except KeyError:
            return False
        if isinstance(f, bool):
            return f
        return self.valid(f)

    def havoc_spec(self, v0, base, vs):
        vals = [v0] + [v for v, _ in vs]
        if v0 is UNBOUND or isinstance(v0, Poison):
            return ("poison",)
        if all(self.sort_of(v) is not None for v in vals):
            ss = {str(self.sort_of(v)) for v in vals}
            if len(ss) == 1:
                return ("term", self.sort_of(v0))
        if all(isinstance(v, Ref) for v in vals):
            cells = [base.heap[v0.id]] + [st.heap[v.id] for v, st in vs]
            if all(isinstance(c, Lst) for c in cells):
                return self.havoc_list_spec(cells[0], base,
                                            [(c, st) for c, (_, st) in zip(cells[1:], vs)], var=True)
            if all(isinstance(c, Obj) and c.rterm is not None for c in cells):
                ts = [c.rterm for c in cells]
                if all(t.decl().eq(ts[0].decl()) for t in ts):
                    diff = [i for i in range(ts[0].num_args())
                            if any(not t.arg(i).eq(ts[0].arg(i)) for t in ts)]
                    return ("result", ts[0], tuple(diff))
        return ("poison",)

    def sort_of(self, v):
        if isinstance(v, bool):
            return S.Bool
        if isinstance(v, int):
            return S.Int
        if isinstance(v, z3.ExprRef):
            return v.sort()
        return None

    def havoc_list_spec(self, c0, base, vs, var=False):
        saved = self.st
        kinds = ("SV", "E")
        if any(isinstance(s, Elem) and self.sort_of(s.val) == S.L for c, _ in vs for s in c.segs):
            kinds = ("E", "SV")
        for what in kinds:
            try:
                for c, st in [(c0, base)] + list(vs):
                    self.st = st.copy()
                    self.segs_term(c.segs, what)
                return ("list", what, var)
            except Unsupported:
                continue
            finally:
                self.st = saved
        raise Unsupported("list built by a loop outside the subset")

    def loop_env(self, specs, st, strict=False):
        env = {}
        saved = self.st
        self.st = st
        try:
            for key, sp in specs.items():
                if sp[0] == "poison":
                    continue
                if isinstance(key, tuple):
                    v = st.frames[key[0]].get(key[1], UNBOUND)
                else:
                    v = Ref(key)
                name = ("v",) + key if isinstance(key, tuple) else ("l", key)
                if sp[0] == "term":
                    so = self.sort_of(v)
                    if so is None or so != sp[1]:
                        return None
                    env[name] = v if isinstance(v, z3.ExprRef) else (
                        z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v))
                elif sp[0] == "list":
                    if not isinstance(v, Ref) or not isinstance(self.cell(v), Lst):
                        return None
                    env[name] = self.segs_term(self.cell(v).segs, sp[1])
                elif sp[0] == "result":
                    if not isinstance(v, Ref):
                        return None
                    t = self.cell(v).rterm
                    if t is None or not t.decl().eq(sp[1].decl()):
                        return None
                    for i in range(t.num_args()):
                        if i in sp[2] and self.canon_arg(sp[1], i):
                            if not self.valid(t.arg(i) == self.canon_like(sp[1], t.arg(2))):
                                return None
                        elif i in sp[2]:
                            env[("r", i) + key] = t.arg(i)
                        elif not t.arg(i).eq(sp[1].arg(i)):
                            return None
            return env
        finally:
            self.st = saved

    def havoc(self, specs, env0, equal=()):
        env, rep = {}, {}

        def find(n):
            while n in rep:
                n = rep[n]
            return n
        for a, b in equal:
            a, b = find(a), find(b)
            if a != b:
                rep[b] = a
        for name, v in env0.items():
            n = find(name)
            if n not in env:
                env[n] = S.fresh("h_" + str(n[-1]), v.sort())
            env[name] = env[n]
        for key, sp in specs.items():
            if isinstance(key, tuple):
                fr = self.st.frames[key[0]]
                if sp[0] == "poison":
                    fr[key[1]] = Poison("loop variable %s" % key[1])
                elif sp[0] == "term":
                    fr[key[1]] = env[("v",) + key]
                elif sp[0] == "list":
                    fr[key[1]] = self.new_list([SeqSeg(env[("v",) + key])])
            else:
                c = self.st.heap[key].copy()
                c.segs = [SeqSeg(env[("l", key)])]
                self.st.heap[key] = c
        return env

    def havoc_results(self, specs, env):
        for key, sp in specs.items():
            if sp[0] == "result":
                t0, diff = sp[1], sp[2]
                args = []
                for i in range(t0.num_args()):
                    if i in diff and self.canon_arg(t0, i):
                        args.append(self.canon_like(t0, args[2]))
                        for f in self.hooks.loc_facts(args[3].arg(2), args[1], args[2]):
                            self.assume(f)
                    else:
                        args.append(env[("r", i) + key] if i in diff else t0.arg(i))
                t = t0.decl()(*args)
                old = self.calls[t0.get_id()][1]
                info = dict(old)
                names = ["p", "s", "pos", "ctx", "ins", "rn", "rem"]
                for nme, a in zip(names, args):
                    info[nme] = a
                self.st.frames[key[0]][key[1]] = self.materialise(t, info)

    def canon_arg(self, t, i):
        """the context argument of a parser application in canonical form"""
        if not (self.canon and i == 3 and t.arg(3).sort() == S.Ctx):
            return False
        c = t.arg(3)
        return c.num_args() == 3 and c.eq(self.canon_like(t, t.arg(2)))

    def canon_like(self, t, pos):
        m, gl = t.arg(3).arg(0), t.arg(3).arg(2)
        return S.Ctx.mk_ctx(m, S.LOC(gl, t.arg(1), pos), gl)

    def rest_views(self, keys):
        """(what a loop still has to go through, as functions of its variables;
        what is known of them)"""
        out = [("rest", k, lambda e, k=k: e[k]) for k in keys
               if keys[k] in (S.SV, S.E) and k[-1] == "$rest"]
        facts = []
        seen = set()
        for q in self.indexed:
            if q.get_id() in seen:
                continue
            seen.add(q.get_id())
            n = z3.Length(q)

            def suffix(i, q=q, n=n):
                return z3.Extract(q, i, n - i)
            for k in [k for k in keys if keys[k] == S.Int]:
                out.append(("suffix", k, lambda e, k=k, suffix=suffix: suffix(e[k])))

                def fact(e, k=k, q=q, n=n, suffix=suffix):
                    i, s = e[k], suffix(e[k])
                    return [z3.Implies(z3.And(i >= 0, i < n), z3.And(
                        z3.Length(s) == n - i, s[z3.IntVal(0)] == q[i],
                        z3.Extract(s, z3.IntVal(1), z3.Length(s) - 1) == suffix(i + 1))),
                        z3.Implies(i == 0, s == q), z3.Implies(i >= n, z3.Length(s) == 0)]
                facts.append(fact)
        return out, facts

    def default_candidates(self, env0, keys, info):
        out = []
        ints = [k for k, s in keys.items() if s == S.Int]
        bools = [k for k, s in keys.items() if s == S.Bool]
        svs = [k for k, s in keys.items() if s == S.SV or s == S.E]
        ctxs = [k for k, s in keys.items() if s == S.Ctx]

        def add(name, f):
            out.append((name, f))
        if "range" in info and info["range"][0] in keys:
            k, a, b = info["range"]
            add("range", lambda e, k=k, a=a, b=b: z3.Or(e[k] <= b, e[k] == a))
        for q in svs:
            for r in svs:
                if r[-1] == "$rest" and q[-1] != "$rest" and keys[q] == keys[r]:
                    add("%s+rest" % (q[-1],), lambda e, q=q, r=r, c=z3.Concat(env0[q], env0[r]):
                        z3.Concat(e[q], e[r]) == c)
        for name, _, f in self.rest_views(keys)[0]:
            if name == "suffix":
                for q in svs:
                    if q[-1] != "$rest" and env0[q].sort() == f(env0).sort():
                        add("%s+suffix" % q[-1], lambda e, q=q, f=f, c=z3.Concat(
                            env0[q], f(env0)): z3.Concat(e[q], f(e)) == c)
        for q in self.indexed:
            for k in ints:
                add("%s<=length" % k[-1], lambda e, k=k, q=q: e[k] <= z3.Length(q))
        for k in ints:
            v0 = env0[k]
            add("%s>=entry" % (k[-1],), lambda e, k=k, v0=v0: e[k] >= v0)
            for s in self.streams.values():
                add("%s<=len" % (k[-1],), lambda e, k=k, s=s: e[k] <= S.slen(s))
        for a in keys:
            for b in keys:
                if a != b and keys[a] == keys[b] and str(a) < str(b):
                    out.append(("%s==%s" % (a[-1], b[-1]), lambda e, a=a, b=b: e[a] == e[b],
                                (a, b)))
        for b in bools:
            for q in svs:
                add("%s==nonempty" % (b[-1],), lambda e, b=b, q=q: e[b] == (z3.Length(e[q]) > 0))
            for k in ints:
                add("%s==moved" % (b[-1],), lambda e, b=b, k=k, v0=env0[k]: e[b] == (e[k] > v0))
        for k in ints:
            for q in svs:
                add("moved==nonempty", lambda e, q=q, k=k, v0=env0[k]:
                    (e[k] > v0) == (z3.Length(e[q]) > 0))
        for c in ctxs:
            c0 = env0[c]
            add("mark", lambda e, c=c, c0=c0: S.Ctx.c_mark(e[c]) == S.Ctx.c_mark(c0))
            add("gl", lambda e, c=c, c0=c0: S.Ctx.c_gl(e[c]) == S.Ctx.c_gl(c0))
            for k in ints:
                for s in self.streams.values():
                    add("vl", lambda e, c=c, k=k, s=s:
                        S.vlow(S.Ctx.c_gl(e[c]), s, S.Ctx.c_loc(e[c])) <= e[k])
        return out


class HeadBase:
    """View of the base state where loop-changed parts always count as changed
    values that are already known."""

    def __init__(self, s, specs):
        self.frames = {f: dict(v) for f, v in s.frames.items()}
        self.heap = dict(s.heap)
        for key in specs:
            if isinstance(key, tuple):
                self.frames[key[0]][key[1]] = ANY
            else:
                self.heap[key] = ANY


class LoopDone(Exception):
    pass


class _Marker:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


DONE = _Marker("DONE")
ANY = _Marker("ANY")
UNBOUND = _Marker("UNBOUND")
NODEFAULT = _Marker("NODEFAULT")


def canon_ctx(s, pos, ctx):
    gl = S.Ctx.c_gl(ctx)
    return S.Ctx.mk_ctx(S.Ctx.c_mark(ctx), S.LOC(gl, s, pos), gl)


def same_val(a, b):
    if a is b or a is ANY:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if type(a) is type(b) and isinstance(a, (bool, int, str)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Closure) and isinstance(b, Closure):
        return a.same(b)
    return False


def same_cell(a, b, any_moved=False):
    if a is ANY:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Lst):
        return len(a.segs) == len(b.segs) and all(x is y for x, y in zip(a.segs, b.segs)) \
            and (any_moved or a.moved == b.moved)
    return set(a.fields) == set(b.fields) and all(same_val(a.fields[k], b.fields[k])
                                                  for k in a.fields)


def snap_same(a, b):
    if isinstance(a, Snap) and isinstance(b, Snap):
        return a.cls is b.cls and set(a.fields) == set(b.fields) and all(
            snap_same(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, SnapList) and isinstance(b, SnapList):
        return len(a.segs) == len(b.segs) and all(
            isinstance(x, Abs) and isinstance(y, Abs) and x.src.eq(y.src)
            for x, y in zip(a.segs, b.segs)) and a.moved == b.moved
    if isinstance(a, OptInt) and isinstance(b, OptInt):
        return a.none.eq(b.none) and a.val.eq(b.val)
    return same_val(a, b)


def local_names(node):
    out = set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp,
                              ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                if isinstance(c, ast.FunctionDef):
                    out.add(c.name)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            walk(c)
    walk(node)
    return out


def free_names(node):
    """names a function may take from enclosing scopes"""
    a = node.args
    bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x}
    if not isinstance(node, ast.Lambda):
        bound |= set(local_names(node))
    nl = {x for n in ast.walk(node) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
    return ({n.id for n in ast.walk(node) if isinstance(n, ast.Name)} - bound) | nl


def is_generator(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)) or walk(c):
                return True
        return False
    return walk(node)


# ---------------------------------------------------------------- methods
def list_method(ip, ref, name, a, k):
    if isinstance(ref, OneShot):
        if name == "__iter__":
            return ref
        raise Unsupported("%s of a generator" % name)
    if name == "append":
        v = a[0]
        if isinstance(v, (OneShot, GenVal)):
            raise Unsupported("generator stored in a list")
        c = ip.cell_w(ref, "append")
        c.segs.append(Elem(v))
        return None
    if name == "extend":
        err = a[0].err if isinstance(a[0], OneShot) else None
        if err is not None:
            if a[0].writes:
                raise Unsupported("a generator with side effects")
            ip.undisturbed(a[0])
            c = ip.cell_w(ref, "extend")
            c.segs.extend(ip.share(ip.cell(a[0].ref).segs, None))
            raise err
        segs, src = ip.iter_segs(a[0])
        segs = ip.share(segs, src)
        c = ip.cell_w(ref, "extend")
        c.segs.extend(segs)
        return None
    if name == "insert" and a[0] == 0:
        c = ip.cell_w(ref, "insert")
        c.segs.insert(0, Elem(a[1]))
        return None
    if name == "copy":
        segs, src = ip.iter_segs(ref)
        return ip.new_list(ip.share(segs, src))
    if name == "reverse":
        c = ip.cell_w(ref, "reverse")
        if all(isinstance(s, Elem) for s in c.segs):
            c.segs.reverse()
            return None
        c.segs = [ip.backwards(c.segs)]
        return None
    if name == "__iter__":
        return b_iter(ip, [ref], {})
    if name == "pop" and (not a or a[0] in (0, -1)):
        c = ip.cell(ref)
        i = a[0] if a else -1
        if c.segs and isinstance(c.segs[i], Elem):
            c = ip.cell_w(ref, "pop")
            return ip.enter(c.segs.pop(i).val)
        if len(c.segs) == 1 and isinstance(c.segs[0], SeqSeg) and i == -1:
            q = c.segs[0].term
            if not ip.decide(z3.Length(q) > 0):
                raise RaiseSig("IndexError")
            x = S.fresh("x", S.V if q.sort() == S.SV else S.L)
            r = S.fresh("rest", q.sort())
            ip.assume(q == z3.Concat(r, z3.Unit(x)))
            c = ip.cell_w(ref, "pop")
            c.segs = [SeqSeg(r)]
            return x
    raise Unsupported("list.%s" % name)


def eterm_method(ip, v, name, a, k):
    if name == "__iter__":
        return v
    raise Unsupported("method %s of expected" % name)


def str_method(ip, v, name, a, k):
    if name == "format":
        if not isinstance(v, str) or k:
            raise Unsupported("format")
        import string
        parts = []
        n = 0
        for litx, fieldn, spec, conv in string.Formatter().parse(v):
            parts.append(litx)
            if fieldn is None:
                continue
            if spec or (fieldn and not fieldn.isdigit()):
                raise Unsupported("format spec")
            i = int(fieldn) if fieldn else n
            n += 1
            if i >= len(a):
                raise RaiseSig("IndexError")
            parts.append(ip.fmt(a[i], conv or "s"))
        return ip.strx(parts)
    if name == "join":
        x = a[0]
        if isinstance(x, z3.ExprRef) and x.sort() == S.E:
            return StrX([("join", v, [SeqSeg(x)])])
        segs, _ = ip.iter_segs(x)
        if all(isinstance(s, Elem) for s in segs):
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts.append(v)
                parts.append(ip.fmt(s.val, "s"))
            return ip.strx(parts)
        return StrX([("join", v, list(segs))])
    raise Unsupported("str.%s" % name)


def stream_method(ip, v, name, a, k):
    if k:
        raise Unsupported("keyword arguments of str.%s" % name)
    c = ip.as_cut(v)
    if c is not None and name in ("count", "rfind") and len(a) == 1 and a[0] == "\n":
        src, lo, hi = c
        if not ip.valid(z3.And(0 <= lo, lo <= hi, hi <= S.slen(src))):
            raise Unsupported("part of a text")
        r = stream_method(ip, src, name, [a[0], lo, hi], {})
        return r if name == "count" else z3.If(r < 0, z3.IntVal(-1), r - lo)
    if name == "startswith":
        x = ip.to_V(a[0])
        p = ip.to_int(a[1]) if len(a) > 1 else z3.IntVal(0)
        if len(a) > 2:
            raise Unsupported("startswith end")
        for f in ip.hooks.sw_facts(ip, v, x, p):
            ip.assume(f)
        return S.sw(v, x, p)
    if name == "find" and len(a) in (1, 2):
        x = ip.to_V(a[0])
        p = ip.to_int(a[1]) if len(a) > 1 else z3.IntVal(0)
        if not ip.valid(z3.And(p >= 0, S.slen(x) > 0)):
            raise Unsupported("find of an empty text or from the end")
        for f in ip.hooks.sw_facts(ip, v, x, p) + first_sw(v, x, p):
            ip.assume(f)
        f = S.fsw(v, x, p)
        for g in ip.hooks.sw_facts(ip, v, x, f):
            ip.assume(g)
        return z3.If(f < S.slen(v), f, z3.IntVal(-1))
    if name in ("count", "rfind") and a and a[0] == "\n":
        lo = ip.to_int(a[1]) if len(a) > 1 else z3.IntVal(0)
        hi = ip.to_int(a[2]) if len(a) > 2 else S.slen(v)
        if not ip.valid(z3.And(0 <= lo, lo <= hi, hi <= S.slen(v))):
            lo2 = S.fresh("lo", S.Int)
            # outside the axiomatised range: unconstrained result
            r = S.fresh(name, S.Int)
            ip.assume(r >= (0 if name == "count" else -1))
            return r
        for f in ip.hooks.nl_facts(ip, v, lo, hi):
            ip.assume(f)
        return (S.NL if name == "count" else S.RF)(v, lo, hi)
    raise Unsupported("str.%s" % name)


def first_sw(s, x, c):
    """Defining equations: fsw(s, x, c) is the first position from c on where s continues with
    x (not empty), or the length of s if there is none."""
    f, n = S.fsw(s, x, c), S.slen(s)
    return [z3.Implies(z3.And(c < n, S.sw(s, x, c)), f == c),
            z3.Implies(z3.And(c < n, z3.Not(S.sw(s, x, c))), f == S.fsw(s, x, c + 1)),
            z3.Implies(c >= n, f == n),
            z3.Implies(f < n, z3.And(f >= c, S.sw(s, x, f)))]


def match_method(ip, m, name, a, k):
    if name == "end" and not a:
        return S.m_end(m.pat, m.s, m.pos)
    if name == "start" and not a:
        return m.pos
    if name == "span" and not a:
        return (m.pos, S.m_end(m.pat, m.s, m.pos))
    if name == "group":
        g = ip.to_V(a[0] if a else 0)
        for f in ip.hooks.group_facts(ip, m, g):
            ip.assume(f)
        if g.eq(S.IntV(z3.IntVal(0))):
            return S.m_group(m.pat, m.s, m.pos, g)
        if ip.decide(S.m_gnone(m.pat, m.s, m.pos, g)):
            return None
        v = S.m_group(m.pat, m.s, m.pos, g)
        ip.assume(v != S.NoneV)                # it is text
        return v
    raise Unsupported("match.%s" % name)


def match_attr(ip, m, name):
    if name == "lastgroup":
        if ip.decide(S.m_lgnone(m.pat, m.s, m.pos)):
            return None
        return S.m_lg(m.pat, m.s, m.pos)
    if name == "string":
        return m.s
    if name == "pos":
        return m.pos
    raise Unsupported("match.%s" % name)


# ---------------------------------------------------------------- loops in other words
def ast_copy(x):
    import copy
    return copy.deepcopy(x)


def call_of(e, name):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name \
        and not e.keywords


def path_expr(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


class Indexed(ast.NodeTransformer):
    """L[i] as the variable that runs over L"""

    def __init__(self, idx, text, path):
        self.idx, self.text = idx, text
        self.var = "item__" + idx
        self.bad = self.used = self.other = False
        while isinstance(path, ast.Attribute):
            path = path.value
        self.root = path.id

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Name) and n.slice.id == self.idx and \
                ast.dump(n.value) == self.text:
            if not isinstance(n.ctx, ast.Load):
                self.bad = True
            self.used = True
            return ast.copy_location(ast.Name(self.var, ast.Load()), n)
        return self.generic_visit(n)

    def visit_Name(self, n):
        if n.id == self.idx:
            self.other = True
            self.bad |= not isinstance(n.ctx, ast.Load)
        if n.id == self.root and not isinstance(n.ctx, ast.Load):
            self.bad = True
        return n

    def visit_Attribute(self, n):
        if not isinstance(n.ctx, ast.Load) and self.text == ast.dump(
                ast.Attribute(n.value, n.attr, ast.Load())):
            self.bad = True
        return self.generic_visit(n)


LAZY = {}


def reads_only(e):
    """evaluating it changes nothing and cannot fail in the middle of a list"""
    return all(isinstance(x, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Attribute, ast.Name,
                              ast.Constant, ast.cmpop, ast.boolop, ast.unaryop, ast.expr_context))
               for x in ast.walk(e))


def lazy_for(n):
    """for x in (e for y in L if c): ... evaluates e and c between iterations"""
    if n in LAZY:
        return LAZY[n]
    g, m = n.iter, None
    if isinstance(g, ast.GeneratorExp) and len(g.generators) == 1 and not n.orelse and \
            not g.generators[0].is_async and isinstance(g.generators[0].target, ast.Name):
        c = g.generators[0]
        y = c.target.id
        new = "%s__%d" % (y, n.lineno)

        class Ren(ast.NodeTransformer):
            def visit_Name(self, x):
                return ast.copy_location(ast.Name(new, x.ctx), x) if x.id == y else x
        elt, ifs = (Ren().visit(ast_copy(x)) for x in (g.elt, ast.Tuple(list(c.ifs), ast.Load())))
        inner = [ast.Assign([n.target], elt)] + n.body
        skip = [ast.If(ast.UnaryOp(ast.Not(), t), [ast.Continue()], []) for t in ifs.elts]
        m = ast.For(ast.Name(new, ast.Store()), c.iter, skip + inner, [], None)
        ast.fix_missing_locations(ast.copy_location(m, n))
    LAZY[n] = m
    return m


MINIMA = {}


def minima(body):
    """Statements with loops that look for the first minimum replaced by calls of min."""
    key = tuple(body)
    if key not in MINIMA:
        out, i = [], 0
        while i < len(body):
            m = first_minimum(body, i) or sorted_copy(body, i)
            if m is None:
                out.append(body[i])
                i += 1
            else:
                out += m[0]
                i = m[1]
        MINIMA[key] = out
    return MINIMA[key]


def first_minimum(body, i):
    """best = None                               best = xs[0]
    for x in xs:                                 for x in xs[1:]:
        if best is None or K(x) < K(best):           if K(x) < K(best):
            best = x                                     best = x
    also with the key of the best one in a variable, and over an iterator"""
    inits, j = {}, i
    while j < len(body) and j - i < 3 and isinstance(body[j], (ast.Assign, ast.AnnAssign)):
        st = body[j]
        pairs = init_pairs(st.targets if isinstance(st, ast.Assign) else [st.target], st.value)
        if pairs is None or any(v in inits for v, _ in pairs):
            return None
        inits.update(pairs)
        j += 1
    if not inits or j >= len(body):
        return None
    n = body[j]
    if not isinstance(n, ast.For) or n.orelse or not isinstance(n.target, ast.Name):
        return None
    x, steps, k, kexp = n.target.id, list(n.body), None, None
    if len(steps) == 2 and isinstance(steps[0], ast.Assign) and len(steps[0].targets) == 1 and \
            isinstance(steps[0].targets[0], ast.Name):
        k, kexp = steps[0].targets[0].id, steps.pop(0).value
    if not steps or not isinstance(steps[0], ast.If):
        return None
    test, then, rest = steps[0].test, steps[0].body, steps[0].orelse + steps[1:]
    if rest and all(isinstance(st, (ast.Pass, ast.Continue)) for st in then) and not (
            steps[0].orelse and steps[1:]):
        test, then, rest = negated(test), rest, []
    if rest or test is None:
        return None
    sets = {}
    for st in then:
        if not isinstance(st, ast.Assign) or len(st.targets) != 1:
            return None
        t, v = st.targets[0], st.value
        pairs = [(t, v)]
        if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
            pairs = list(zip(t.elts, v.elts))
        for a, b in pairs:
            if not isinstance(a, ast.Name) or a.id in sets:
                return None
            sets[a.id] = b
    best = [a for a, b in sets.items() if isinstance(b, ast.Name) and b.id == x]
    if len(best) != 1 or best[0] not in inits or len(sets) > 2:
        return None
    best = best[0]
    bk = next((a for a in sets if a != best), None)
    guard = None
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) and len(test.values) == 2 and \
            isinstance(test.values[0], ast.Compare) and \
            isinstance(test.values[0].left, ast.Name) and \
            isinstance(test.values[0].ops[0], ast.Is) and is_none_const(
                test.values[0].comparators[0]):
        guard, test = test.values[0].left.id, test.values[1]
    if not isinstance(test, ast.Compare) or len(test.ops) != 1:
        return None
    new, old = test.left, test.comparators[0]
    if isinstance(test.ops[0], ast.Gt):
        new, old = old, new
    elif not isinstance(test.ops[0], ast.Lt):
        return None
    if k is not None:
        if not (isinstance(new, ast.Name) and new.id == k):
            return None
    else:
        kexp = new

    def with_name(e, name):
        class Ren(ast.NodeTransformer):
            def visit_Name(self, y):
                return ast.copy_location(ast.Name(name, y.ctx), y) if y.id == x else y
        return Ren().visit(ast_copy(e))
    same = lambda a, b: ast.dump(a) == ast.dump(b)
    used = {y.id for y in ast.walk(kexp) if isinstance(y, ast.Name)}
    if x not in used or used & {best, bk, k} or any(isinstance(y, (
            ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.GeneratorExp,
            ast.ListComp)) for y in ast.walk(kexp)):
        return None
    kbest = with_name(kexp, best)
    if bk is not None:
        v = sets[bk]
        if not ((k is not None and isinstance(v, ast.Name) and v.id == k) or same(v, kexp)):
            return None
    if not (bk is not None and isinstance(old, ast.Name) and old.id == bk or same(old, kbest)):
        return None
    first, it = inits[best], n.iter
    nexts = call_of(first, "next") and isinstance(it, ast.Name)
    if set(inits) - {best, bk} - ({it.id} if nexts else set()):
        return None
    chain = lambda e: isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and chain(e.value)
    exc = None
    if is_none_const(first):
        if guard not in (best, bk) or guard is None:
            return None
        if bk is not None and not (bk in inits and is_none_const(inits[bk])):
            return None
        xs = it
    elif isinstance(first, ast.Subscript) and isinstance(first.slice, ast.Constant) and \
            first.slice.value == 0 and type(first.slice.value) is int:
        xs, exc = first.value, "IndexError"
        tail = isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and \
            it.slice.upper is None and it.slice.step is None and \
            isinstance(it.slice.lower, ast.Constant) and it.slice.lower.value == 1 and \
            same(it.value, xs)
        if not tail and not same(it, xs):
            return None
    elif call_of(first, "next") and len(first.args) == 1 and isinstance(it, ast.Name) and \
            same(first.args[0], it) and it.id in inits and call_of(inits[it.id], "iter") and \
            len(inits[it.id].args) == 1 and list(inits).index(it.id) == 0:
        xs, exc = inits[it.id].args[0], "StopIteration"
    else:
        return None
    if exc is not None and bk is not None and not (bk in inits and (
            same(inits[bk], kbest))):
        return None
    if not chain(xs) or any(isinstance(y, ast.Name) and y.id in (x, k, bk, best)
                            for y in ast.walk(xs)):
        return None
    load = lambda v: ast.Name(v, ast.Load())
    put = lambda v, e: ast.Assign([ast.Name(v, ast.Store())], e)
    lam = ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []), kexp)
    found = [put(best, ast.Call(load("min"), [xs], [ast.keyword("key", lam)]))]
    if guard == best:
        found.append(ast.If(ast.Compare(load(best), [ast.Is()], [ast.Constant(None)]), [
            put(best, ast.Constant(Poison("None among the elements of a loop")))], []))
    if bk is not None:
        found.append(put(bk, ast_copy(kbest)))
    none = [put(v, ast.Constant(None)) for v in (best, bk) if v is not None] if exc is None else \
        [ast.Raise(load(exc), None)]
    gone = [put(v, ast.Constant(Poison("variable of a loop"))) for v in
            [x, k] + [v for v in inits if v not in (best, bk)] if v is not None]
    out = [ast.If(xs, found, none)] + gone
    for st in out:
        ast.fix_missing_locations(ast.copy_location(st, n))
    return out, j + 1


def init_pairs(targets, v):
    """(name, expression) for every name that an assignment sets, None for other assignments"""
    out = []
    for t in targets:
        if isinstance(t, ast.Name) and v is not None and (
                len(targets) == 1 or isinstance(v, ast.Constant)):
            out.append((t.id, v))
        elif isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(targets) == 1 and \
                len(t.elts) == len(v.elts) and all(isinstance(y, ast.Name) for y in t.elts) and \
                all(isinstance(y, ast.Constant) for y in v.elts):
            out += [(y.id, w) for y, w in zip(t.elts, v.elts)]
        else:
            return None
    return out


def negated(e):
    """the test that is true where this one is false; the keys that the rewritten loops
    compare are tuples of numbers"""
    ops = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    if isinstance(e, ast.BoolOp):
        vs = [negated(v) for v in e.values]
        return None if None in vs else ast.copy_location(
            ast.BoolOp(ast.Or() if isinstance(e.op, ast.And) else ast.And(), vs), e)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in ops:
        return ast.copy_location(
            ast.Compare(e.left, [ops[type(e.ops[0])]()], e.comparators), e)
    return None


def sorted_copy(body, i):
    """xs = list(ys); xs.sort(key=K)  ->  xs = sorted(ys, key=K)"""
    st = body[i]
    if i + 1 >= len(body) or not isinstance(st, ast.Assign) or len(st.targets) != 1 or \
            not isinstance(st.targets[0], ast.Name):
        return None
    v, e, n = st.targets[0].id, st.value, body[i + 1]
    if call_of(e, "list") and len(e.args) == 1:
        src = e.args[0]
    elif isinstance(e, ast.List) and len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
        src = e.elts[0].value
    else:
        return None
    c = n.value if isinstance(n, ast.Expr) else None
    if not isinstance(c, ast.Call) or c.args or [k.arg for k in c.keywords] != ["key"] or \
            not isinstance(c.func, ast.Attribute) or c.func.attr != "sort" or \
            not isinstance(c.func.value, ast.Name) or c.func.value.id != v or \
            any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(c.keywords[0].value)):
        return None
    out = ast.Assign([st.targets[0]],
                     ast.Call(ast.Name("sorted", ast.Load()), [src], c.keywords))
    return [ast.fix_missing_locations(ast.copy_location(out, n))], i + 2


def is_none_const(e):
    return isinstance(e, ast.Constant) and e.value is None


# ---------------------------------------------------------------- builtins
def b_len(ip, a, k):
    ip.no_list(a[0])
    return ip.length(ip.unboxed(a[0]))


def b_type(ip, a, k):
    v = ip.unboxed(a[0])
    if isinstance(v, Ref):
        c = ip.cell(v)
        if isinstance(c, Obj):
            return c.cls
    if v is None:
        return External("NoneType")
    if isinstance(v, z3.ExprRef) and v.sort() == S.Ctx:
        return ip.klass("Ctx")
    return TypeOf(v)


def b_isinstance(ip, a, k):
    v = ip.unboxed(a[0])
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    names = [c.name.split(".")[-1] for c in cs if isinstance(c, (Builtin, External))]
    if "object" in names:
        return True
    if isinstance(v, Ref) and isinstance(ip.cell(v), Obj):
        if "tuple" in names:
            raise Unsupported("isinstance of an object and tuple")
        return any(isinstance(c, ClassVal) and ip.cell(v).cls.is_subclass(c) for c in cs)
    if "int" in names and (isinstance(v, bool) or
                           isinstance(v, z3.ExprRef) and v.sort() == S.Bool):
        return True
    if "tuple" in names and isinstance(v, z3.ExprRef) and v.sort() == S.Loc:
        return True
    rs = [ip.type_is(v, c if not isinstance(c, Builtin) else External(c.name)) for c in cs]
    if any(r is True for r in rs):
        return True
    rs = [r for r in rs if r is not False]
    return z3.Or(*rs) if rs else False


def b_list(ip, a, k):
    if not a:
        return ip.new_list([])
    segs, src = ip.iter_segs(a[0])
    return ip.new_list(ip.share(segs, src))


def b_tuple(ip, a, k):
    if not a:
        return ()
    v = a[0]
    if isinstance(v, tuple):
        return v
    segs, _ = ip.iter_segs(v)
    if all(isinstance(s, Elem) for s in segs):
        return tuple(ip.enter(s.val) for s in segs)
    try:
        return ip.new_list([SeqSeg(ip.segs_term(segs, "E"))])
    except Unsupported:
        raise Unsupported("tuple of abstract list")


def b_repr(ip, a, k):
    return ip.fmt(a[0], "r")


def b_range(ip, a, k):
    if len(a) == 1:
        return RangeVal(0, a[0])
    if len(a) == 2:
        return RangeVal(a[0], a[1])
    if a[2] == 1:
        return RangeVal(a[0], a[1])
    raise Unsupported("range step")


def reversed_(ip, a, k, as_list=False):
    v = a[0]
    if isinstance(v, tuple):
        r = tuple(reversed(v))
        return ip.new_list([Elem(x) for x in r]) if as_list else r
    segs, _ = ip.iter_segs(v)
    if all(isinstance(s, Elem) for s in segs):
        return ip.new_list([Elem(s.val) for s in reversed(segs)])
    if as_list:
        return ip.new_list([ip.backwards(segs)])
    return RevSeq(ip.segs_term(segs, "SV"))


def b_bool(ip, a, k):
    return ip.truth(a[0]) if a else False


def b_hash(ip, a, k):
    def plain(x):
        return isinstance(x, (bool, int, str)) or x is None or \
            isinstance(x, z3.ExprRef) and x.sort() in (S.L, S.Int, S.Loc) or \
            isinstance(x, tuple) and all(map(plain, x))
    if len(a) != 1 or k or not plain(a[0]):
        raise Unsupported("hash")
    return PY_HASH(ip.to_V(a[0]))


PY_HASH = z3.Function("py_hash", S.V, S.Int)


def b_iter(ip, a, k):
    v = ip.unboxed(a[0])
    if isinstance(v, OneShot):
        return v
    if isinstance(v, z3.ExprRef) and v.sort() == S.E:
        return v
    segs, src = ip.iter_segs(v)
    return ip.late(ip.share(segs, src), [v])


def b_next(ip, a, k):
    v = a[0]
    if isinstance(v, OneShot):
        ip.undisturbed(ip.plain(v, "next"))
        c = ip.cell(v.ref)
        if not c.segs:
            if len(a) > 1:
                return a[1]
            raise RaiseSig("StopIteration")
        if isinstance(c.segs[0], Elem):
            c = c.copy()
            x = c.segs.pop(0)
            ip.st.heap[v.ref.id] = c
            return ip.enter(x.val)
    raise Unsupported("next")


def quantifier(what):
    def f(ip, a, k):
        try:
            ip.for_each(a[0], lambda v: stop(ip, v), None)
        except BreakSig:
            return what
        return not what

    def stop(ip, v):
        if ip.decide(ip.truth(v)) == what:
            raise BreakSig()
    return f


def b_enumerate(ip, a, k):
    return EnumVal(a[0], a[1] if len(a) > 1 else k.get("start", 0))


def b_zip(ip, a, k):
    lists = [ip.iter_segs(ip.plain(x, "zip"))[0] for x in a]
    if not all(isinstance(s, Elem) for l in lists for s in l) or k:
        raise Unsupported("zip")
    return ip.late([Elem(tuple(ip.enter(s.val) for s in t)) for t in zip(*lists)], a)


def b_map(ip, a, k):
    if len(a) != 2:
        raise Unsupported("map")
    acc = ip.new_list([])

    def body(v):
        list_method(ip, acc, "append", [ip.call(a[0], [v])], {})
    ip.plain(a[1], "map")
    return ip.one_shot(lambda: ip.for_each(a[1], body, None), acc)


def b_filter(ip, a, k):
    acc = ip.new_list([])

    def body(v):
        if ip.decide(ip.truth(v if a[0] is None else ip.call(a[0], [v]))):
            list_method(ip, acc, "append", [v], {})
    ip.plain(a[1], "filter")
    return ip.one_shot(lambda: ip.for_each(a[1], body, None), acc)


def b_sum(ip, a, k):
    segs = ip.iter_segs(a[0])[0]
    if not all(isinstance(s, Elem) for s in segs):
        raise Unsupported("sum")
    n = a[1] if len(a) > 1 else k.get("start", 0)
    for s in segs:
        n = ip.plus(n, s.val)
    return n


def b_sorted(ip, a, k):
    if set(k) - {"key"}:
        raise Unsupported("sorted")
    return SortedVal(a[0], k.get("key"))


def b_abs(ip, a, k):
    x = ip.to_int(a[0])
    return z3.If(x < 0, -x, x)


def b_max(ip, a, k):
    if len(a) == 2 and not k:
        x, y = ip.to_int(a[0]), ip.to_int(a[1])
        return z3.If(y > x, y, x)
    raise Unsupported("max")


def b_min(ip, a, k):
    if len(a) == 2 and not k:
        x, y = ip.to_int(a[0]), ip.to_int(a[1])
        return z3.If(y < x, y, x)
    if len(a) != 1 or set(k) - {"key", "default"}:
        raise Unsupported("min")
    default = (k["default"],) if "default" in k else ()
    if default and not isinstance(ip.unboxed(a[0]), OneShot) and ip.iter_segs(a[0])[0] == []:
        return default[0]
    if "key" not in k:
        segs = ip.iter_segs(a[0])[0]
        if segs and all(isinstance(s, Elem) for s in segs):
            x = ip.to_int(segs[0].val)
            for s in segs[1:]:
                y = ip.to_int(s.val)
                x = z3.If(y < x, y, x)
            return x
    return ip.hooks.min_element(ip, a[0], k.get("key"), default=default)


def b_str(ip, a, k):
    return ip.fmt(a[0], "s") if a else ""


def b_int(ip, a, k):
    return ip.to_int(a[0])


BUILTINS = {
    "len": b_len, "type": b_type, "isinstance": b_isinstance, "list": b_list, "tuple": b_tuple,
    "hash": b_hash, "repr": b_repr, "range": b_range, "reversed": reversed_, "iter": b_iter,
    "max": b_max, "min": b_min, "next": b_next, "any": quantifier(True),
    "all": quantifier(False), "enumerate": b_enumerate, "zip": b_zip, "map": b_map,
    "filter": b_filter, "sum": b_sum, "sorted": b_sorted, "abs": b_abs,
}
