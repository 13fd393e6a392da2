"""Ownership: a parse function leaves everything that existed before the call
alone, and what it returns is new and shared with nothing."""
import z3

from .prove import Ob, path_of
from .values import *


def _vars(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


class Walk:
    def __init__(self, ip, epoch):
        self.ip, self.epoch = ip, epoch
        self.seen, self.srcs, self.bad = set(), [], []

    def obj(self, ref_id, what):
        if ref_id < self.epoch or ref_id in self.ip.statics:
            self.bad.append("%s existed before the call" % what)
        if ref_id in self.seen:
            self.bad.append("%s is stored twice" % what)
        self.seen.add(ref_id)

    def result(self, ref):
        ip = self.ip
        if not isinstance(ref, Ref):
            return
        c = ip.cell(ref)
        self.obj(ref.id, "the result")
        if "value" in c.fields:
            self.value(c.fields["value"])
        if "repairs" in c.fields:
            self.list(c.fields["repairs"], "the list of repairs", self.repair, ())

    def value(self, v):
        if isinstance(v, Ref) and isinstance(self.ip.cell(v), Lst) and (
                v.id < self.epoch or v.id in self.ip.statics):
            self.bad.append("a list returned as value existed before the call")

    def list(self, v, what, each, loops):
        ip = self.ip
        if isinstance(v, Ref):
            c = ip.cell(v)
            self.obj(v.id, what)
            if loops:
                self.bad.append("%s is the same in every iteration" % what)
            if not isinstance(c, Lst):
                raise Unsupported("list")
            if c.moved:
                self.bad.append("elements of %s are stored in another list, too" % what)
            self.segs(c.segs, each, loops)
        elif isinstance(v, SnapList):
            if v.cell is not None:
                self.obj(v.cell, what)
            if v.moved:
                self.bad.append("elements of %s are stored in another list, too" % what)
            self.segs(v.segs, each, loops)
        elif isinstance(v, tuple) and not v:
            pass
        else:
            raise Unsupported("list")

    def segs(self, segs, each, loops):
        for s in segs:
            if isinstance(s, Elem):
                each(s.val, loops)
            elif isinstance(s, Abs):
                self.src(s.src, loops)
            elif isinstance(s, For):
                # its elements are those of the list it was made from, rewritten,
                # or new ones
                self.segs(s.segs, each, loops + (s.idx,))
            elif isinstance(s, Cond):
                n0, k0 = set(self.seen), len(self.srcs)
                seen, srcs = set(self.seen), list(self.srcs)
                for a in s.alts:          # only one of them is there
                    self.seen, self.srcs = set(n0), self.srcs[:k0]
                    self.segs(a[2], each, loops)
                    seen |= self.seen
                    srcs += self.srcs[k0:]
                self.seen, self.srcs = seen, srcs
            elif isinstance(s, SeqSeg):
                pass
            else:
                raise Unsupported("list contents %s" % type(s).__name__)

    def src(self, src, loops):
        if any(src.eq(x) for x in self.srcs):
            self.bad.append("%s are stored twice" % (src,))
        self.srcs.append(src)
        names = {v.get_id() for t in (src.t, src.i) if t is not None for v in _vars(t)}
        for i in loops:
            if i.get_id() not in names:
                self.bad.append("%s are stored in every iteration" % (src,))

    def fields(self, v, what, loops):
        if isinstance(v, Snap):
            if v.cell is not None:
                self.obj(v.cell, what)
            return v.fields
        if isinstance(v, Ref):
            self.obj(v.id, what)
            if loops:
                self.bad.append("%s is the same object in every iteration" % what)
            return self.ip.cell(v).fields
        raise Unsupported("element %r" % (v,))

    def repair(self, v, loops):
        f = self.fields(v, "a repair", loops)
        self.value(f.get("value"))
        self.list(f["ops"], "a list of operations", self.op, loops)

    def op(self, v, loops):
        self.fields(v, "an operation", loops)


def ownership(run, modes=None):
    """obligations for every outcome of the run"""
    ip, t = run.ip, run.target.name
    run.prove_frame()
    for kind, o, res in run.cases:
        if kind == "raise":
            continue
        for mode in res:
            if modes and mode not in modes:
                continue
            for x in res[mode]:
                ip.st = x.st.copy()
                where = path_of(x)
                if x.kind == "normal":
                    w = Walk(ip, o.epoch)
                    w.result(x.val)
                    run.obs.append(Ob("%s/fresh result/%s" % (t, mode), not w.bad,
                                      "; ".join(w.bad), where))
