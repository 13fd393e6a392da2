"""Equality and hash of the classes of the package, from their definitions: explicit methods are
executed, generated ones follow the rules of dataclasses and named tuples."""
import ast
import itertools
import z3
from .values import ClassVal, External, Lst, Obj, Ref, SeqSeg, Unsupported
from .shape import last


def literal(e):
    if not isinstance(e, ast.Constant):
        raise Unsupported("option %s" % ast.unparse(e))
    return e.value


def options(k):
    """options of the dataclass decorator of a class, or None"""
    for d in k.node.decorator_list:
        if last(d) == "dataclass":
            return {x.arg: literal(x.value) for x in d.keywords} if isinstance(d, ast.Call) else {}
    return None


def named_tuple(k):
    return any(not isinstance(b, ClassVal) and b.name.split(".")[-1] == "NamedTuple"
               for b in k.bases)


def flags(node, k):
    """compare and hash flag of a field"""
    if isinstance(node, ast.Call) and last(node) == "field":
        kw = {x.arg: literal(x.value) for x in node.keywords if x.arg in ("compare", "hash")}
        c = kw.get("compare", True)
        h = kw.get("hash")
        return bool(c), bool(c if h is None else h)
    return True, True


def fields(ip, k, which):
    return [n for n, node, owner in ip.class_fields(k) if flags(node, k)[which]]


def equality(ip, c):
    """("method", class, node), ("fields", names) or ("identity",)"""
    for k in c.mro():
        if "__eq__" in k.attrs:
            return "method", k, k.attrs["__eq__"]
        o = options(k)
        if o is not None and o.get("eq", True):
            return "fields", fields(ip, k, 0)
        if named_tuple(k):
            return "fields", [n for n, _, _ in ip.class_fields(k)]
    if any(b.split(".")[-1] not in ("object", "Generic", "ABC", "Protocol", "Exception")
           for b in c.external_bases()):
        raise Unsupported("equality of %s" % c.name)
    return ("identity",)


def hashing(ip, c):
    """("method", class, node), ("fields", names), ("identity",) or ("none",)"""
    for k in c.mro():
        o = options(k)
        if o is not None and o.get("unsafe_hash"):
            return "fields", fields(ip, k, 1)
        if "__hash__" in k.attrs:
            n = k.attrs["__hash__"]
            return ("none",) if isinstance(n, ast.Constant) and n.value is None else \
                ("method", k, n)
        if o is not None and o.get("eq", True):
            return ("fields", fields(ip, k, 1)) if o.get("frozen") else ("none",)
        if "__eq__" in k.attrs:
            return ("none",)
        if named_tuple(k):
            return "fields", [n for n, _, _ in ip.class_fields(k)]
    return ("identity",)


def immutable(c):
    return any((options(k) or {}).get("frozen") or named_tuple(k) for k in c.mro())


def method(ip, how, self_, *args):
    k, node = how[1], how[2]
    if not isinstance(node, ast.FunctionDef):
        raise Unsupported("operator assigned in a class")
    return ip.call(ip.class_attr((k, node), self_), list(args))


def unknown(r):
    return isinstance(r, External) and r.name == "NotImplemented"


def same_field(ip, x, y):
    if isinstance(x, Ref) and isinstance(y, Ref) and isinstance(ip.cell(x), Lst) and \
            isinstance(ip.cell(y), Lst):
        return ip.segs_term(ip.cell(x).segs, "E") == ip.segs_term(ip.cell(y).segs, "E")
    return ip.eq(x, y)


def by_content(ip, name):
    """instances of a class that are terms here are equal if all their fields are"""
    c = ip.klass(name)
    how = equality(ip, c)
    return how[0] == "fields" and how[1] == [f[0] for f in ip.class_fields(c)] and \
        not any("__ne__" in k.attrs for k in c.mro())


def objects_equal(ip, a, b):
    """a == b for two objects of classes of the package"""
    ca, cb = ip.cell(a).cls, ip.cell(b).cls
    how = equality(ip, ca)
    if how[0] == "method" or equality(ip, cb)[0] == "method":
        if ca is not cb:
            raise Unsupported("== on objects of different classes")
        r = method(ip, how, a, b)
        if unknown(r):
            r = method(ip, how, b, a)
        if unknown(r):
            r = a.id == b.id
        if not (isinstance(r, bool) or isinstance(r, z3.ExprRef) and z3.is_bool(r)):
            raise Unsupported("result of __eq__")
        return r
    if a.id == b.id:
        return True
    if ca is not cb:
        if named_tuple(ca) or named_tuple(cb):
            raise Unsupported("== on a named tuple")
        return False
    if how[0] == "identity":
        return False
    fa, fb = ip.cell(a).fields, ip.cell(b).fields
    return ip.conj([same_field(ip, fa[n], fb[n]) for n in how[1]])


# ---------------------------------------------------------------- what is proved
# class -> (module, fields, those that make up its content, a value that others may share,
#           how many must be given)
CONTENT = {
    "Token": ("reparsec.lexer", [("kind", "L"), ("value", "L"), ("start", "Loc"),
                                 ("end", "Loc")], ["kind", "value"], True, 2),
    "Loc": ("reparsec.core.types", [("pos", "Int"), ("line", "Int"), ("col", "Int")],
            ["pos", "line", "col"], True, 3),
    "Skip": ("reparsec.core.repair", [("count", "Int")], ["count"], False, 1),
    "Insert": ("reparsec.core.repair", [("label", "L")], ["label"], False, 1),
    "ErrorItem": ("reparsec.types", [("loc", "Loc"), ("loc_str", "L"), ("expected", "E"),
                                     ("op", "V")], ["loc", "loc_str", "expected", "op"], False,
                  3),
}


def prove(pkg, res):
    """Tokens, locations, repair operations and error items are values."""
    from . import sorts as S
    from .interp import Interp, State
    from .jobs import merge_ip
    from .prove import path_of
    ip = Interp(pkg)
    for name, (module, spec, content, shared, needed) in CONTENT.items():
        c = ip.glob(module, name)

        def ob(what, ok, detail="", where=""):
            res.obs.append(("%s/%s" % (name, what), bool(ok), detail, where))
        if not isinstance(c, ClassVal):
            ob("is a class", False, repr(c))
            continue
        res.functions.append("%s.%s" % (c.module, c.name))
        ip.st = State()
        ob("has its documented fields", [f[0] for f in ip.class_fields(c)][:len(spec)] ==
           [n for n, _ in spec], "%r" % ([f[0] for f in ip.class_fields(c)],))

        def some(i, want):
            vals = {}
            for n, s in spec[:want]:
                x = z3.Const("%s%d" % (n, i), getattr(S, s))
                vals[n] = ip.new_list([SeqSeg(x)]) if s == "E" else x
            return vals

        def instance(vals, named={}):
            """an object with the fields the constructor gives it"""
            ip.terms = False
            try:
                return ip.call(c, list(vals), dict(named))
            finally:
                ip.terms = True

        def stored(o, vals):
            got = ip.cell(o).fields
            return ip.conj([False if n not in got else got[n].eq(x)
                            if isinstance(x, z3.ExprRef) and isinstance(got[n], z3.ExprRef)
                            else same_field(ip, got[n], x) for n, x in vals.items()])

        def made(by_name):
            vals = some(1, len(spec))
            o = instance([], vals) if by_name else instance(vals.values())
            few = instance(some(1, needed).values())
            return stored(o, vals), few is not None
        for o in itertools.chain(*[ip.explore(lambda: made(how), State())
                                   for how in (False, True)]):
            ip.st = o.st.copy()
            ob("constructor keeps what it is given", o.kind == "normal" and ip.valid(
                ip.to_bool_term(o.val[0])), "%s %s" % (o.kind, o.exc), path_of(o))

        def equal():
            v1, v2 = some(1, len(spec)), some(2, len(spec))
            a, b = instance(v1.values()), instance(v2.values())
            want = ip.conj([same_field(ip, v1[n], v2[n]) for n in content])
            r = objects_equal(ip, a, b)
            ne = [k for k in c.mro() if "__ne__" in k.attrs]
            n = None
            if ne:
                n = method(ip, ("method", ne[0], ne[0].attrs["__ne__"]), a, b)
            h = hashing(ip, c)
            hs = None
            if h[0] == "method":
                hs = (method(ip, h, a), method(ip, h, b))
            elif h[0] == "fields":
                fa, fb = ip.cell(a).fields, ip.cell(b).fields
                hs = ([fa[x] for x in h[1]], [fb[x] for x in h[1]])
            return ip.to_bool_term(r), ip.to_bool_term(want), n, h, hs
        for o in ip.explore(equal, State()):
            ip.st = o.st.copy()
            if o.kind != "normal":
                ob("== answers", False, "raises %s" % o.exc, path_of(o))
                continue
            r, want, n, h, hs = o.val
            ob("equal content is equal", ip.valid(z3.Implies(want, r)), "", path_of(o))
            ob("equal means equal content", ip.valid(z3.Implies(r, want)), "", path_of(o))
            if n is not None:
                ob("!= is the opposite of ==", ip.valid(ip.to_bool_term(n) == z3.Not(want)), "",
                   path_of(o))
            if shared:
                ob("has a hash", h[0] in ("method", "fields"), h[0], path_of(o))
                if hs is not None:
                    if h[0] == "method":
                        same = ip.eq(*hs)
                    else:
                        same = ip.conj([same_field(ip, x, y) for x, y in zip(*hs)])
                    ob("equal values have equal hashes", ip.valid(
                        z3.Implies(want, ip.to_bool_term(same))), "", path_of(o))
        if shared:
            ob("cannot be changed", immutable(c))
        kinds = equality(ip, c)
        if kinds[0] == "fields":
            ob("differs from values of other classes", True)
        else:
            def foreign():
                other = ip.alloc(Obj(ip.glob("reparsec.types", "ParseResult"), {}))
                a = instance(some(1, len(spec)).values())
                return method(ip, kinds, a, other) if kinds[0] == "method" else False
            for o in ip.explore(foreign, State()):
                r = o.val
                ob("differs from values of other classes", o.kind == "normal" and (
                    r is False or unknown(r) or isinstance(r, z3.ExprRef) and
                    z3.is_false(z3.simplify(r))), "%s %s" % (o.kind, o.exc), path_of(o))
    exceptions(ip, res)
    merge_ip(res, ip)


def exceptions(ip, res):
    """What ParseError and LexError are raised with is their attribute and their only argument:
    copying and pickling an exception call its class with its arguments."""
    from . import sorts as S
    from .interp import State
    from .prove import path_of
    for name, module, attr in (("ParseError", "reparsec.types", "errors"),
                               ("LexError", "reparsec.lexer", "loc")):
        c = ip.glob(module, name)
        if not isinstance(c, ClassVal):
            res.obs.append(("%s/is a class" % name, False, repr(c), ""))
            continue
        res.functions.append("%s.%s" % (c.module, c.name))

        def made():
            x = z3.Const("loc", S.Loc) if attr == "loc" else ip.new_list([])
            e = ip.call(c, [x], {})
            a = ip.cell(e).fields.get("args")
            same = lambda y: y is x or isinstance(x, z3.ExprRef) and isinstance(
                y, z3.ExprRef) and y.eq(x) or isinstance(x, Ref) and x == y
            return same(ip.get_attr(e, attr)), \
                isinstance(a, tuple) and len(a) == 1 and same(a[0])
        for o in ip.explore(made, State()):
            ok = o.val if o.kind == "normal" else (False, False)
            what = "%s %s" % (o.kind, o.exc)
            res.obs.append(("%s/keeps what it is given" % name, bool(ok[0]), what, path_of(o)))
            res.obs.append(("%s/copies are made from what it was given" % name, bool(ok[1]), what,
                            path_of(o)))

