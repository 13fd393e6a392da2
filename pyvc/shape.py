"""What a module or a class body may consist of. Definitions are read, not executed: anything
else at these levels (patched attributes, conditional definitions, hooks into attribute access
or instance creation, metaclasses) could change what the definitions mean."""
import ast
import sys

HOOKS = {"__new__", "__setattr__", "__getattribute__", "__getattr__", "__delattr__",
         "__init_subclass__", "__set_name__", "__get__", "__set__", "__delete__",
         "__instancecheck__", "__subclasscheck__", "__mro_entries__", "__prepare__", "__del__",
         "__class__", "__dict__", "__missing__"}
# classes whose instances are terms with the equality, order and truth they have by default
TERMS = {"Loc", "Skip", "Insert", "Token", "Ctx"}
OPERATORS = {"__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__bool__", "__len__",
             "__iter__", "__getitem__", "__contains__", "__post_init__", "__add__", "__sub__",
             "__radd__", "__hash__", "__call__"}
CLASS_DECORATORS = {"dataclass", "final", "runtime_checkable", "total_ordering"}
DATACLASS = {"eq", "frozen", "repr", "order", "slots", "unsafe_hash", "match_args",
             "weakref_slot"}
FIELD = {"default", "default_factory", "repr", "compare", "hash", "metadata"}


def last(e):
    if isinstance(e, ast.Call):
        e = e.func
    if isinstance(e, ast.Subscript):
        e = e.value
    return e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "?")


def static_test(t):
    """value of the condition of a module-level if, or None"""
    if last(t) == "TYPE_CHECKING":
        return False
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = static_test(t.operand)
        return None if v is None else not v
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
            isinstance(t.left, ast.Attribute) and t.left.attr == "version_info":
        try:
            v = ast.literal_eval(t.comparators[0])
            now = tuple(sys.version_info[:len(v)]) if len(v) < 5 else tuple(sys.version_info)
            return {ast.GtE: now >= v, ast.Lt: now < v, ast.Gt: sys.version_info > v,
                    ast.LtE: sys.version_info <= v, ast.Eq: now == v}.get(type(t.ops[0]))
        except (ValueError, TypeError):
            return None
    return None


def docstring(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)


def module_problems(name, body):
    out, seen = [], {}

    def bad(n, why):
        out.append("%s:%d: %s" % (name, n.lineno, why))

    def define(x, n, kind):
        if x in seen and "expr" in (kind, seen[x]) and x != "__all__":
            bad(n, "second definition of %s" % x)
        seen[x] = kind

    for n in body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == "*":
                    bad(n, "import *")
        elif docstring(n) or isinstance(n, ast.Pass):
            pass
        elif isinstance(n, ast.FunctionDef):
            define(n.name, n, "def")
        elif isinstance(n, ast.ClassDef):
            define(n.name, n, "class")
            class_problems(n, bad)
        elif isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets):
            for t in n.targets:
                define(t.id, n, "expr")
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            if n.value is not None:
                define(n.target.id, n, "expr")
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and \
                n.target.id == "__all__":
            pass
        elif isinstance(n, ast.Try) and not n.orelse and not n.finalbody and \
                all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in n.body) and \
                all(h.type is not None and last(h.type) in ("ImportError", "ModuleNotFoundError")
                    for h in n.handlers):
            pass
        else:
            bad(n, "%s at module level" % type(n).__name__)
    return out


def class_problems(c, bad):
    for k in c.keywords:
        if k.arg != "metaclass" or last(k.value) != "ABCMeta":
            bad(c, "class %s(%s=...)" % (c.name, k.arg))
    for d in c.decorator_list:
        if last(d) not in CLASS_DECORATORS:
            bad(c, "class decorator %s" % last(d))
        elif isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg not in DATACLASS:
                    bad(c, "class decorator %s(%s=...)" % (last(d), k.arg))
    names = set()
    for n in c.body:
        if docstring(n) or isinstance(n, ast.Pass):
            continue
        if isinstance(n, ast.FunctionDef):
            mine = [n.name]
            if any(last(d) in ("setter", "getter", "deleter") for d in n.decorator_list):
                bad(n, "decorator of %s.%s" % (c.name, n.name))
            if any(last(d) == "overload" for d in n.decorator_list):
                continue
        elif isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets):
            mine = [t.id for t in n.targets]
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            mine = [n.target.id]
            v = n.value
            if isinstance(v, ast.Call) and last(v) == "field":
                for k in v.keywords:
                    if k.arg not in FIELD:
                        bad(n, "field(%s=...)" % k.arg)
            if last(n.annotation) == "InitVar":
                bad(n, "InitVar")
        else:
            bad(n, "%s in the body of class %s" % (type(n).__name__, c.name))
            continue
        for x in mine:
            if x in HOOKS or (c.name in TERMS and x in OPERATORS and not (
                    c.name == "Token" and x in ("__eq__", "__ne__", "__hash__"))):
                bad(n, "%s.%s" % (c.name, x))
            if x in names:
                bad(n, "second definition of %s.%s" % (c.name, x))
            names.add(x)
