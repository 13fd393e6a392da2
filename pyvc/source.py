"""Loads the package under verification from its source text (never imported)."""
import ast
import hashlib
import os

from .shape import last, module_problems, static_test

REPO = os.environ.get("PYVC_REPO", "/repo")


class Module:
    def __init__(self, name, path, text):
        self.name = name
        self.path = path
        self.tree = Matches().visit(ast.parse(text, path))
        self.defs = {}     # name -> ("func", node) | ("class", node) | ("import", mod, attr) | ("expr", node)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        body = list(flat(self.tree.body))
        self.problems = module_problems(name, body)
        for node in body:
            self._top(node)

    def _top(self, node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.defs[node.name] = ("func", node)
        elif isinstance(node, ast.ClassDef):
            self.defs[node.name] = ("class", node)
        elif isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    self.defs[a.asname] = ("import", a.name, None)
                else:
                    top = a.name.split(".")[0]
                    self.defs[top] = ("import", top, None)
        elif isinstance(node, ast.ImportFrom):
            base = node.module or ""
            if node.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (node.level - 1)]
                base = ".".join(parts + ([node.module] if node.module else []))
            for a in node.names:
                self.defs[a.asname or a.name] = ("import", base, a.name)
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    c = record_class(t.id, node.value)
                    self.defs[t.id] = ("class", c) if c else ("expr", node.value)
        elif isinstance(node, ast.AnnAssign):
            if isinstance(node.target, ast.Name) and node.value is not None:
                self.defs[node.target.id] = ("expr", node.value)
        elif isinstance(node, ast.Try):
            for n in node.body:
                self._top(n)


def flat(body):
    """the statements at module level, conditions on the Python version decided"""
    for n in body:
        v = static_test(n.test) if isinstance(n, ast.If) else None
        if v is None:
            yield n
        elif v or last(n.test) != "TYPE_CHECKING":
            yield from flat(n.body if v else n.orelse)
        else:
            yield from (x for x in n.body if isinstance(x, (ast.Import, ast.ImportFrom)))
            yield from flat(n.orelse)


def record_class(name, v):
    """X = namedtuple("X", ...) or NamedTuple("X", ...) as the class it defines."""
    if not isinstance(v, ast.Call) or len(v.args) != 2:
        return None
    f = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
    if f not in ("namedtuple", "NamedTuple"):
        return None
    fs, a = [], v.args[1]
    if f == "namedtuple" and isinstance(a, ast.Constant) and isinstance(a.value, str):
        fs = a.value.replace(",", " ").split()
    elif isinstance(a, (ast.List, ast.Tuple)):
        for e in a.elts:
            if f == "NamedTuple":
                if not isinstance(e, (ast.Tuple, ast.List)) or not e.elts:
                    return None
                e = e.elts[0]
            if not isinstance(e, ast.Constant) or not isinstance(e.value, str):
                return None
            fs.append(e.value)
    else:
        return None
    if v.keywords:
        ds = v.keywords[0].value
        if len(v.keywords) > 1 or v.keywords[0].arg != "defaults" \
                or not isinstance(ds, (ast.List, ast.Tuple)):
            return None
        ds = [None] * (len(fs) - len(ds.elts)) + ds.elts
    else:
        ds = [None] * len(fs)
    c = ast.parse("class %s(typing__NamedTuple):\n%s" % (
        name, "\n".join("    %s: object" % x for x in fs) or "    pass")).body[0]
    for n, d in zip(c.body, ds):
        n.value = d
    return c


class NoMatch(Exception):
    pass


class Matches(ast.NodeTransformer):
    """match statements as the chain of conditionals they abbreviate"""
    n = 0

    def visit_Match(self, node):
        self.generic_visit(node)
        Matches.n += 1
        tmp = "match__%d" % Matches.n
        try:
            arms = []
            for c in node.cases:
                ts = self.tests(c.pattern, ast.Name(tmp, ast.Load()))
                if c.guard is not None:
                    ts.append(c.guard)
                arms.append((ts, c.body))
        except NoMatch:
            return node
        orelse = []
        for ts, body in reversed(arms):
            test = (ast.Constant(True) if not ts else ts[0] if len(ts) == 1
                    else ast.BoolOp(ast.And(), ts))
            orelse = [ast.If(test, body, orelse)]
        out = [ast.Assign([ast.Name(tmp, ast.Store())], node.subject)] + orelse
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return out

    def tests(self, p, e):
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(e, [ast.Eq()], [p.value])]
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(e, [ast.Is()], [ast.Constant(p.value)])]
        if isinstance(p, ast.MatchAs):
            ts = [] if p.pattern is None else self.tests(p.pattern, e)
            if p.name is not None:
                b = ast.NamedExpr(ast.Name(p.name, ast.Store()), e)
                ts.append(ast.Subscript(ast.Tuple([b, ast.Constant(True)], ast.Load()),
                                        ast.Constant(1), ast.Load()))
            return ts
        if isinstance(p, ast.MatchOr):
            alts = []
            for q in p.patterns:
                ts = self.tests(q, e) or [ast.Constant(True)]
                alts.append(ts[0] if len(ts) == 1 else ast.BoolOp(ast.And(), ts))
            return [ast.BoolOp(ast.Or(), alts)]
        if isinstance(p, ast.MatchClass) and not p.patterns:
            ts = [ast.Call(ast.Name("isinstance", ast.Load()), [e, p.cls], [])]
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                ts += self.tests(q, ast.Attribute(e, a, ast.Load()))
            return ts
        raise NoMatch


class Package:
    def __init__(self, root=None, top="reparsec"):
        self.root = root or os.path.join(REPO, "src")
        self.top = top
        self.modules = {}
        h = hashlib.sha256()
        base = os.path.join(self.root, top)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                text = open(p).read()
                h.update(p.encode() + b"\0" + text.encode() + b"\0")
                name = ".".join(rel)
                self.modules[name] = Module(name, p, text)
        self.digest = h.hexdigest()
        self.problems = [x for m in self.modules.values() for x in m.problems]
        spec = os.path.join(os.path.dirname(os.path.abspath(__file__)), "refspec.py")
        self.modules["refspec"] = Module("refspec", spec, open(spec).read())


_problems = {}


def problems():
    """parts of the package that are not read as definitions"""
    if REPO not in _problems:
        _problems[REPO] = Package().problems
    return _problems[REPO]
