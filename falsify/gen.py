"""Random grammars, as Python expressions over the public API, with samplers.

The same expression is evaluated once over the library and once over the
reference semantics (refapi)."""


class Gen:
    def __init__(self, rng, how, focus=()):
        self.rng, self.how, self.focus = rng, how, set(focus)
        self.n = 0
        self.vars = []

    # an expression is (text, sampler); a sampler returns a list of symbols
    def prim(self):
        r = self.rng
        if self.how == "tokens":
            k = r.choice("ab")
            c = r.random()
            if c < .55:
                return "token(%r)" % k, lambda: [k]
            if c < .85:
                return "token_ins(%r, %r)" % (k, r.choice(["?", "?", ""])), lambda: [k]
            if c < .92:
                return "satisfy(lambda t: t.kind == %r)" % k, lambda: [k]
            return "eof()", lambda: []
        k = r.choice("aab")
        c = r.random()
        if self.how == "objs" and c < .8:
            if c < .45:
                return "sym(%s)" % ({"a": r.choice(["1", "1.0", "True"]), "b": "None"}[k] + r.choice(
                    ["", "", ", 'one'", ", ''"])), lambda: [k]
            if k == "a":
                return "satisfy(lambda t: %s)" % r.choice(
                    ["t == 1", "t == 1 and 'yes'", "[t] if t == 1 else ''"]), lambda: [k]
            return "satisfy(lambda t: t is None)", lambda: [k]
        if c < .35 and self.how != "objs":
            return "sym(%r)" % k, lambda: [k]
        if c < .42 and self.how != "objs":
            return "sym(%r, %r)" % (k, r.choice(["the " + k, "the " + k, ""])), lambda: [k]
        if c < .55:
            w = r.choice(["ab", "a", "ba", "aa", "a\n"] if r.random() < .9 else
                         ["é", "aé", "日本", "ab ", "A"])
            return "literal(%r)" % w, lambda: list(w)
        if c < .65:
            return "satisfy(lambda t: t == %r)" % k, lambda: [k]
        if c < .8:
            p, g, ws = r.choice([("a+", 0, ["a", "aa"]), ("ab?", 0, ["a", "ab"]),
                                 ("(a)|b", 1, ["a"]), ("\n *", 0, ["\n", "\n "]),
                                 (" +", 0, [" ", "  "]), ("b*", 0, ["", "b"]),
                                 ("(?P<x>a)b", "'x'", ["ab"]), ("(?<=a)b", 0, ["b"]),
                                 ("a(b?)", 1, ["a", "ab"]), ("a|(b)", 1, ["b", "a"]),
                                 ("a(?=(b*))", 1, ["a"]), ("(b)?", 1, ["b", ""]),
                                 ("a()", 1, ["a"]), ("\\s*", 0, ["\n \n", "\n", ""])] if
                                r.random() < .9 else [
                                 ("\\w+", 0, ["aé", "é", "a_"]), ("é+", 0, ["é", "éé"]),
                                 ("[^a]", 0, ["é", "b", "\n"]), ("a.", 0, ["aé", "ab"]),
                                 ("a b", 0, ["a b"]), ("b$", 0, ["b"]), ("^a", 0, ["a"]),
                                 ("\\ba", 0, ["a"])])
            return "regexp(%r%s)" % (p, ", %s" % g if g else ""), lambda: list(r.choice(ws))
        if c < .82 and self.how != "objs":
            return r.choice([("letter", lambda: [r.choice("abé")]),
                             ("digit", lambda: [r.choice("7²")])])
        if c < .86:
            return "eof()", lambda: []
        if c < .92:
            return self.rng.choice(["Pure('P')", "Pure('P')", "Pure(None)",
                                    "Pure(('t', 'u'))"]), lambda: []
        if c < .95:
            return "PureFn(lambda: 'Q')", lambda: []
        return "unexpected('never')", lambda: []

    def num(self):
        self.n += 1
        return self.n

    def expr(self, d):
        r = self.rng
        if d <= 0 or r.random() < .08:
            if self.vars and r.random() < .3:
                return r.choice(self.vars)
            return self.prim()
        kinds = ["alt"] * 4 + ["seq"] * 3 + ["seql", "seqr", "maybe", "many", "many", "label",
                                             "attempt", "recover", "recw", "recwf", "fmap",
                                             "bind", "then", "run", "sep_by", "between", "chain",
                                             "shared"]
        if self.how not in ("plain", "objs"):
            kinds += ["layout"]
        for f in self.focus:
            kinds += [f] * 8
        k = r.choice(kinds)
        return getattr(self, "k_" + k)(d - 1)

    def sub(self, d):
        return self.expr(d if self.rng.random() < .7 else d - 1)

    def k_alt(self, d):
        (a, sa), (b, sb) = self.sub(d), self.sub(d)
        f = "(%s | %s)" if self.rng.random() < .9 else "alt(%s, %s)"
        return f % (a, b), lambda: (sa if self.rng.random() < .5 else sb)()

    def two(self, d, f):
        (a, sa), (b, sb) = self.sub(d), self.sub(d)
        return f % (a, b), lambda: sa() + sb()

    def k_seq(self, d):
        return self.two(d, "(%s + %s)" if self.rng.random() < .9 else "seq(%s, %s)")

    def k_seql(self, d):
        return self.two(d, "(%s << %s)" if self.rng.random() < .8 else "%s.seql(%s)")

    def k_seqr(self, d):
        return self.two(d, "(%s >> %s)" if self.rng.random() < .8 else "seqr(%s, %s)")

    def k_maybe(self, d):
        a, sa = self.sub(d)
        return a + ".maybe()", lambda: sa() if self.rng.random() < .6 else []

    def k_many(self, d):
        a, sa = self.sub(d)
        return a + ".many()", lambda: sum([sa() for _ in range(self.rng.randrange(4))], [])

    def k_label(self, d):
        a, sa = self.sub(d)
        if self.rng.random() < .1:
            return "%s.label(%r)" % (a, self.rng.choice(["", "x, y", "x or y"])), sa
        return "%s.label('L%d')" % (a, self.num()), sa

    def k_attempt(self, d):
        a, sa = self.sub(d)
        return a + ".attempt()", sa

    def k_recover(self, d):
        a, sa = self.sub(d)
        return a + ".recover()", sa

    def k_recw(self, d):
        a, sa = self.sub(d)
        i = self.num()
        if self.rng.random() < .15:
            return "%s.recover_with(%s%s)" % (
                a, self.rng.choice(["None", "''", "[]", "0", "'R%d'" % i]),
                self.rng.choice(["", ", ''", ", 'a, b'"])), sa
        return self.rng.choice(["%s.recover_with('R%d')" % (a, i),
                                "%s.recover_with('R%d', 'some R')" % (a, i)]), sa

    def k_recwf(self, d):
        a, sa = self.sub(d)
        i = self.num()
        if self.rng.random() < .15:
            return "%s.recover_with_fn(lambda s, i: %s%s)" % (
                a, self.rng.choice(["None", "''", "(len(s), s[i:])"]),
                self.rng.choice(["", ", ''", ", None"])), sa
        return self.rng.choice([
            "%s.recover_with_fn(lambda s, i: ('F%d', i))" % (a, i),
            "%s.recover_with_fn(lambda s, i: ('F%d', i), 'some F')" % (a, i)]), sa

    def k_fmap(self, d):
        a, sa = self.sub(d)
        i = self.num()
        if self.rng.random() < .15:
            return "%s.fmap(lambda v: %s)" % (a, self.rng.choice(["None", "[]", "0", "[v]"])), sa
        return "%s.fmap(lambda v: ('m%d', v))" % (a, i), sa

    def k_bind(self, d):
        a, sa = self.sub(d)
        b, sb = self.sub(d)
        c, sc = self.sub(d)
        i = self.num()
        return self.rng.choice([
            "%s.bind(lambda v: (%s).fmap(lambda w: ('b%d', v, w)))" % (a, b, i),
            "%s.bind(lambda v: (%s) if len(repr(v)) %% 2 else (%s))" % (a, b, c)]), \
            lambda: sa() + sb()

    def k_then(self, d):
        n = self.rng.randrange(2, 5 if d > 1 else 9)
        es = [self.expr(d - 1 if n < 4 else 0) for _ in range(n)]
        while ".then(" in es[0][0]:
            es[0] = self.prim()
        t = "%s.then(%s)" % (es[0][0], es[1][0])
        for e in es[2:]:
            t += ".then(%s)" % e[0]
        if self.rng.random() < .3:
            t += ".apply(lambda *xs: ('ap', xs))"
        return t, lambda: sum([e[1]() for e in es], [])

    def k_sep_by(self, d):
        (a, sa), (b, sb) = self.sub(d), self.sub(d)

        def smp():
            n = self.rng.randrange(4)
            out = []
            for i in range(n):
                out += (sb() if i else []) + sa()
            return out
        return "%s.sep_by(%s)" % (a, b), smp

    def k_between(self, d):
        (a, sa), (b, sb), (c, sc) = self.sub(d), self.sub(d), self.sub(d)
        return self.rng.choice(["%s.between(%s, %s)" % (a, b, c),
                                "between(%s, %s, %s)" % (b, c, a)]), \
            lambda: sb() + sa() + sc()

    def k_chain(self, d):
        (a, sa), (b, sb) = self.sub(d), self.sub(d)
        k = self.rng.choice(["chainl1", "chainr1"])

        def smp():
            out = sa()
            for _ in range(self.rng.randrange(4)):
                out += sb() + sa()
            return out
        return "%s.%s((%s).fmap(lambda o: lambda x, y: (x, o, y)))" % (a, k, b), smp

    def k_layout(self, d):
        a, sa = self.sub(d)
        r = self.rng
        if self.how in ("plain", "objs"):
            return a, sa
        if r.random() < .3:
            return self.lines(r.randrange(1, 3))
        if self.how == "text" and r.random() < .3:
            b, sb = self.sub(d)
            w = r.choice(["\n", "\n ", "\n  ", " "])
            return "(%s + (literal(%r) >> %s))" % (
                a, w, r.choice(["aligned(%s)" % b, "indented(%d, %s)" % (r.choice([0, 1, 1, 2, 2, 3, -1]), b),
                                "block(%s)" % b])), lambda: sa() + list(w) + sb()
        return r.choice(["block(%s)", "aligned(%s)", "aligned(%s)",
                         "indented(1, %s)", "indented(2, %s)", "indented(0, %s)", "block(aligned(%s).many())",
                         "block(%s.many())"]) % a, sa

    def k_run(self, d):
        """a long sequence: more missing symbols than insertions allowed"""
        es = [self.prim() for _ in range(self.rng.randrange(4, 11))]
        return "(%s)" % self.rng.choice([" >> ", " + "]).join(e[0] for e in es), \
            lambda: sum([e[1]() for e in es], [])

    def lines(self, d):
        """pieces at various columns, one after another, some of them nested"""
        r = self.rng
        text, smp = "", []
        for i in range(r.randrange(2, 4)):
            a, sa = self.lines(d - 1) if d and r.random() < .4 else self.prim()
            w = r.choice(["", "\n", "\n ", "\n  ", " "]) if self.how == "text" else ""
            a = r.choice(["%s", "block(%s)", "block(%s)", "aligned(%s)", "indented(1, %s)",
                          "indented(2, %s)", "indented(0, %s)", "block(%s).maybe()",
                          "aligned(%s).maybe()"]) % a
            if w:
                a = "(literal(%r) >> %s)" % (w, a)
            text = "(%s + %s)" % (text, a) if text else a
            smp += [lambda w=w: list(w), sa]
        return "block(%s)" % text if r.random() < .6 else text, \
            lambda: sum([x() for x in smp], [])

    def k_shared(self, d):
        """one parser object used at several places"""
        v = "q%d" % self.num()
        p, sp = self.prim() if self.rng.random() < .7 else self.expr(d - 1)
        self.vars += [(v, sp)] * 2
        a, sa = self.expr(d)
        self.vars = self.vars[:-2]
        return "(lambda %s: %s)(%s)" % (v, a, p), sa

    def k_late(self, d):
        """forward declaration, possibly recursive"""
        v = "d%d" % self.num()
        depth = [0]

        def smp():
            if depth[0] > 2:
                return []
            depth[0] += 1
            try:
                return box[0]()
            finally:
                depth[0] -= 1
        box = [lambda: []]
        self.vars.append((v, smp))
        p, sp = self.prim()
        self.vars, keep = [], self.vars
        b, sb = self.prim()
        self.vars = keep
        a, sa = self.expr(d)
        self.vars.pop()
        box[0] = lambda: sb() + sa()
        return "late(lambda %s: (%s + %s))" % (v, b, a), smp

    def input(self, sampler):
        r = self.rng
        if r.random() < .75:
            try:
                xs = sampler()[:12]
            except RecursionError:
                xs = []
            for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3])):
                self.edit(xs)
        else:
            xs = [self.sym() for _ in range(r.randrange(6))]
        return xs[:14]

    def sym(self):
        if self.how in ("tokens", "objs"):
            return self.rng.choice("aabc")
        if self.rng.random() < .03:
            return self.rng.choice("7²é_½日")
        return self.rng.choice("aaabbbc\n \n\r" if self.how == "text" else "aaabbc")

    def edit(self, xs):
        r = self.rng
        c = r.random()
        i = r.randrange(len(xs) + 1)
        if c < .35 and xs:
            del xs[min(i, len(xs) - 1)]
        elif c < .7:
            xs.insert(i, self.sym())
        elif xs:
            xs[min(i, len(xs) - 1)] = self.sym()
        else:
            xs.append(self.sym())
