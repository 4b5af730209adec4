"""Which declaration an identifier denotes."""
from world import *
import calls
from program import *

TS = calls.TS
DISTINCT = ["D_T_INT", "D_T_CHAR", "D_T_SHORT", "D_T_LONG", "D_T_UCHAR", "D_T_USHORT", "D_T_UINT", "D_T_DOUBLE", "D_T_FLOAT"]


TWO = ["[", ("primary_expression", "#2"), "]"]


class D:
    """A declaration of an object."""
    def __init__(self, n, t, spec=(), pre=(), post=()):
        self.n, self.base, self.spec, self.pre, self.post = n, t, list(spec), list(pre), list(post)
        self.t = "D_T_PTR" if pre or post else t    # what is observed

    def items(self):
        return self.spec + TS[self.base] + self.pre + [I(self.n)] + self.post + [";"]


class U:
    """A use of an identifier."""
    def __init__(self, n):
        self.n = n

    def items(self):
        return [I(self.n), ";"]


class B:
    def __init__(self, *b):
        self.b = b

    def items(self):
        return ["{"] + [i for x in self.b for i in x.items()] + ["}"]


class Fn:
    """A function definition."""
    def __init__(self, n, params, *b):
        self.n, self.params, self.b = n, params, b

    def items(self):
        ps = []
        for i, d in enumerate(self.params):
            ps += ([","] if i else []) + TS[d.t] + [I(d.n)]
        return ["int", I(self.n), "("] + ps + [")"] + B(*self.b).items()


class Call:
    def __init__(self, n, *args):
        self.n, self.args = n, args

    def items(self):
        a = []
        for i, x in enumerate(self.args):
            a += ([","] if i else []) + [("assignment_expression", x)]
        return [I(self.n), "("] + a + [")", ";"]


class For:
    def __init__(self, d, *b):
        self.d, self.b = d, b

    def items(self):
        return ["for", "("] + self.d.items() + [("expression", "C"), ";", ")"] + B(*self.b).items()


class Tag:
    """A structure or union with one member."""
    def __init__(self, kind, n, t, m="M"):
        self.kind, self.n, self.t, self.m = kind, n, t, m

    def items(self):
        return [self.kind, I(self.n), "{"] + TS[self.t] + [I(self.m), ";", "}", ";"]


class Members:
    """A structure or union with several members."""
    def __init__(self, kind, n, *ms):
        self.kind, self.n, self.ms = kind, n, ms

    def items(self):
        return [self.kind, I(self.n), "{"] + [i for m in self.ms for i in m.items()] + ["}", ";"]


class Obj:
    """An object of such a type."""
    def __init__(self, kind, tag, n):
        self.kind, self.tag, self.n = kind, tag, n

    def items(self):
        return [self.kind, I(self.tag), I(self.n), ";"]


class Enum:
    """The constants of an enumeration."""
    def __init__(self, tag, *ns):
        self.tag, self.ns = tag, ns

    def items(self):
        out = ["enum", I(self.tag), "{"]
        for i, n in enumerate(self.ns):
            out += ([","] if i else []) + [I(n)]
        return out + ["}", ";"]


class Set:
    """A store to the member of such an object."""
    def __init__(self, n, m="M"):
        self.n, self.m = n, m

    def items(self):
        return [I(self.n), ".", I(self.m), "=", ("assignment_expression", "Z"), ";"]


def symbolic(x, y):
    """Names in lower case may be any names, others are distinct."""
    return x == y or (False if x.isupper() or y.isupper() else None)


def names_in(prog):
    return sorted(set(i[1] for x in prog for i in x.items() if i[0] == "IDENTIFIER"))


def run_names(w, prog, include=()):
    items = [i for x in prog for i in x.items()]
    inc = [i for d in include for i in d.items()]

    def observe(n, v, fl, s):
        if not n.startswith("u"):
            return s
        o = Outcome("ret", v, s)
        o.fl = fl
        k = sorted(w.p.type_names[x] for x in w.lvtypes(v, o)) if w.ty(v, o) == "T_LIVE_VAR" else [str(w.ty(v, o))]
        return fl.emit(s, ev("", "use", n, "/".join(k), v))
    res = None
    for st in included(w, inc, initial(w), symbolic) if include else [initial(w)]:
        outs = execute(w, items, st, eq=symbolic, more=[i[1] for i in inc if i[0] == "IDENTIFIER"], observe=observe,
                       record=lambda e: e[0] == "use" or e[0] == "eval" and e[1] == leaf("C")
                       or e[0] == "store" and mentions(e[2], leaf("Z")))
        if outs is not None:
            res = (res or []) + outs
    return res


class Dup(Exception):
    pass


class Skip(Exception):
    """Not a program C gives a meaning to."""


class Unbound(Exception):
    pass


def expected(prog, eq, rounds=1, include=()):
    """[(use, type)] and how it ends, by C's rules."""
    uses = []
    fns = {}

    def declare(d, scopes):
        for n, t in scopes[-1]:
            if type(n) is str and eq(n, d.n):
                raise Dup(d.n)
        scopes[-1].append((d.n, d.t))

    def find(n, scopes, kind=None):
        for s in reversed(scopes):
            for k, t in s:
                if kind is None and type(k) is str and eq(k, n):
                    return t
                if kind and type(k) is tuple and k[0] == kind and eq(k[1], n):
                    return t
        raise Unbound(n)

    def go(x, scopes):
        if isinstance(x, D):
            declare(x, scopes)
        elif isinstance(x, U):
            uses.append((x.n, find(x.n, scopes)))
        elif isinstance(x, Enum):
            declare(D(x.tag, "ENUMTYPE"), scopes)
            for n in x.ns:
                declare(D(n, "T_INTEGER"), scopes)
        elif isinstance(x, Tag):
            if any(k[0] == x.kind and type(k) is tuple and eq(k[1], x.n) for k, t in scopes[-1]):
                raise Dup(x.n)
            scopes[-1].append(((x.kind, x.n), x))
        elif isinstance(x, Members):
            for i, m in enumerate(x.ms):
                if any(eq(m.n, y.n) for y in x.ms[:i]):
                    raise Dup(m.n)
        elif isinstance(x, Obj):
            t = find(x.tag, scopes, x.kind)
            declare(D(x.n, t), scopes)
        elif isinstance(x, Set):
            t = find(x.n, scopes)
            if not isinstance(t, Tag) or not eq(x.m, t.m):
                raise Unbound(x.n)
            uses.append(("member", t.t))
        elif isinstance(x, B):
            me = scopes + [[]]
            for y in x.b:
                go(y, me)
        elif isinstance(x, Fn):
            fns[x.n] = (x, scopes)
            declare(D(x.n, "T_FN"), scopes)
        elif isinstance(x, Call):
            f, sc = fns[x.n]
            me = sc + [[]]      # the scopes the function is written in
            for d in f.params:
                declare(d, me)
            for y in f.b:       # the parameters' scope is the body's
                go(y, me)
        elif isinstance(x, For):
            me = scopes + [[]]
            go(x.d, me)
            for i in range(rounds):
                go(B(*x.b), me)
    scopes = [[(d.n, d.t) for d in include], []]
    try:
        for x in prog:
            go(x, scopes)
    except Dup as e:
        return uses, "die", e
    except Unbound as e:
        return uses, "die", e
    return uses, "ret", None


def equalities(o, names):
    """A total, consistent notion of equality of the names, or None."""
    eqs, nes = [], []
    for f, v in o.st.facts.items():
        if f[0] == "val" and f[1][0] == "r" and f[1][1] == "strcmp":
            (eqs if v == ("in", frozenset([0])) else nes).append(f[1][2])
    par = {canon(n): canon(n) for n in names}

    def find(n):
        while par[n] != n:
            n = par[n]
        return n
    for a, b in eqs:
        par[find(a)] = find(b)
    if any(find(a) == find(b) for a, b in nes):
        return None
    decided = set(frozenset(x) for x in eqs + nes)

    def eq(a, b):
        a, b = canon(a), canon(b)
        if a == b or find(a) == find(b):
            return True
        if a.isupper() or b.isupper():
            return False
        ra, rb = find(a), find(b)
        if not any({find(x), find(y)} == {ra, rb} for x, y in nes):
            raise Open((a, b))
        return False
    return eq


class Open(Exception):
    """The path hasn't compared two names that matter."""


def scenario(ctx, w, title, prog, include=()):
    outs = run_names(w, prog, include)
    if outs is None:
        return ctx.fail("innermost", title, "parser.m4", "not accepted by the grammar")
    names = names_in(list(prog) + list(include))
    n = 0
    kinds = set()
    seen = set()
    for o in outs:
        key = (o.kind, o.st.trace, frozenset((k, v) for k, v in o.st.facts.items() if "strcmp" in str(k)))
        if key in seen:
            continue
        seen.add(key)
        eq = equalities(o, names)
        if eq is None:
            continue
        got = [(e[1], e[2]) if e[0] == "use" else ("member", e[1][2]) for e in o.st.trace if e[0] in ("use", "store")]
        try:
            c = len([e for e in o.st.trace if e[0] == "eval"])
            # an omitted condition is true
            want, end, why = expected(prog, eq, c - 1 if o.kind == "ret" else max(c, 1), include)
        except Skip:
            continue
        except Open as x:
            ctx.fail("innermost", title + ": compares", w.site(o), "the path doesn't compare the names %s and %s (uses %s)"
                     % (x.args[0] + (got,)))
            continue
        n += 1
        kinds.add(type(why).__name__)
        rule = "duplicate" if isinstance(why, Dup) else "undeclared" if isinstance(why, Unbound) else "innermost"
        ctx.check((got, o.kind) == (want, end), rule, "%s [%s]" % (title, classes(names, eq)), w.site(o),
                  lambda: "uses resolve to %s and execution ends with %s; expected %s and %s (%s)" % (got, o.kind, want, end, w.desc(o)))
    if not n:
        ctx.limit(title + ": no path")
    return kinds


def classes(names, eq):
    out = []
    for a in names:
        for b in names:
            if a < b:
                try:
                    if eq(a, b):
                        out.append("%s=%s" % (a, b))
                except Open:
                    pass
    return ",".join(out) or "distinct"


T1, T2, T3, T4, T5 = DISTINCT[:5]
SCENARIOS = {
    "int a; u;": [D("a", T1), U("u")],
    "int a; { char b; u; } v;": [D("a", T1), B(D("b", T2), U("u")), U("uu")],
    "int a; { u; char b; u; }": [D("a", T1), B(U("u"), D("b", T2), U("u"))],
    "int a; { char b; { short c; u; } u; }": [D("a", T1), B(D("b", T2), B(D("c", T3), U("u")), U("u"))],
    "int a; { char b; } { short c; u; }": [D("a", T1), B(D("b", T2)), B(D("c", T3), U("u"))],
    "int a; for (char b; C;) { short c; u; }": [D("a", T1), For(D("b", T2), D("c", T3), U("u"))],
    "int a; char b; short c; u;": [D("a", T1), D("b", T2), D("c", T3), U("u")],
    "{ char b; short c; }": [B(D("b", T2), D("c", T3))],
    "int a; int F() { char b; u; } { short c; F(); }":
        [D("a", T1), Fn("F", [], D("b", T2), U("u")), B(D("c", T3), Call("F"))],
    "int a; int F(char b) { u; } { short c; F(X); u; }":
        [D("a", T1), Fn("F", [D("b", T2)], U("u")), B(D("c", T3), Call("F", "X"), U("u"))],
    "int F(char b) { { short c; u; } } F(X);": [Fn("F", [D("b", T2)], B(D("c", T3), U("u"))), Call("F", "X")],
    "int F() { u; } int a; F();": [Fn("F", [], U("u")), D("a", T1), Call("F")],
    "int a; int F() { u; } int G(char b) { short c; F(); } G(X);":
        [D("a", T1), Fn("F", [], U("u")), Fn("G", [D("b", T2)], D("c", T3), Call("F")), Call("G", "X")],
    "int F(int a, char b) { } F(X, Y);": [Fn("F", [D("a", T1), D("b", T2)]), Call("F", "X", "Y")],
    "static int a; { char b; u; }": [D("a", T1, ["static"]), B(D("b", T2), U("u"))],
    "int a; { static char b; u; }": [D("a", T1), B(D("b", T2, ["static"]), U("u"))],
    "{ static char b; } u;": [B(D("b", T2, ["static"])), U("u")],
    "{ static char b; short c; u; }": [B(D("b", T2, ["static"]), D("c", T3), U("u"))],
    "int a; int F() { static char b; u; } F(); F();":
        [D("a", T1), Fn("F", [], D("b", T2, ["static"]), U("u")), Call("F"), Call("F")],
    "enum E { a, b }; u;": [Enum("E", "a", "b"), U("u")],
    "enum E { a }; { char b; u; }": [Enum("E", "a"), B(D("b", T2), U("u"))],
    "int a; { enum E { b }; u; } v;": [D("a", T1), B(Enum("E", "b"), U("u")), U("uu")],
    "int a; enum E { b };": [D("a", T1), Enum("E", "b")],
    "int F() { char b; } F(); u;": [Fn("F", [], D("b", T2)), Call("F"), U("u")],
    "static int a; static char b; u;": [D("a", T1, ["static"]), D("b", T2, ["static"]), U("u")],
    "static int a; char b; u;": [D("a", T1, ["static"]), D("b", T2), U("u")],
    "{ static int a; static char b; u; }": [B(D("a", T1, ["static"]), D("b", T2, ["static"]), U("u"))],
    "int F() { static int a; static char b; u; } F();":
        [Fn("F", [], D("a", T1, ["static"]), D("b", T2, ["static"]), U("u")), Call("F")],
    "int *a; char b[2]; u;": [D("a", T1, pre="*"), D("b", T2, post=TWO), U("u")],
    "{ int a[2]; char *b; u; }": [B(D("a", T1, post=TWO), D("b", T2, pre="*"), U("u"))],
    "int f() { } char b; u;": [Fn("f", []), D("b", T2), U("u")],
    "char b; int f() { } u;": [D("b", T2), Fn("f", []), U("u")],
    "int f() { } int g() { }": [Fn("f", []), Fn("g", [])],
    "int a; int F(char b) { { u; } }  F(X); v;": [D("a", T1), Fn("F", [D("b", T2)], B(U("u"))), Call("F", "X"), U("uu")],
}


TAGS = {
    "struct s { char M; }; struct t V; V.M = Z;": [Tag("struct", "s", T2), Obj("struct", "t", "V"), Set("V")],
    "struct s { char M; }; { struct t { short M; }; struct u V; V.M = Z; }":
        [Tag("struct", "s", T2), B(Tag("struct", "t", T3), Obj("struct", "u", "V"), Set("V"))],
    "struct s { char M; }; { struct u V; struct t { short M; }; V.M = Z; }":
        [Tag("struct", "s", T2), B(Obj("struct", "u", "V"), Tag("struct", "t", T3), Set("V"))],
    "struct s { char M; }; { struct t { short M; }; } struct u V; V.M = Z;":
        [Tag("struct", "s", T2), B(Tag("struct", "t", T3)), Obj("struct", "u", "V"), Set("V")],
    "struct s { char M; }; union t { short M; }; struct u V; V.M = Z;":
        [Tag("struct", "s", T2), Tag("union", "t", T3), Obj("struct", "u", "V"), Set("V")],
    "struct s { char M; }; union t { short M; }; union u V; V.M = Z;":
        [Tag("struct", "s", T2), Tag("union", "t", T3), Obj("union", "u", "V"), Set("V")],
    "union s { char M; }; { union t { short M; }; union u V; V.M = Z; }":
        [Tag("union", "s", T2), B(Tag("union", "t", T3), Obj("union", "u", "V"), Set("V"))],
    "int a; struct s { char M; }; u;": [D("a", T1), Tag("struct", "s", T2), U("u")],
    "struct s { char M; }; int a; struct t V; V.M = Z;":
        [Tag("struct", "s", T2), D("a", T1), Obj("struct", "t", "V"), Set("V")],
    "struct s { char M; }; int F() { struct t V; V.M = Z; } { struct u { short M; }; F(); }":
        [Tag("struct", "s", T2), Fn("F", [], Obj("struct", "t", "V"), Set("V")), B(Tag("struct", "u", T3), Call("F"))],
    "struct s { char M; }; struct t { short M; };": [Tag("struct", "s", T2), Tag("struct", "t", T3)],
    "{ union s { char M; }; union t { short M; }; }": [B(Tag("union", "s", T2), Tag("union", "t", T3))],
    "struct S { char a; int b; };": [Members("struct", "S", D("a", T2), D("b", T1))],
    "union S { char a; int b[2]; short *c; };":
        [Members("union", "S", D("a", T2), D("b", T1, post=TWO), D("c", T3, pre="*"))],
    "struct S { char m; }; struct S V; V.n = Z;": [Tag("struct", "S", T2, "m"), Obj("struct", "S", "V"), Set("V", "n")],
}


INCLUDES = {
    "u;": [U("u")],
    "{ char b; u; }": [B(D("b", T2), U("u"))],
    "char b; u;": [D("b", T2), U("u")],
    "int F() { u; } F();": [Fn("F", [], U("u")), Call("F")],
    "int F(char b) { u; } { short c; F(X); }": [Fn("F", [D("b", T2)], U("u")), B(D("c", T3), Call("F", "X"))],
}


def run(ctx):
    w = World(ctx, ("cscript",))
    ctx.rule("innermost", "an identifier denotes the declaration of that name in the innermost scope, among those the "
             "construct is written in, that has declared it so far")
    ctx.rule("duplicate", "a second declaration of a name in the same scope is reported")
    ctx.rule("undeclared", "the use of a name that no enclosing scope has declared is reported")
    for t, prog in list(SCENARIOS.items()) + list(TAGS.items()):
        with ctx.guarded(t):
            scenario(ctx, w, t, prog)
    for t, prog in INCLUDES.items():
        with ctx.guarded("#include " + t):
            scenario(ctx, w, "#include { long a; } " + t, prog, [D("a", T4)])
    ctx.need("innermost", 40)
    ctx.need("duplicate", 6)
    ctx.need("undeclared", 25)
