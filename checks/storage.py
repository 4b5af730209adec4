"""P18: when objects come into being, what they hold at first, and how long they last."""
from program import *
from oblig import spread
from decltypes import CORE

SIZE = {"D_T_CHAR": 1, "D_T_UCHAR": 1, "D_T_SHORT": 2, "D_T_USHORT": 2, "D_T_INT": 4, "D_T_UINT": 4, "D_T_FLOAT": 4,
        "D_T_LONGDOUBLE": 16}


def root(v):
    """The allocation a pointer points into, and the offset."""
    off = 0
    while True:
        if v[0] == "cast":
            v = v[2]
        elif v[0] == "op" and v[1] == "+" and v[3][0] == "i":
            off, v = off + v[3][1], v[2]
        elif v[0] == "op" and v[1] == "+" and v[2][0] == "i":
            off, v = off + v[2][1], v[3]
        else:
            return v, off


def decide(w, st, name, values):
    """The condition's successive values."""
    for k, x in enumerate(values):
        e = EV(name, k)
        st.facts[("ty", e)] = frozenset([w.tt["T_INTEGER"]])
        st.env[("Z", ("F", e, w.f_int))] = ("zc", x)


def size_of(v):
    """The size of an allocation, when it is known."""
    if v[0] == "r" and v[1] == "calloc" and all(a[0] == "i" for a in v[2]):
        return v[2][0][1] * v[2][1][1]
    if v[0] == "r" and v[1] == "malloc" and v[2][0][0] == "i":
        return v[2][0][1]
    return None


def zeroed(fl, st, r, off, size):
    """Is the object zero, never having been stored to?"""
    if r[0] == "r" and r[1] == "calloc":
        n = size_of(r)
        return n is None or off + size <= n
    for e in st.trace:
        if e[0] == "call" and e[1] in ("memset", "__builtin_memset") and root(e[2][0])[0] == r and e[2][1] == ("i", 0):
            return e[2][2][0] != "i" or e[2][2][1] >= off + size
    return False


class Seen:
    def __init__(self, name, v, lv, content, zero, loc):
        self.name, self.v, self.lv, self.content, self.zero, self.loc = name, v, lv, content, zero, loc


def marks(items):
    """The occurrences of names that are statements of their own."""
    items = unique(items)
    return set(x[1] for i, x in enumerate(items) if x[0] == "IDENTIFIER" and i + 1 < len(items) and items[i + 1] == ";"
               and (i == 0 or items[i - 1] in (";", "{", "}", ")")))


def describe(w, fl, n, v, st):
    """What an expression's value is."""
    o = Outcome("ret", v, st)
    o.fl = fl
    t = w.ty(v, o)
    if t == "T_INTEGER":
        return ev("", "use", n, v, None, st.env.get(("Z", ("F", v, w.f_int))), False)
    if t != "T_LIVE_VAR":
        return ev("", "use", n, v, None, None, False)
    ts = w.lvtypes(v, o)
    m = w.p.type_names[next(iter(ts))] if len(ts) == 1 else None
    p = fl.load(("F", v, w.f_lvval), st)
    c = ("F", p, m)
    r, off = root(p)
    z = m and c not in st.env and zeroed(fl, st, r, off, SIZE.get(m, 8))
    return ev("", "use", n, v, (r, off), st.env.get(c), bool(z))


def watch(w, prog, conds=(), last=None):
    """[(outcome, uses)] of a program: its statements that consist of a name, and
    the expression evaluated last."""
    items = tokens(prog)
    use = marks(items)
    names = [x[1] for x in unique(items) if x[0] in NAMES]
    st = initial(w)
    for n, vals in dict(conds).items():
        decide(w, st, n, vals)

    def observe(n, v, fl, s):
        return fl.emit(s, describe(w, fl, n, v, s)) if n in use else s
    outs = execute(w, items, st=st, operands="T_INTEGER", observe=observe, raw=True, ncap=6, more=names)
    if outs is None:
        return None
    res = []
    for o in outs:
        if last and o.kind == "ret":
            s = o.st.copy()
            for u in execute(w, last, st=clean(o.st), operands="T_INTEGER", ncap=6, more=names, again=names,
                             goal=("expression", "';'", "__evaluate_1")):
                s = u.st.copy()
                s.trace = o.st.trace + u.st.trace
                s.trace += (describe(w, u.fl, "last", u.val, s),)
                x = Outcome(u.kind, u.val, s)
                x.fl, x.loc = u.fl, u.loc
                res.append(x)
        else:
            res.append(o)
    return [(o, [Seen(*(tuple(e)[1:] + (e.loc,))) for e in o.st.trace if e[0] == "use"]) for o in res]


def same(a, b):
    return a.lv == b.lv if a.lv is not None and b.lv is not None else a.v == b.v


def value_of(c):
    """An integer the content of an object or of an enumerator stands for, or an operand's value."""
    if c is None:
        return None
    c = strip_epoch(c)
    if c[0] in ("zc", "i"):
        return c[1]
    if c[0] in ("zv", "wrap"):
        return value_of(c[1])
    if c[0] == "cast":
        return value_of(c[2])
    if c[0] == "z" and c[1] == "add":
        x, y = value_of(c[2]), value_of(c[3])
        return x + y if type(x) is int and type(y) is int else plus(x, y)
    if c[0] == "op" and c[1] == "+":
        return plus(value_of(c[2]), value_of(c[3]))
    if c[0] == "int" and c[1][0] == "ev":
        return (c[1][1][1], c[1][2])
    return ("?", repr(c)[:80])


def plus(x, y):
    if type(x) is int:
        x, y = y, x
    if type(x) is int:
        return x + y
    if type(y) is int and x and x[0] == "+":
        return ("+", x[1], x[2] + y)
    return ("+", x, y) if y else x


def letters(us):
    """The pattern of identities of the objects used."""
    reps, out = [], ""
    for u in us:
        for k, r in enumerate(reps):
            if same(u, r):
                break
        else:
            k = len(reps)
            reps.append(u)
        out += "abcdefghijklmnop"[k]
    return out


def duration(ctx, w, rule, prog, pattern, conds=()):
    outs = watch(w, prog, conds)
    if outs is None:
        return ctx.fail(rule, prog, "parser.m4", "not accepted by the grammar")
    if not outs:
        ctx.limit(prog + ": no path")
    for o, us in outs:
        got = letters(us)
        ctx.check(o.kind == "ret" and got == pattern, rule, prog, w.site(o),
                  lambda: "ends with %s; the uses' objects are %s, not %s" % (o.kind, got, pattern))


def initial_values(ctx, w, rule, prog, values, evals=(), conds=(), last=None):
    """The uses' values in order: a number, an operand's (name, k), 'zero', or None for any."""
    outs = watch(w, prog, conds, last)
    if outs is None:
        return ctx.fail(rule, prog, "parser.m4", "not accepted by the grammar")
    if not outs:
        ctx.limit(prog + ": no path")
    for o, us in outs:
        if not ctx.check(o.kind == "ret", rule, prog, w.site(o), lambda: "rejected: " + w.desc(o)):
            continue
        ctx.check(len(us) == len(values), rule, prog + ": uses", w.site(o), lambda: "%d uses, not %d" % (len(us), len(values)))
        for k, (u, x) in enumerate(zip(us, values)):
            if x is None:
                continue
            got = 0 if u.zero else value_of(u.content)
            ctx.check(got == (0 if x == "zero" else x), rule, "%s: use %d" % (prog, k + 1), u.loc or w.site(o),
                      lambda: "holds %s, not %s" % ("something undefined" if got is None else got, x))
        for n, c in dict(evals).items():
            es = [e for e in w.evals(o) if e[1] == leaf(n)]
            ctx.check(len(es) == c, rule, "%s: evaluations of %s" % (prog, n), w.site(o),
                      lambda: "evaluated %d times, not %d" % (len(es), c))


TWICE = {"C": [1, 1, 0]}
AUTOMATIC = [
    ("int V; V; V;", "aa"), ("int V; int V1; V; V1;", "ab"), ("int V, V1; V; V1; V;", "aba"),
    ("int V; { int V1; V1; V; } V;", "abb"),
    ("int F() { int V; V; V; } F(); F();", "aabb"),
    ("int F() { { int V; V; } } F(); F(); F();", "abc"),
    ("int F(int V) { V; V; } F(@X); F(@Y);", "aabb"),
    ("int A; int F(int V) { V; } A; F(A); F(A);", "abc"),
    ("int V; int F(int V1) { V1; V; } V; F(V); V;", "abaa"),
    ("int F(int N) { int V; V; if (N) F(N - 1); V; } F(1);", "abba"),
    ("int F(int N) { int V; V; if (N) F(N - 1); V; } F(2);", "abccba"),
    ("int F(int V) { V; if (V) F(V - 1); V; } F(1);", "abba"),
    ("int V; int F() { V; } int G() { V; } F(); G(); V;", "aaa"),
    ("int F() { int V[3]; V; } F(); F();", "ab"),
    ("int F() { const int V; V; } F(); F();", "ab"), ("int F() { int volatile V; V; } F(); F();", "ab"),
    ("int F() { char * V; V; } F(); F();", "ab"),
    ("for (; @C; ) { int V; V; V; }", "aabb", TWICE),
    ("while (@C) { int V; V; }", "ab", TWICE),
    ("for (int V; @C; ) { V; }", "aa", TWICE),
    ("while (@C) { for (int V; @D; ) { V; break; } }", "ab", {"C": [1, 1, 0], "D": [1, 1, 1, 1]}),
    ("int F() { int V = $X; V; } F(); F();", "ab"),
    ("while (@C) { int V = $X, V1 = $Y; V; V1; }", "abcd", TWICE),
]
STATIC = [
    ("static int V; V; { V; }", "aa"), ("static int V, V1; V; V1; V; V1;", "abab"),
    ("int F() { static int V; V; V; } F(); F(); F();", "aaaaaa"),
    ("int F() { { static int V; V; } } F(); F();", "aa"),
    ("int F() { { static int V; V; } { static int V; V; } } F(); F();", "abab"),
    ("int F() { static int V; V; } int G() { static int V; V; } F(); G(); F(); G();", "abab"),
    ("int F() { static int V; int V1; V; V1; } F(); F();", "abac"),
    ("int F() { static int V, V1; V; V1; } F(); F();", "abab"),
    ("int F() { static int V = $X; V; } F(); F();", "aa"),
    ("int F() { static int V = $X, V1 = $Y; V; V1; } F(); F();", "abab"),
    ("int F() { static char * V; V; } F(); F();", "aa"), ("int F() { static char V[4]; V; } F(); F();", "aa"),
    ("int F(int N) { static int V; V; if (N) F(N - 1); V; } F(1);", "aaaa"),
    ("int V; int F() { static int V; V; } V; F(); V; F();", "abab"),
    ("while (@C) { static int V; V; }", "aa", TWICE), ("for (; @C; ) { static int V = $X; V; }", "aa", TWICE),
    ("int F() { static const int V; V; } F(); F();", "aa"), ("int F() { volatile static int V; V; } F(); F();", "aa"),
    ("typedef int T; int F() { static ~T V; V; } F(); F();", "aa"),
]
X0, X1, Y0, Y1 = ("X", 0), ("X", 1), ("Y", 0), ("Y", 1)
INITIAL = [
    ("int V = $X; V;", [X0], {"X": 1}), ("int V = $X, V1 = $Y; V; V1;", [X0, Y0], {"X": 1, "Y": 1}),
    ("int V = $X; int V1 = V; V; V1;", [X0, X0], {"X": 1}),
    ("int F() { int V = $X; V; V = $Y; V; } F(); F();", [X0, Y0, X1, Y1], {"X": 2, "Y": 2}),
    ("int F(int V) { V; V = $Z; V; } F(@X); F(@Y);", [X0, ("Z", 0), Y0, ("Z", 1)], {"X": 1, "Y": 1, "Z": 2}),
    ("int V; V = $X; int F(int V1) { V1; V1 = $Y; V1; } F(V); V;", [X0, Y0, X0], {"X": 1, "Y": 1}),
    ("int F(int N) { int V = N; V; if (N) F(N - 1); V; } F(2);", [2, 1, 0, 0, 1, 2]),
    ("int F(int V) { V; if (V) F(V - 1); V; } F(2);", [2, 1, 0, 0, 1, 2]),
    ("while (@C) { int V = $X; V; V = $Y; V; }", [X0, Y0, X1, Y1], {"X": 2, "Y": 2}, TWICE),
    ("static int V = $X; V; V = $Y; V;", [X0, Y0], {"X": 1, "Y": 1}),
    ("int F() { static int V = $X; V; V = $Y; V; } F(); F();", [X0, Y0, Y0, Y1], {"X": 1, "Y": 2}),
    ("int F() { static int V = $X, V1 = $Y; V; V1; V = 3; } F(); F();", [X0, Y0, 3, Y0], {"X": 1, "Y": 1}),
    ("while (@C) { static int V = $X; V; V = $Y; V; }", [X0, Y0, Y0, Y1], {"X": 1, "Y": 2}, TWICE),
    ("int F() { static int V; V; V = $Y; V; } F(); F();", ["zero", Y0, Y0, Y1]),
    ("int F(int N) { static int V = $X; V; V = N; if (N) F(N - 1); V; } F(1);", [X0, 1, 0, 0], {"X": 1}),
    ("int V; V; V = $X; int F() { V; V = $Y; } F(); V;", ["zero", X0, Y0]),
]
ENUM = [
    ("enum E { V, V1, V2 }; V; V1; V2;", [0, 1, 2]), ("enum { V, V1, V2 }; V; V1; V2;", [0, 1, 2]),
    ("enum E { V = 5, V1, V2 = 9, V3 }; V; V1; V2; V3;", [5, 6, 9, 10]),
    ("enum E { V, V1 = 7, V2 }; V; V1; V2;", [0, 7, 8]), ("enum E { V = 7, V1 = 2, V2 }; V; V1; V2;", [7, 2, 3]),
    ("enum E { V = $X, V1, V2 }; V; V1; V2;", [X0, ("+", X0, 1), ("+", X0, 2)], {"X": 1}),
    ("enum E { V, V1 = V + 4, V2 = V1, V3 }; V; V1; V2; V3;", [0, 4, 4, 5]),
    ("enum E { V = $X, V1 = $Y, V2 }; V; V1; V2;", [X0, Y0, ("+", Y0, 1)], {"X": 1, "Y": 1}),
    ("enum E { V, V1 } A; V; V1;", [0, 1]), ("typedef enum { V, V1 } T; V; V1;", [0, 1]),
    ("typedef enum E { V = 3, V1 } T; ~T A; V; V1;", [3, 4]),
    ("int F() { enum E { V = 3, V1 }; V; V1; } F(); F();", [3, 4, 3, 4]),
    ("enum E { V, V1 }; enum G { V2, V3 }; V; V1; V2; V3;", [0, 1, 0, 1]),
    ("while (@C) { enum E { V, V1 = $X, V2 }; V; V1; V2; }", [0, X0, ("+", X0, 1), 0, X1, ("+", X1, 1)], {"X": 2}, TWICE),
]
ZERO = ["static %s V; V;", "%s V; V;", "int F() { static %s V; V; } F();"]
ZERO_LAST = [("static %s A[3];", "A [ 2 ]"), ("%s A[3];", "A [ 2 ]"), ("static struct S { char C; %s M; } A;", "A.M"),
             ("struct S { char C; %s M; }; struct S A;", "A.M"), ("static union S { char C; %s M; } A;", "A.M"),
             ("struct S { char C; %s M[3]; }; struct R { short C; struct S Q; }; static struct R A;", "A.Q.M [ 1 ]"),
             ("static struct S { char C; %s M[3]; } A;", "A.M [ 2 ]")]


def run(ctx):
    w = World(ctx, ("cscript",))
    ctx.rule("automatic", "each execution of the declaration of an automatic object, and each call for a parameter, makes an "
             "object distinct from all others; uses of the name in that execution denote it")
    ctx.rule("static", "a declaration of a static object denotes the same object each time it is executed, and no other's")
    ctx.rule("initial", "an object holds its initialiser's value, evaluated once per execution for automatic objects and once "
             "altogether for static ones, until something else is assigned to it")
    ctx.rule("zero", "an object with static storage duration that has no initialiser is zero")
    ctx.rule("enumerator", "an enumerator has the value it is given, or one more than the one before it, or zero")
    initial(w)
    jobs = []

    def job(fn, *a):
        jobs.append((a[1], lambda: fn(ctx, w, *a)))
    for rule, l, fn in (("automatic", AUTOMATIC, duration), ("static", STATIC, duration),
                        ("initial", INITIAL, initial_values), ("enumerator", ENUM, initial_values)):
        for x in l:
            job(fn, rule, *x)
    for t in sorted(CORE) + ["char *", "int * *"]:
        for z in ZERO:
            job(initial_values, "zero", z % t, ["zero"])
        for z, last in ZERO_LAST:
            job(initial_values, "zero", z % t, ["zero"], (), (), last)
    jobs.sort(key=lambda j: "F" in j[0] or "C)" in j[0], reverse=True)
    spread(ctx, jobs)
    for r, n in (("automatic", 20), ("static", 16), ("initial", 40), ("zero", 200), ("enumerator", 25)):
        ctx.need(r, n)
