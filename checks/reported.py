"""What has no meaning is reported, never carried out halfway: every kind of
value an operand may have, in every construct, and the report itself."""
from world import *
import layout
from oblig import spread
from flow import i_tree_check

KINDS = ("T_INTEGER", "T_FLOAT", "T_STRING", "T_LIVE_VAR", "T_LIVE_COMPOUND", "T_FN", "T_EXT_FUNC", "T_BUILTIN")
CALLABLE = ("T_FN", "T_EXT_FUNC", "T_BUILTIN")
A, B, C, TY = P("A"), P("B"), P("C"), T("TY")
M = ("IDENTIFIER", "m")


class Reading(Compose):
    """Notes what is read through the value of an operand that needn't have it."""
    bad = None
    own = None

    def lval(self, e, st):
        r = super().lval(e, st)
        if e[0] == "m" and self.bad is not None:
            for c, s in r:
                if c[0] == "F" and self.watch(c[1]) and not c[2].startswith("chain."):
                    ts = self.tyset(c[1], s)
                    ok = self.own.get(c[2])
                    if NULL in ts and c[1][0] == "ld":
                        ts = ts - {NULL}    # objects have a type
                    if NULL in ts:
                        self.bad.add((c[1], c[2], "no value", self.fnname()))
                    elif ok and not ts <= ok:
                        self.bad.add((c[1], c[2], "|".join(sorted(self.p.type_names[x] for x in ts - ok)), self.fnname()))
        return r

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.special["tree_check"] = checked

    def watch(self, v):
        if v[0] == "ld" and v[2] == self.lvtype:
            v = v[1]        # the type of its object
        return v[0] == "ev" and v[1][0] == "p" and v[1][1] in "ABC"

    def fnname(self):
        return self.stack[-1]["name"] if self.stack else ""


def checked(fl, name, args, st, loc, e):
    """The accessors' own check, which ends the interpreter when it fails."""
    obj, ty = args[0], args[1]
    if fl.bad is not None and ty[0] == "i" and fl.watch(obj):
        ts = fl.tyset(obj, st) - {ty[1]} - (frozenset([NULL]) if obj[0] == "ld" else frozenset())
        if ts:
            fl.bad.add((obj, "its %s" % fl.p.type_names[ty[1]],
                        "|".join(sorted("no value" if x == NULL else fl.p.type_names[x] for x in ts)), fl.fnname()))
    return i_tree_check(fl, name, args, st, loc, e)


def kinds_of(p, names, null=True):
    return frozenset(p.tree_types[k] for k in names) | (frozenset([NULL]) if null else frozenset())


def values(kinds):
    """Operands have a value of any of the kinds."""
    def f(fl, t, st):
        if t[0] == "p" and t[1] in kinds:
            n = st.cnt.get(("eval", t), 0)
            st = st.copy()
            st.cnt[("eval", t)] = min(n + 1, 2)
            v = ("ev", t, n)
            st.facts[("ty", v)] = kinds[t[1]]
            return [(v, fl.emit(st, ev("", "eval", t, n, *fl.mark(st))))]
    return f


BINARY = "+ - * / % << >> & | ^ < > <= >= == != && || = += -= *= /= %= &= |= <<= >>= ^=".split()
UNARY = "~ ! * & ++ -- - +".split()


def forms():
    for op in BINARY:
        yield [A, op, B], "AB"
    for op in UNARY:
        yield [op, A], "A"
    for op in ("++", "--"):
        yield [A, op], "A"
    yield [A, "?", B, ":", C], "A"
    yield [A, "[", B, "]"], "AB"
    yield ["sizeof", A], "A"
    yield ["(", TY, ")", A], "A"
    yield [A, ".", M], "A"
    yield [A, "->", M], "A"
    yield [A, "(", ")"], "A"
    yield [A, "(", B, ")"], "A"


STATEMENTS = [
    (["if", "(", A, ")", S("X")], "A"),
    (["if", "(", A, ")", S("X"), "else", S("Y")], "A"),
    (["while", "(", A, ")", S("X")], "A"),
    (["for", "(", ";", A, ";", ")", S("X")], "A"),
    (["switch", "(", A, ")", S("X")], "A"),
]


def run(ctx):
    p = ctx.prog
    ctx.rule("operand-kinds", "in every construct, nothing is read through the value of an operand on a path on which it "
             "may have no value, or a value of a kind that doesn't have what is read")
    ctx.rule("operand-needed", "a construct that needs its operand's value doesn't complete when there is none")
    ctx.rule("no-abort", "no value of an operand makes an assertion fail")
    ctx.rule("callable", "calling what is neither a function nor a native nor a builtin is reported")
    ctx.rule("report", "reporting an error writes to stderr and ends the program with a status other than 0; it reads "
             "nothing through a position that isn't there")
    ctx.rule("impossible", "the declaration of an object that can't exist (of type void, of an incomplete type, of a "
             "negative size) is reported")
    ctx.rule("possible", "such declarations as don't need the type's size are not")
    own = {}
    for acc, (t, m) in p.acc.items():
        own.setdefault(m, set()).add(p.tree_types[t])
    w = World(ctx)

    def flow(**kw):
        kw.setdefault("ncap", 2)
        kw.setdefault("saturate", 1)
        kw.setdefault("keep_facts", True)
        fl = Reading(p, **kw)
        fl.bad, fl.own, fl.lvtype = set(), own, w.f_lvtype
        return fl
    w.flow = flow
    jobs = []
    for t in w.targets:
        for goal, fs in (("expression", forms()), ("statement", STATEMENTS)):
            for f, need in fs:
                jobs.append(("%s: %s" % (t, text(f)), lambda t=t, f=f, n=need, g=goal: form(ctx, w, t, f, n, g)))
    spread(ctx, jobs)
    with ctx.guarded("report"):
        report(ctx, w, flow)
    v = World(ctx, ("cscript",))
    for text_ in IMPOSSIBLE:
        with ctx.guarded(text_):
            impossible(ctx, v, text_)
    for text_ in POSSIBLE:
        with ctx.guarded(text_):
            possible(ctx, v, text_)
    ctx.need("operand-kinds", 80)
    ctx.need("operand-needed", 1000)
    ctx.need("callable", 2)
    ctx.need("report", 10)
    ctx.need("impossible", 20)
    ctx.need("possible", 8)


def form(ctx, w, t, f, need, goal):
    p = ctx.prog
    title = "%s: %s" % (t, text(f))
    anyk = kinds_of(p, KINDS)
    call = f[1] == "("  and f[0] == A
    kinds = {"A": anyk, "B": anyk, "C": anyk}
    if call:
        kinds["A"] = kinds_of(p, [k for k in KINDS if k not in CALLABLE])
    kw = {"values": values(kinds)}
    st = State()
    st.facts[("ty", leaf("m"))] = frozenset([p.tree_types["T_IDENTIFIER"]])
    if goal == "statement":
        outs = w.stmt(t, f, st=st, **kw)
    else:
        outs = w.expr(t, f, st=st, **kw)
    if outs is None:
        return          # no such operator
    bad = set()
    lv = frozenset([w.tt["T_LIVE_VAR"]])
    for o in outs:
        bad |= o.fl.bad
        if o.kind == "die":
            ctx.check(o.val[1] == "eval_die", "no-abort", title, w.site(o),
                      lambda: "the interpreter itself fails (%s): %s" % (o.val[1], w.desc(o)))
            continue
        if call:
            # only what a pointer to a function points to can have been called
            tr = [e for e in o.st.trace if e[0] == "call" and mentions(e, EV("A"))]
            ctx.check(tr and w.tys(EV("A"), o) == lv and w.lvtypes(EV("A"), o) == frozenset([w.tt["D_T_PTR"]]), "callable", title,
                      w.site(o), lambda: "completes without having called a function: %s" % w.desc(o))
        for e in w.evals(o):
            if e[0] == "eval" and e[1][0] == "p" and e[1][1] in need:
                v = ("ev", e[1], e[2])
                ctx.check(NULL not in w.tys(v, o), "operand-needed", "%s: %s" % (title, e[1][1]), w.site(o),
                          lambda: "completes although %s may have no value: %s" % (e[1][1], w.desc(o)))
    for b in sorted(bad, key=repr):
        ctx.fail("operand-kinds", "%s: %s.%s" % (title, w.sh(b[0]), b[1]), b[3], "%s reads it through what may be: %s" % (b[3], b[2]))
    ctx.check(True, "operand-kinds", title, "", "")


# ------------------------------------------------------------------ reports
def report(ctx, w, flow):
    """eval_die() itself, for a position that is there and one that isn't."""
    p = ctx.prog
    f = p.lookup("evaluate.c", "eval_die")
    for what in ("no tree", "a tree"):
        fl = flow()
        fl.special.pop("eval_die", None)
        fl.watch = lambda v: v == leaf("t")
        st = State()
        st.facts[("ty", w.CUR)] = frozenset([w.tt["E_CTX"]])
        if what == "no tree":
            st.facts[("ty", leaf("t"))] = frozenset([NULL])
        else:
            st.facts[("ty", leaf("t"))] = frozenset(p.type_names)
        fl.outcomes_dead = []
        res = fl.inline(f, (leaf("t"), leaf("format")), st, "")
        w.note(fl)
        ctx.check(not res, "report", what + ": ends", "evaluate.c", "reporting an error returns")
        for b in sorted(fl.bad, key=repr):
            ctx.check(b[2] != "no value", "report", "%s: %s" % (what, b[1]), b[3], "%s reads %s through no tree" % (b[3], b[1]))
        for o in fl.outcomes_dead:
            o.fl = fl
            site = o.loc or "evaluate.c"
            ok = o.kind == "exit" and o.val[2][0][0] == "i" and o.val[2][0][1] & 0xff
            ctx.check(ok, "report", what + ": status", site, lambda: "ends with %s" % w.sh(o.val))
            err = [e for e in o.st.trace if e[0] == "call" and mentions(e, ("g0", "", "stderr"))]
            ctx.check(err, "report", what + ": message", site, lambda: "nothing is written to stderr: %s" % w.desc(o))
            txt = [e for e in o.st.trace if e[0] == "call" and e[1].strip("_").startswith("v") and "printf" in e[1]]
            ctx.check(txt, "report", what + ": text", site, lambda: "the message's text isn't formatted: %s" % w.desc(o))
            if what == "a tree":
                for m in ("line_no", "column_no"):
                    ctx.check(any(has_member(e, m) for e in err), "report", "%s: %s" % (what, m), site,
                              lambda: "the tree's %s isn't written: %s" % (m, w.desc(o)))


def has_member(x, m):
    if not isinstance(x, tuple):
        return False
    if x and isinstance(x[0], str) and x[0] in ("ld", "ldf", "F") and isinstance(x[-1], str) and x[-1].split(".")[-1] == m:
        return True
    return any(has_member(y, m) for y in x)


# ------------------------------------------------- objects that can't exist
IMPOSSIBLE = [
    "void V ;", "{ void V ; }", "static void V ;", "const void V ;", "int A ; void V ;",
    "struct S V ;", "union S V ;", "struct S ; struct S V ;", "union S ; union S V ;", "{ struct S ; struct S V ; }",
    "struct S { struct S A ; } ;", "struct S { struct S A ; } V ;", "union S { int B ; union S A ; } V ;",
    "struct S { int B ; struct T A ; } V ;", "struct T ; struct S { struct T A ; } ; struct S V ;",
    "struct S ; int A ; A = sizeof ( struct S ) ;", "struct S V [ 2 ] ;", "struct S ; struct S V [ 2 ] ;", "void V [ 2 ] ;",
    "int V [ @X ] ;", "struct S { char B ; } ; struct S V [ @X ] ;", "{ char V [ @X ] ; }", "struct S { int V [ @X ] ; } W ;",
]
POSSIBLE = [
    "int V ;", "void * V ;", "struct S ; struct S * V ;", "struct S * V ;", "struct S { struct S * A ; } ; struct S V ;",
    "struct S { int A ; } ; struct S V ; { struct S W ; }", "int V [ 2 ] ;", "void F ( void ) { } int A ;",
    "struct S ; struct S { int B ; } ; struct S V ;",
]


def impossible(ctx, w, text):
    outs = layout.run_text(w, text)
    if outs is None:
        return ctx.fail("impossible", text, "parser.m4", "is not accepted by the grammar")
    for o in outs:
        if "@X" in text:
            # the negative sizes are those that can't be
            s = set().union(*[s for k, s in layout.sgn_facts(o) if mentions(k, leaf("X"))] or [{-1, 0, 1}])
            ctx.check(o.kind == "die" and o.val[1] == "eval_die" or -1 not in s, "impossible", text, w.site(o),
                      lambda: "accepted without the size being known not to be negative: %s" % w.desc(o))
            continue
        ctx.check(o.kind == "die" and o.val[1] == "eval_die", "impossible", text, w.site(o),
                  lambda: "%s: %s" % (o.kind, w.desc(o)))


def possible(ctx, w, text):
    outs = layout.run_text(w, text)
    ctx.check(outs and all(o.kind == "ret" for o in outs), "possible", text, w.site(outs[0]) if outs else "parser.m4",
              lambda: "is not accepted: %s" % [w.desc(o) for o in outs or ()])
