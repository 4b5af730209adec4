"""Every operand is evaluated exactly once, in the order C sequences them."""
from world import *
import compare

A, B, C = EV("A"), EV("B"), EV("C")
BINOPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^",
          "<", ">", "<=", ">=", "==", "!="]
COMPOUND = ["+=", "-=", "/=", "<<=", ">>=", "^="]


def ID(n):
    return ("IDENTIFIER", n)


def run(ctx):
    w = World(ctx)
    ctx.rule("each-operand-once", "on every path that completes, each operand whose value the "
             "operator needs is evaluated exactly once")
    ctx.rule("short-circuit", "&&, || and ?: evaluate the first operand first and then only the "
             "operand its truth selects")
    ctx.rule("sequenced", "the comma operator evaluates left before right and yields the right value")
    ctx.rule("sizeof-unevaluated", "sizeof does not evaluate its operand")
    ctx.rule("statement-expression-once", "an expression statement evaluates its expression once")
    for t in w.targets:
        forms = [([P("A"), op, P("B")], "AB") for op in BINOPS]
        forms += [([P("A"), op, P("B")], "AB") for op in COMPOUND]
        forms += [([P("A"), "=", P("B")], "AB"), ([P("A"), "++"], "A"), ([P("A"), "--"], "A"),
                  (["++", P("A")], "A"), (["--", P("A")], "A"), (["!", P("A")], "A"),
                  (["~", P("A")], "A"), (["*", P("A")], "A"), (["&", P("A")], "A"),
                  (["(", T("TY"), ")", P("A")], "A"), ([P("A"), "[", P("B"), "]"], "AB"),
                  ([P("A"), ".", ID("m")], "A"), ([P("A"), "->", ID("m")], "A"),
                  (["(", P("A"), ")"], "A")]
        for items, names in forms:
            with ctx.guarded("%s: %s" % (t, text(items))):
                once(ctx, w, t, items, names)
        for op in ("&&", "||", "?:"):
            with ctx.guarded(t + op):
                short(ctx, w, t, op)
        with ctx.guarded(t + ","):
            comma(ctx, w, t)
        with ctx.guarded(t + "sizeof"):
            size(ctx, w, t)
        with ctx.guarded(t + "statement"):
            stmt(ctx, w, t)
    ctx.need("each-operand-once", 60)


def counts(w, o, names):
    n = {x: 0 for x in names}
    for e in w.evals(o):
        if e[1][0] == "p" and e[1][1] in n:
            n[e[1][1]] += 1
    return n


def once(ctx, w, t, items, names):
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("each-operand-once", sub, "parser.m4", "not accepted by the grammar")
    rets = [o for o in outs if o.kind == "ret"]
    if not rets:
        return ctx.fail("each-operand-once", sub, "evaluate.c", "no path yields a value")
    for o in rets:
        n = counts(w, o, names)
        bad = [x for x in names if n[x] != 1]
        where = [e.loc for e in w.evals(o) if bad and e[1] == leaf(bad[0])]
        s2 = sub + (" (%s evaluated %d times)" % (bad[0], n[bad[0]]) if bad else "")
        ctx.check(not bad, "each-operand-once", s2, where[-1] if where else w.site(o),
                  lambda: "operand %s is evaluated %d times: %s" % (bad[0], n[bad[0]], w.desc(o)))


def order(w, o):
    return [e[1][1] for e in w.evals(o) if e[1][0] == "p"]


def short(ctx, w, t, op):
    items = [P("A"), "?", P("B"), ":", P("C")] if op == "?:" else [P("A"), op, P("B")]
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("short-circuit", sub, "parser.m4", "not accepted by the grammar")
    forms = set()
    for o in outs:
        if o.kind != "ret":
            continue
        seq = order(w, o)
        ta = compare.truth(A, w, o)
        if ta is None:
            if w.num(A, o) is None and not w.may_int(A, o):
                continue
            ctx.fail("short-circuit", sub, w.site(o), "the truth of A is not established")
            continue
        if op == "?:":
            want = ["A", "B" if ta else "C"]
        elif op == "&&":
            want = ["A", "B"] if ta else ["A"]
        else:
            want = ["A"] if ta else ["A", "B"]
        forms.add(ta)
        ctx.check(seq == want, "short-circuit", sub, w.site(o),
                  "with A %s the operands evaluated are %s" % (ta, seq))
    ctx.check(forms == {True, False}, "short-circuit", sub + " both", "evaluate.c",
              "not both truth values of A lead to a result")


def comma(ctx, w, t):
    items = [P("A"), ",", P("B"), ",", P("C")]
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("sequenced", sub, "parser.m4", "not accepted by the grammar")
    for o in outs:
        ctx.check(o.kind == "ret" and order(w, o) == ["A", "B", "C"] and o.val == C,
                  "sequenced", sub, w.site(o),
                  lambda: "%s, evaluates %s, yields %s" % (o.kind, order(w, o), w.sh(o.val)))


def size(ctx, w, t):
    items = ["sizeof", P("A")]
    sub = "%s: %s" % (t, text(items))
    for o in w.expr(t, items):
        if o.kind == "ret":
            n = counts(w, o, "A")["A"]
            ctx.check(n == 0, "sizeof-unevaluated", sub, w.site(o), "the operand is evaluated")


def stmt(ctx, w, t):
    if t == "repl":
        return
    items = [P("A"), ";"]
    sub = "%s: %s" % (t, text(items))
    outs = w.stmt(t, items)
    if outs is None:
        return ctx.fail("statement-expression-once", sub, "parser.m4", "not accepted by the grammar")
    for o in outs:
        if o.kind == "ret":
            n = counts(w, o, "A")["A"]
            ctx.check(n == 1, "statement-expression-once", sub, w.site(o), "evaluated %d times" % n)
