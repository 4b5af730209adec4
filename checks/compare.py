"""Comparison, logical and conditional operators."""
from world import *

A, B, C = EV("A"), EV("B"), EV("C")
REL = {"<": {-1}, ">": {1}, "<=": {-1, 0}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}}
ALL = frozenset((-1, 0, 1))


def neg(s):
    return frozenset(-x for x in s)


def sgn_facts(o):
    for k, v in o.st.facts.items():
        if k[0] == "sgn":
            yield strip_epoch(k[1]), v


def cmp_sign(a, b, o):
    """What a path knows about the sign of a - b."""
    r = set(ALL)
    for k, v in sgn_facts(o):
        if k in (("zcmp", a, b), ("z", "sub", a, b), ("zsgn", ("z", "sub", a, b))):
            r &= v
        if k in (("zcmp", b, a), ("z", "sub", b, a)):
            r &= neg(v)
    return frozenset(r)


def truth(v, w, o):
    """True/False/None: what a path knows about v being non-zero."""
    n = w.num(v, o)
    if n is None:
        return None
    r = set(ALL)
    for k, s in sgn_facts(o):
        if k == n:
            r &= s
        if k == ("zcmp", n, ("zc", 0)):
            r &= s
    if 0 not in r:
        return True
    if r == {0}:
        return False
    return None


def run(ctx):
    w = World(ctx)
    ctx.rule("relation-result", "a path that yields 1 (0) has established that the relation holds "
             "(does not hold) between the operands' values, for every combination of integer kinds")
    ctx.rule("logic-result", "&&, || and ! yield 1 or 0 according to the operands' truth")
    ctx.rule("selection", "?: yields the second operand's value if the first is non-zero and the "
             "third's otherwise")
    ctx.rule("operands-accepted", "no path rejects integral or pointer operands, and every "
             "combination of kinds reaches a result")
    for t in w.targets:
        for op, sat in REL.items():
            with ctx.guarded(t + op):
                relation(ctx, w, t, op, frozenset(sat))
        for op in ("&&", "||"):
            with ctx.guarded(t + op):
                logic(ctx, w, t, op)
        with ctx.guarded(t + "!"):
            lnot(ctx, w, t)
        with ctx.guarded(t + "?:"):
            select(ctx, w, t)
    ctx.need("relation-result", 48)


def rejected(ctx, w, sub, o, names):
    evd = [e[1] for e in w.evals(o)]
    xs = [EV(n) for n in names if leaf(n) in evd]
    # operands examined so far; a rejection must be explained by one of them
    if xs and all(w.may_int(x, o) for x in xs):
        ctx.fail("operands-accepted", sub, o.loc, "integral operands are rejected: %s" % w.sh(o.val))


def need_all(ctx, w, sub, seen, n):
    kinds = ["T_INTEGER"] + INTEGRAL + ["D_T_PTR"]
    import itertools
    miss = [c for c in itertools.product(kinds, repeat=n) if c not in seen]
    ctx.check(not miss, "operands-accepted", sub, "evaluate.c",
              "no path yields a value for operand types %s" % (miss[:3],))


def kinds_of(v, w, o):
    if w.val(v, o) == "int":
        return ["T_INTEGER"]
    if w.val(v, o) == "lv":
        return [w.p.type_names[k] for k in w.lvtypes(v, o)]
    return []


def relation(ctx, w, t, op, sat):
    import itertools
    items = [P("A"), op, P("B")]
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("relation-result", sub, "parser.m4", "not accepted by the grammar")
    seen = {0: set(), 1: set()}
    for o in outs:
        if o.kind != "ret":
            rejected(ctx, w, sub, o, "AB")
            continue
        a, b = w.num(A, o), w.num(B, o)
        if a is None or b is None:
            if w.may_int(A, o) and w.may_int(B, o):
                ctx.fail("relation-result", sub, w.site(o), "operand kinds not established: " + w.desc(o))
            continue
        r = w.intres(o)
        s = cmp_sign(a, b, o)
        want = ("zc", 1) if s <= sat else ("zc", 0) if not (s & sat) else None
        ctx.check(want is not None and r == want, "relation-result",
                  "%s %s/%s" % (sub, a[0], b[0]), w.site(o),
                  lambda: "yields %s where sign(A-B) is in %s" % (w.sh(r), sorted(s)))
        if r in (("zc", 0), ("zc", 1)):
            for c in itertools.product(kinds_of(A, w, o), kinds_of(B, w, o)):
                for x in s:
                    seen[r[1]].add(c + (x,))
    for k in (0, 1):
        kinds = ["T_INTEGER"] + INTEGRAL + ["D_T_PTR"]
        signs = sat if k else ALL - sat
        miss = [c for c in itertools.product(kinds, kinds, signs) if c not in seen[k]]
        ctx.check(not miss, "operands-accepted", "%s -> %d" % (sub, k), "evaluate.c",
                  "no path yields %d for %s" % (k, miss[:2]))


def logic(ctx, w, t, op):
    items = [P("A"), op, P("B")]
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("logic-result", sub, "parser.m4", "not accepted by the grammar")
    decide = op == "||"          # truth of A that decides the result alone
    both = {}
    for o in outs:
        if o.kind != "ret":
            rejected(ctx, w, sub, o, "AB")
            continue
        evd = [e[1] for e in w.evals(o)]
        xs = [A] + ([B] if leaf("B") in evd else [])
        if any(w.num(x, o) is None and not w.may_int(x, o) for x in xs):
            continue
        ta = truth(A, w, o)
        r = w.intres(o)
        if leaf("B") in evd:
            tb = truth(B, w, o)
            ok = ta is not None and (tb is not None or ta == decide)
            want = (ta or tb) if decide else (ta and tb)
        else:
            ok, want = ta == decide, ta
        if not ok:
            ctx.fail("logic-result", sub, w.site(o),
                     "a result is produced without the operands' truth being established: " + w.desc(o))
            continue
        ctx.check(r == ("zc", 1 if want else 0), "logic-result", sub, w.site(o),
                  lambda: "yields %s for A %s, B %s" % (w.sh(r), ta, tb if leaf("B") in evd else "unevaluated"))
        for ka in kinds_of(A, w, o):
            both.setdefault(("A", ka), set()).add(ta)
        if leaf("B") in evd:
            for kb in kinds_of(B, w, o):
                both.setdefault(("B", kb), set()).add(tb)
    for n in "AB":
        for k in ["T_INTEGER"] + INTEGRAL + ["D_T_PTR"]:
            ctx.check(both.get((n, k)) == {True, False}, "operands-accepted",
                      "%s %s %s" % (sub, n, k), "evaluate.c", "no result for this operand kind")


def lnot(ctx, w, t):
    items = ["!", P("A")]
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("logic-result", sub, "parser.m4", "not accepted by the grammar")
    seen = {}
    for o in outs:
        if o.kind != "ret":
            rejected(ctx, w, sub, o, "A")
            continue
        if w.num(A, o) is None and not w.may_int(A, o):
            continue
        ta = truth(A, w, o)
        r = w.intres(o)
        ctx.check(ta is not None and r == ("zc", 0 if ta else 1), "logic-result", sub, w.site(o),
                  lambda: "yields %s for A %s" % (w.sh(r), ta))
        for k in kinds_of(A, w, o):
            seen.setdefault(k, set()).add(ta)
    for k in ["T_INTEGER"] + INTEGRAL + ["D_T_PTR"]:
        ctx.check(seen.get(k) == {True, False}, "operands-accepted", "%s %s" % (sub, k),
                  "evaluate.c", "no result for this operand kind")


def select(ctx, w, t):
    items = [P("A"), "?", P("B"), ":", P("C")]
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("selection", sub, "parser.m4", "not accepted by the grammar")
    seen = {}
    for o in outs:
        if o.kind != "ret":
            rejected(ctx, w, sub, o, "A")
            continue
        if w.num(A, o) is None and not w.may_int(A, o):
            continue
        ta = truth(A, w, o)
        want = B if ta else C
        ctx.check(ta is not None and o.val == want, "selection", sub, w.site(o),
                  lambda: "yields %s for A %s" % (w.sh(o.val), ta))
        for k in kinds_of(A, w, o):
            seen.setdefault(k, set()).add(ta)
    for k in ["T_INTEGER"] + INTEGRAL + ["D_T_PTR"]:
        ctx.check(seen.get(k) == {True, False}, "operands-accepted", "%s %s" % (sub, k),
                  "evaluate.c", "no result for this operand kind")
