"""Integer operators: what `A op B` and `op A` compute."""
from world import *
from compare import truth

A, B = EV("A"), EV("B")


def z(op, *a):
    return zop(op, *a)


BIN = {
    "+": lambda a, b: [z("add", a, b)],
    "-": lambda a, b: [z("sub", a, b)],
    "*": lambda a, b: [z("mul", a, b)],
    "/": lambda a, b: [z("tdiv_q", a, b)],
    "%": lambda a, b: [z("tdiv_r", a, b)],
    "<<": lambda a, b: [z("mul_2exp", a, ("zget", k, b)) for k in ("ui", "si")],
    ">>": lambda a, b: [z("fdiv_q_2exp", a, ("zget", k, b)) for k in ("ui", "si")],
    "&": lambda a, b: [z("and", a, b)],
    "|": lambda a, b: [z("ior", a, b)],
    "^": lambda a, b: [z("xor", a, b)],
}
UN = {
    "~": lambda a: [z("com", a), z("sub", z("neg", a), ("zc", 1))],
}


def run(ctx):
    w = World(ctx)
    ctx.rule("operator-result", "every path that yields a value for integral operands "
             "yields a fresh integer holding the operator applied to the operands' values, left to right")
    ctx.rule("zero-divisor", "a quotient or remainder is computed only where the divisor was found "
             "not to be zero")
    ctx.rule("operands-accepted", "no path rejects a pair of integral operands")
    ctx.rule("operands-unmodified", "no path stores to an object that existed before")
    for t in w.targets:
        for op, spec in BIN.items():
            form(ctx, w, t, [P("A"), op, P("B")], ("A", "B"), spec)
        for op, spec in UN.items():
            form(ctx, w, t, [op, P("A")], ("A",), spec)
    ctx.need("operator-result", 2 * (len(BIN) * 4 + len(UN) * 2))


def form(ctx, w, t, items, names, spec):
    sub = "%s: %s" % (t, text(items))
    with ctx.guarded(sub):
        outs = w.expr(t, items)
        if outs is None:
            return ctx.fail("operands-accepted", sub, "parser.m4",
                            "the construct is not accepted by the grammar")
        seen = set()
        for o in outs:
            ops = [EV(n) for n in names]
            if o.kind == "die":
                # an operator must not reject integral operands
                evd = [e[1] for e in w.evals(o)]
                if "/" in items or "%" in items:
                    if truth(ops[-1], w, o) is False:
                        continue    # a division by zero has no result
                if all(leaf(n) in evd for n in names) and all(w.may_int(x, o) for x in ops):
                    ctx.fail("operands-accepted", sub, o.loc,
                             "integral operands are rejected: %s" % w.sh(o.val))
                continue
            if o.kind != "ret":
                ctx.fail("operator-result", sub, w.site(o), "leaves by %s" % o.kind)
                continue
            nums = [w.num(x, o) for x in ops]
            if None in nums:
                if all(w.may_int(x, o) for x in ops):
                    ctx.fail("operator-result", sub, w.site(o),
                             "a value is produced for operands whose kind is not established: %s"
                             % w.desc(o))
                continue
            if "/" in items or "%" in items:
                ctx.check(truth(ops[-1], w, o) is True, "zero-divisor", sub, w.site(o),
                          "a division by zero is carried out")
            got = w.intres(o)
            kinds = tuple(x[0] for x in nums)
            if got not in [strip_epoch(x) for x in spec(*nums)]:
                ctx.fail("operator-result", sub, w.site(o), "computes %s instead of %s" % (
                    w.sh(got), w.sh(spec(*nums)[0])))
            else:
                for c in cover(w, ops, o):
                    seen.add(c)
                ctx.ok("operator-result", sub + " " + "/".join(kinds))
            eff = w.effects(o)
            ctx.check(not eff, "operands-unmodified", sub, eff[0].loc if eff else "",
                      lambda: "effect %s" % w.sh(tuple(eff[0])))
        full = covers_all(seen, len(names), w)
        ctx.check(not full, "operands-accepted", sub, "evaluate.c",
                  "no path yields a value for operand types %s" % (full[:3],))


def cover(w, ops, o):
    sets = []
    for x in ops:
        if w.val(x, o) == "int":
            sets.append(["T_INTEGER"])
        else:
            sets.append(sorted(w.p.type_names[k] for k in w.lvtypes(x, o)))
    return list(product(sets))


def product(sets):
    import itertools
    return itertools.product(*sets)


def covers_all(seen, n, w):
    kinds = ["T_INTEGER"] + INTEGRAL
    return [c for c in product([kinds] * n) if c not in seen]
