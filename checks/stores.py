"""What assignments, compound assignments and ++/-- store and yield."""
from world import *
from compare import truth
import intops

A, B = EV("A"), EV("B")
WIDTH = {"char": (8, True), "signed char": (8, True), "short": (16, True), "int": (32, True),
         "long": (64, True), "long long": (64, True), "unsigned char": (8, False),
         "unsigned short": (16, False), "unsigned int": (32, False),
         "unsigned long": (64, False), "unsigned long long": (64, False)}


def width(t):
    if t is None:
        return None
    t = t.replace("const ", "")
    if t.endswith("*"):
        return (64, False)
    return WIDTH.get(t)


def chain(v):
    """(base, [cast types, innermost first])"""
    cs = []
    while v[0] == "cast":
        cs.append(v[1])
        v = v[2]
    return v, cs[::-1]


def lowbits(src, casts):
    """How many low bits of the mathematical source value survive the casts:
    'exact' when the value itself does.  src: (bits, signed) or None for an
    unbounded integer wrapped to 64 bits."""
    have = ("exact", src) if src else ("low", 64)
    for c in casts:
        w = width(c)
        if w is None:
            return None
        if have[0] == "exact":
            b, s = have[1]
            tb, ts = w
            fits = (tb >= b and s == ts) or (tb > b and not s) or (not s and tb >= b and not ts)
            have = ("exact", (b, s)) if fits else ("low", tb if tb < 64 or True else 64)
            if have[0] == "low" and tb > b and s and not ts:
                # sign extended into a wider unsigned type: all tb bits are right
                have = ("low", tb)
        else:
            have = ("low", min(have[1], w[0]))
    return have


def converts(w, o, v, src, target):
    """Does the stored term v convert the source to the target type?
    src: ('z', [acceptable mpz terms]) or ('lv', value, member)."""
    base, casts = chain(v)
    tb = width(CTYPE.get(target, "void *"))
    if src[0] == "z":
        if base[0] == "i":
            return False
        if base[0] != "wrap" or strip_epoch(base[1]) not in src[1]:
            if base[0] == "zget" and strip_epoch(base[2]) in src[1] and False:
                pass
            return False
        have = lowbits(None, casts)
    else:
        if base[0] not in ("ldv", "ld") or base[1] != ("ld", src[1], w.f_lvval) or base[2] != src[2]:
            return False
        have = lowbits(width(CTYPE.get(src[2], "void *")), casts)
    if have is None:
        return False
    if have[0] == "exact":
        return True              # the store itself converts to the member's type
    return have[1] >= tb[0]


def run(ctx):
    w = World(ctx)
    ctx.rule("assignment-store", "an assignment to an object of integral type T stores, in the object's "
             "own storage and as a T, the right operand's value converted to T, and nothing else")
    ctx.rule("assignment-value", "an assignment yields its left operand after the store")
    ctx.rule("pointer-store", "an assignment to a pointer object stores the address that is assigned")
    ctx.rule("float-store", "an assignment to a float or double object stores the source value, read "
             "as its own type, through the object's own type")
    ctx.rule("compound-store", "A op= B stores op applied to A's and B's values, converted to A's type")
    ctx.rule("step-store", "++ and -- store the object's value plus or minus one, as its own type")
    ctx.rule("step-value", "prefix forms yield the new value, postfix forms the old one")
    ctx.rule("operands-accepted", "every integral object type takes every integral source")
    for t in w.targets:
        with ctx.guarded(t + " ="):
            assign(ctx, w, t)
        for op in ("+", "-", "/", "<<", ">>", "^"):
            with ctx.guarded(t + op + "="):
                compound(ctx, w, t, op)
        for op in ("++", "--"):
            for post in (False, True):
                with ctx.guarded(t + op):
                    step(ctx, w, t, op, post)
    ctx.need("assignment-store", 2 * 10 * 11)
    ctx.need("compound-store", 2 * 6 * 10)
    ctx.need("step-store", 2 * 4 * 10)


def one(s, w):
    return w.p.type_names[next(iter(s))] if len(s) == 1 else None


def storage(w, o, member, x=A):
    return ("F", ("ld", x, w.f_lvval), member)


def assign(ctx, w, t):
    items = [P("A"), "=", P("B")]
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("assignment-store", sub, "parser.m4", "not accepted by the grammar")
    seen = set()
    I, LV, ST = w.tt["T_INTEGER"], w.tt["T_LIVE_VAR"], w.tt["T_STRING"]
    for o in outs:
        ta, tb = w.tys(A, o), w.tys(B, o)
        la, lb = w.lvtypes(A, o), w.lvtypes(B, o)
        if o.kind != "ret":
            evd = [e[1] for e in w.evals(o)]
            if leaf("A") in evd and leaf("B") in evd and LV in ta and la & w.integral and w.may_int(B, o):
                ctx.fail("operands-accepted", sub, o.loc, "an integral assignment is rejected: " + w.sh(o.val))
            continue
        if ta != {LV}:
            ctx.fail("assignment-store", sub, w.site(o), "something that is no object is assigned to: " + w.desc(o))
            continue
        ctx.check(o.val == A, "assignment-value", sub, w.site(o),
                  lambda: "yields %s" % w.sh(o.val))
        m = one(la, w)
        src = one(lb, w) if tb == {LV} else "T_INTEGER" if tb == {I} else \
            "T_STRING" if tb == {ST} else "T_FLOAT" if tb == {w.tt["T_FLOAT"]} else None
        eff = [e for e in w.effects(o) if e[0] in ("store", "zstore")]
        name = "%s %s <- %s" % (sub, m, src)
        where = eff[0].loc if eff else w.site(o)
        if m in CTYPE:
            if src in FLOATS:
                continue
            if src is None or (src not in CTYPE and src not in ("T_INTEGER", "D_T_PTR")):
                ctx.fail("assignment-store", name, where, "a source that is no number is stored")
                continue
            good = len(eff) == 1 and eff[0][1] == storage(w, o, m) and converts(
                w, o, eff[0][2], ("z", [("int", B)]) if src == "T_INTEGER" else ("lv", B, src), m)
            ctx.check(good, "assignment-store", name, where,
                      lambda: "stores %s" % [w.sh(tuple(e)) for e in eff])
            seen.add((m, src))
        elif m == "D_T_PTR":
            ok = len([e for e in eff if e[1] == storage(w, o, m)]) == 1
            st = [e for e in eff if e[1] == storage(w, o, m)]
            v = st[0][2] if st else None
            rest = [e for e in eff if e not in st and not literal(w, e)]
            if src == "T_INTEGER":
                good = ok and converts(w, o, v, ("z", [("int", B)]), m)
            elif src == "T_STRING":
                good = ok and is_literal(w, o, v)
            elif tb == {LV}:
                b, c = chain(v) if v else (None, None)
                good = ok and b[0] in ("ldv", "ld") and b[1] == ("ld", B, w.f_lvval) and b[2] == "D_T_PTR"
            else:
                good = False
            ctx.check(good and not rest, "pointer-store", name, where,
                      lambda: "stores %s" % [w.sh(tuple(e)) for e in eff])
        elif m in ("D_T_FLOAT", "D_T_DOUBLE"):
            good = len(eff) == 1 and eff[0][1] == storage(w, o, m)
            if good:
                b, c = chain(eff[0][2])
                fl_ok = all(x in ("float", "double", "long double") for x in c)
                if src == "T_INTEGER":
                    good = b == ("zget", "d", ("int", B))
                elif src == "T_FLOAT":
                    good = b[0] == "r" and b[1] == "__gmpf_get_d" and mentions(b, B)
                else:
                    good = b[0] in ("ldv", "ld") and b[1] == ("ld", B, w.f_lvval) and b[2] == src
                    if src in ("D_T_DOUBLE", "D_T_LONGDOUBLE") and m == "D_T_DOUBLE":
                        fl_ok = fl_ok and "float" not in c
                good = good and fl_ok
            ctx.check(good, "float-store", name, where,
                      lambda: "stores %s" % [w.sh(tuple(e)) for e in eff])
        else:
            ctx.fail("assignment-store", name, where, "the stored object's type is not established")
    for m in CTYPE:
        for src in list(CTYPE) + ["T_INTEGER"]:
            ctx.check((m, src) in seen, "operands-accepted", "%s %s <- %s" % (sub, m, src),
                      "evaluate.c", "no path stores")


def literal(w, e):
    """Bookkeeping of the literal table."""
    return mentions(e[1], ("g0", "evaluate.c", "literal_chain"))


def is_literal(w, o, v):
    """Storage of a string literal that outlives the statement: an entry of the
    literal table equal to B's text, or a copy entered there."""
    bs = ("ld", B, w.p.acc["tSTRING_VAL"][1])
    if v is None:
        return False
    if v[0] == "r" and v[1] == "strdup" and v[2][0] == bs:
        return any(e[0] == "store" and literal(w, e) for e in o.st.trace)
    if v[0] == "ld" and v[2] == bs[2] and mentions(v, ("g0", "evaluate.c", "literal_chain")):
        return any(e[0] == "call" and e[1] == "strcmp" and set(e[2]) == {v, bs} for e in o.st.trace)
    return False


def compound(ctx, w, t, op):
    items = [P("A"), op + "=", P("B")]
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("compound-store", sub, "parser.m4", "not accepted by the grammar")
    LV = w.tt["T_LIVE_VAR"]
    seen = set()
    for o in outs:
        n = sum(1 for e in w.evals(o) if e[1] == leaf("A"))
        # A's evaluations yield the same object (see P03 for their number)
        As = [EV("A", k) for k in range(max(n, 1))]
        ints = [x for x in As if w.may_int(x, o)]
        if o.kind != "ret":
            evd = [e[1] for e in w.evals(o)]
            if op == "/" and truth(B, w, o) is False:
                continue            # a division by zero has no result
            if leaf("B") in evd and len(ints) == len(As) and w.may_int(B, o) and \
                    LV in w.tys(As[0], o) and w.lvtypes(As[0], o) & w.integral:
                ctx.fail("operands-accepted", sub, o.loc, "integral operands are rejected: " + w.sh(o.val))
            continue
        m = one(w.lvtypes(As[0], o), w)
        if m not in CTYPE:
            continue
        b = w.num(B, o)
        if op == "/":
            ctx.check(truth(B, w, o) is True, "compound-store", sub + " by zero", w.site(o),
                      "a division by zero is carried out")
        if b is None:
            continue
        nums = [w.num(x, o) for x in As]
        nums = [strip_epoch(x) for x in nums if x is not None]
        if len(As) > 1 and all(x[0] != "lvint" for x in nums[1:]):
            continue             # the second evaluation cannot be another kind of thing
        eff = [e for e in w.effects(o) if e[0] in ("store", "zstore")]
        want = [strip_epoch(x) for a in nums for x in intops.BIN[op](a, strip_epoch(b))]
        cells = [storage(w, o, m, x) for x in As]
        good = len(eff) == 1 and eff[0][1] in cells and converts(w, o, eff[0][2], ("z", want), m)
        ctx.check(good, "compound-store", "%s %s/%s" % (sub, m, b[0]), eff[0].loc if eff else w.site(o),
                  lambda: "stores %s" % [w.sh(tuple(e)) for e in eff])
        ctx.check(o.val in As, "assignment-value", sub, w.site(o), lambda: "yields %s" % w.sh(o.val))
        seen.add((m, b[0]))
    for m in CTYPE:
        for k in ("int", "lvint"):
            ctx.check((m, k) in seen, "operands-accepted", "%s %s/%s" % (sub, m, k),
                      "evaluate.c", "no path stores")


def step(ctx, w, t, op, post):
    items = [P("A"), op] if post else [op, P("A")]
    sub = "%s: %s" % (t, text(items))
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("step-store", sub, "parser.m4", "not accepted by the grammar")
    LV = w.tt["T_LIVE_VAR"]
    seen = set()
    d = 1 if op == "++" else -1
    for o in outs:
        la = w.lvtypes(A, o)
        if o.kind != "ret":
            if any(e[1] == leaf("A") for e in w.evals(o)) and LV in w.tys(A, o) and la & w.integral:
                ctx.fail("operands-accepted", sub, o.loc, "an integral object is rejected: " + w.sh(o.val))
            continue
        m = one(la, w)
        if w.tys(A, o) != {LV}:
            ctx.fail("step-store", sub, w.site(o), "something that is no object is stepped")
            continue
        if m == "D_T_PTR":
            continue
        eff = [e for e in w.effects(o) if e[0] in ("store", "zstore")]
        good = len(eff) == 1 and eff[0][1] == storage(w, o, m)
        if good:
            b, c = chain(eff[0][2])
            good = b[0] == "op" and stepped(b, d) is not None
            if good:
                x = stepped(b, d)
                xb, xc = chain(x)
                good = xb[0] in ("ldv", "ld") and xb[1] == ("ld", A, w.f_lvval) and xb[2] == m
                have = lowbits(width(CTYPE.get(m, "")), xc) if m in CTYPE else ("exact", None)
                good = good and (have[0] == "exact" or have[1] >= width(CTYPE[m])[0])
                low = min([64] + [width(y)[0] for y in c if width(y)])
                good = good and (m not in CTYPE or low >= width(CTYPE[m])[0])
        ctx.check(good, "step-store", "%s %s" % (sub, m), eff[0].loc if eff else w.site(o),
                  lambda: "stores %s" % [w.sh(tuple(e)) for e in eff])
        seen.add(m)
        if m in CTYPE and good:
            r = w.intres(o)
            if post:
                okv = r == ("lvint", A) and value_before(w, o, m)
            else:
                okv = r is not None and new_value(r, strip_epoch(eff[0][2]), m)
            ctx.check(okv, "step-value", "%s %s" % (sub, m), w.site(o),
                      lambda: "yields %s" % w.sh(r))
    for m in CTYPE:
        ctx.check(m in seen, "operands-accepted", "%s %s" % (sub, m), "evaluate.c", "no path steps it")


def stepped(b, d):
    """The operand x of x + d."""
    _, op, x, y = b[:4]
    for p, q in ((x, y), (y, x)):
        if q[0] == "i" and ((op == "+" and q[1] in (d, d % 2 ** 64, d % 2 ** 32)) or
                            (op == "-" and q[1] == -d and q is y)):
            return p
    return None


def value_before(w, o, m):
    z = o.st.env.get(("Z", ("F", o.val, w.f_int)))
    return z is not None and z[0] == "lvint"


def new_value(r, stored, m):
    if r[0] != "zv":
        return False
    v = r[1]
    b, s = width(CTYPE[m])
    while v != stored and v[0] == "cast":
        w = width(v[1])
        if w is None or w[0] < b or (s and not w[1]) or (not s and w[1] and w[0] == b and b == 64):
            return False
        v = v[2]
    return v == stored or (v[0] != "cast" and stored == v)
