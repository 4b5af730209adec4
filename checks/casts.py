"""What a cast yields."""
from world import *
from stores import converts, chain, width, one, lowbits

A, TY = EV("A"), EV("TY")
ALLT = INTEGRAL + FLOATS + ["D_T_PTR"]


def run(ctx):
    w = World(ctx)
    ctx.rule("cast-result", "a completed cast yields a fresh object of the named type whose value is the "
             "operand's value, read at its own type and converted to the named type")
    ctx.rule("operand-untouched", "a cast stores nothing outside the object it yields")
    ctx.rule("casts-accepted", "every cast from an integral value to an integral or floating type, from an "
             "integral or pointer value to a pointer, from a floating object to an arithmetic type and from a "
             "pointer to an integral type completes")
    for t in w.targets:
        with ctx.guarded(t):
            cast(ctx, w, t)
    ctx.need("cast-result", 300)


def cast(ctx, w, t):
    items = ["(", T("TY"), ")", P("A")]
    sub = "%s: (T) A" % t
    outs = w.expr(t, items)
    if outs is None:
        return ctx.fail("cast-result", sub, "parser.m4", "not accepted by the grammar")
    LV, I, F = w.tt["T_LIVE_VAR"], w.tt["T_INTEGER"], w.tt["T_FLOAT"]
    done = set()
    for o in outs:
        if o.kind != "ret":
            continue
        ta = w.tys(A, o)
        la = w.lvtypes(A, o)
        src = one(la, w) if ta == {LV} else "T_INTEGER" if ta == {I} else "T_FLOAT" if ta == {F} else None
        if o.val[0] != "new" or w.ty(o.val, o) != "T_LIVE_VAR":
            ctx.fail("cast-result", "%s from %s" % (sub, src), w.site(o), "yields %s" % w.sh(o.val))
            continue
        typ = o.fl.load(("F", o.val, w.f_lvtype), o.st)
        dst = one(o.fl.tyset(typ, o.st), w)
        mem = o.fl.load(("F", o.val, w.f_lvval), o.st)
        name = "%s %s <- %s" % (sub, dst, src)
        if typ != TY:
            ctx.fail("cast-result", name, w.site(o), "the result's type is %s" % w.sh(typ))
            continue
        if dst is None or src is None:
            ctx.fail("cast-result", name, w.site(o), "a value is produced for a type that is not established")
            continue
        if not (mem[0] == "r" and mem[1] in ("malloc", "calloc")):
            ctx.fail("cast-result", name, w.site(o), "the result has no storage of its own: %s" % w.sh(mem))
            continue
        st = [e for e in w.effects(o) if e[0] in ("store", "zstore")]
        own = [e for e in st if e[1][0] == "F" and e[1][1] == mem]
        rest = [e for e in st if e not in own]
        ctx.check(not rest, "operand-untouched", name, rest[0].loc if rest else w.site(o),
                  lambda: "stores %s" % [w.sh(tuple(e)) for e in rest])
        ctx.check(len(own) == 1 and own[0][1] == ("F", mem, dst) and value(w, o, own[0][2], src, dst),
                  "cast-result", name, own[0].loc if own else w.site(o),
                  lambda: "stores %s" % [w.sh(tuple(e)) for e in own])
        done.add((dst, src))
    for d in ALLT:
        for s in ["T_INTEGER"] + ALLT:
            if supported(d, s):
                ctx.check((d, s) in done, "casts-accepted", "%s %s <- %s" % (sub, d, s), "evaluate.c",
                          "no path completes this cast")


def supported(d, s):
    if s == "T_INTEGER":
        return True
    if s in INTEGRAL:
        return True
    if s in FLOATS:
        return d != "D_T_PTR"
    return d not in FLOATS


def value(w, o, v, src, dst):
    """v converts the operand's value to dst (a member of that type holds it)."""
    if dst in FLOATS:
        b, c = chain(v)
        if src == "T_FLOAT":
            return b[0] == "r" and b[1] == "__gmpf_get_d" and mentions(b, A) and floats_ok(c, dst)
        if src == "T_INTEGER":
            if b[0] == "zget" and b[1] == "d" and strip_epoch(b[2]) == ("int", A):
                return floats_ok(c, dst)
            s = signs(o, ("int", A))
            if b[0] == "zget" and b[1] == "ui" and strip_epoch(b[2]) == ("int", A):
                return s <= {0, 1} and floats_ok(c, dst)
            if not s <= {-1, 0}:
                return False            # it may exceed the range of a signed long
            i = c.index(next((x for x in c if x in FT), None)) if any(x in FT for x in c) else len(c)
            return b[0] == "wrap" and strip_epoch(b[1]) == ("int", A) and \
                all(width(x) and width(x) == (64, True) for x in c[:i]) and floats_ok(c[i:], dst)
        if not (b[0] in ("ldv", "ld") and b[1] == ("ld", A, w.f_lvval) and b[2] == src):
            return False
        if src in FLOATS:
            return floats_ok(c, dst, src)
        i = c.index(next(x for x in c if x in FT)) if any(x in FT for x in c) else len(c)
        have = lowbits(width(CTYPE[src]), c[:i])
        return have is not None and have[0] == "exact" and floats_ok(c[i:], dst)
    if src in FLOATS:
        b, c = chain(v)
        if not (b[0] in ("ldv", "ld") and b[1] == ("ld", A, w.f_lvval) and b[2] == src):
            return False
        fl = [x for x in c if x in FT]
        it = [x for x in c if x not in FT]
        if c[:len(fl)] != fl or not floats_ok(fl, "D_T_LONGDOUBLE", src, inner=True):
            return False
        # the conversion itself is to the named type
        return not it or it[0].replace("signed ", "") == CTYPE[dst].replace("signed ", "") if dst in CTYPE else False
    return converts(w, o, v, ("z", [("int", A)]) if src == "T_INTEGER" else ("lv", A, src), dst)


def signs(o, n):
    """What a path knows about the sign of a number."""
    r = {-1, 0, 1}
    for k, v in o.st.facts.items():
        if k[0] == "sgn" and strip_epoch(k[1]) in (n, ("zcmp", n, ("zc", 0))):
            r &= v
    return r


FT = {"float": 1, "double": 2, "long double": 3}
RANK = {"D_T_FLOAT": 1, "D_T_DOUBLE": 2, "D_T_LONGDOUBLE": 3}


def floats_ok(c, dst, src=None, inner=False):
    """Floating conversions that lose nothing but what dst itself loses."""
    if any(x not in FT for x in c):
        return False
    need = min(RANK[dst], RANK.get(src, 3) if inner or src else 3)
    if src is None:
        need = min(RANK[dst], 2)
    return all(FT[x] >= need for x in c)
