"""Scopes are entered and left with the constructs that open them."""
from world import *
from balance import *
from prog import nodes
import control
from control import L, X, Break, Empty, Return, Block, Chain, If, While, For, outcomes

E_UNIT = "evaluate.c"


def run(ctx):
    w = World(ctx, ("cscript",))
    ctx.rule("scope-restored", "every path through the function that returns leaves the current scope as it was "
             "when the function was entered")
    ctx.rule("block-scope", "the parts of a block (and of a for statement, and of a function's body) are evaluated "
             "in a scope of their own, created for that execution of it and empty at first, which lies within "
             "the scope the construct is executed in")
    ctx.rule("outer-scope", "an if's or while's condition, a call's arguments and a statement's own expressions are "
             "evaluated in the scope (or an empty scope within it) in which the construct is executed")
    ctx.rule("scope-object", "the current scope is only ever set to a context")
    with ctx.guarded("scope-restored"):
        restored(ctx, w)
    V, D = L, lambda n: L(n, "declaration")
    shapes = {
        "{ D S }": Block(D("D"), V("S")),
        "{ S { D T } U }": Block(V("S"), Block(D("D"), V("T")), V("U")),
        "{ { D } { S } }": Block(Block(D("D")), Block(V("S"))),
        "if (A) { D S } else { E T }": If("A", Block(D("D"), V("S")), Block(D("E"), V("T"))),
        "while (A) { D S }": While("A", Block(D("D"), V("S"))),
        "for (I; A; B) { D S }": For("I", "A", "B", Block(D("D"), V("S"))),
        "for (D; A; B) S": For(D("D"), "A", "B", V("S")),
        "for (D; A; B) { E S }": For(D("D"), "A", "B", Block(D("E"), V("S"))),
        "{ for (D; A; B) S for (E; C; G) T }": Block(For(D("D"), "A", "B", X("S")), X("Z")),
        "while (A) { { D break; } }": While("A", Block(Block(D("D"), Break()))),
    }
    for n, s in shapes.items():
        with ctx.guarded(n):
            blocks(ctx, w, n, s)
    ctx.need("scope-restored", 6)
    ctx.need("block-scope", 30)


# -------------------------------------------------------------- restoration
def restored(ctx, w):
    p = w.p
    direct = set()
    for n, f in p.units[E_UNIT].items():
        for k in ("asg", "asgop", "incdec"):
            for a in nodes(f["body"], k):
                if a[1] and a[1][0] == "g" and a[1][1] == "cur_ctx":
                    direct.add((E_UNIT, n))
    if not direct:
        raise Limit("nothing assigns cur_ctx")
    rec = {(E_UNIT, "__evaluate_1"), (E_UNIT, "__evaluate")}
    g = graph(p, p.units)
    entry = set(c for r in rec for c in g[r]) | rec
    entry |= {(E_UNIT, n) for n, f in p.units[E_UNIT].items() if not f["static"]}
    entry |= {(E_UNIT, n) for n in address_taken(p, E_UNIT) if n in p.units[E_UNIT]}
    entry -= {(E_UNIT, "eval_die"), (E_UNIT, "eval_init")}

    def start(fl):
        st = State()
        st.facts[("ty", w.CUR)] = frozenset([w.tt["E_CTX"]])
        return st

    def final(o):
        c = o.st.env.get(w.CURCELL, w.CUR)
        return None if c == w.CUR else "leaves the scope %s current" % w.sh(c)
    # a directly writing function that is itself an entry point must preserve
    good, bad, detail = preserving(ctx, w, "scope-restored", direct - entry, entry, start, final,
                                   stop=rec, ignore={(E_UNIT, "eval_init")}, what="the current scope")
    g2 = reaching(g, direct, rec)
    for f in sorted(entry - g2):
        ctx.ok("scope-restored", f[1] + " (cannot change the scope)")
    # what is assigned is a context
    for (u, n) in sorted(direct):
        fl = EvalFlow(p, unroll=1)
        fn = p.units[u][n]
        args = tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in fn["params"])
        st = start(fl)
        ectx = frozenset([w.tt["E_CTX"]])
        for o in run_self(fl, n, u, args, st):
            for e in o.st.trace:
                if e[0] == "store" and e[1] == w.CURCELL:
                    o.fl = fl
                    v = e[2]
                    par = v == ("ld", w.CUR, p.acc["tECTX_PARENT_CTX"][1])
                    ok = (w.ty(v, o) == "E_CTX") or (par and NULL not in w.tys(v, o))
                    ctx.check(ok, "scope-object", "%s: %s" % (n, w.sh(v)), e.loc, "the value may not be a context")
        w.note(fl)


# ----------------------------------------------------------------- scopes
def scope_of(w):
    p = w.p
    par = p.acc["tECTX_PARENT_CTX"][1]
    maps = [p.acc[a][1] for a in ("tECTX_ID_MAP", "tECTX_STRUCT_ID_MAP", "tECTX_UNION_ID_MAP", "tECTX_ALLOC_CHAIN")]
    isfn = p.acc["tECTX_IS_FN_CALL"][1]

    def mark(fl, st):
        c = st.env.get(w.CURCELL, w.CUR)
        out = []
        while c[0] == "new" and len(out) < 12:
            empty = True
            own = []
            for m in maps[:3]:
                h = fl.load(("F", c, m), st)
                own.append(h)
                if h[0] != "new" or fl.tyset(h, st) != {w.tt["CHAIN_HEAD"]} or \
                        fl.load(("F", h, "chain.next"), st) != ("pl", ("F", h, "chain")):
                    empty = False
            al = fl.load(("F", c, maps[3]), st)
            fresh = len(set(own + [al])) == 4 and al[0] == "new"
            fn = fl.load(("F", c, isfn), st)
            out.append((c, empty, fresh, fn))
            c = fl.load(("F", c, par), st)
        return (tuple(out), c)
    return mark


def owner(s, path=()):
    """part name -> chain of scope owning constructs around it, outermost
    first (each a tuple identifying the construct)."""
    out = {}

    def go(s, own):
        if isinstance(s, L):
            out[s.n] = own
        elif isinstance(s, Block):
            me = own + (id(s),)
            for x in s.b:
                go(x, me)
        elif isinstance(s, If):
            out[s.c] = own
            go(s.a, own)
            if s.b:
                go(s.b, own)
        elif isinstance(s, While):
            out[s.c] = own
            go(s.b, own)
        elif isinstance(s, For):
            me = own + (id(s),) if isinstance(s.i, L) else own
            if isinstance(s.i, str):
                out[s.i] = me
            elif s.i:
                go(s.i, me)
            for x in (s.c, s.a):
                if x:
                    out[x] = me
            go(s.b, me)
    go(s, path)
    return out


def blocks(ctx, w, name, s):
    st = control.assume(w, s, False)
    control.leaves(w, s, st)
    outs = w.expr("cscript", s.items(), "statement", "'}'", st=st, fname="__evaluate", ncap=2,
                  opaque={"cscript_exit": control.ends}, marker=scope_of(w))
    if outs is None:
        return ctx.fail("block-scope", name, "parser.m4", "not accepted by the grammar")
    own = owner(s)
    depth = {n: len(c) for n, c in own.items()}
    first = {}
    for o in outs:
        inst = {}           # construct -> scope of its current execution
        used = {}           # scope object -> construct execution
        runs = {}
        prev = None
        for e in w.evals(o):
            if e[1][0] != "p" or e[2] >= 2:
                if e[2] >= 2:
                    break
                continue
            n = e[1][1]
            chain, base = e[3]
            sub = "%s: %s" % (name, n)
            if base != w.CUR:
                ctx.fail("outer-scope", sub, e.loc, "evaluated in a scope that isn't within the construct's: %s" % w.sh(base))
                continue
            objs = [c[0] for c in chain][::-1]      # outermost first
            vis = [c for c in chain if not c[1]]
            ctx.check(not vis, "block-scope", sub + " (initially empty)", e.loc,
                      lambda: "the scope %s isn't empty" % w.sh(vis[0][0]))
            notown = [c for c in chain if not c[2]]
            ctx.check(not notown, "block-scope", sub + " (maps of its own)", e.loc,
                      lambda: "the scope %s shares its maps" % w.sh(notown[0][0]))
            o.scopes = getattr(o, "scopes", [])
            o.scopes.append((n, e[2], tuple(objs), e.loc))
            want = own[n]
            if not want:
                ctx.ok("outer-scope", sub)
    # what a declaration declares is visible to the parts of the construct
    # it belongs to, and to no others
    decl = set(x.n for x in control.walk(s) if x.nt == "declaration")
    for o in outs:
        sc = getattr(o, "scopes", [])
        for i, (n, k, objs, loc) in enumerate(sc):
            if n not in decl:
                continue
            ctx.check(len(objs) > 0, "block-scope", "%s: %s in a scope of its own" % (name, n), loc,
                      "evaluated in the enclosing scope")
            for (n2, k2, objs2, loc2) in sc[i + 1:]:
                a, b = own[n], own[n2]
                inside = b[:len(a)] == a and same_execution(s, a, k, k2)
                if not objs:
                    continue
                ctx.check((objs[-1] in objs2) == inside, "block-scope", "%s: %s%s %s what %s%s declares" %
                          (name, n2, "'" * k2, "sees" if inside else "doesn't see", n, "'" * k), loc2,
                          "evaluated %s its scope" % ("outside" if inside else "in"))


def same_execution(s, a, k, k2):
    """Do the k'th part of the construct a and the k2'th of another belong to
    the same execution of a?  Only the outermost statement loops; the scope
    of its header lasts for the whole loop."""
    if isinstance(s, (While, For)) and a[-1] != id(s):
        return k == k2
    return True
