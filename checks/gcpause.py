"""The garbage collector is paused where it has to be, and only there."""
from world import *
from balance import *

DEPTH = ("G", "#", "pause depth")
D0 = ("i", 0)


def h_inhibit(fl, name, args, st, loc, e):
    st = st.copy()
    d = st.env.get(DEPTH, D0)
    st.env[DEPTH] = ("i", min(d[1] + 1, 9))
    return [(("void",), st)]


def h_enable(fl, name, args, st, loc, e):
    st = st.copy()
    d = st.env.get(DEPTH, D0)
    st.env[DEPTH] = ("i", max(d[1] - 1, -3))
    return [(("void",), st)]


PAUSE = {"inhibit_gc": h_inhibit, "enable_gc": h_enable}


def run(ctx):
    w = World(ctx, ("cscript",))
    p = w.p
    for n in ("inhibit_gc", "enable_gc", "alloc_tree"):
        if n not in p.defs:
            raise Limit("anchor %s has disappeared" % n)
    ctx.rule("pause-balanced", "a function that pauses the collector resumes it exactly as often on every path on "
             "which it returns")
    ctx.rule("pause-nests", "pausing increments, and resuming decrements, the count of pauses by one, never below zero")
    ctx.rule("collects-unpaused", "nothing is reclaimed unless the count of pauses has been found to be zero")
    ctx.rule("paused-for", "while a parser runs, while a native function is prepared and called, and while a value "
             "whose scope has been left is copied, the collector is paused")
    with ctx.guarded("pause-balanced"):
        balanced(ctx, w)
    with ctx.guarded("collector"):
        collector(ctx, w)
    for what in (parsers, native, returned):
        with ctx.guarded(what.__name__):
            what(ctx, w)
    ctx.need("pause-balanced", 5)
    ctx.need("paused-for", 6)


def start(fl):
    st = State()
    st.env[DEPTH] = D0
    return st


def balanced(ctx, w):
    p = w.p
    direct = {("gc.c", n) for n in PAUSE}
    rec = {("evaluate.c", "__evaluate_1"), ("evaluate.c", "__evaluate")}
    g = graph(p, p.units)
    users = reaching(g, direct, rec) - direct
    immediate = {f for f in users if g[f] & direct}
    # roots: whatever isn't a helper of a caller within the same file
    callers = {}
    for a, bs in g.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)
    entry = set(c for r in rec for c in g[r]) | rec
    roots = set()
    for f in users:
        u, n = f
        if not p.units[u][n]["static"] or f in entry or n in address_taken(p, u) or not callers.get(f):
            roots.add(f)

    def final(o):
        d = o.st.env.get(DEPTH, D0)
        return None if d == D0 else "leaves the collector paused %+d times" % d[1]

    good, bad, detail = preserving(ctx, w, "pause-balanced", direct, roots | immediate, start, final,
                                   opaque=dict(PAUSE), stop=rec, coarse={DEPTH}, units=tuple(p.units),
                                   ignore={("main.c", "main")}, what="the collector's state")


def collector(ctx, w):
    p = w.p
    g = graph(p, p.units)
    u = p.defs["alloc_tree"]["unit"]
    CELL = ("G", u, "gc_inhibited")
    # what inhibit/enable do to their counter
    counters = set()
    for n, d in (("inhibit_gc", 1), ("enable_gc", -1)):
        fl = EvalFlow(p, unroll=1)
        fl.unit = u
        for o in run_self(fl, n, u, (), State()):
            o.fl = fl
            st = [(c, v) for c, v in o.st.env.items() if c[0] == "G"]
            if d == 1:
                ok = len(st) == 1 and st[0][1] == ("op", "+", ("g0", st[0][0][1], st[0][0][2]), ("i", 1))
                ctx.check(ok, "pause-nests", n, p.units[u][n]["loc"], lambda: "stores %s" % [w.sh(v) for c, v in st])
                counters |= {c for c, v in st}
            else:
                if not st:
                    # only when there is nothing to resume
                    z = [f for f, v in o.st.facts.items() if f[0] == "val" and v == ("in", frozenset([0]))]
                    ctx.check(bool(z) and all(("G",) + f[1][1:] in counters for f in z), "pause-nests",
                              n + " (no pause)", p.units[u][n]["loc"], "a path resumes nothing")
                    continue
                ok = len(st) == 1 and st[0][0] in counters and \
                    st[0][1] == ("op", "+", ("g0", st[0][0][1], st[0][0][2]), ("i", -1))
                ctx.check(ok, "pause-nests", n, p.units[u][n]["loc"], lambda: "stores %s" % [w.sh(v) for c, v in st])
        w.note(fl)
    if len(counters) != 1:
        return ctx.fail("pause-nests", "counter", p.units[u]["inhibit_gc"]["loc"], "there is no single counter: %s" % counters)
    C = next(iter(counters))
    cname = C[2]
    readers = {(v, n) for v in p.units for n, f in p.units[v].items() if any(x[1] == cname for x in nodes(f["body"], "g"))}
    guards = reaching(g, readers)
    # functions that reclaim objects
    frees = set()
    for n, f in p.units[u].items():
        calls = [c for c in nodes(f["body"], "call") if c[1][0] == "f" and c[1][1] == "free"]
        if calls:
            frees.add((u, n))
    if not frees:
        raise Limit("nothing is reclaimed in " + u)
    reclaim = reaching(g, frees) & {(u, n) for n in p.units[u]}
    leafs = {f for f in reclaim if f not in guards}
    n = 0
    inits = State()
    for f in sorted(reclaim - leafs):
        if p.units[f[0]][f[1]]["static"] and f not in readers and any(f in g[x] for x in reclaim - leafs):
            continue
        op = {x[1]: o_effect for x in leafs}
        for (v, x) in graph_unit(p, u):
            if (v, x) not in reclaim:
                op[x] = o_effect
        for k in ("alloc_tree", "tree_make"):
            op.pop(k, None)
        fl = EvalFlow(p, opaque=op, unroll=1)
        fl.unit = u
        fl.special.pop("alloc_tree", None)
        for o in run_self(fl, f[1], u, tuple(("p", pr[1]) for pr in p.units[u][f[1]]["params"]), State()):
            o.fl = fl
            for e in o.st.trace:
                if e[0] == "call" and (u, e[1]) in leafs:
                    n += 1
                    d = o.st.facts.get(("val", ("g0", C[1], cname)))
                    ctx.check(d == ("in", frozenset([0])), "collects-unpaused", "%s: %s" % (f[1], e[1]), e.loc,
                              "reclaims although the collector may be paused")
        w.note(fl)
    if not n:
        ctx.limit("no path reclaims anything")


def graph_unit(p, u):
    return {(u, n) for n in p.units[u]}


def allocating(p, g):
    d = p.defs["alloc_tree"]
    return reaching(g, {(d["unit"], "alloc_tree")})


def probe(w, u, n, watch, st=None, opaque=None, what=None, **kw):
    """Outcomes of a function; `watch`ed calls are recorded with the depth."""
    p = w.p
    seen = []

    def h(fl, name, args, st, loc, e):
        x = ev(loc, "at", name, st.env.get(DEPTH, D0)[1], bool(what) and any(mention_kind(a, what) for a in args))
        late = st.trace[max([i for i, y in enumerate(st.trace) if y[0] == "store"] or [0]):]
        if x not in late or x[3]:
            st = fl.emit(st, x)
        r = o_pure(fl, name, args, st, loc, e)
        if name in p.defs or p.lookup(u, name):
            f = p.lookup(u, name)
            if f["noreturn"]:
                return []
        return r
    op = {x: h for x in watch}
    op.update(opaque or {})
    op.update(PAUSE)
    op.pop(n, None)
    fl = EvalFlow(p, opaque=op, unroll=1, transparent=(n,), record=lambda e: e[0] in ("at", "store") and
                  (e[0] == "at" or e[1] == w.CURCELL),
                  coarse={DEPTH, w.CURCELL}, **kw)
    fl.unit = u
    args = tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in p.units[u][n]["params"])
    outs = run_self(fl, n, u, args, st or start(fl))
    w.note(fl)
    for o in outs:
        o.fl = fl
    return outs


def direct_callers(p, name):
    return [(u, n) for u in p.units for n, f in p.units[u].items()
            if any(c[1][0] == "f" and c[1][1] == name for c in nodes(f["body"], "call"))]


def quiet(p, u, keep, g, need):
    """Opaque handlers for the functions that don't matter to a probe."""
    return {c: o_pure for v in p.units for c, d in p.units[v].items()
            if (v, c) not in need and c not in keep and not d["noreturn"] and c not in INTRINSICS
            and (v == u or not d["static"])}


def climb(p, g, name):
    """Where to look at a call from: the function that makes it or, if that
    one doesn't pause the collector but is a helper of others in its file that
    do, these.  [(unit, function, functions in between)]"""
    pausing = reaching(g, {("gc.c", "inhibit_gc")}, {("evaluate.c", "__evaluate_1"), ("evaluate.c", "__evaluate")})
    out = {}
    for f in direct_callers(p, name):
        work = [(f, frozenset([f]))]
        while work:
            x, path = work.pop()
            up = [c for c in g if x in g[c] and c[0] == x[0] and c not in path]
            if x in pausing or not p.units[x[0]][x[1]]["static"] or not up or x[1] in address_taken(p, x[0]):
                out[x] = out.get(x, frozenset()) | path
            else:
                work.extend((c, path | {c}) for c in up)
    return [(u, n, path) for (u, n), path in sorted(out.items())]


def parsers(ctx, w):
    p = w.p
    g = graph(p, p.units)
    ps = [n for n in p.defs if n in ("cscriptparse", "replparse")]
    if len(ps) != 2:
        raise Limit("the parsers have disappeared")
    for ps_n in ps:
        # every call chain that leads to the parser, from the first function
        # that pauses or isn't a mere helper
        cs = climb(p, g, ps_n)
        for u, n, path in cs:
            need = reaching(g, {("gc.c", "inhibit_gc"), ("gc.c", "enable_gc")}) | path
            need = {x for x in need if x[0] == u and reaches(g, (u, n), x)}
            hits = 0
            for o in probe(w, u, n, [ps_n], opaque=quiet(p, u, {ps_n, n, "inhibit_gc", "enable_gc"}, g, need)):
                for e in o.st.trace:
                    if e[0] == "at" and e[1] == ps_n:
                        hits += 1
                        ctx.check(e[2] > 0, "paused-for", "%s in %s" % (ps_n, n), e.loc,
                                  "parses while the collector may run")
            if not hits:
                ctx.limit("%s: no path calls %s" % (n, ps_n))


def reaches(g, a, b):
    seen, work = {a}, [a]
    while work:
        x = work.pop()
        if x == b:
            return True
        for y in g.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return False


def native(ctx, w):
    p = w.p
    g = graph(p, p.units)
    al = allocating(p, g)
    cs = climb(p, g, "ffi_call")
    if not cs:
        raise Limit("ffi_call has disappeared")
    for u, n, path in cs:
        watch = ["ffi_call"] + sorted({c for f in path for c in callees(p, u, p.units[u][f[1]])
                                       if any((v, c) in al for v in p.units) and c not in PAUSE
                                       and (u, c) not in path})
        hits = 0
        outs = probe(w, u, n, watch, opaque=quiet(p, u, set(watch) | {n, "inhibit_gc", "enable_gc"}, g, path))
        for o in outs:
            tr = [e for e in o.st.trace if e[0] == "at"]
            calls = [i for i, e in enumerate(tr) if e[1] == "ffi_call"]
            for i in calls:
                hits += 1
                for e in tr[:i + 1]:
                    ctx.check(e[2] > 0, "paused-for", "%s in %s" % (e[1], n), e.loc,
                              "what the native call refers to may be reclaimed")
        if not hits:
            ctx.limit("%s: no path makes the call" % n)


def returned(ctx, w):
    """A value that belongs to a scope which has been left."""
    p = w.p
    g = graph(p, p.units)
    al = allocating(p, g)
    u = "evaluate.c"
    fns = [n for n, f in p.units[u].items()
           if any(c[1][0] == "f" and "setjmp" in c[1][1] for c in nodes(f["body"], "call"))]
    if not fns:
        raise Limit("no function catches return statements")
    for n in fns:
        cur = {x for x in reaching(g, {(u, f) for f, d in p.units[u].items() if any(
            a[1][0] == "g" and a[1][1] == "cur_ctx" for a in nodes(d["body"], "asg"))},
            {(u, "__evaluate_1"), (u, "__evaluate")}) if x[1] not in ("__evaluate_1", "__evaluate")}
        watch = [c for c in callees(p, u, p.units[u][n]) if any((v, c) in al for v in p.units)
                 and (u, c) not in cur and c not in PAUSE]
        st = start(None)
        st.facts[("ty", w.CUR)] = frozenset([w.tt["E_CTX"]])
        outs = probe(w, u, n, watch, st, opaque=quiet(p, u, set(watch) | {n, "inhibit_gc", "enable_gc"}, g, cur | {(u, n)}),
                     what="retval")
        hits = 0
        for o in outs:
            left = False
            late = []
            val = None
            for e in o.st.trace:
                if e[0] == "store":
                    left = e[2] == w.CUR
                elif left:
                    late.append(e)
            uses = [i for i, e in enumerate(late) if e[3]]
            if uses:
                hits += 1
                for e in late[:uses[-1] + 1]:
                    ctx.check(e[2] > 0, "paused-for", "%s in %s" % (e[1], n), e.loc,
                              "the returned value's storage may be reclaimed before it has been copied")
        if not hits:
            ctx.notes.append("%s copies no value after leaving its scope" % n)
            ctx.ok("paused-for", n + " (nothing to copy)")


def mention_kind(v, k):
    if isinstance(v, tuple):
        return bool(v) and v[0] == k or any(mention_kind(x, k) for x in v)
    return False
