"""What an object owns is released with it, exactly once."""
from world import *
from oblig import spread
from heap import *
from ceval import EvalFlow
from compose import Front
from prog import walk, nodes
from gcmark import Heap, collector, registered, SLOTS, TREE
import heap

RELEASE = {"__mpz_struct[1]": "__gmpz_clear", "__mpf_struct[1]": "__gmpf_clear", "char *": "free",
           "ffi_closure *": "ffi_closure_free", "ffi_cif *": "free", "ffi_type **": "free",
           "struct _ffi_type **": "free"}
FRESH = set("malloc calloc realloc reallocarray strdup strndup ffi_closure_alloc aligned_alloc".split())


def owned(p):
    """type -> {member: (accessor, function that releases it)}"""
    kinds = {f[0]: f[1] for f in p.recs["tree_data"]["fields"]}
    out = {n: {} for n in p.tree_types}
    for acc, (t, m) in p.acc.items():
        r = RELEASE.get(kinds[m])
        if t == "E_ALLOC" and kinds[m] == "void *":
            r = "free"
        if r:
            out[t][m] = (acc, r)
    return out


def run(ctx):
    p = ctx.prog
    for n in ("alloc_tree", "tree_make"):
        if n not in p.defs:
            raise Limit("anchor %s has disappeared" % n)
    ctx.rule("released-with-object", "releasing an object releases each resource that objects of its type own, by the "
             "function that belongs to it, exactly once, then the object, and nothing else")
    ctx.rule("owned-once", "what is stored in a member that owns a resource is a resource of its own, which no other "
             "object owns and which nothing else releases")
    ctx.rule("copies-own-nothing", "an object is copied member by member only if its type owns nothing")
    ctx.rule("tracked", "every new object is cleared, has its type, is a list of its own, and is in the collector's "
             "table, however many there are")
    ctx.rule("recorded", "memory for a script's objects is recorded, once, with the context that is current, by its start")
    ctx.rule("numbers", "every integer the evaluator makes is initialised exactly once, before it is used")
    jobs = [(f.__name__, lambda f=f: f(ctx, p)) for f in (release, stores, copies, tracked, recorded)]
    for u in sorted(p.units):
        rel = makers(p, u)
        if u.endswith(("lex.c", "parser.c")):
            if u.endswith("parser.c"):
                jobs.append(("numbers of " + u, lambda u=u: scanned(ctx, p, u[:-len("parser.c")])))
            continue
        for n in sorted(rel):
            jobs.append(("numbers of " + n, lambda u=u, n=n, rel=rel: numbers(ctx, p, u, n, rel)))
    spread(ctx, jobs)
    ctx.need("released-with-object", 80)
    ctx.need("owned-once", 8)
    ctx.need("copies-own-nothing", 3)
    ctx.need("tracked", 10)
    ctx.need("recorded", 3)
    ctx.need("numbers", 10)


def release(ctx, p):
    u, col = collector(p)
    own = owned(p)
    names = {r for d in own.values() for a, r in d.values()} | {"free"}

    def h(fl, name, args, st, loc, e):
        return [(("void",), fl.emit(st, ev(loc, "call", name, args)))]
    for t in sorted(p.tree_types):
        h0 = Heap(p, {"o": (t, {})}, ["o"])
        for n in names:
            h0.fl.special[n] = h
        outs = h0.fl.run(col, (), h0.st, unit=u)
        ctx.states += h0.fl.steps
        ctx.functions |= h0.fl.fns
        o = ("p", "o")
        if not outs:
            ctx.fail("released-with-object", t, p.units[u][col]["loc"], "releasing the object doesn't end")
        for x in outs:
            got = []
            loc = p.units[u][col]["loc"]
            for e in x.st.trace:
                if e[0] == "call" and e[1] in names:
                    got.append((e[1], e[2][0]))
                    loc = e.loc or loc
                elif e[0] == "call" and e[1] not in names:
                    got.append((e[1], e[2][0] if e[2] else None))
            want = [("free", o)]
            for m, (acc, r) in own[t].items():
                v = ("ld", o, m)
                null = x.st.facts.get(("val", v)) == ("in", frozenset([0]))
                if not null:
                    want.append((r, v if r[:6] != "__gmpz" and r[:6] != "__gmpf" else ("pl", ("F", o, m))))
            lab = {("ld", o, m): acc for m, (acc, r) in own[t].items()}
            lab.update({("pl", ("F", o, m)): acc for m, (acc, r) in own[t].items()})
            lab[o] = "the object"

            def txt(l):
                return ", ".join("%s(%s)" % (f, lab.get(a, a)) for f, a in l) or "nothing"
            ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)), "released-with-object", t, loc,
                      lambda: "releases %s; an object of this type owns %s" % (txt(got), txt(want)))
            ctx.check(x.kind == "ret" and bool(got) and got[-1] == ("free", o), "released-with-object", t + ": order", loc,
                      lambda: "the object isn't released last: %s" % txt(got))


def target(lv, members):
    """The owned member an lvalue is, or None."""
    if lv[0] == "m" and lv[2] in members:
        return lv[2]
    return None


def from_alloc(x):
    """Is the expression a call to an allocating function?"""
    while x[0] in ("cast", "decay"):
        x = x[2] if x[0] == "cast" else x[1]
    return x[0] == "call" and x[1][0] == "f" and (x[1][1] in FRESH)


def stores(ctx, p):
    own = owned(p)
    members = {m for d in own.values() for m in d} - {m for m in () }
    members = {m for m in members if not m.startswith(("integer", "ffloat"))}
    sinks = {}
    n = 0
    for u, fns in sorted(p.units.items()):
        for name, f in sorted(fns.items()):
            if f["inline"] and u != "evaluate.c":
                continue
            sites = [a for a in nodes(f["body"], "asg") if target(a[1], members)]
            if not sites:
                continue
            if "parse" in name and u.endswith("parser.c"):
                for a in sites:
                    n += 1
                    semantic(ctx, p, u, name, f, a)
                continue
            n += len(sites)
            transfer(ctx, p, u, name, f, members, sinks, len(sites))
    # functions that take a resource over: what they are given
    done = set()
    work = dict(sinks)
    while work:
        (su, sn), pos = work.popitem()
        if (su, sn) in done:
            continue
        done.add((su, sn))
        users = [(u, n2, f) for u, fns in p.units.items() for n2, f in fns.items()
                 if any(c[1] == ["f", sn] or c[1][:2] == ["f", sn] for c in nodes(f["body"], "call"))
                 and p.lookup(u, sn) is p.units[su][sn]]
        for u, n2, f in sorted(users, key=lambda x: x[:2]):
            more = {}
            transfer(ctx, p, u, n2, f, members, more, 1, inline=set(k[1] for k in done))
            work.update({k: v for k, v in more.items() if k not in done})


def owns(p, own, cell, st, fl):
    """Is the cell a member that owns what it refers to?"""
    return any(cell[2] in own[p.type_names[t]] for t in fl.tyset(cell[1], st) - {NULL} if t in p.type_names)


def is_fresh(v):
    return v[0] == "r" and v[1] in FRESH


def made_fresh(p, u, v, cache):
    """Is a value returned by a function of the program a fresh allocation that nothing owns yet?"""
    if v[0] != "r" or v[1] not in [n for n in p.units[u]] + list(p.defs):
        return False
    g = p.lookup(u, v[1])
    if g is None:
        return False
    k = ("fresh", g["unit"], v[1])
    if k not in cache:
        cache[k] = False
        own = owned(p)
        fl = EvalFlow(p, opaque={}, unroll=1, ncap=9, coarse={("G", "", "")}, record=lambda e: e[0] in ("call", "own"))
        fl.unit = g["unit"]
        members = {m for d in own.values() for m in d}
        keep = fl.store

        def store(cell, x, st, loc, cty=None):
            if cell[0] == "F" and cell[2] in members:
                st = fl.emit(st, ev(loc, "own", cell, x))
            return keep(cell, x, st, loc, cty)
        fl.store = store
        outs = fl.run(v[1], tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in g["params"]), State(), unit=g["unit"])
        rets = [o for o in outs if o.kind == "ret"]
        cache[k] = bool(rets) and all(
            (is_fresh(o.val) or made_fresh(p, g["unit"], o.val, cache)) and
            not any(e[0] == "own" and e[2] == o.val or e[0] == "call" and e[1] in ("free", "realloc") and e[2][0] == o.val
                    for e in o.st.trace) for o in rets)
    return cache[k]


def transfer(ctx, p, u, name, f, members, sinks, nsites, inline=()):
    """Resources that one function stores in objects."""
    fl = EvalFlow(p, opaque={}, unroll=1, ncap=9, coarse={("G", "", "")}, record=lambda e: e[0] in ("call", "own"))
    fl.unit = u
    own = owned(p)
    base = fl.call

    def call(fv, args, st, e):
        nm = fv[1] if fv[0] == "fn" else None
        g = p.lookup(fl.cur_unit(), nm) if nm else None
        if nm in inline or nm not in fl.special and g is None:
            return base(fv, args, st, e)
        if g is not None and nm not in INTRINSICS and nm not in ("tree_check",) and not g["inline"]:
            if g.get("noreturn") or e[5]:
                return []
            k = ("call", nm, args)
            i = st.cnt.get(k, 0)
            st = st.copy()
            st.cnt[k] = min(i + 1, 9)
            return [(("r", nm, args, i), st)]
        return base(fv, args, st, e)
    fl.call = call
    keep = fl.store

    def store(cell, v, st, loc, cty=None):
        if cell[0] == "F" and cell[2] in members and owns(p, own, cell, st, fl):
            st = fl.emit(st, ev(loc, "own", cell, v))
        return keep(cell, v, st, loc, cty)
    fl.store = store
    args = tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in f["params"])
    outs = fl.run(name, args, State(), unit=u)
    ctx.states += fl.steps
    ctx.functions.add(name)
    for o in outs:
        mine = {}
        for e in o.st.trace:
            if e[0] != "own":
                continue
            v = e[2]
            if v == ("i", 0):
                continue
            if v in args:
                sinks[(u, name)] = args.index(v)
                mine.setdefault(v, []).append(e.loc)
                continue
            acc = e[1][2]
            ctx.check(is_fresh(v) or made_fresh(p, u, v, ctx.cache), "owned-once", "%s: %s" % (name, acc), e.loc,
                      "the object is made the owner of something that isn't a resource of its own")
            mine.setdefault(v, []).append(e.loc)
        for v, locs in mine.items():
            ctx.check(len(locs) == 1, "owned-once", "%s: one owner" % name, locs[-1], "two objects own the same resource")
        for e in o.st.trace:
            if e[0] == "call" and e[1] in ("free", "realloc", "ffi_closure_free") and e[2][0] in mine:
                ctx.fail("owned-once", "%s: released" % name, e.loc,
                         "a resource that an object owns, and that is released with the object, is released here as well")


def semantic(ctx, p, u, name, f, a):
    """A parser hands the text of a token over to an object."""
    sub = "%s: %s" % (u, a[1][2])
    rhs = a[2]
    # the semantic value of a token: the scanner makes a copy for each token
    texts = [m for m in nodes(rhs, "m")]
    if from_alloc(rhs):
        return ctx.ok("owned-once", sub)
    if not texts or rhs[0] != "ld":
        return ctx.fail("owned-once", sub, a[4], "the object is made the owner of something that isn't a resource of its own")
    member = texts[0][2]
    val = json_key(rhs)
    # nothing else in the same action uses the value
    act = action_of(f["body"], a)
    uses = sum(1 for x in nodes(act, "ld") if json_key(x) == val)
    ctx.check(uses == 1, "owned-once", sub + ": only use", a[4], "the token's text is used for something else as well")
    lex = u.replace("parser", "lex")
    n = 0
    for fn, g in sorted(p.units[lex].items()):
        for b in nodes(g["body"], "asg"):
            if b[1][0] == "m" and b[1][2] == member:
                n += 1
                ctx.check(from_alloc(b[2]), "owned-once", "%s: %s" % (lex, member), b[4],
                          "the token's text isn't a copy of its own")
    ctx.check(n > 0, "owned-once", sub + ": tokens", a[4], "no token has a text")


def json_key(x):
    import json
    return json.dumps(x)


def action_of(body, a):
    """The smallest block around the assignment."""
    best = [body]

    def go(x):
        if isinstance(x, list):
            if x and x[0] == "blk" and contains(x, a):
                best[0] = x
            for y in x:
                if isinstance(y, list):
                    go(y)
    go(body)
    return best[0]


def contains(x, a):
    if x is a:
        return True
    return isinstance(x, list) and any(contains(y, a) for y in x if isinstance(y, list))


def copies(ctx, p):
    """What alloc_copy_tree and tree_copy are applied to."""
    own = {p.tree_types[t] for t, d in owned(p).items() if d}
    rec = p.recs["tree"]["size"]
    w = None
    copiers = set()
    for u, fns in p.units.items():
        for n, f in fns.items():
            for c in nodes(f["body"], "call"):
                if c[1][0] == "f" and c[1][1] in ("memcpy", "__builtin_memcpy", "memmove"):
                    if c[2][2] == ["i", rec] or nodes(c[2][2], "i") and c[2][2][0] == "i" and c[2][2][1] == rec:
                        copiers.add(n)
    if not copiers:
        raise Limit("nothing copies objects")
    from balance import graph, reaching
    g = graph(p, p.units)
    direct = {(u, n) for u in p.units for n in p.units[u] if n in copiers}
    for u, fns in sorted(p.units.items()):
        for n, f in sorted(fns.items()):
            if f["inline"]:
                continue
            users = {x for x in g[(u, n)] if x[1] in copiers or any(y[1] in copiers for y in g.get(x, ())) and p.units[x[0]][x[1]]["inline"]}
            if not users or n in copiers:
                continue
            hits = []

            def h(fl, name, args, st, loc, e):
                hits.append((fl.tyset(args[1], st) - {NULL}, loc or where(fl)))
                return [(args[0], st)]
            fl = EvalFlow(p, opaque={"memcpy": h, "__builtin_memcpy": h, "memmove": h}, unroll=1, coarse={("G", "", "")},
                          record=lambda e: False, rec_limit=1)
            fl.unit = u
            from balance import run_self
            run_self(fl, n, u, tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in f["params"]), State())
            ctx.states += fl.steps
            ctx.functions.add(n)
            for ts, loc in hits:
                bad = sorted(p.type_names[t] for t in ts & own)
                ctx.check(not bad, "copies-own-nothing", n, f["loc"] if not loc else loc,
                          lambda: "an object of type %s, which owns what its members refer to, is copied with them: it "
                          "is then released twice" % bad[:4])


def where(fl):
    for fr in reversed(fl.stack):
        if fr["loc"]:
            return fr["loc"]
    return ""


def tracked(ctx, p):
    u = p.defs["alloc_tree"]["unit"]
    loc = p.defs["alloc_tree"]["loc"]
    for room in (2, 3):
        h = Heap(p, {"a": ("T_BREAK", {})}, ["a"], room=room)
        h.fl.rank = {("p", "a"): 1000}
        seen = [("p", "a")]
        for k in range(6):
            sub = "%d objects, room for %d" % (k + 2, room)
            o = h.call("alloc_tree")
            if o is None:
                ctx.fail("tracked", sub, loc, "allocating an object doesn't end")
                break
            seen.append(o.val)
            tab = h.table()
            ctx.check(tab == seen, "tracked", sub, loc, lambda: "the table holds %s instead of the objects made: %s" % (tab, seen))
            ctx.check(all(h.st.env.get(("F", o.val, f)) == ("i", 0) for f in ("type", "reachable", "chain.next", "locus.file")),
                      "tracked", sub + ": cleared", loc, "a new object isn't cleared")
            size = h.st.env.get(h.cell("alloc_array_sz"))
            got = h.st.env.get(("size", SLOTS))
            need = 8 * len(tab)
            if got is not None:
                ctx.check(got[0] == "i" and got[1] >= need and size[0] == "i" and got[1] >= 8 * size[1], "tracked",
                          sub + ": room", loc, lambda: "the table is said to hold %s objects, but has %s bytes" % (size, got))
            h.st = h.st.copy()
    # the first object of all
    h = Heap(p, {}, [], room=2)
    h.fl.rank = {}
    h.st.env[h.cell("allocs")] = ("i", 0)
    g = p.globals[u]["alloc_array_sz"]
    if g.get("init") and g["init"][0] == "i":
        h.st.env[h.cell("alloc_array_sz")] = ("i", g["init"][1])
    o = h.call("alloc_tree")
    base = h.st.env.get(h.cell("allocs"))
    first = h.st.env.get(("X", base, ("i", 0))) if base else None
    size = h.st.env.get(("size", base))
    ctx.check(o is not None and first == o.val, "tracked", "the first object", loc, "the first object isn't in the table")
    ctx.check(size is not None and size[1] >= 8 * h.st.env[h.cell("alloc_array_sz")][1], "tracked", "the first table", loc,
              lambda: "the table has %s bytes for %s objects" % (size, h.st.env[h.cell("alloc_array_sz")]))
    # tree_make
    h = Heap(p, {}, [], room=4)
    d = p.defs["tree_make"]
    outs = h.fl.run("tree_make", (("p", "type"),), h.st, unit=d["unit"])
    for o in outs:
        e = o.st.env
        ctx.check(e.get(("F", o.val, "type")) == ("p", "type"), "tracked", "tree_make: type", d["loc"],
                  "a new object doesn't have the type asked for")
        own = [e.get(("F", o.val, x)) for x in ("chain.next", "chain.prev")]
        ctx.check(own == [("pl", ("F", o.val, "chain"))] * 2, "tracked", "tree_make: list", d["loc"],
                  "a new object isn't a list of its own: %s" % (own,))
        ctx.check(("X", SLOTS, ("i", 0)) in e and e[("X", SLOTS, ("i", 0))] == o.val, "tracked", "tree_make: table", d["loc"],
                  "the object tree_make returns isn't in the table")
    ctx.check(len(outs) == 1, "tracked", "tree_make", d["loc"], "tree_make doesn't return")


def recorded(ctx, p):
    """Every block the evaluator allocates for a script's objects is recorded."""
    own = owned(p)
    mem = next(iter(own["E_ALLOC"]))
    cur = ("g0", "evaluate.c", "cur_ctx")
    chain = p.acc["tECTX_ALLOC_CHAIN"][1]
    places = {p.acc[a][1] for a in ("tLV_VAL", "tLV_COMP_BASE")}
    n = 0
    u = "evaluate.c"
    allocators = set()
    for name, f in sorted(p.units[u].items()):
        if any(c[1][0] == "f" and c[1][1] in ("malloc", "calloc", "realloc") for c in nodes(f["body"], "call")):
            allocators.add(name)
    for name in sorted(allocators):
        f = p.units[u][name]
        if name in taken(p, u):
            continue                        # handed to scripts as a function
        got = []
        op = {}
        for x in ("get_size_of_type", "get_array_size", "get_alignment_for_type"):
            if p.lookup(u, x):
                op[x] = opaque
        fl = EvalFlow(p, opaque=op, unroll=1, ncap=9, coarse={("G", "", "")}, transparent=("make_live_var", "alloc_struct", "alloc_array"),
                      record=lambda e: e[0] in ("call", "list", "own"))
        keep = fl.store

        def store(cell, v, st, loc, cty=None, fl=fl, keep=keep):
            if cell[0] == "F" and cell[2] == mem and tynew(p, cell[1], st) == "E_ALLOC":
                st = fl.emit(st, ev(loc, "own", cell, v))
            return keep(cell, v, st, loc, cty)
        fl.store = store
        outs = fl.run(name, tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in f["params"]), State(), unit=u)
        ctx.states += fl.steps
        ctx.functions |= fl.fns
        for o in outs:
            if o.kind != "ret":
                continue
            blocks = {("r",) + tuple(v[1:]) for v in values(o.st, o.val) if v[0] == "r" and v[1] in ("malloc", "calloc")}
            calls = [e for e in o.st.trace if e[0] == "call" and e[1] in ("malloc", "calloc")]
            rec = [e for e in o.st.trace if e[0] == "own"]
            listed = {e[2][0]: e[2][1] for e in o.st.trace if e[0] == "list" and len(e[2]) > 1}
            for e in calls:
                hit = [r for r in rec if is_fresh(r[2]) and r[2][1] == e[1] and r[2][2] == e[2]]
                n += 1
                ctx.check(len(hit) == 1, "recorded", name, e.loc,
                          "the memory is recorded %d times: it is %s" % (len(hit), "never released" if not hit else "released twice"))
                for r in hit:
                    head = listed.get(r[1][1])
                    ok = head == ("ld", cur, chain)
                    ctx.check(ok, "recorded", name + ": context", e.loc,
                              "the record isn't in the list of the current context (%s)" % (head,))


def taken(p, u):
    from balance import address_taken
    return address_taken(p, u)


def tynew(p, o, st):
    t = st.env.get(("F", o, "type"))
    return p.type_names.get(t[1]) if t and t[0] == "i" else None


def values(st, v):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "r":
                out.append(x)
            for y in x:
                go(y)
    for c, x in st.env.items():
        go(x)
    go(v)
    return out


def opaque(fl, name, args, st, loc, e):
    return [(("r", name, args, 0), st)]


# ------------------------------------------------------------------ numbers
def makers(p, u):
    """Functions of a unit that make or initialise integers themselves."""
    ty = p.tree_types["T_INTEGER"]
    out = set()
    for n, f in p.units[u].items():
        for c in nodes(f["body"], "call"):
            if c[1][0] != "f":
                continue
            if c[1][1].startswith("__gmpz_init") or c[1][1] == "tree_make" and c[2] and c[2][0][:2] == ["i", ty]:
                out.add(n)
    return out


def watch(p, fl, related, bad):
    """Follow the initialisation of integers."""
    base = fl.call

    def call(fv, args, st, e):
        nm = fv[1] if fv[0] == "fn" else None
        if nm and nm.startswith("__gmpz_"):
            for i, a in enumerate(args):
                c = fl.zcell(a)
                if c is None or c[0] != "F" or c[1][0] != "new":
                    continue
                k = ("initialised", c[1], c[2])
                if i == 0 and nm.startswith("__gmpz_init"):
                    if k in st.env:
                        bad.append((e[3], "initialised twice: what it holds is lost"))
                    st = st.copy()
                    st.env[k] = ("i", 1)
                elif k not in st.env:
                    bad.append((e[3], "used before it is initialised"))
        g = p.lookup(fl.cur_unit(), nm) if nm else None
        if g is not None and nm not in INTRINSICS and nm != "tree_check" and not g["inline"] and nm not in related \
                and nm not in fl.special:
            if g.get("noreturn") or e[5]:
                return []
            k = ("call", nm, args)
            i = st.cnt.get(k, 0)
            st = st.copy()
            st.cnt[k] = min(i + 1, 3)
            return [(("r", nm, args, i), st)]
        return base(fv, args, st, e)
    fl.call = call


def integers(p, st):
    """(place, initialised) of the integers made."""
    ty = p.tree_types["T_INTEGER"]
    m = next(iter(owned(p)["T_INTEGER"]))
    for c, v in list(st.env.items()):
        if c[0] == "F" and c[2] == "type" and c[1][0] == "new" and v == ("i", ty):
            yield c[1][1].split("|")[-1], ("initialised", c[1], m) in st.env


def numbers(ctx, p, u, name, related):
    """Integers are initialised once and before they are used."""
    helpers = set()
    for n, f in p.units[u].items():
        helpers |= {c[1][1] for c in nodes(f["body"], "call") if c[1][0] == "f" and n in related}
    bad = []
    fl = EvalFlow(p, opaque={}, unroll=1, ncap=1, saturate=1, coarse={("G", "", "")}, record=lambda e: False)
    fl.unit = u
    watch(p, fl, related, bad)
    f = p.units[u][name]
    outs = fl.run(name, tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in f["params"]), State(), unit=u)
    ctx.states += fl.steps
    ctx.functions |= fl.fns
    for o in outs:
        if o.kind != "ret" or name in helpers:
            continue
        bad += [(loc, "never initialised") for loc, done in integers(p, o.st) if not done]
    report(ctx, name, bad)


def report(ctx, name, bad):
    for loc, why in bad[:5]:
        ctx.fail("numbers", "%s: %s" % (name, why.split(":")[0]), loc, "an integer is " + why)
    if not bad:
        ctx.ok("numbers", name)


def scanned(ctx, p, target):
    """Integers the scanner and the semantic actions make."""
    front = Front(p, target, ctx.dir)
    g, lex = front.g, front.lex
    ty = p.tree_types["T_INTEGER"]
    n = 0
    for r in sorted(lex.index):
        if r > lex.nrules:
            continue
        fl = lex.flow(unroll=1, record=lambda e: e[0] == "init")

        def init(fl, name, args, st, loc, e):
            return [(("void",), fl.emit(st, ev(loc, "init", args[0])))]
        for f in list(fl.special):
            if f.startswith("__gmpz_init"):
                fl.special[f] = init
        body = [x for x in nodes(lex.items[lex.index[r]], "call") if x[1][0] == "f" and x[1][1].startswith("__gmpz_init")]
        for kind, val, st in lex.action(r, fl=fl):
            if kind != "r" or val[0] != "i":
                continue
            want = 1 if g.types.get(g.tok.get(val[1])) == "integer" else 0
            if not want and not body:
                continue
            inits = [e for e in st.trace if e[0] == "init" and "integer" in repr(e[1])]
            n += 1
            ctx.check(len(inits) == want, "numbers", "%s scanner: %s" % (target, g.tok.get(val[1])),
                      inits[-1].loc if inits else lex.fn["loc"],
                      "the integer of a token is initialised %d times" % len(inits))
    for r in sorted(g.index):
        if r not in g.rules:
            continue
        item = g.items[g.index[r]]
        if not any(True for c in nodes(item, "call") if c[1][0] == "f" and
                   (c[1][1] in makers(p, g.unit) or c[1][1].startswith("__gmpz_init") or
                    c[1][1] == "tree_make" and c[2] and c[2][0][:2] == ["i", ty])):
            continue
        bad = []
        fl = EvalFlow(p, opaque={}, unroll=1, ncap=1, coarse={("G", "", "")}, record=lambda e: False)
        fl.unit = g.unit
        watch(p, fl, makers(p, g.unit) - {g.fn["name"]}, bad)
        vals = [((("mpz", ("p", "$%d" % i)) if g.types[x] == "integer" else ("p", "$%d" % i)), ("loc", i))
                for i, x in enumerate(g.rules[r][1])]
        outs = g.reduce(fl, r, vals, State(), 0)
        ctx.states += fl.steps
        for v, st in outs:
            bad += [(loc, "never initialised") for loc, done in integers(p, st) if not done]
        n += 1
        report(ctx, "%s: %s" % (target, g.rule_name(r)), bad)
    if n < 3:
        raise Limit("no integers found in the %s front end" % target)
