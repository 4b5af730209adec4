"""What is reachable is kept."""
from world import *
from oblig import spread
from heap import *
from prog import walk, nodes

TREE = "struct tree *"


def run(ctx):
    p = ctx.prog
    for n in ("alloc_tree", "mark_object", "mark_tree"):
        if n not in p.defs:
            raise Limit("anchor %s has disappeared" % n)
    ctx.rule("members-marked", "marking an object of a tree type marks it, the file of its location, and every tree "
             "its members refer to; marking a list marks each of its elements")
    ctx.rule("trees-seen", "objects are referred to by nothing but variables and members that are declared as trees")
    ctx.rule("members-apart", "two members of one tree type don't share their storage")
    ctx.rule("static-roots", "every variable with static storage that refers to an object is registered with the collector")
    ctx.rule("stack-scanned", "marking starts from every word between the stack's beginning and the collector's own frame")
    ctx.rule("cycle", "one collection keeps what can be reached from the stack and the registered variables, releases "
             "the rest once, and leaves the marks and the table ready for the next")
    jobs = [(f.__name__, lambda f=f: f(ctx, p)) for f in (members, apart, seen, statics, stack, cycle)]
    spread(ctx, jobs)
    ctx.need("members-marked", 80)
    ctx.need("members-apart", 40)
    ctx.need("static-roots", 8)
    ctx.need("stack-scanned", 4)
    ctx.need("cycle", 4)


def tree_fields(p):
    """type -> storage members of that type which are trees."""
    kinds = {f[0]: f[1] for f in p.recs["tree_data"]["fields"]}
    out = {n: {} for n in p.tree_types}
    for acc, (t, m) in p.acc.items():
        if m not in kinds:
            raise Limit("accessor %s names no storage" % acc)
        if kinds[m] in (TREE, "tree"):
            out[t][m] = acc
    return out


def h_mark(fl, name, args, st, loc, e):
    return [(("void",), fl.emit(st, ev(loc, "mark", args[0])))]


def show(v, names):
    return names.get(v, str(v))


def members(ctx, p):
    """Marking is an induction: each object marks what it refers to."""
    fields = tree_fields(p)
    obj = ("p", "obj")
    d = p.defs["mark_object"]
    mt = p.defs["mark_tree"]
    # mark_tree: an object's file, and the object
    fl = HeapFlow(p, mt["unit"], opaque={"mark_object": h_mark}, unroll=1)
    outs = fl.run("mark_tree", (obj,))
    own = []
    ctx.states += fl.steps
    for o in outs:
        null = fl.tyset(obj, o.st) == frozenset([NULL]) or o.st.facts.get(("val", obj)) == ("in", frozenset([0]))
        marked = {e[1] for e in o.st.trace if e[0] == "mark"}
        ctx.check(o.kind == "ret" and (null or obj in marked), "members-marked", "mark_tree", mt["loc"],
                  "a path through mark_tree doesn't mark the tree")
        if not null:
            own.append(("ld", obj, "locus.file") in marked or
                       isnull(fl, ("ld", obj, "locus.file"), o.st))
    by_tree = all(own)
    fl = HeapFlow(p, d["unit"], rank={obj: 1}, opaque={"mark_object": h_mark, "mark_tree": h_mark}, unroll=2)
    f = p.lookup(d["unit"], "mark_object")
    fl.special.pop("mark_object")
    st = State()
    fl.stack.append({"name": "", "unit": d["unit"], "loc": ""})
    fl.outcomes_dead = []
    fl.special["mark_object"] = h_mark
    outs = [Outcome("ret", v, s) for v, s in fl.inline(f, (obj,), st, "")] + fl.outcomes_dead
    ctx.states += fl.steps
    ctx.functions |= fl.fns | {"mark_object", "mark_tree"}
    seen = set()
    for o in outs:
        ts = fl.tyset(obj, o.st)
        if ts == frozenset([NULL]):
            continue
        ts = ts - {NULL}
        if o.kind != "ret":
            for t in ts:
                ctx.fail("members-marked", p.type_names[t], o.loc, "marking ends the program")
            continue
        r0 = ("ld", obj, "reachable")
        if fl_nonzero(r0, o.st):
            continue                    # marked before
        marked = {e[1] for e in o.st.trace if e[0] == "mark"}
        r = o.st.env.get(("F", obj, "reachable"))
        for t in sorted(ts):
            n = p.type_names[t]
            seen.add(n)
            ok = r is not None and r[0] == "i" and r[1] != 0
            ctx.check(ok, "members-marked", n + ": the object", d["loc"], "the object isn't marked itself")
            if not by_tree:
                x = ("ld", obj, "locus.file")
                ctx.check(x in marked or isnull(fl, x, o.st), "members-marked", n + ": file of the location",
                          d["loc"], "the name of the file it comes from isn't marked")
            for m, acc in sorted(fields[n].items()):
                x = ("ld", obj, m)
                ctx.check(x in marked or isnull(fl, x, o.st), "members-marked",
                          "%s: %s" % (n, acc), d["loc"],
                          "marking a %s doesn't mark its %s: what only that member refers to is released" % (n, acc))
            if n == "CHAIN_HEAD":
                ends = [k for k in o.st.facts if k[0] == "end"]
                els = [x for x in marked if x[0] == "elem"]
                n_el = sum(1 for k, v in o.st.facts.items() if k[0] == "end" and v is False)
                ctx.check(len(els) >= n_el and (n_el or els or any(v for k, v in o.st.facts.items() if k[0] == "end")),
                          "members-marked", "CHAIN_HEAD: %d elements" % n_el, d["loc"],
                          "marking a list doesn't mark each of its elements (%s)" % (o.st.facts,))
    for n in p.tree_types:
        ctx.check(n in seen, "members-marked", n, d["loc"], "no path of mark_object marks a %s" % n)


def isnull(fl, v, st):
    return fl.tyset(v, st) == frozenset([NULL]) or st.facts.get(("val", v)) == ("in", frozenset([0]))


def fl_nonzero(v, st):
    d = st.facts.get(("val", v))
    return bool(d) and ((d[0] == "in" and 0 not in d[1]) or (d[0] == "notin" and 0 in d[1]))



def apart(ctx, p):
    size = {f[0]: (f[2], f[3]) for f in p.recs["tree_data"]["fields"]}
    by = {}
    for acc, (t, m) in sorted(p.acc.items()):
        by.setdefault(t, []).append((acc, size[m]))
    for t, l in sorted(by.items()):
        for k, (a, (o, n)) in enumerate(l):
            for b, (o2, n2) in l[:k]:
                ctx.check(o + n <= o2 or o2 + n2 <= o, "members-apart", "%s: %s, %s" % (t, b, a), "tree-access.h",
                          "the two members use the same storage")
        ctx.ok("members-apart", t)


# functions outside the program that don't keep what they are given
TRANSIENT = set("""memcpy memmove memcmp memset __builtin_memcpy bsearch qsort free calloc realloc fprintf printf snprintf
sprintf __builtin_constant_p __builtin_expect""".split())
OBJECT = (TREE, "struct gc_obj *", "tree", "gc_obj", "volatile tree")


def seen(ctx, p):
    """An object reference only ever has a type the collector knows."""
    fl = Flow(p, "evaluate.c")
    gcu = p.defs["alloc_tree"]["unit"]
    n = 0
    for r, rec in sorted(p.recs.items()):
        for f in rec["fields"]:
            if f[1] in OBJECT and f[1] != "struct gc_obj *":
                n += 1
                # the parsers' semantic values: only while the collector is paused
                ok = r in ("tree_data", "tree_locus") or r.endswith("STYPE")
                ctx.check(ok or not in_heap(p, r), "trees-seen", "member %s of struct %s" % (f[0], r), r,
                          "objects are referred to from memory the collector doesn't trace")
    for u, fns in sorted(p.units.items()):
        for name, f in sorted(fns.items()):
            for c in nodes(f["body"], "call"):
                callee = c[1][1] if c[1][0] == "f" else None
                g = p.lookup(u, callee) if callee else None
                for k, a in enumerate(c[2]):
                    if fl.etype(a) not in OBJECT:
                        continue
                    n += 1
                    if g and k < len(g["params"]) and (g["params"][k][-1] in OBJECT or u == gcu):
                        continue
                    if not g and (callee in TRANSIENT or callee is None and "tree" in str(fl.etype(c[1]))):
                        continue
                    if callee == "ffi_prep_closure_loc":
                        native(ctx, p, u, name, c)
                        continue
                    ctx.fail("trees-seen", "%s: argument %d of %s" % (name, k + 1, callee or "a call"), c[3],
                             "a reference to an object is handed over as something the collector doesn't trace")
            for c in nodes(f["body"], "asg"):
                if fl.etype(c[2]) in OBJECT:
                    n += 1
                    if c[3] not in OBJECT and u != gcu:
                        ctx.fail("trees-seen", "%s: assignment" % name, c[4],
                                 "a reference to an object is stored as %s, which the collector doesn't trace" % c[3])
    for k in range(0, n, 50):
        ctx.ok("trees-seen", "references %d to %d" % (k + 1, min(k + 50, n)))


def in_heap(p, rec):
    """Is the record used other than as a local variable?"""
    for u, gl in p.globals.items():
        for n, g in gl.items():
            if "struct " + rec in g["type"]:
                return True
    for u, fns in p.units.items():
        for n, f in fns.items():
            for c in nodes(f["body"], "asg"):
                if c[3] == "struct %s *" % rec and nodes(c[2], "call"):
                    return True
            for d in nodes(f["body"], "dcl"):
                for v, init, static, ext in d[2]:
                    if v[3] == "struct %s *" % rec and init and nodes(init, "call"):
                        return True
    return False


def native(ctx, p, u, name, call):
    """What a native entry point refers to stays reachable: it is in a list that is a root."""
    f = p.units[u][name]
    got = []

    def h(fl, nm, args, st, loc, e):
        got.append((args, st))
        return [(("i", 0), st)]
    from ceval import EvalFlow
    fl = EvalFlow(p, opaque={"ffi_prep_closure_loc": h}, unroll=1, coarse={("G", "", "")}, record=lambda e: e[0] == "list")
    fl.unit = u
    fl.run(name, tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in f["params"]), State())
    ctx.states += fl.steps
    ctx.functions |= fl.fns
    roots = registered(p)
    for args, st in got:
        data = [a for a in args if a[0] == "new"]
        ok = False
        for a in data:
            for e in st.trace:
                if e[0] == "list" and e[2][0] == a and len(e[2]) > 1:
                    head = e[2][1]
                    held = [c for c, v in st.env.items() if c[0] == "G" and v == head]
                    if head[0] == "g0":
                        held.append(("G",) + head[1:])
                    if any(c[2] in roots for c in held):
                        ok = True
        ctx.check(ok, "trees-seen", "%s: data of a native entry point" % name, call[3],
                  "an entry point is created for an object that no registered list holds: it is released while "
                  "native code can still call it")
    ctx.check(bool(got), "trees-seen", name + ": entry point", call[3], "never reached")


def registered(p):
    """Names of the variables whose address is in the section the collector walks."""
    sec = section(p)
    out = set()
    for u, gl in p.globals.items():
        for n, g in gl.items():
            if g.get("section") == sec and g.get("init"):
                out |= {x[1] for x in nodes(g["init"], "g")}
    return out


def section(p):
    """The section the collector takes its roots from."""
    u = p.defs["alloc_tree"]["unit"]
    names = {n[len("__start_"):] for n in p.globals[u] if n.startswith("__start_")}
    if len(names) != 1:
        raise Limit("the collector's section isn't known")
    return next(iter(names))


def statics(ctx, p):
    sec = section(p)
    reg = {}
    for u, gl in sorted(p.globals.items()):
        for n, g in gl.items():
            if g.get("section") == sec and g.get("init"):
                for x in nodes(g["init"], "g"):
                    reg.setdefault(x[1], set()).add(u)
    if not reg:
        raise Limit("no variable is registered with the collector")
    for u, gl in sorted(p.globals.items()):
        for n, g in sorted(gl.items()):
            if g.get("section") == sec or g.get("extern") or TREE not in g["type"] or n.startswith("__st"):
                continue
            simple = g["type"] in (TREE, "volatile " + TREE, TREE + "volatile", TREE + "const")
            ok = n in reg and (u in reg[n] or not g.get("static"))
            ctx.check(ok and simple, "static-roots", "%s: %s" % (u, n), g["loc"],
                      "the variable refers to objects, and the collector doesn't know it: what only it refers to is released")
        for name, f in sorted(p.units[u].items()):
            for d in nodes(f["body"], "dcl"):
                for v, init, static, ext in d[2]:
                    if static and TREE in v[3] and not f["inline"]:
                        n = "%s.%s" % (name, v[1])
                        ctx.check(n in reg or v[1] in reg, "static-roots", "%s: %s" % (u, n), d[1],
                                  "a static variable refers to objects, and the collector doesn't know it")


# ------------------------------------------------------------------ a heap
SLOTS = ("p", "allocs")
STK = ("p", "stack")
SEC = ("p", "section")


class Heap:
    """A heap with the given objects; runs functions of the collector on it."""

    def __init__(self, p, objs, order, static=(), stack=(), room=64):
        self.p, self.objs = p, objs
        d = p.defs["alloc_tree"]
        self.u = u = d["unit"]
        sec = section(p)
        rank = {("p", n): 1000 * (k + 1) for k, n in enumerate(sorted(objs))}
        rank[("p", "stray")] = 1500
        tops = [n for n in p.globals[u] if "top" in n and "stack" in n]
        place = {"__start_" + sec: (("X", SEC, ("i", 0)), None),
                 "__stop_" + sec: (("X", SEC, ("i", len(static))), None)}
        # where the collector's own frame is: the locals whose address it uses as an end of the stack
        for n, f in p.units[u].items():
            if any(x[1] == "top_of_stack" for x in nodes(f["body"], "g")):
                for a in nodes(f["body"], "addr"):
                    if a[1][0] == "v":
                        place[a[1][1]] = (("X", STK, ("i", 0)), n)
        self.fl = HeapFlow(p, u, rank=rank, place=place, bases=(SLOTS, STK, SEC), rec_limit=30,
                           opaque={"__builtin_frame_address": lambda fl, n, a, s, l, e: [(("pl", ("X", STK, ("i", 0))), s)]})
        self.fl.special["mark_stack_base"] = None
        st = State()
        for g in ("allocs", "alloc_ptr", "alloc_array_sz"):
            if g not in p.globals[u]:
                raise Limit("anchor %s has disappeared" % g)
        for n, g in p.globals[u].items():
            if g.get("init") and g["init"][0] == "i":
                st.env[self.cell(n)] = ("i", g["init"][1])
            elif g.get("static"):
                st.env[self.cell(n)] = ("i", 0)
        st.env[self.cell("allocs")] = SLOTS
        st.env[self.cell("alloc_ptr")] = ("i", len(order))
        st.env[self.cell("alloc_array_sz")] = ("i", room)
        for k in range(room):
            st.env[("X", SLOTS, ("i", k))] = ("p", order[k]) if k < len(order) and order[k] else ("i", 0)
        for n, (ty, fields) in objs.items():
            o = ("p", n)
            st.env[("F", o, "type")] = ("i", p.tree_types[ty])
            st.env[("F", o, "reachable")] = ("i", 0)
            st.env[("F", o, "locus.file")] = ("i", 0)
            for f in p.recs["tree_data"]["fields"]:
                if f[1] == TREE:
                    st.env[("F", o, f[0])] = ("i", 0)
            for acc, x in fields.items():
                f = "locus.file" if acc == "file" else p.acc[acc][1]
                st.env[("F", o, f)] = ("p", x)
        for k, v in enumerate(static):
            c = ("G", "", "var%d" % k)
            st.env[("X", SEC, ("i", k))] = ("pl", c)
            st.env[c] = ("p", v) if v else ("i", 0)
        st.env[("X", STK, ("i", 0))] = ("undef", "bottom")
        for k, v in enumerate(stack):
            st.env[("X", STK, ("i", k + 1))] = ("p", v) if v else ("i", 0)
        st.env[("G", "", "top_of_stack")] = ("pl", ("X", STK, ("i", len(stack))))
        self.st = st

    def cell(self, n):
        g = self.p.globals[self.u][n]
        return ("G", self.u if g.get("static") else "", n)

    def call(self, fn, args=()):
        fl = self.fl
        self.st.trace = ()
        outs = fl.run(fn, args, self.st, unit=self.u)
        if not outs:
            return None
        if len(outs) != 1:
            raise Limit("%s has %d outcomes on a heap that is known" % (fn, len(outs)))
        o = outs[0]
        self.st = o.st
        return o

    def table(self):
        n = self.st.env[self.cell("alloc_ptr")][1]
        return [self.st.env.get(("X", SLOTS, ("i", k)), ("i", 0)) for k in range(n)]

    def released(self):
        out = []
        for e in self.st.trace:
            if e[0] == "call" and e[1] == "free":
                out.append(e[2][0][1])
        return out

    def reach(self, roots):
        out, work = set(), list(roots)
        while work:
            x = work.pop()
            if x in out or x not in self.objs:
                continue
            out.add(x)
            work += list(self.objs[x][1].values())
        return out


def collector(p):
    """The function that performs one collection: it calls what scans the stack and what releases."""
    u = p.defs["alloc_tree"]["unit"]
    from balance import graph, reaching
    g = graph(p, [u])
    scans = {(u, n) for n, f in p.units[u].items() if any(x[1] == "top_of_stack" for x in nodes(f["body"], "g"))}
    frees = {(u, n) for n, f in p.units[u].items() if any(c[1][1] == "free" for c in nodes(f["body"], "call"))}
    both = reaching(g, scans) & reaching(g, frees)
    lowest = [f for f in both if not any(x in both for x in g[f])]
    if len(lowest) != 1:
        raise Limit("no single function performs a collection: %s" % sorted(both))
    return lowest[0]


LEAF = ("T_BREAK", {})


def stack(ctx, p):
    u, col = collector(p)
    loc = p.units[u][col]["loc"]
    objs = {n: LEAF for n in "abcdef"}
    for n in range(1, 6):
        h = Heap(p, objs, list("abcdef"), stack=["stray", "a", None, "b", "c"][:n])
        if h.call(col) is None:
            ctx.fail("stack-scanned", "%d words" % n, loc, "the collection doesn't end")
            continue
        want = set(["stray", "a", None, "b", "c"][:n]) & set(objs)
        kept = {x[1] for x in h.table() if x != ("i", 0)}
        ctx.check(want <= kept, "stack-scanned", "%d words" % n, loc,
                  lambda: "an object that is only referred to from the stack is released: %s" % sorted(want - kept))
    # registers are on the stack by then
    fl = HeapFlow(p, u, opaque={})
    names = {c[1][1] for n, f in p.units[u].items() for c in nodes(f["body"], "call") if c[1][0] == "f"}
    ctx.check(names & {"__builtin_unwind_init", "_setjmp", "setjmp", "__sigsetjmp", "getcontext"}, "stack-scanned",
              "registers", loc, "the registers aren't saved where the scan of the stack sees them")
    # the beginning of the stack
    from balance import graph, reaching
    g = graph(p, p.units)
    alloc = reaching(g, {(p.defs["alloc_tree"]["unit"], "alloc_tree")})
    mu = p.defs["main"]["unit"]
    order = []

    def watch(fl, name, args, st, loc, e):
        return [(("r", name, (), 0), fl.emit(st, ev(loc, "uses", name)))]
    op = {n: watch for (v, n) in alloc if n != "main"}
    op.update({n: watch for v in p.units for n in p.units[v] if v != mu and n not in INTRINSICS})
    fl = Flow(p, mu, opaque=op, unroll=1, record=lambda e: True)
    outs = fl.run("main", (("p", "argc"), ("p", "argv")), State())
    outs = outs or []
    ctx.states += fl.steps
    for o in outs + fl.outcomes_dead:
        at = None
        for k, e in enumerate(o.st.trace):
            if e[0] == "store" and e[1] == ("G", "", "top_of_stack"):
                at = k
                ctx.check(e[2][0] == "pl" and e[2][1][0] == "L", "stack-scanned", "beginning", e.loc,
                          "the stack's beginning isn't the place of a variable of main")
            if e[0] == "uses" and e[1] in op and any(n == e[1] for (v, n) in alloc):
                ctx.check(at is not None, "stack-scanned", "beginning before " + e[1], e.loc,
                          "objects are allocated before the collector knows where the stack begins")


def cycle(ctx, p):
    u, col = collector(p)
    loc = p.units[u][col]["loc"]
    tree = {"a": ("T_ADD", {"tADD_LHS": "b", "tADD_RHS": "c"}), "b": ("T_NEGATE", {"tNEGATE_EXP": "d", "file": "g"}),
            "c": LEAF, "d": LEAF, "e": ("T_IF", {"tIF_COND": "f", "tIF_ELSE_STMTS": "d"}), "f": LEAF, "g": LEAF,
            "h": ("T_SUB", {"tSUB_LHS": "h2"}), "h2": LEAF}
    every = sorted(tree)
    worlds = [("nothing is reachable", every, [None], ["stray"]),
              ("from a variable", every, [None, "a"], []),
              ("from the last variable", every, ["stray", None, "e"], []),
              ("from the stack", every[::-1], [], ["stray", "e", "c"]),
              ("from both, in a table with gaps", ["f", None, "a", None, None, "e", "h", "b", "c", "d", "g", "h2", None],
               [None, "h"], ["a"]),
              ("everything", every, ["a", "e"], ["h"]),
              ("an empty table", [], ["stray"], ["stray"])]
    for title, order, static, stk in worlds:
        with ctx.guarded("cycle: " + title):
            objs = {n: tree[n] for n in tree if n in order}
            h = Heap(p, objs, order, static, stk)
            if not one(ctx, h, col, title, static, stk, loc):
                continue
            # the next collection, after the first root is gone and an object has come
            st = h.st
            left = {n for n in objs if ("p", n) in h.table()}
            k = len(h.table())
            o = h.call("alloc_tree")
            if o is None:
                ctx.fail("cycle", title + ": a new object", loc, "allocating doesn't end")
                continue
            ctx.check(o.val in h.table(), "cycle", title + ": a new object", p.defs["alloc_tree"]["loc"],
                      "a new object isn't in the collector's table")
            h.objs = {n: objs[n] for n in left}
            h.objs[o.val[1]] = LEAF
            h.st = h.st.copy()
            h.st.env[("F", o.val, "type")] = ("i", p.tree_types["T_BREAK"])
            for k in range(len(static)):
                h.st.env[("G", "", "var%d" % k)] = ("i", 0)
            one(ctx, h, col, title + ", then without the variables", [], stk, loc)
            ctx.states += h.fl.steps
            ctx.functions |= h.fl.fns


def one(ctx, h, col, title, static, stk, loc):
    before = {x[1] for x in h.table() if x != ("i", 0)}
    if h.call(col) is None:
        ctx.fail("cycle", title + ": ends", loc, "the collection doesn't end (it uses entries that are no objects)")
        return False
    keep = h.reach([x for x in list(static) + list(stk) if x in h.objs])
    rel = h.released()
    lost = sorted(set(rel) & keep)
    ctx.check(not lost, "cycle", title + ": kept", loc, "what is reachable is released: %s" % lost)
    twice = sorted(x for x in set(rel) if rel.count(x) > 1)
    ctx.check(not twice, "cycle", title + ": once", loc, "released more than once: %s" % twice)
    ctx.check(set(rel) - keep == before - keep, "cycle", title + ": released", loc,
              lambda: "what can't be reached isn't released, or what isn't an object is: %s" % sorted(set(rel) ^ (before - keep)))
    tab = [x[1] for x in h.table() if x != ("i", 0)]
    ctx.check(sorted(tab) == sorted(keep), "cycle", title + ": table", loc,
              lambda: "the table doesn't hold exactly the objects that are left: %s" % (tab,))
    marks = [n for n in keep if h.st.env.get(("F", ("p", n), "reachable")) != ("i", 0)]
    ctx.check(not marks, "cycle", title + ": marks", loc, "the mark is left on: %s" % marks)
    return True
