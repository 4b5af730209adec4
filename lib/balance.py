"""Which functions leave a piece of the interpreter's state as they found it.

Every function that can change the state is analysed on its own.  The
evaluator's recursion is assumed to preserve the state (what is decided is
that it then does, i.e. the property holds by induction over the recursion);
functions that don't preserve it by themselves (push and pop helpers) are
analysed within their callers."""
from world import *
from prog import walk, nodes


def callees(p, u, f):
    out = set()

    def g(n):
        if n[0] == "f":
            out.add(n[1])
    walk(f["body"], g)
    return out


def graph(p, units):
    g = {}
    for u in units:
        for n, f in p.units[u].items():
            g[(u, n)] = set()
            for c in callees(p, u, f):
                if c in p.units[u]:
                    g[(u, n)].add((u, c))
                elif c in p.defs:
                    g[(u, n)].add((p.defs[c]["unit"], c))
    return g


def reaching(g, roots, stop=()):
    """Functions from which one of roots can be reached without passing
    through stop."""
    rev = {}
    for a, bs in g.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    out, work = set(roots), list(roots)
    while work:
        x = work.pop()
        for y in rev.get(x, ()):
            if y not in out:
                out.add(y)
                if y not in stop:
                    work.append(y)
    return out


def address_taken(p, u):
    """Functions of u used other than by calling them."""
    out = set()
    for f in p.units[u].values():
        def go(n, called=False):
            if isinstance(n, list) and n:
                if n[0] == "f" and not called and isinstance(n[1], str):
                    out.add(n[1])
                if n[0] == "call":
                    go(n[1], True)
                    for x in n[2:]:
                        go(x)
                    return
                for x in n:
                    if isinstance(x, list):
                        go(x, called and n[0] in ("decay", "cast", "addr"))
        go(f["body"])
    return out


def preserving(ctx, w, rule, direct, roots, start, final, opaque=None, stop=(), units=("evaluate.c",),
               ignore=(), what="the state", keep=(), **kw):
    """Decides for each function of `roots` that every returning path leaves
    final(outcome) equal to start.

    direct: functions that change the state by themselves; stop: functions
    that are assumed to preserve it (the recursion)."""
    p = w.p
    g = graph(p, p.units)
    changing = reaching(g, direct, stop)
    good, bad, detail = set(), set(direct), {}
    todo = [f for f in changing if f not in direct and f not in ignore]
    # callees first, so that helpers which don't preserve are known
    order, seen = [], set()

    def visit(f):
        if f in seen:
            return
        seen.add(f)
        for c in sorted(g[f]):
            if c in changing and c not in stop and f not in stop:
                visit(c)
        order.append(f)
    for f in sorted(todo):
        visit(f)
    for f in order:
        if f in direct or f in ignore:
            continue
        u, n = f
        fn = p.units[u][n]
        # what can't change the state is only a source of values here
        op = {c: o_pure for v in p.units for c, d in p.units[v].items()
              if (v, c) not in changing and not d["noreturn"] and c not in INTRINSICS
              and (v == u or not d["static"])}
        op.update({c: o_pure for (v, c) in good})
        op.update(opaque or {})
        for (v, c) in stop:
            op[c] = o_pure
        op.pop(n, None)
        fl = EvalFlow(p, opaque=op, unroll=1, transparent=tuple(c for v, c in bad) + (n,),
                      record=lambda e: e[0] in keep, **kw)
        fl.unit = u
        # a function that calls itself is assumed to preserve, too
        args = tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in fn["params"])
        st = start(fl)
        outs = run_self(fl, n, u, args, st)
        w.note(fl)
        why = None
        for o in outs:
            o.fl = fl
            if o.kind != "ret":
                continue
            r = final(o)
            if r is not None:
                why = (w.site(o), r)
                break
        if why is None:
            good.add(f)
        else:
            bad.add(f)
        detail[f] = (len([o for o in outs if o.kind == "ret"]), why)
    for f in sorted(todo):
        if f not in roots:
            continue
        n, why = detail[f]
        u, name = f
        ctx.check(why is None, rule, name, p.units[u][name]["loc"],
                  lambda: "a path through it (ending at %s) %s" % why)
    return good, bad, detail


def run_self(fl, name, unit, args, st):
    saved = fl.special.pop(name, None)
    f = fl.p.lookup(unit, name)
    fl.outcomes_dead = []

    def again(fl2, n, a, s, loc, e):
        return o_pure(fl2, n, a, s, loc, e)
    # the outer activation is analysed, inner ones are assumed
    fl.stack.append({"name": "", "unit": unit, "loc": ""})
    try:
        fl.special[name] = again
        res = fl.inline(f, args, st, "")
    finally:
        fl.stack.pop()
        fl.special.pop(name, None)
        if saved:
            fl.special[name] = saved
    return [Outcome("ret", v, s) for v, s in res] + fl.outcomes_dead
