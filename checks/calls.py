"""Calls of functions defined in a script: definition, binding of arguments,
execution of the body, delivery of the result.

The text of the definition is parsed and evaluated first; the function object
it binds is then what evaluating the callee of a call yields."""
from world import *
import stores

TS = {"D_T_CHAR": ["char"], "D_T_SHORT": ["short"], "D_T_INT": ["int"], "D_T_LONG": ["long"],
      "D_T_LONGLONG": ["long", "long"], "D_T_UCHAR": ["unsigned", "char"], "D_T_USHORT": ["unsigned", "short"],
      "D_T_UINT": ["unsigned", "int"], "D_T_ULONG": ["unsigned", "long"],
      "D_T_ULONGLONG": ["unsigned", "long", "long"], "D_T_FLOAT": ["float"], "D_T_DOUBLE": ["double"],
      "D_T_PTR": ["char"]}
TRANSPARENT = ("handle_declarator", "resolve_decl_specs_to_type", "make_live_var")


def I(n):
    return ("IDENTIFIER", n)


def arg(n):
    return ("assignment_expression", n)


def binder(w):
    def bind(fl, name, args, st, loc, e):
        st = fl.emit(st, ev(loc, "bind", args[0], args[1], st.env.get(w.CURCELL, w.CUR)))
        return [(("void",), st)]
    return bind


def run(ctx):
    w = World(ctx, ("cscript",))
    ctx.rule("definition", "a function definition binds the function's name to an object holding exactly its "
             "parameters in order, its result type and its body, and executes nothing")
    ctx.rule("arguments-once", "every argument of a call is evaluated exactly once, before any parameter exists")
    ctx.rule("binding", "in a scope of the call, the k-th parameter is a new object of the declared type that holds the "
             "k-th argument's value converted to that type, and nothing else is stored")
    ctx.rule("body-once", "the function's body is executed exactly once, in the scope of the parameters, after all "
             "of them have been given their values")
    ctx.rule("arity", "a call with the wrong number of arguments is reported and doesn't execute the body")
    ctx.rule("result", "a call of a function that returned a value yields a new object of the function's result type "
             "that holds the value converted to that type; otherwise it has no value")
    for t in TS:
        with ctx.guarded("T f(void) " + t):
            result(ctx, w, t)
    for t in TS:
        with ctx.guarded("f(%s a)" % t):
            single(ctx, w, t)
    for n in (2, 3):
        with ctx.guarded("f/%d" % n):
            several(ctx, w, n)
    for n in (1, 2, 3):
        for m in range(0, n + 2):
            if m != n:
                with ctx.guarded("f/%d called with %d" % (n, m)):
                    arity(ctx, w, n, m)
    with ctx.guarded("f()"):
        nothing(ctx, w)
    ctx.need("binding", 40)
    ctx.need("result", 60)
    ctx.need("definition", 20)


def define(ctx, w, sub, spec, ptr, params):
    """(function object, state) of T f(params) BODY; params: [(specs, ptr, name)]."""
    st = State()
    ft = st.facts
    for n in ["ID"] + [x[2] for x in params]:
        ft[("ty", leaf(n))] = frozenset([w.tt["T_IDENTIFIER"]])
    ft[("ty", leaf("BODY"))] = frozenset([w.tt["T_BLOCK"]])
    ft[("ty", w.CUR)] = frozenset([w.tt["E_CTX"]])
    items = spec + (["*"] if ptr else []) + [I("ID"), "("]
    for i, (s, q, n) in enumerate(params):
        items += ([","] if i else []) + s + (["*"] if q else []) + [I(n)]
    items += [")", ("compound_statement", "BODY")]
    outs = w.expr("cscript", items, "cscript_translation_unit", "$end", st=st, fname="__evaluate",
                  opaque={"map_identifier": binder(w)}, transparent=TRANSPARENT)
    if not outs:
        ctx.fail("definition", sub, "parser.m4", "the definition is not accepted")
        return None, None
    res = None
    for o in outs:
        b = [e for e in o.st.trace if e[0] == "bind"]
        good = o.kind == "ret" and len(b) == 1 and b[0][1] == leaf("ID") and w.ty(b[0][2], o) == "T_FN"
        other = [e for e in w.effects(o) if e[0] != "bind" and not mentions(e, ("g0", "", "cscript_parse_head"))]
        if not ctx.check(good and not other and not w.evals(o), "definition", sub, w.site(o),
                         lambda: "%s: %s" % (o.kind, w.desc(o))):
            continue
        fn = b[0][2]
        ld = lambda a: o.fl.load(("F", fn, w.p.acc[a][1]), o.st)
        ctx.check(ld("tFN_STMTS") == leaf("BODY"), "definition", sub + ": body", b[0].loc,
                  lambda: "the body is " + w.sh(ld("tFN_STMTS")))
        res = (fn, o)
    if not res:
        return None, None
    fn, o = res
    st = o.st.copy()
    st.trace, st.cnt = (), {}
    for c in [c for c in st.env if c[0] == "L"]:
        del st.env[c]
    return fn, st


def call(w, fn, st, params, args, facts, **kw):
    """Outcomes of calling fn."""
    st = st.copy()
    names = set(leaf(x[2]) for x in params)
    for n, f in facts.items():
        st.facts[n] = f

    def known(fl, t, s):
        if t == leaf("F"):
            return fn
        if t in names:
            for e in reversed(s.trace):
                if e[0] == "bind" and e[1] == t:
                    return e[2]
        return None
    items = [P("F"), "("]
    for i, a in enumerate(args):
        items += ([","] if i else []) + [arg(a)]
    items.append(")")
    return w.expr("cscript", items, st=st, opaque={"map_identifier": binder(w)}, transparent=TRANSPARENT,
                  values=known, marker=lambda fl, s: s.env.get(w.CURCELL, w.CUR), **kw)


def body(e):
    return e[0] in ("exec", "eval") and e[1] == leaf("BODY")


def common(ctx, w, sub, o, params, args):
    """What holds for every completed call; the scope of the call."""
    tr = list(o.st.trace)
    for a in args:
        n = [i for i, e in enumerate(tr) if e[0] == "eval" and e[1] == leaf(a)]
        first = min([i for i, e in enumerate(tr) if e[0] == "bind" or body(e)] or [len(tr)])
        ctx.check(len(n) == 1 and n[0] < first and tr[n[0]][3] == w.CUR, "arguments-once", "%s: %s" % (sub, a),
                  w.site(o), lambda: "evaluated %d times: %s" % (len(n), w.desc(o)))
    b = [i for i, e in enumerate(tr) if body(e)]
    # the jump out of the body has been recorded instead of its execution
    jumped = [i for i, e in enumerate(tr) if e[0] == "longjmp-return"]
    where = [tr[i] for i in b]
    one = len(b) + len(jumped) == 1
    ctx.check(one, "body-once", sub, where[-1].loc if where else w.site(o),
              lambda: "executed %d times" % (len(b) + len(jumped)))
    at = (b + jumped)[0] if one else len(tr)
    return tr, at, (tr[b[0]][3] if b else None)


def bound(ctx, w, sub, o, params, args, tr, at, scope):
    binds = [(i, e) for i, e in enumerate(tr) if e[0] == "bind"]
    names = [leaf(x[2]) for x in params]
    ctx.check([e[1] for i, e in binds] == names and all(i < at for i, e in binds), "binding", sub + ": parameters",
              w.site(o), lambda: "the parameters bound are %s" % [w.sh(e[1]) for i, e in binds])
    if [e[1] for i, e in binds] != names:
        return
    scopes = set(e[3] for i, e in binds)
    ctx.check(len(scopes) == 1 and all(s[0] == "new" for s in scopes) and (scope is None or scope in scopes), "body-once",
              sub + ": scope", w.site(o), lambda: "parameters in %s, body in %s" % (scopes, w.sh(scope)))
    stor = {}
    for (i, e), (spec, ptr, n), a in zip(binds, params, args):
        lv = e[2]
        t = "D_T_PTR" if ptr else [k for k in TS if TS[k] == spec and k != "D_T_PTR"][0]
        got = w.lvtypes(lv, o)
        if not ctx.check(lv[0] == "new" and w.ty(lv, o) == "T_LIVE_VAR" and got == {w.tt[t]}, "binding",
                         "%s: %s is an object of its type" % (sub, n), e.loc,
                         lambda: "%s is bound to %s" % (n, w.sh(mk_term(o.fl, lv, o.st)))):
            continue
        val = o.fl.load(("F", lv, w.f_lvval), o.st)
        stor[val] = n
        st = [(j, x) for j, x in enumerate(tr[:at]) if x[0] == "store" and x[1] == ("F", val, t)]
        good = len(st) == 1 and j_ok(st[0][0], i) and conv(w, o, st[0][1][2], EV(a), t)
        ctx.check(good, "binding", "%s: %s <- %s" % (sub, n, a), st[0][1].loc if st else e.loc,
                  lambda: "stores %s" % [w.sh(x[2]) for j, x in st])
    if len(stor) != len(params):
        ctx.fail("binding", sub + ": storage", w.site(o), "two parameters share their storage")
    rest = [e for e in tr[:at] if e[0] in ("store", "zstore") and not w.bookkeeping(e[1], o)
            and e[1] != w.CURCELL and not (e[1][0] == "F" and e[1][1] in stor) and not stores.literal(w, e)
            and not (e[1][0] == "F" and e[1][1][0] == "new") and e[1] != ("G", "gc.c", "gc_inhibited")]
    ctx.check(not rest, "binding", sub + ": nothing else", rest[0].loc if rest else "",
              lambda: "stores %s" % [w.sh(tuple(e)) for e in rest])


def j_ok(j, i):
    return j > i


def conv(w, o, v, src, t):
    """v is src's value converted to type t."""
    ts = w.tys(src, o)
    I, LV, ST = w.tt["T_INTEGER"], w.tt["T_LIVE_VAR"], w.tt["T_STRING"]
    b, c = stores.chain(v)
    if t in ("D_T_FLOAT", "D_T_DOUBLE"):
        if not all(x in ("float", "double", "long double") for x in c) or (t == "D_T_DOUBLE" and "float" in c):
            return False
        if ts == {I}:
            return b == ("zget", "d", ("int", src))
        if ts == {LV}:
            return b[0] in ("ldv", "ld") and b[1] == ("ld", src, w.f_lvval) and w.lvtypes(src, o) == {w.tt.get(b[2])}
        return mentions(b, src)
    if ts == {I}:
        return stores.converts(w, o, v, ("z", [("int", src)]), t)
    if ts == {LV}:
        m = stores.one(w.lvtypes(src, o), w)
        if m in FLOATS:
            return b[0] in ("ldv", "ld") and b[1:3] == (("ld", src, w.f_lvval), m)
        if t == "D_T_PTR":
            return b[0] in ("ldv", "ld") and b[1] == ("ld", src, w.f_lvval) and b[2] == "D_T_PTR" and m == "D_T_PTR"
        return stores.converts(w, o, v, ("lv", src, m), t)
    if ts == {ST} and t == "D_T_PTR":
        return stores.is_literal(w, o, v)
    return False


def facts(w, a, kind):
    f = {}
    if kind == "int":
        f[("ty", EV(a))] = frozenset([w.tt["T_INTEGER"]])
    else:
        f[("ty", EV(a))] = frozenset([w.tt["T_LIVE_VAR"]])
        f[("ty", ("ld", EV(a), w.f_lvtype))] = frozenset([w.tt[x] for x in kind])
    return f


def single(ctx, w, t):
    """One parameter of each type, arguments of every kind."""
    ptr = t == "D_T_PTR"
    params = [(TS[t], ptr, "a")]
    sub = "f(%s%s)" % (" ".join(TS[t]), " *" if ptr else "")
    fn, st = define(ctx, w, sub, ["int"], False, params)
    if fn is None:
        return
    kinds = ["int", INTEGRAL] if t in CTYPE else ["int", ["D_T_PTR"]] if ptr else ["int", INTEGRAL + FLOATS[:2]]
    for k in kinds:
        fc = facts(w, "A", k)
        fc.update(retfacts(w))
        done = 0
        for o in call(w, fn, st, params, ["A"], fc):
            if o.kind != "ret":
                continue
            done += 1
            tr, at, sc = common(ctx, w, sub, o, params, ["A"])
            bound(ctx, w, sub, o, params, ["A"], tr, at, sc)
        ctx.check(done > 0, "binding", sub + (" integer" if k == "int" else " object"), "evaluate.c", "no call completes")


def retfacts(w):
    return {}


def several(ctx, w, n):
    params = [(["int"], False, "a"), (["char"], True, "b"), (["unsigned", "char"], False, "c")][:n]
    kinds = ["int", ["D_T_PTR"], ["D_T_INT"]][:n]
    args = ["A", "B", "C"][:n]
    sub = "f/%d" % n
    fn, st = define(ctx, w, sub, ["int"], False, params)
    if fn is None:
        return
    fc = {}
    for a, k in zip(args, kinds):
        fc.update(facts(w, a, k))
    done = 0
    for o in call(w, fn, st, params, args, fc):
        if o.kind == "ret":
            done += 1
            tr, at, sc = common(ctx, w, sub, o, params, args)
            bound(ctx, w, sub, o, params, args, tr, at, sc)
    ctx.check(done > 0, "binding", sub, "evaluate.c", "no call completes")


def arity(ctx, w, n, m):
    params = [(["int"], False, x) for x in "abc"[:n]]
    args = ["A", "B", "C", "D"][:m]
    sub = "f/%d called with %d" % (n, m)
    fn, st = define(ctx, w, sub, ["int"], False, params)
    if fn is None:
        return
    fc = {}
    for a in args:
        fc.update(facts(w, a, "int"))
    outs = call(w, fn, st, params, args, fc, unroll=5)
    for o in outs:
        ran = [e for e in o.st.trace if body(e) or e[0] in ("setjmp", "longjmp-return")]
        ctx.check(o.kind == "die" and not ran, "arity", sub, ran[0].loc if ran else w.site(o),
                  lambda: "%s: %s" % (o.kind, w.desc(o)))
    if not outs:
        ctx.limit(sub + ": no path")


def nothing(ctx, w):
    """A function without parameters."""
    sub = "f()"
    fn, st = define(ctx, w, sub, ["int"], False, [])
    if fn is None:
        return
    for args in ([], ["A"], ["A", "B"]):
        fc = {}
        for a in args:
            fc.update(facts(w, a, "int"))
        s2 = "f(%s)" % ", ".join(args)
        done = 0
        for o in call(w, fn, st, [], args, fc):
            if o.kind == "ret":
                done += 1
                tr, at, sc = common(ctx, w, s2, o, [], args)
        if not args:
            ctx.check(done > 0, "body-once", s2 + " completes", "evaluate.c", "no call completes")


def result(ctx, w, t):
    ptr = t == "D_T_PTR"
    if ptr:
        return              # bic can't define functions that return pointers
    sub = "%s f()" % " ".join(TS[t])
    fn, st = define(ctx, w, sub, TS[t], ptr, [])
    if fn is None:
        return
    kinds = {}
    LV, CO = w.tt["T_LIVE_VAR"], w.tt["T_LIVE_COMPOUND"]
    for o in call(w, fn, st, [], [], {}):
        if o.kind != "ret":
            continue
        tr, at, sc = common(ctx, w, sub, o, [], [])
        if body(tr[at]):
            ctx.check(o.val == ("i", 0), "result", sub + ": nothing returned", w.site(o), lambda: "yields " + w.sh(o.val))
            kinds["none"] = 1
            continue
        rv = [c for c in subterms(o) if c[0] == "retval"]
        if not rv:
            ctx.fail("result", sub, w.site(o), "the returned value isn't used: " + w.sh(o.val))
            continue
        rv = rv[0]
        ts = w.tys(rv, o)
        if ts == {NULL}:
            ctx.check(o.val in (("i", 0), rv), "result", sub + ": no value", w.site(o), lambda: "yields " + w.sh(o.val))
            continue
        ts = ts - {NULL}
        if ts == {CO}:
            cp = [e for e in tr[at:] if e[0] == "call" and e[1] in ("memcpy", "memmove")]
            acc = w.p.acc
            bs = acc["tLV_COMP_BASE"][1]
            decl = ("ld", rv, acc["tLV_COMP_DECL"][1])
            good = len(cp) == 1 and o.val[0] == "r" and o.val[1] == "alloc_struct" and o.val[2][0] == decl and \
                cp[0][2] == (("ld", o.val, bs), ("ld", rv, bs), ("ld", decl, acc["tCOMP_DECL_SZ"][1]))
            ctx.check(good, "result", sub + ": structure", w.site(o), lambda: "yields %s: %s" % (w.sh(o.val), w.desc(o)))
            kinds["struct"] = 1
            continue
        name = "%s: %s" % (sub, "/".join(sorted(w.p.type_names[x] for x in ts)) if len(ts) < 4 else "...")
        if len(ts) != 1:
            ctx.fail("result", name, w.site(o), "yields %s whatever the returned value is" % w.sh(o.val))
            continue
        k = w.p.type_names[next(iter(ts))]
        m = stores.one(w.lvtypes(rv, o), w) if k == "T_LIVE_VAR" else k
        name = "%s: %s" % (sub, m)
        if not ctx.check(o.val[0] == "new" and w.ty(o.val, o) == "T_LIVE_VAR" and w.lvtypes(o.val, o) == {w.tt[t]},
                         "result", name + " (type)", w.site(o),
                         lambda: "yields " + w.sh(mk_term(o.fl, o.val, o.st))):
            continue
        val = o.fl.load(("F", o.val, w.f_lvval), o.st)
        s = [e for e in tr[at:] if e[0] == "store" and e[1] == ("F", val, t)]
        ctx.check(len(s) == 1 and conv(w, o, s[0][2], rv, t), "result", name, s[0].loc if s else w.site(o),
                  lambda: "stores %s" % [w.sh(e[2]) for e in s])
        kinds[m] = 1
    want = ["none", "struct", "T_INTEGER"] + list(CTYPE)
    for k in want:
        ctx.check(k in kinds, "result", "%s: %s is delivered" % (sub, k), "evaluate.c", "no call completes with it")


def subterms(o):
    seen = []

    def go(v):
        if isinstance(v, tuple):
            if v and v[0] == "retval" and v not in seen:
                seen.append(v)
            for x in v:
                go(x)
    go(o.val)
    for f in o.st.facts:
        go(f)
    for e in o.st.trace:
        go(tuple(e))
    return seen
