"""P15: native functions are called, and call script functions, by the C ABI."""
from program import *
from oblig import spread
import calls
import stores

# parameter type -> (size, signed, the member that holds it); x86-64 System V
INT = {"char": (1, True, "D_T_CHAR"), "short": (2, True, "D_T_SHORT"), "int": (4, True, "D_T_INT"),
       "long": (8, True, "D_T_LONG"), "long long": (8, True, "D_T_LONGLONG"),
       "unsigned char": (1, False, "D_T_UCHAR"), "unsigned short": (2, False, "D_T_USHORT"),
       "unsigned int": (4, False, "D_T_UINT"), "unsigned long": (8, False, "D_T_ULONG"),
       "unsigned long long": (8, False, "D_T_ULONGLONG")}
FLT = {"float": (4, "D_T_FLOAT"), "double": (8, "D_T_DOUBLE"), "long double": (16, "D_T_LONGDOUBLE")}
POINTER = "char *"
MEMBER = dict([(t, v[2]) for t, v in INT.items()] + [(t, v[1]) for t, v in FLT.items()] + [(POINTER, "D_T_PTR")])
TYPE = {m: t for t, m in MEMBER.items()}
MSIZE = dict([(v[2], v[0]) for v in INT.values()] + [(v[1], v[0]) for v in FLT.values()] + [("D_T_PTR", 8)])
# libffi's descriptions of types
FFI = {"void": ("void", 0, None), "float": ("float", 4, None), "double": ("float", 8, None),
       "longdouble": ("float", 16, None), "pointer": ("int", 8, False)}
for _n in (8, 16, 32, 64):
    FFI["sint%d" % _n] = ("int", _n // 8, True)
    FFI["uint%d" % _n] = ("int", _n // 8, False)
MORE = OPEN + ("do_ext_call", "get_entry_point_for_fn")


def ffi(v):
    """(class, size, signed) of a pointer to a type's description."""
    while v[0] == "cast":
        v = v[2]
    if v[0] == "pl" and v[1][0] == "G" and v[1][2].startswith("ffi_type_"):
        return FFI.get(v[1][2][9:])
    return None


def table(fl, base, n, st):
    return [fl.load(fl.elem_cell(base, ("i", k)), st) for k in range(n)]


def frame(fl, loc):
    return tuple(x["name"] for x in fl.stack)


def h_alloca(fl, name, args, st, loc, e):
    st = st.copy()
    k = st.cnt.get("alloca", 0)
    st.cnt["alloca"] = k + 1
    return [(("r", "alloca", (args[0], frame(fl, loc)), k), st)]


def prep(pos):
    def h(fl, name, args, st, loc, e):
        n = args[pos]
        named = args[2] if pos == 3 else None
        if n[0] != "i" or not 0 <= n[1] < 60:
            raise Limit("a call with an unknown number of arguments")
        ret, types = args[pos + 1], args[pos + 2]
        st = fl.emit(st, ev(loc, "prep", args[0], n[1], named, ret, types, args[1]))
        return [(("i", 0), st)]
    return h


def h_call(fl, name, args, st, loc, e):
    p = [x for x in st.trace if x[0] == "prep" and x[1] == args[0]]
    if not p:
        return [(("void",), fl.emit(st, ev(loc, "ffi", None, args[1], args[2], (), (), None, None)))]
    p = p[-1]
    n = p[2]
    kinds = tuple(table(fl, p[5], n, st))
    vals = []
    for pl in table(fl, args[3], n, st):
        c = fl.cell_of(pl)
        vals.append((pl, c, fl.load(c, st), where(fl, c, frame(fl, loc))))
    st = fl.emit(st, ev(loc, "ffi", p, args[1], args[2], kinds, tuple(vals), args[3], p[5]))
    return [(("void",), st)]


def where(fl, c, fr):
    """(size of the object at the cell or None, is it alive in the frame)."""
    b = c
    while isinstance(b, tuple) and b[0] in ("F", "X"):
        b = b[1]
    if b[0] == "r" and b[1] == "alloca":
        f = b[2][1]
        return (b[2][0][1] if b[2][0][0] == "i" else None, fr[:len(f)] == f)
    if c[0] == "F" and c[2] in MSIZE:
        return (MSIZE[c[2]], True)
    return (None, True)


def h_prep_closure(fl, name, args, st, loc, e):
    p = [x for x in st.trace if x[0] == "prep" and x[1] == args[1]]
    n = p[-1][2] if p else 0
    kinds = tuple(table(fl, p[-1][5], n, st)) if p else ()
    st = fl.emit(st, ev(loc, "closure", args, p[-1] if p else None, kinds))
    return [(("i", 0), st)]


def h_closure_alloc(fl, name, args, st, loc, e):
    st = st.copy()
    k = st.cnt.get("closures", 0)
    st.cnt["closures"] = k + 1
    st.env[fl.cell_of(args[1])] = ("r", "code", (), k)
    st = fl.emit(st, ev(loc, "closure-alloc", args[0], k))
    return [(("r", "closure", (), k), st)]


FFIOPS = {"ffi_prep_cif": prep(2), "ffi_prep_cif_var": prep(3), "ffi_call": h_call,
          "ffi_prep_closure_loc": h_prep_closure, "ffi_closure_alloc": h_closure_alloc, "__builtin_alloca": h_alloca,
          "alloca": h_alloca}


def decl(t, n):
    return "%s * %s" % (t[:-2], n) if t.endswith("*") else "%s %s" % (t, n)


EXPR = ("expression", "';'", "__evaluate_1")


def run_text(w, text, st=None, **kw):
    kw.setdefault("operands", None)
    kw.setdefault("ncap", 12)
    return execute(w, text, st=st, opaque=dict(FFIOPS), transparent=MORE, **kw)


def go(w, text, st=None, **kw):
    """Outcomes of the last expression of the text, once the rest has been executed."""
    items = unique(tokens(text) if isinstance(text, str) else text)
    if items[-1] == ";":
        items = items[:-1]
    cut = max(i for i, x in enumerate(items) if x in (";", ("compound_statement", "BODY"))) + 1
    names = [x[1] for x in items if x[0] in NAMES]
    out = []
    for o in run_text(w, items[:cut], st, more=names, **kw) or ():
        if o.kind == "ret":
            got = run_text(w, items[cut:], clean(o.st), more=names, goal=EXPR, **kw)
            if got is None:
                raise Limit("not an expression: " + text_of(items[cut:]))
            out += got
    return out


text_of = text


def one_call(ctx, w, sub, o, n, named):
    """The one call a path makes: its event."""
    c = [e for e in o.st.trace if e[0] == "ffi"]
    if not ctx.check(len(c) == 1, "called-once", sub, w.site(o), lambda: "%d native calls: %s" % (len(c), w.desc(o))):
        return None
    c = c[0]
    p = c[1]
    if not ctx.check(p is not None, "called-once", sub + ": prepared", c.loc, "the call has not been prepared"):
        return None
    ctx.check(p[2] == n, "arguments", sub + ": number", c.loc, lambda: "%d arguments are passed" % p[2])
    if named is None:
        ctx.check(p[3] is None or p[3] == ("i", n), "arguments", sub + ": fixed", p.loc, "passed as variable arguments")
    else:
        ctx.check(p[3] == ("i", named), "arguments", sub + ": variable", p.loc,
                  lambda: "the variable arguments start at %s" % (p[3],))
    ctx.check(p[6] in (("i", 2), None), "arguments", sub + ": convention", p.loc, "not the platform's convention")
    return c


def source(w, o, a):
    """What an argument is: int, string, constant, a member's name, or None."""
    ts = w.tys(EV(a), o)
    if len(ts) != 1:
        return None
    k = next(iter(ts))
    k = None if k == NULL else w.p.type_names[k]
    if k == "T_LIVE_VAR":
        m = stores.one(w.lvtypes(EV(a), o), w)
        return m if m in MSIZE else None
    return k if k in ("T_INTEGER", "T_FLOAT", "T_STRING") else None


def holds(w, o, v, a, src, t):
    """Is the term v the value of argument a converted to type t?"""
    b, cs = stores.chain(v)
    F = ("float", "double", "long double")
    e = EV(a)
    if src == "T_STRING":
        return t == POINTER and b == ("ld", e, w.p.acc["tSTRING_VAL"][1]) and not any(c in F for c in cs)
    if src == "T_FLOAT":
        fl = ("pl", ("F", e, w.p.acc["tFLOAT_VAL"][1]))
        got = b[0] in ("r", "zget") and mentions(b, fl) and "get_d" in str(b[1])
        return got and t in FLT and not any(c not in F for c in cs)
    if src == "T_INTEGER":
        if t in FLT:
            return (b == ("zget", "d", ("int", e)) or b == ("wrap", ("int", e))) and sane(w, cs, 8)
        return stores.converts(w, o, v, ("z", [("int", e)]), MEMBER[t])
    if b[0] not in ("ldv", "ld") or b[1:3] != (("ld", e, w.f_lvval), src):
        return False
    if t in FLT:
        if src in FLT.values() or TYPE[src] in FLT:
            return all(c in F for c in cs) and (t == "float" or "float" not in cs) and \
                (t != "long double" or "double" not in cs or src != "D_T_LONGDOUBLE")
        return sane(w, cs, INT[TYPE[src]][0])
    if TYPE[src] in FLT:
        return True         # the compiler's conversion, whatever the integral type
    return stores.converts(w, o, v, ("lv", e, src), MEMBER[t])


def sane(w, cs, size):
    """An integer of so many bytes isn't cut on its way to a floating type."""
    for c in cs:
        if c in ("float", "double", "long double"):
            return True
        x = stores.width(c)
        if x is None or x[0] < 8 * size:
            return False
    return True


def passed(ctx, w, sub, o, c, k, a, t, variable=False):
    """The k-th thing passed is the value of a, as a t."""
    kind, (pl, cell, v, (size, alive)) = ffi(c[4][k]), c[5][k]
    src = source(w, o, a)
    what = "%s: %s (%s)" % (sub, a, src or "?")
    if not ctx.check(src is not None, "arguments", what, c.loc, "a value of unknown type is passed"):
        return None
    if not ctx.check(kind is not None, "arguments", what + ": type", c.loc,
                     lambda: "passed as " + w.sh(c[4][k])):
        return src
    ctx.check(alive and cell[0] != "X0", "arguments", what + ": storage", c.loc, "the storage is gone when the call is made")
    if size is not None:
        ctx.check(size >= kind[1], "arguments", what + ": room", c.loc,
                  "%d bytes are read from an object of %d" % (kind[1], size))
    if variable:
        t = promoted(src)
    elif t == POINTER and src not in ("T_STRING", "D_T_PTR", "T_INTEGER"):
        return src          # not a call that C accepts
    elif t != POINTER and src in ("T_STRING", "D_T_PTR"):
        return src
    if t in FLT:
        ok = kind[0] == "float" and kind[1] == FLT[t][0]
    else:
        s = 8 if t == POINTER else INT[t][0]
        ok = kind[0] == "int" and kind[1] >= s
        if ok and t != POINTER and s < 4:
            # the callee may rely on the extension
            ok = (kind[1] == s and kind[2] == INT[t][1]) or t in stores.chain(v)[1] or cell[2] == MEMBER[t]
    ctx.check(ok, "arguments", what + ": as " + t, c.loc, lambda: "passed as %s" % (kind,))
    ctx.check(holds(w, o, v, a, src, t), "arguments", what + ": value", c.loc,
              lambda: "passes %s as %s" % (w.sh(v), t))
    return src


def promoted(src):
    if src == "T_INTEGER":
        return "long"
    if src == "T_FLOAT":
        return "double"
    if src == "T_STRING":
        return POINTER
    t = TYPE[src]
    if t == "float":
        return "double"
    if t in INT and INT[t][0] < 4:
        return "int"
    return t


def order(ctx, w, sub, o, args):
    tr = list(o.st.trace)
    at = [i for i, e in enumerate(tr) if e[0] == "ffi"]
    for a in args:
        n = [i for i, e in enumerate(tr) if e[0] == "eval" and e[1] == leaf(a)]
        ctx.check(len(n) == 1 and at and n[0] < at[0], "called-once", "%s: %s" % (sub, a), w.site(o),
                  lambda: "evaluated %d times" % len(n))


def address(ctx, w, sub, o, c, name):
    f = c[2]
    while f[0] == "cast":
        f = f[2]
    ok = f[0] == "r" and f[1] == "dlsym" and len(f[2]) == 2 and \
        f[2][1] in [("ld", leaf(n), w.p.acc["tID_STR"][1]) for n in (name, name + "'", name + "''")]
    ctx.check(ok, "called-once", sub + ": the function", c.loc, lambda: "calls " + w.sh(f))


def released(ctx, w, sub, o):
    tr = list(o.st.trace)
    at = [i for i, e in enumerate(tr) if e[0] == "ffi"]
    if not at:
        return
    for i, e in enumerate(tr):
        if e[0] == "call" and e[1] == "free":
            ctx.check(i > at[0], "temporaries", sub + ": until the call", e.loc, "released before the call")
    used = [x for x in (tr[at[0]][6], tr[at[0]][7]) if x and x[0] == "r" and x[1] in ("malloc", "calloc")]
    ctx.ok("temporaries", sub + ": looked for")
    for u in used:
        n = [e for e in tr if e[0] == "call" and e[1] == "free" and e[2] and e[2][0] == u]
        ctx.check(len(n) == 1, "temporaries", sub, w.site(o), "released %d times" % len(n))


def result(ctx, w, sub, o, c, t):
    """What the call yields, when the function returns a t."""
    kind = ffi(c[1][4])
    if t == "void":
        ctx.check(kind is not None and kind[0] == "void", "result", sub + ": void", c.loc, lambda: "prepared as %s" % (kind,))
        ctx.check(o.val == ("i", 0), "result", sub + ": no value", w.site(o), lambda: "yields " + w.sh(o.val))
        return
    if t in FLT:
        ok = kind is not None and kind[0] == "float" and kind[1] == FLT[t][0]
        size = FLT[t][0]
    else:
        size = 8 if t == POINTER else INT[t][0]
        ok = kind is not None and kind[0] == "int" and kind[1] >= size
        size = 8
    ctx.check(ok, "result", sub + ": as " + t, c.loc, lambda: "prepared as %s" % (kind,))
    v = o.val
    good = v[0] == "new" and w.ty(v, o) == "T_LIVE_VAR" and w.lvtypes(v, o) == {w.tt[MEMBER[t]]}
    if not ctx.check(good, "result", sub + ": object", w.site(o), lambda: "yields " + w.sh(mk_term(o.fl, v, o.st))):
        return
    val = o.fl.load(("F", v, w.f_lvval), o.st)
    ret = c[3]
    while ret[0] == "cast":
        ret = ret[2]
    if ret[0] == "pl" and ret[1][0] == "F":
        ctx.check(MSIZE.get(ret[1][2], 0) >= size or ret[1][2] in w.p.uv_types, "result", sub + ": room", c.loc, "too small")
        ret = ret[1][1]
    ctx.check(ret == val, "result", sub + ": delivered", c.loc, lambda: "the result goes to " + w.sh(ret))
    if val[0] == "r" and val[1] in ("malloc", "calloc"):
        n = 1
        for x in val[2]:
            n = n * x[1] if x[0] == "i" else 0
        ctx.check(n >= size, "result", sub + ": room", c.loc, "%d bytes for the result" % n)
    at = list(o.st.trace).index(c)
    late = [e for e in o.st.trace[at:] if e[0] == "store" and mentions(e[1], val)]
    ctx.check(not late, "result", sub + ": unchanged", late[0].loc if late else "", "the result is overwritten")


def single(ctx, w, t):
    sub = "f ( %s )" % t
    seen = set()
    for head in ("", "extern "):
        for o in go(w, "%sint f ( %s ) ; f ( @A ) ;" % (head, decl(t, "A0"))) or ():
            if o.kind != "ret":
                continue
            c = one_call(ctx, w, head + sub, o, 1, None)
            if not c:
                continue
            seen.add(passed(ctx, w, head + sub, o, c, 0, "A", t))
            order(ctx, w, head + sub, o, "A")
            address(ctx, w, head + sub, o, c, "f")
            released(ctx, w, head + sub, o)
            if head == "":
                result(ctx, w, sub, o, c, "int")
    accepts(ctx, w, sub, seen, t)


def accepts(ctx, w, sub, seen, t):
    ints = ["T_INTEGER"] + [v[2] for v in INT.values()]
    if t in INT:
        want = ints + ["D_T_FLOAT", "D_T_DOUBLE"]
    elif t == POINTER:
        want = ["T_STRING", "D_T_PTR", "T_INTEGER"]
    elif t == "long double":
        want = ["D_T_LONGDOUBLE"]
    else:
        want = ints + ["D_T_FLOAT", "D_T_DOUBLE", "T_FLOAT"]
    for x in want:
        ctx.check(x in seen, "accepted", "%s: %s" % (sub, x), "function-call.c", "no call completes")


def typedefd(ctx, w, t):
    """A parameter whose type has a name."""
    sub = "typedef %s T ; f ( T )" % t
    seen = set()
    for o in go(w, "typedef %s T ; int f ( ~T A0 ) ; f ( @A ) ;" % t) or ():
        if o.kind == "ret":
            c = one_call(ctx, w, sub, o, 1, None)
            if c:
                seen.add(passed(ctx, w, sub, o, c, 0, "A", t))
    accepts(ctx, w, sub, seen, t)


def unnamed(ctx, w, t):
    """A parameter without a name."""
    sub = "f ( %s ) unnamed" % t
    seen = set()
    for o in go(w, "int f ( %s ) ; f ( @A ) ;" % t) or ():
        if o.kind == "ret":
            c = one_call(ctx, w, sub, o, 1, None)
            if c:
                seen.add(passed(ctx, w, sub, o, c, 0, "A", t))
    accepts(ctx, w, sub, seen, t)


KINDS = ["T_INTEGER", "T_STRING", "D_T_PTR", "D_T_CHAR", "D_T_ULONG", "D_T_DOUBLE"]


def given(w, args, kinds):
    """The state in which the arguments are of these kinds."""
    st = initial(w)
    for a, k in zip(args, kinds):
        if k.startswith("T_"):
            st.facts[("ty", EV(a))] = frozenset([w.tt[k]])
        else:
            st.facts[("ty", EV(a))] = frozenset([w.tt["T_LIVE_VAR"]])
            st.facts[("ty", ("ld", EV(a), w.f_lvtype))] = frozenset([w.tt[k]])
    return st


LISTS = [([], []), (["int", "char"], ["D_T_INT", "D_T_LONG"]), (["int", "int"], ["T_INTEGER", "T_INTEGER"]),
         ([POINTER, "unsigned char", "double"], ["T_STRING", "D_T_INT", "D_T_FLOAT"]),
         (["double", "double"], ["T_FLOAT", "T_FLOAT"]),
         (["short", POINTER, "long", "float"], ["D_T_INT", "D_T_PTR", "T_INTEGER", "D_T_DOUBLE"]),
         (["unsigned long", "unsigned short", "int", "long long", POINTER],
          ["D_T_CHAR", "D_T_UINT", "D_T_USHORT", "D_T_SHORT", "T_STRING"]),
         (["int"] * 8, ["D_T_INT", "T_INTEGER", "D_T_LONG", "D_T_CHAR", "D_T_UCHAR", "T_INTEGER", "D_T_ULONG", "D_T_SHORT"])]


def several(ctx, w, types, kinds):
    """Argument lists."""
    n = len(types)
    args = ["A%s" % x for x in "abcdefghij"[:n]]
    params = " , ".join(decl(t, "P%d" % i) for i, t in enumerate(types)) or "void"
    sub = "f ( %s )" % " , ".join(types)
    for via in ("", "P"):
        text = "int f ( %s ) ; " % params
        if via:
            if not n:
                continue
            text += "int ( * P ) ( %s ) ; P = & f ; P ( %s ) ;" % (params.replace("P", "Q"), " , ".join("@" + a for a in args))
        else:
            text += "f ( %s ) ;" % " , ".join("@" + a for a in args)
        name = sub + (" through a pointer" if via else "")
        outs = [o for o in go(w, text, st=given(w, args, kinds)) or () if o.kind == "ret"]
        if not ctx.check(bool(outs), "accepted", name, "function-call.c", "no call completes"):
            continue
        for o in outs:
            c = one_call(ctx, w, name, o, n, None)
            if not c:
                continue
            order(ctx, w, name, o, args)
            if via:
                ctx.check(c[2] == ("r", "code", (), 0), "called-once", name + ": the function", c.loc,
                          lambda: "calls " + w.sh(c[2]))
            else:
                address(ctx, w, name, o, c, "f")
            released(ctx, w, name, o)
            result(ctx, w, name, o, c, "int")
            if len(c[4]) == n:
                for k, (a, t) in enumerate(zip(args, types)):
                    passed(ctx, w, name, o, c, k, a, t)


def variable(ctx, w, src):
    """Variable arguments of each kind."""
    types = [POINTER]
    for named in (1, 2):
        args = ["A", "B", "C", "D"][:named + 2]
        params = " , ".join(decl(t, "P%d" % i) for i, t in enumerate([POINTER, "int"][:named]))
        kinds = ["T_STRING", "D_T_INT"][:named] + [src, "T_INTEGER"]
        for tail in (0, 1, 2):
            xs = args[:named + tail]
            sub = "f ( %s , ... ) + %s" % (params, " , ".join(([src, "T_INTEGER"])[:tail]))
            text = "int f ( %s , ... ) ; f ( %s ) ;" % (params, " , ".join("@" + a for a in xs))
            outs = [o for o in go(w, text, st=given(w, xs, kinds)) or () if o.kind == "ret"]
            if not ctx.check(bool(outs), "accepted", sub, "function-call.c", "no call completes"):
                continue
            for o in outs:
                c = one_call(ctx, w, sub, o, len(xs), named)
                if not c:
                    continue
                order(ctx, w, sub, o, xs)
                released(ctx, w, sub, o)
                if len(c[4]) == len(xs):
                    for k, a in enumerate(xs):
                        passed(ctx, w, sub, o, c, k, a, [POINTER, "int"][k] if k < named else None, k >= named)


def capacity(w, o, v):
    """How many pointers the table that v points to has room for; None if unknown."""
    while v[0] == "cast":
        v = v[2]
    if v[0] == "r" and v[1] in ("malloc", "calloc", "alloca"):
        n = 1
        for x in v[2] if v[1] != "alloca" else v[2][:1]:
            if x[0] != "i":
                return None
            n *= x[1]
        return n // 8
    return None


def many(ctx, w, n, entry=False):
    """As many arguments, or parameters, as that: all of them are handed over, or that is reported."""
    st = initial(w)
    big = dict(ncap=80, unroll=80, saturate=80)
    if entry:
        sub = "& f with %d parameters" % n
        items = unique(tokens("int f ( %s )" % " , ".join("int P%d" % k for k in range(n))))
        items += [("compound_statement", "BODY"), "&", I("f'"), ";"]
        st.facts[("ty", leaf("BODY"))] = frozenset([w.tt["T_BLOCK"]])
    else:
        sub = "call with %d arguments" % n
        args = ["A%d" % k for k in range(n)]
        items = "int f ( int P0 , ... ) ; f ( %s ) ;" % " , ".join("@" + a for a in args)
        st = given(w, args, ["T_INTEGER"] * n)
    for o in go(w, items, st=st, **big) or ():
        if o.kind != "ret":
            ctx.ok("room", sub + ": reported")
            continue
        for e in o.st.trace:
            if e[0] == "ffi":
                for t, v in (("values", e[6]), ("types", e[7])):
                    c = capacity(w, o, v)
                    ctx.check(c is None or c >= e[1][2], "room", "%s: %s" % (sub, t), e.loc,
                              lambda: "%d entries are put in a table with room for %d" % (e[1][2], c))
                ctx.check(e[1][2] == n, "room", sub + ": all", e.loc, lambda: "%d are passed" % e[1][2])
            if e[0] == "closure" and e[2] is not None:
                c = capacity(w, o, e[2][5])
                ctx.check(c is None or c >= e[2][2], "room", sub + ": types", e.loc,
                          lambda: "%d entries are put in a table with room for %d" % (e[2][2], c))
                ctx.check(e[2][2] == n, "room", sub + ": all", e.loc, lambda: "%d are described" % e[2][2])


def returns(ctx, w, t):
    """Results of each type."""
    sub = "%s f ( int )" % t
    for head in ("", "extern "):
        text = "%s%s ( int P0 ) ; f ( @A ) ;" % (head, decl(t, "f"))
        outs = [o for o in go(w, text, st=given(w, ["A"], ["D_T_INT"])) or () if o.kind == "ret"]
        if not ctx.check(bool(outs), "accepted", head + sub, "function-call.c", "no call completes"):
            continue
        for o in outs:
            c = one_call(ctx, w, head + sub, o, 1, None)
            if c:
                result(ctx, w, head + sub, o, c, t)


# -------------------------------------------------------------- entry points
def entry(ctx, w, ret, types):
    """The entry point of a script function, and what happens when it's called."""
    n = len(types)
    params = " , ".join(decl(t, "P%d" % i) for i, t in enumerate(types)) or "void"
    sub = "& %s f ( %s )" % (ret, params)
    items = unique(tokens("%s ( %s )" % (decl(ret, "f"), params)))
    items += [("compound_statement", "BODY"), "&", I("f'"), ";"]
    st = initial(w)
    st.facts[("ty", leaf("BODY"))] = frozenset([w.tt["T_BLOCK"]])
    outs = [o for o in go(w, items, st=st) or () if o.kind == "ret"]
    if not ctx.check(bool(outs), "entry-point", sub, "function-call.c", "the function's address can't be taken"):
        return
    for o in outs:
        cl = [e for e in o.st.trace if e[0] == "closure"]
        if not ctx.check(len(cl) == 1, "entry-point", sub, w.site(o), lambda: "%d entry points: %s" % (len(cl), w.desc(o))):
            continue
        cl = cl[0]
        args, p, kinds = cl[1], cl[2], cl[3]
        al = [e for e in o.st.trace if e[0] == "closure-alloc"]
        ctx.check(len(al) == 1 and args[0] == ("r", "closure", (), 0) and al[0][1][0] == "i" and al[0][1][1] >= 64,
                  "entry-point", sub + ": allocated", cl.loc, lambda: "closure " + w.sh(args[0]))
        code = ("r", "code", (), 0)
        ctx.check(args[4] == code, "entry-point", sub + ": code", cl.loc, lambda: "prepared at " + w.sh(args[4]))
        v = o.val
        got = v
        if v[0] == "new" and w.lvtypes(v, o) == {w.tt["D_T_PTR"]}:
            val = o.fl.load(("F", v, w.f_lvval), o.st)
            got = o.fl.load(("F", val, "D_T_PTR"), o.st)
        while got[0] == "cast":
            got = got[2]
        ctx.check(got == code, "entry-point", sub + ": address", w.site(o), lambda: "yields " + w.sh(got))
        if not ctx.check(p is not None and p[3] is None and p[2] == n and len(kinds) == n, "entry-point",
                         sub + ": arguments", cl.loc, "not prepared for %d arguments" % n):
            continue
        for k, (x, t) in enumerate(zip(kinds, types)):
            ctx.check(same(ffi(x), t), "entry-point", "%s: P%d" % (sub, k), p.loc, lambda: "prepared as " + w.sh(x))
        ctx.check(same(ffi(p[4]), ret), "entry-point", sub + ": result", p.loc, lambda: "prepared as " + w.sh(p[4]))
        ctx.check(outlives(p[1]) and outlives(p[5]), "entry-point", sub + ": lasts", p.loc,
                  lambda: "the description %s doesn't last" % w.sh(p[1]))
        invoke(ctx, w, sub, o, args[2], args[1], args[3], ret, types)


def outlives(v):
    while v[0] == "cast":
        v = v[2]
    return not (v[0] == "pl" and v[1][0] in ("L", "S") or v[0] == "r" and v[1] == "alloca")


def same(kind, t):
    if kind is None:
        return False
    if t == "void":
        return kind[0] == "void"
    if t in FLT:
        return kind[0] == "float" and kind[1] == FLT[t][0]
    if t == POINTER:
        return kind[0] == "int" and kind[1] == 8
    return kind[0] == "int" and kind[1] == INT[t][0] and (kind[2] == INT[t][1] or kind[1] == 8)


def invoke(ctx, w, sub, o, fn, cif, user, ret, types):
    """Native code calls the entry point."""
    while fn[0] == "cast":
        fn = fn[2]
    if fn[0] == "pl":
        fn = ("fn", fn[1][-1])
    f = w.p.lookup("function-call.c", fn[1])
    if not f:
        return ctx.limit("the entry point's function isn't known: %s" % (fn,))
    RET, ARGS = ("p", "ret"), ("p", "ffi_args")
    op = comparisons(w, [i for i in ["f"] + ["P%d" % k for k in range(len(types))]])
    names = {leaf("P%d" % k): k for k in range(len(types))}
    bound = calls.binder(w)

    def known(fl, t, s):
        if t in names:
            for e in reversed(s.trace):
                if e[0] == "bind" and e[1] == t:
                    return e[2]
            return None
        if t[0] == "p" and t[1].rstrip("'") == "f":
            return fl.real_inline("__evaluate_1", w.p.lookup("evaluate.c", "__evaluate_1"), (t, ("p", "depth")), s, "")
        return None
    op.update(FFIOPS)
    op["map_identifier"] = bound
    op["tree_type_string"] = op["tree_description_string"] = o_pure
    fl = w.flow(unroll=len(types) + 3, saturate=9, objects=90, ncap=12, transparent=calls.TRANSPARENT + ("resolve_identifier", "__resolve_identifier", "__resolve_id"), opaque=op, values=known,
                marker=lambda fl, s: (s.env.get(w.CURCELL, w.CUR),))
    fl.outcomes_dead = []
    fl.stack.append({"name": "", "unit": "function-call.c", "loc": ""})
    st = clean(o.st)
    before = st.env.get(w.CURCELL, w.CUR)
    res = fl.inline(f, (cif, RET, ARGS, user), st, "")
    fl.stack.pop()
    w.note(fl)
    outs = [Outcome("ret", v, s) for v, s in res]
    done = set()
    for q in outs:
        q.fl, q.loc = fl, getattr(q, "loc", "")
        tr = list(q.st.trace)
        ran = [i for i, e in enumerate(tr) if calls.body(e) or e[0] == "longjmp-return"]
        if not ctx.check(len(ran) == 1, "entered", sub + ": once", f["loc"], lambda: "executed %d times" % len(ran)):
            continue
        binds = [e for e in tr if e[0] == "bind"]
        if not ctx.check([e[1] for e in binds] == [leaf("P%d" % k) for k in range(len(types))], "entered",
                         sub + ": parameters", f["loc"], lambda: "binds %s" % [w.sh(e[1]) for e in binds]):
            continue
        for k, (b, t) in enumerate(zip(binds, types)):
            val = q.fl.load(("F", b[2], w.f_lvval), q.st)
            s = [e for e in tr[:ran[0]] if e[0] == "store" and e[1] == ("F", val, MEMBER[t])]
            good = w.lvtypes(b[2], q) == {w.tt[MEMBER[t]]} and len(s) == 1
            want = ("ld", ARGS, k)
            if ctx.check(good, "entered", "%s: P%d" % (sub, k), b.loc, lambda: "is %s" % w.sh(mk_term(fl, b[2], q.st))):
                ctx.check(arrives(w, fl, q, s[0][2], ARGS, k, t), "entered", "%s: P%d holds the argument" % (sub, k),
                          s[0].loc, lambda: "holds " + w.sh(s[0][2]))
        stored = [e for e in tr if e[0] == "store" and mentions(e[1], RET)]
        rv = [c for c in calls.subterms(q) if c[0] == "retval"]
        if ret == "void" or not rv:
            if ret == "void":
                ctx.check(not stored, "entry-result", sub + ": void", f["loc"], "a result is stored")
            continue
        src = None
        ts = w.tys(rv[0], q)
        if len(ts) == 1 and NULL not in ts:
            src = w.p.type_names[next(iter(ts))]
            if src == "T_LIVE_VAR":
                src = stores.one(w.lvtypes(rv[0], q), w)
        if not stored:
            ctx.check(ts <= {NULL}, "entry-result", sub + ": stored", f["loc"], "no result is stored")
            continue
        done.add(src)
        e = stored[-1]
        ctx.check(len(stored) == 1 and gives(w, q, e[2], rv[0], src, ret), "entry-result", "%s: %s" % (sub, src), e.loc,
                  lambda: "stores " + w.sh(e[2]))
    if ret in INT and "long double" not in types:
        for x in ["T_INTEGER"] + [v[2] for v in INT.values()]:
            ctx.check(x in done, "entry-result", "%s: %s is delivered" % (sub, x), f["loc"], "no call completes")
    if "long double" not in types:
        ctx.check(bool(outs), "entered", sub, f["loc"], "no call completes")


def element(v, a):
    """The index of the element of the array at a that v was read from."""
    if v[0] == "ld" and v[2] == "":
        p, k = v[1], 0
    elif v[0] == "ldx" and v[2][0] == "i":
        p, k = v[1], v[2][1]
    else:
        return None
    while True:
        if p[0] == "pl" and p[1][0] == "X" and p[1][2][0] == "i":
            p, k = p[1][1], k + p[1][2][1]
        elif p[0] == "op" and p[1] in ("+", "-") and p[3][0] == "i":
            p, k = p[2], k + (p[3][1] if p[1] == "+" else -p[3][1])
        else:
            return k if p == a else None


def arrives(w, fl, q, v, ARGS, k, t):
    """v is *(T *)ffi_args[k]."""
    b, cs = stores.chain(v)
    if b[0] not in ("ld", "ldv") or element(strip_epoch(b[1]), ARGS) != k:
        return False
    # libffi has put an object of exactly that type there
    if not cs or t == POINTER:
        return b[2] == "" and all(stores.width(c) in ((64, True), (64, False)) for c in cs)
    if t in FLT:
        return all(c in FLT for c in cs) and t in cs
    return read_as(cs, t)


def read_as(cs, t):
    s, sg, m = INT[t]
    w = [stores.width(c) for c in cs]
    return all(x and x[0] >= 8 * s for x in w)


def gives(w, q, v, rv, src, ret):
    b, cs = stores.chain(v)
    if src is None:
        return False
    F = ("float", "double", "long double")
    if src in ("D_T_FLOAT", "D_T_DOUBLE", "D_T_LONGDOUBLE") or ret in FLT:
        if src == "T_INTEGER":
            return mentions(b, ("int", rv))
        if src == "T_FLOAT":
            return "get_d" in str(b[1]) and mentions(b, ("F", rv, w.p.acc["tFLOAT_VAL"][1])) and all(c in F for c in cs)
        got = b[0] in ("ldv", "ld") and b[1:3] == (("ld", rv, w.f_lvval), src)
        if src in ("D_T_FLOAT", "D_T_DOUBLE", "D_T_LONGDOUBLE") and ret in FLT:
            return got and all(c in F for c in cs) and (ret == "float" or "float" not in cs)
        return got
    m = MEMBER[ret]
    if src == "T_INTEGER":
        return stores.converts(w, q, v, ("z", [("int", rv)]), m)
    return b[0] in ("ldv", "ld") and b[1:3] == (("ld", rv, w.f_lvval), src) and \
        stores.converts(w, q, v, ("lv", rv, src), m)


def run(ctx):
    w = World(ctx, ("cscript",))
    initial(w)
    ctx.rule("called-once", "a call of a native function evaluates every argument exactly once and then calls the "
             "function of that name, or the one the pointer holds, exactly once")
    ctx.rule("arguments", "the function receives exactly its arguments, in order: each as the type of its parameter "
             "holding the argument converted to that type, or, where it has none, as the promoted argument")
    ctx.rule("accepted", "every arithmetic type of argument can be passed to every arithmetic parameter, and pointers and "
             "strings to pointers")
    ctx.rule("result", "the call yields a new object of the function's result type that holds what the function "
             "returned; void functions yield nothing")
    ctx.rule("temporaries", "what has been allocated for the call is released once, after it")
    ctx.rule("entry-point", "the address of a script function is an entry point that describes exactly its parameters "
             "and result, and that lasts")
    ctx.rule("entered", "native code that calls it executes the function once, its parameters holding the arguments")
    ctx.rule("entry-result", "and receives the value returned, converted to the function's result type")
    ctx.rule("room", "however many arguments a call, or parameters an entry point, has, the tables for them have room "
             "for all, or that is reported")
    types = list(INT) + list(FLT) + [POINTER]
    jobs = []
    J = lambda title, fn, *a: jobs.append((title, lambda: fn(ctx, w, *a)))
    for t in types:
        J("f(%s)" % t, single, t)
        J("unnamed " + t, unnamed, t)
    for t in ("short", "unsigned char", "long", "double", "float"):
        J("typedef " + t, typedefd, t)
    for ts, ks in LISTS:
        J("f(%s)" % ts, several, ts, ks)
    for s in ["T_INTEGER", "T_FLOAT", "T_STRING"] + list(MSIZE):
        J("variable " + s, variable, s)
    for t in types + ["void"]:
        J("%s f()" % t, returns, t)
    for t in types:
        if t != "char *":
            J("entry %s" % t, entry, t, ["int"])
        J("entry (%s)" % t, entry, "int", [t])
    for ts in ([], ["int", "char"], [POINTER, POINTER], ["char", "unsigned short", "long", "double", "float", POINTER]):
        J("entry %s" % ts, entry, "int", ts)
    J("entry void", entry, "void", ["int"])
    for n in (1, 8, 16, 30, 31, 32, 33, 34, 40, 64):
        J("%d arguments" % n, many, n)
        J("%d parameters" % n, many, n, True)
    spread(ctx, jobs)
    for r, n in (("called-once", 1500), ("arguments", 4000), ("accepted", 300), ("result", 800), ("temporaries", 400),
                 ("entry-point", 200), ("entered", 1500), ("entry-result", 500), ("room", 40)):
        ctx.need(r, n)
