"""Whole programs: text -> scanner -> automaton -> semantic actions -> evaluator,
from the state the evaluator's initialisation leaves.

Identifiers keep their own nodes; their names are compared as the caller says.
`@X' stands for an opaque operand (`$X' for one that is a primary expression), `~T' for a name that has been declared as a type,
a number for an integer constant."""
import re
from world import *
from balance import run_self

KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if int long
register return short signed sizeof static struct switch typedef union unsigned void volatile while""".split())
OPEN = ("map_identifier", "__map_identifer", "resolve_identifier", "__resolve_identifier", "__resolve_id", "resolve_id",
        "handle_declarator", "resolve_decl_specs_to_type", "make_live_var", "map_compound", "resolve_compound",
        "alloc_struct", "instantiate_struct", "instantiate_struct_element", "get_size_of_type", "get_array_size",
        "alloc_array")
NAMES = ("IDENTIFIER", "TYPE_NAME")
FIRST_RETURN = ("setjmp", "_setjmp", "__sigsetjmp")


def I(n):
    return ("IDENTIFIER", n)


def canon(n):
    """Each occurrence of a name is a node of its own: V and V' are the same name."""
    return n.rstrip("'")


def distinct(x, y):
    """Names are what they look like."""
    return x == y


def h_strcmp(w, names, eq=distinct):
    fid = w.p.acc["tID_STR"][1]
    known = {("ld", leaf(n), fid): canon(n) for n in names}

    def h(fl, nm, args, st, loc, e):
        a, b = args[0], args[1]
        if a == b:
            return [(("i", 0), st)]
        if a in known and b in known:
            x, y = sorted((known[a], known[b]))
            r = eq(x, y)
            if r is None:
                return [(("r", "strcmp", (x, y), 0), st)]
            return [(("i", 0 if r else 1), st)]
        ca = known.get(a) or const(a)
        cb = known.get(b) or const(b)
        # programs don't use the names bic reserves
        if ca and cb:
            return [(("i", 0 if ca == cb else 1), st)]
        if (a in known) != (b in known):
            return [(("i", 1), st)]
        raise Limit("names compared: %s, %s" % (w.sh(a), w.sh(b)))
    return h


def h_prefix(w, names, eq=distinct):
    """Comparison of a part of two names: says less than strcmp does."""
    same = h_strcmp(w, names, eq)
    fid = w.p.acc["tID_STR"][1]
    spelt = {("ld", leaf(n), fid): canon(n) for n in names}

    def spelling(v):
        return spelt.get(v) or const(v)

    def h(fl, nm, args, st, loc, e):
        out, n = [], args[2] if len(args) > 2 else None
        a, b = spelling(args[0]), spelling(args[1])
        if n and n[0] == "r" and n[1] == "strlen" and spelling(n[2][0]):
            n = ("i", len(spelling(n[2][0])))
        if eq is distinct and n and n[0] == "i" and a and b:
            return [(("i", int(a[:n[1]] != b[:n[1]])), st)]
        for v, s in same(fl, nm, args[:2], st, loc, e):
            if v[0] == "r":
                v = ("r", "prefix", v[2], 0)
            out.append((v, s))
        return out
    return h


def comparisons(w, names, eq=distinct):
    d = {"strcmp": h_strcmp(w, names, eq)}
    for k in ("strncmp", "strcasecmp", "strncasecmp", "memcmp"):
        d[k] = h_prefix(w, names, eq)
    return d


def const(v):
    while v[0] == "r" and v[1] == "strdup":
        v = v[2][0]
    return v[1] if v[0] == "str" else None


def clean(st):
    st = st.copy()
    for c in [c for c in st.env if c[0] == "L"]:
        del st.env[c]
    st.trace, st.cnt = (), {}
    return st


def initial(w):
    """The state as eval_init leaves it."""
    if hasattr(w, "st0"):
        return w.st0.copy()
    fl = w.flow(unroll=4, opaque=comparisons(w, []))
    fl.unit = "evaluate.c"
    for k in OPEN:
        fl.special.pop(k, None)
    st = State()
    # the variables' initial values
    for u, gl in w.p.globals.items():
        for n, g in gl.items():
            if g.get("init") and g["init"][0] == "i" and "const" not in g["type"]:
                st.env[("G", u if g["static"] else "", n)] = ("i", g["init"][1])
    outs = [o for o in run_self(fl, "eval_init", "evaluate.c", (), st) if o.kind == "ret"]
    w.note(fl)
    if len(outs) != 1:
        raise Limit("eval_init has %d outcomes" % len(outs))
    w.st0 = clean(outs[0].st)
    return w.st0.copy()


def tokens(text):
    """The items of a program text."""
    out = []
    for t in re.findall(r"[@~$]\w+|[A-Za-z_]\w*|\d+|\.\.\.|<<=|>>=|->|\+\+|--|&&|\|\||[-+*/%&|^=!<>]=|<<|>>|\S", text):
        if t[0] == "@":
            out.append(("assignment_expression", t[1:]))
        elif t[0] == "$":
            out.append(("primary_expression", t[1:]))
        elif t[0] == "~" and len(t) > 1:
            out.append(("TYPE_NAME", t[1:]))
        elif t[0].isdigit():
            out.append(("primary_expression", "#" + t))
        elif t[0].isalpha() and t not in KEYWORDS:
            out.append(I(t))
        else:
            out.append(t)
    return out


def unique(items):
    """Every occurrence of an identifier or a number is a node of its own."""
    occ, out = {}, []
    for i in items:
        if i[0] in NAMES or i[0] == "primary_expression" and i[1][0] == "#":
            k = occ[i[1]] = occ.get(i[1], -1) + 1
            i = (i[0], i[1] + "'" * k)
        out.append(i)
    return out


def direct(fl, name, args, st, loc, e):
    """Where nothing returns early."""
    return [(("i", 0), st)]


def execute(w, items, st=None, eq=distinct, more=(), operands="T_INTEGER", observe=None, opaque=None,
            early=False, record=None, again=(), raw=False, goal=("cscript_translation_unit", "$end", "__evaluate"), **kw):
    """Outcomes of running a program; None when the grammar rejects it.

    observe(name, value, flow, state) -> state, for each evaluation of an identifier
    (with raw, each occurrence has a name of its own).
    again: identifiers of earlier programs that may be evaluated again."""
    items = unique(tokens(items) if isinstance(items, str) else items)
    st = st.copy() if st is not None else initial(w)
    names = [i[1] for i in items if i[0] in NAMES]
    ints = [i[1] for i in items if i[0] == "primary_expression" and i[1][0] == "#"]
    for n in names:
        st.facts[("ty", leaf(n))] = frozenset([w.tt["T_IDENTIFIER"]])
    for n in ints:
        st.facts[("ty", leaf(n))] = frozenset([w.tt["T_INTEGER"]])
        st.env[("Z", ("F", leaf(n), w.f_int))] = ("zc", int(canon(n)[1:]))
    for i in items:
        if not isinstance(i, str) and i[1] not in names + ints and operands:
            for k in range(3):
                st.facts[("ty", EV(i[1], k))] = frozenset([w.tt[operands]])
    ids = set(leaf(n) for n in names + list(again))
    nums = set(leaf(n) for n in ints)
    f = w.p.lookup("evaluate.c", "__evaluate_1")

    def known(fl, t, s):
        if t in nums:
            return t
        if t not in ids:
            return None
        res = fl.real_inline("__evaluate_1", f, (t, ("p", "depth")), s, "")
        if observe:
            res = [(v, observe(t[1] if raw else canon(t[1]), v, fl, s2)) for v, s2 in res]
        return res
    op = comparisons(w, names + list(more), eq)
    if not early:
        op.update((k, direct) for k in FIRST_RETURN)
    op.update(opaque or {})
    kw.setdefault("unroll", 14)
    kw.setdefault("saturate", 6)
    kw.setdefault("objects", 60)
    kw.setdefault("transparent", OPEN)
    return w.expr("cscript", items, goal[0], goal[1], st=st, fname=goal[2], opaque=op, values=known, record=record, **kw)


def included(w, decls, st, eq=distinct):
    """The states an #include of the declarations leads to."""
    items = tokens(decls) if isinstance(decls, str) else decls

    def h_parse(fl, name, args, s, loc, e):
        r = w.fronts["cscript"].parse(fl, items, "cscript_translation_unit", "$end", s)
        if not r or len(r) != 1:
            raise Limit("included text has no single meaning")
        return [(("i", 0), r[0][1])]
    inc = leaf("#include")
    st = st.copy()
    st.facts[("ty", inc)] = frozenset([w.tt["CPP_INCLUDE"]])
    names = [i[1] for i in items if i[0] in NAMES]
    for n in names:
        st.facts[("ty", leaf(n))] = frozenset([w.tt["T_IDENTIFIER"]])
    fl = w.flow(unroll=14, opaque=dict(comparisons(w, names, eq), cscriptparse=h_parse), transparent=OPEN)
    f = w.p.lookup("evaluate.c", "__evaluate_1")
    fl.special.pop("__evaluate_1")
    fl.outcomes_dead = []
    fl.stack.append({"name": "", "unit": "evaluate.c", "loc": ""})
    res = fl.real_inline("__evaluate_1", f, (inc, ("p", "depth")), st, "")
    fl.stack.pop()
    w.note(fl)
    return [clean(s) for v, s in res]
