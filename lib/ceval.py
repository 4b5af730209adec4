"""The evaluator's handlers as the flow engine sees them."""
from flow import *


def strip_epoch(v):
    if isinstance(v, tuple):
        if v and v[0] == "ldv":
            return ("ld",) + tuple(strip_epoch(x) for x in v[1:3])
        if v and v[0] == "lvint":
            return ("lvint", strip_epoch(v[1]))
        return tuple(strip_epoch(x) for x in v)
    return v


def mk_term(fl, v, st, depth=0):
    """Structural description of a fresh object."""
    if v[0] != "new" or depth > 6:
        return v
    t = st.env.get(("F", v, "type"))
    if t is None or t[0] != "i":
        return v
    fields = []
    for c, x in st.env.items():
        if c[0] == "F" and c[1] == v and c[2] != "type" and \
                not c[2].startswith("locus") and not c[2].startswith("chain"):
            fields.append((c[2], mk_term(fl, x, st, depth + 1)))
        if c[0] == "Z" and c[1][0] == "F" and c[1][1] == v:
            fields.append((c[1][2], x))
    return ("mk", fl.p.type_names[t[1]], tuple(sorted(fields, key=repr)))


SELF_TYPES = ("T_INTEGER", "T_FLOAT", "T_STRING", "T_LIVE_VAR", "T_LIVE_COMPOUND")


def o_eval(fl, name, args, st, loc, e):
    """The recursive evaluation of a sub-tree."""
    t = args[0]
    if t == ("i", 0):
        return [(("i", 0), st)]
    res = []
    selfset = frozenset(fl.p.tree_types[n] for n in SELF_TYPES)
    if t[0] in ("ev", "new", "r", "elem") or \
            (("ty", t) in st.facts and st.facts[("ty", t)] <= selfset):
        ts = fl.tyset(t, st)
        inself = ts & selfset
        if inself:
            s = fl.refine_ty(t, inself, st)
            res.append((t, s))
        rest = ts - selfset
        if not rest:
            return res
        if t[0] == "ev" or t[0] == "r":
            if rest == frozenset([NULL]):
                res.append((("i", 0), fl.refine_ty(t, rest, st)))
                return res
            if NULL in rest:
                res.append((("i", 0), fl.refine_ty(t, frozenset([NULL]), st)))
                rest = rest - {NULL}
            st = fl.refine_ty(t, rest, st)
        elif inself:
            st = fl.refine_ty(t, rest, st)
    what = mk_term(fl, t, st)
    st = st.copy()
    key = ("eval", what)
    n = st.cnt.get(key, 0)
    st.cnt[key] = min(n + 1, fl.ncap)
    st.cnt["epoch"] = min(st.cnt.get("epoch", 0) + 1, 9)
    st = fl.emit(st, ev(loc, "eval", what, n, *fl.mark(st)))
    v = ("ev", what, n)
    res.append((v, st))
    return res


def o_exec(fl, name, args, st, loc, e):
    t = args[0]
    if t == ("i", 0):
        return [(("i", 0), st)]
    what = mk_term(fl, t, st)
    st = st.copy()
    key = ("exec", what)
    n = st.cnt.get(key, 0)
    st.cnt[key] = min(n + 1, fl.ncap)
    st.cnt["epoch"] = min(st.cnt.get("epoch", 0) + 1, 9)
    st = fl.emit(st, ev(loc, "exec", what, n, *fl.mark(st)))
    v = ("evs", what, n)
    st.facts[("ty", v)] = frozenset([NULL, fl.p.tree_types["T_BREAK"]])
    return [(v, st)]


def o_pure(fl, name, args, st, loc, e):
    """A function analysed elsewhere that only reads the program's state."""
    what = tuple(mk_term(fl, a, st) for a in args)
    key = ("call", name, what)
    n = st.cnt.get(key, 0)
    st = st.copy()
    st.cnt[key] = min(n + 1, fl.ncap)
    return [(("r", name, what, n), st)]


def o_effect(fl, name, args, st, loc, e):
    """A function analysed elsewhere; its call is recorded as an effect."""
    what = tuple(mk_term(fl, a, st) for a in args)
    key = ("call", name, what)
    n = st.cnt.get(key, 0)
    st = st.copy()
    st.cnt[key] = min(n + 1, fl.ncap)
    for i, a in enumerate(args):
        if a[0] == "pl" and a[1][0] in ("L", "G", "S"):
            st.env[a[1]] = ("out", name, i, n)
    st = fl.emit(st, ev(loc, "call", name, what))
    return [(("r", name, what, n), st)]


DEFAULT_OPAQUE = {
    "resolve_decl_specs_to_type": o_pure, "resolve_identifier": o_pure,
    "__resolve_identifier": o_pure, "__resolve_id": o_pure,
    "resolve_compound": o_pure, "get_entry_point_for_fn": o_effect,
    "do_ext_call": o_effect, "run_cpp": o_effect, "inspect": o_effect,
    "bic_repl": o_effect, "map_identifier": o_effect, "__map_identifer": o_effect,
    "map_compound": o_effect, "cscriptparse": o_effect, "cscript_exit": o_effect,
    "get_size_of_type": o_pure, "instantiate_struct": o_effect,
    "handle_declarator": o_effect, "alloc_struct": o_effect,
    "get_array_size": o_effect, "alloc_array": o_effect,
}


class EvalFlow(Flow):
    def __init__(self, prog, unroll=0, opaque=None, transparent=(), marker=None, **kw):
        self.marker = marker
        op = {"__evaluate_1": o_eval, "__evaluate": o_exec}
        for k, h in DEFAULT_OPAQUE.items():
            if k not in transparent:
                op[k] = h
        op.update(opaque or {})
        super().__init__(prog, "evaluate.c", opaque=op, unroll=unroll, **kw)
        self.volatile = set(f[0] for f in prog.recs["value"]["fields"])
        prog.uv_types = {f[0]: f[1] for f in prog.recs["value"]["fields"]}
        self.f_retval = prog.acc["tECTX_RETVAL"][1]
        for need in ("__evaluate_1", "__evaluate", "eval_die", "evaluate_expr"):
            if prog.lookup("evaluate.c", need) is None:
                raise Limit("anchor %s has disappeared" % need)

    def mark(self, st):
        """What is recorded with each evaluation of an operand."""
        return (self.marker(self, st),) if self.marker else ()

    def fresh_load(self, base, f, st):
        if base[0] == "deep":
            return base
        return super().fresh_load(base, f, st)

    def on_longjmp(self, st, args):
        # every context pushed since is still in place, the return value
        # has been stored
        cur = self.load(("G", "evaluate.c", "cur_ctx"), st)
        st = st.copy()
        st.env[("G", "evaluate.c", "cur_ctx")] = ("deep", cur)
        st.env[("F", cur, self.f_retval)] = ("retval", cur)
        return st

    def run_node(self, tname, st=None, fname="__evaluate_1"):
        """Evaluate a node of the given type; the dispatcher is inlined."""
        saved = self.special.pop(fname, None)
        f = self.p.lookup("evaluate.c", fname)
        try:
            st = st or State()
            t = ("p", "t")
            st.facts[("ty", t)] = frozenset([self.p.tree_types[tname]])
            self.special[fname] = saved
            self.outcomes_dead = []
            res = self.inline(f, (t, ("p", "depth")), st, "")
        finally:
            if saved:
                self.special[fname] = saved
        return [Outcome("ret", v, s) for v, s in res] + self.outcomes_dead


def A(p, acc, obj=("p", "t")):
    """The initial value of an accessor's field."""
    return ("ld", obj, p.acc[acc][1])


def show(p, v, tname=None):
    """Readable form of a term."""
    if not isinstance(v, tuple):
        return str(v)
    k = v[0] if v else ""
    if k == "ld" or k == "ldv":
        return "%s.%s" % (show(p, v[1]), v[2])
    if k == "p":
        return v[1]
    if k == "i":
        return str(v[1])
    if k == "new":
        return "new@%s" % v[1].split("|")[-1]
    if k == "mk":
        return "%s{%s}" % (v[1], ", ".join("%s=%s" % (f, show(p, x)) for f, x in v[2]))
    if k == "ev":
        return "eval(%s)%s" % (show(p, v[1]), "'" * v[2])
    return "(" + " ".join(show(p, x) for x in v) + ")"
