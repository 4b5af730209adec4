"""Constructs of the two front ends as the analyses see them, with the
vocabulary the specifications are written in."""
from compose import *

INTEGRAL = ["D_T_CHAR", "D_T_SHORT", "D_T_INT", "D_T_LONG", "D_T_LONGLONG",
            "D_T_UCHAR", "D_T_USHORT", "D_T_UINT", "D_T_ULONG", "D_T_ULONGLONG"]
CTYPE = {"D_T_CHAR": "char", "D_T_SHORT": "short", "D_T_INT": "int",
         "D_T_LONG": "long", "D_T_LONGLONG": "long long",
         "D_T_UCHAR": "unsigned char", "D_T_USHORT": "unsigned short",
         "D_T_UINT": "unsigned int", "D_T_ULONG": "unsigned long",
         "D_T_ULONGLONG": "unsigned long long"}
FLOATS = ["D_T_FLOAT", "D_T_DOUBLE", "D_T_LONGDOUBLE"]


def P(n):
    return ("primary_expression", n)


def S(n):
    return ("statement", n)


def T(n):
    return ("type_name", n)


def leaf(n):
    return ("p", n)


def EV(n, k=0):
    return ("ev", ("p", n), k)


def text(items):
    return " ".join(i if isinstance(i, str) else i[1] for i in items)


class World:
    def __init__(self, ctx, targets=("cscript", "repl")):
        self.ctx, self.p = ctx, ctx.prog
        self.targets = targets
        self.fronts = {t: Front(ctx.prog, t, ctx.dir) for t in targets}
        self.tt = self.p.tree_types
        self.cache = {}
        p = self.p
        f = lambda a: p.acc[a][1]
        self.f_lvtype, self.f_lvval = f("tLV_TYPE"), f("tLV_VAL")
        self.f_int = f("tINT_VAL")
        self.integral = frozenset(self.tt[x] for x in INTEGRAL)
        self.scalar = self.integral | {self.tt["D_T_PTR"]}
        self.CUR = ("g0", "evaluate.c", "cur_ctx")
        self.CURCELL = ("G", "evaluate.c", "cur_ctx")
        self.alloc_chain = f("tECTX_ALLOC_CHAIN")
        self.types_expr = None

    # ------------------------------------------------------------ analysis
    def flow(self, **kw):
        kw.setdefault("ncap", 2)
        kw.setdefault("saturate", 1)
        kw.setdefault("keep_facts", True)
        return Compose(self.p, **kw)

    def parse(self, target, items, goal, follow, st=None, **kw):
        fl = self.flow(**kw)
        r = self.fronts[target].parse(fl, items, goal, follow, st)
        self.note(fl)
        return fl, r

    def note(self, fl):
        self.ctx.states += fl.steps
        fl.steps = 0
        self.ctx.functions |= set(fl.fns)

    def expr(self, target, items, goal="expression", follow="';'", st=None,
             fname="__evaluate_1", cache=True, run=None, **kw):
        """Outcomes of evaluating the construct; None when it is rejected."""
        key = (target, tuple(items), goal, fname, tuple(sorted(kw.items())))
        if cache and st is None and key in self.cache:
            return self.cache[key]
        fl, r = self.parse(target, items, goal, follow, st, **kw)
        if r is None:
            out = None
        else:
            out = []
            for v, s in r:
                for o in run(fl, v, s) if run else evaluate(fl, v, s, fname):
                    o.tree = v
                    o.fl = fl
                    o.parsed = s
                    out.append(o)
            self.note(fl)
        if cache and st is None:
            self.cache[key] = out
        return out

    def stmt(self, target, items, goal="statement", follow="'}'", **kw):
        return self.expr(target, items, goal, follow, fname="__evaluate", **kw)

    # ---------------------------------------------------------- vocabulary
    def tys(self, v, o):
        return o.fl.tyset(v, o.st)

    def ty(self, v, o):
        """The single tree type of a value, by name, or None."""
        if v[0] == "new":
            t = o.st.env.get(("F", v, "type"))
            return self.p.type_names[t[1]] if t and t[0] == "i" else None
        ts = o.fl.tyset(v, o.st)
        if len(ts) == 1:
            k = next(iter(ts))
            return None if k == NULL else self.p.type_names[k]
        return None

    def lvtypes(self, v, o):
        """Possible type tags of the live variable v."""
        x = o.fl.load(("F", v, self.f_lvtype), o.st)
        if x[0] == "new":
            t = self.ty(x, o)
            return frozenset([self.tt[t]]) if t else frozenset()
        return o.fl.tyset(x, o.st)

    def val(self, v, o):
        """Kind of an evaluated operand: 'int', 'lv' (integral object) or None."""
        ts = self.tys(v, o)
        if ts == frozenset([self.tt["T_INTEGER"]]):
            return "int"
        if ts == frozenset([self.tt["T_LIVE_VAR"]]) and self.lvtypes(v, o) <= self.scalar:
            return "lv"
        return None

    def may_int(self, v, o):
        """Can v be an integer, or an object of integral type, here?"""
        ts = self.tys(v, o)
        if self.tt["T_INTEGER"] in ts:
            return True
        return self.tt["T_LIVE_VAR"] in ts and bool(self.lvtypes(v, o) & self.integral)

    def num(self, v, o):
        """The numbers v may stand for as (canonical) terms: its integer value."""
        k = self.val(v, o)
        if k == "int":
            if v[0] == "new":
                return o.st.env.get(("Z", ("F", v, self.f_int)))
            return ("int", v)
        if k == "lv":
            return ("lvint", v)
        return None

    def intres(self, o):
        """The integer an outcome returns, as a term without epochs."""
        if o.val[0] == "new" and self.ty(o.val, o) == "T_INTEGER":
            z = o.st.env.get(("Z", ("F", o.val, self.f_int)))
            return strip_epoch(z) if z is not None else ("zc", 0)
        return None

    def evals(self, o):
        return [e for e in o.st.trace if e[0] in ("eval", "exec")]

    def effects(self, o):
        """Everything that outlives the evaluation of the construct itself,
        apart from evaluating its operands: stores to existing objects and
        calls.  The allocation record of the current context is bookkeeping."""
        out = []
        for e in o.st.trace:
            if e[0] in ("eval", "exec", "sgn", "sign", "die"):
                continue
            if e[0] in ("store", "zstore") and self.bookkeeping(e[1], o):
                continue
            if e[0] == "store" and e[1] == self.CURCELL:
                continue
            if e[0] == "call" and e[1] in ("malloc", "calloc", "perror", "fprintf",
                                           "puts", "printf", "strdup"):
                continue
            out.append(e)
        return out

    def bookkeeping(self, cell, o):
        c = cell
        while isinstance(c, tuple):
            if c[0] == "ld" and c[2] == self.alloc_chain:
                return True
            if c[0] == "new" and cell[0] == "F":
                return True
            if c[0] in ("F", "ld", "ldv", "Z", "cof", "pl", "S"):
                c = c[1]
            else:
                return False
        return False

    def site(self, o):
        """A location that represents an outcome."""
        if o.loc:
            return o.loc
        if o.val and o.val[0] == "new":
            return o.val[1].split("|")[-1]
        for e in reversed(o.st.trace):
            if getattr(e, "loc", ""):
                return e.loc
        return "evaluate.c"

    def sh(self, v):
        return show(self.p, strip_epoch(v)) if v is not None else "nothing"

    def desc(self, o):
        return "; ".join("%s@%s" % (self.sh(tuple(e)), e.loc) for e in o.st.trace)[:400]
