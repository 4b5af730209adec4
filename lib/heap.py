"""The collector's own code: its table of objects, its scan of the stack, and
the places the linker and the C library define."""
from flow import *

FALSE = ("i", 0)


class HeapFlow(Flow):
    """Flow over gc.c and the code generated with it.

    rank:  pointers whose order is fixed (the heap's objects)
    place: variables that have a given place: name -> cell
    bases: arrays, for pointer arithmetic"""

    def __init__(self, prog, unit, rank=None, place=None, bases=(), opaque=None, **kw):
        op = {"qsort": h_qsort, "bsearch": h_bsearch, "calloc": h_calloc, "realloc": h_realloc, "memset": h_zero,
              "__builtin_memset": h_zero, "__builtin_unwind_init": h_nothing, "free": h_free}
        op.update(opaque or {})
        kw.setdefault("unroll", 40)
        kw.setdefault("saturate", 40)
        kw.setdefault("ncap", 9)
        kw.setdefault("keep_facts", True)
        super().__init__(prog, unit, opaque=op, **kw)
        for n in ("alloc_tree", "tree_make"):
            self.special.pop(n, None)
        for n in op:
            self.special[n] = op[n]
        self.rank, self.place, self.bases = rank or {}, place or {}, set(bases)

    def member(self, c, field):
        if field == "t" and c[0] == "F":
            return c                    # struct gc_obj starts with the tree
        return super().member(c, field)

    def lval(self, e, st):
        if e[0] in ("v", "g") and e[1] in self.place:
            where = self.place[e[1]]
            if e[0] == "g" or where[1] == self.stack[-1]["name"]:
                return [(where[0], st)]
        return super().lval(e, st)

    def addr(self, c):
        if c[0] == "X" and c[1] in self.bases:
            return ("pl", c)
        return super().addr(c)

    def elem_cell(self, b, i):
        if b in self.bases and b[0] != "pl":
            return ("X", b, i)
        return super().elem_cell(b, i)

    def cell_of(self, v):
        if v in self.bases:
            return ("X", v, FALSE)
        return super().cell_of(v)

    def distinct(self, a, b):
        return a != b if a in self.rank and b in self.rank else super().distinct(a, b)

    def spot(self, v):
        """(array, index) of a pointer into a known array."""
        if v in self.bases:
            return v, 0
        if v[0] == "pl" and v[1][0] == "X" and v[1][1] in self.bases and v[1][2][0] == "i":
            return v[1][1], v[1][2][1]
        return None

    def arith(self, op, a, b, ty, lty, st):
        x, y = self.spot(a), self.spot(b)
        if x and b[0] == "i" and op in "+-":
            return ("pl", ("X", x[0], ("i", x[1] + (b[1] if op == "+" else -b[1]))))
        if x and y and op == "-" and x[0] == y[0]:
            return ("i", x[1] - y[1])
        return super().arith(op, a, b, ty, lty, st)

    def rel(self, op, a, b, st, lty=None):
        x, y = self.spot(a), self.spot(b)
        if x and y and x[0] == y[0]:
            a, b = ("i", x[1]), ("i", y[1])
        elif a in self.rank or b in self.rank:
            r = [("i", self.rank[v]) if v in self.rank else v for v in (a, b)]
            if all(v[0] == "i" for v in r):
                a, b = r
        return super().rel(op, a, b, st, "long" if a[0] == "i" and b[0] == "i" else lty)

    def branch(self, v, st, ty=None):
        if v in self.rank or self.spot(v):
            return [(True, st)]
        return super().branch(v, st, ty)


def h_nothing(fl, name, args, st, loc, e):
    return [(("void",), st)]


def h_free(fl, name, args, st, loc, e):
    return [(("void",), fl.emit(st, ev(loc, "call", name, args)))]


def elems(fl, base, n, st):
    at = fl.spot(base)
    if not at or n[0] != "i":
        raise Limit("an array the analysis doesn't know: %s, %s" % (base, n))
    return [("X", at[0], ("i", at[1] + k)) for k in range(n[1])]


def compare(fl, fn, x, y, st):
    """The sign of fn(&x, &y), the state."""
    if fn[0] == "pl":
        fn = ("fn", fn[1][1])
    s = st.copy()
    cells = [("X", ("cmp", k), FALSE) for k in (0, 1)]
    saved = set(fl.bases)
    fl.bases |= {("cmp", 0), ("cmp", 1)}
    s.env[cells[0]], s.env[cells[1]] = x, y
    f = fl.p.lookup(fl.cur_unit(), fn[1])
    res = fl.inline(f, (("cmp", 0), ("cmp", 1)), s, "")
    fl.bases = saved
    if len(res) != 1 or res[0][0][0] != "i":
        raise Limit("the comparison of %s has no single outcome" % fn[1])
    return res[0][0][1]


def h_qsort(fl, name, args, st, loc, e):
    import functools
    cells = elems(fl, args[0], args[1], st)
    vals = [fl.load(c, st) for c in cells]
    vals.sort(key=functools.cmp_to_key(lambda x, y: compare(fl, args[3], x, y, st)))
    st = st.copy()
    for c, v in zip(cells, vals):
        st.env[c] = v
    return [(("void",), st)]


def h_bsearch(fl, name, args, st, loc, e):
    cells = elems(fl, args[1], args[2], st)
    key = fl.load(fl.cell_of(args[0]), st)
    lo, hi = 0, len(cells)
    while lo < hi:
        mid = (lo + hi) // 2
        c = compare(fl, args[4], key, fl.load(cells[mid], st), st)
        if c == 0:
            return [(fl.addr(cells[mid]), st)]
        if c < 0:
            hi = mid
        else:
            lo = mid + 1
    return [(FALSE, st)]


def size(fl, args, name):
    return args[0][1] * args[1][1] if args[0][0] == args[1][0] == "i" else None


def h_calloc(fl, name, args, st, loc, e):
    st = st.copy()
    k = st.cnt.get("heap", 0)
    st.cnt["heap"] = k + 1
    o = ("p", "block%d" % k)
    n = size(fl, args, name)
    ty = fl.p.recs.get("gc_obj")
    if ty and n == ty["size"]:
        for f in ("type", "reachable", "chain.next", "chain.prev", "locus.file"):
            st.env[("F", o, f)] = FALSE
        fl.rank.setdefault(o, 100000 + k)
    else:
        fl.bases.add(o)
        st.env[("size", o)] = ("i", n if n is not None else -1)
    st = fl.emit(st, ev(loc, "call", name, args))
    return [(o, st)]


def h_realloc(fl, name, args, st, loc, e):
    st = st.copy()
    st.env[("size", args[0])] = args[1]
    return [(args[0], fl.emit(st, ev(loc, "call", name, args)))]


def h_zero(fl, name, args, st, loc, e):
    at = fl.spot(args[0])
    if not at or args[2][0] != "i":
        return [(args[0], fl.emit(st, ev(loc, "call", name, args)))]
    st = st.copy()
    if args[1] == FALSE and args[2][1] <= 8 * 64:
        for k in range(args[2][1] // 8):
            st.env[("X", at[0], ("i", at[1] + k))] = FALSE
    return [(args[0], fl.emit(st, ev(loc, "zeroed", args[0], args[2])))]
