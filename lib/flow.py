"""Path-sensitive provenance dataflow over the type-checked AST.

The engine propagates abstract states through the statements of a function
(and, context-sensitively, of the functions it calls).  A state maps memory
cells to provenance terms ("the value of this cell came from ..."), carries
finite-domain facts refined at branches (tree-type sets, signs, nullness,
equality with constants) and a trace of the effects seen on the way, which
saturates.  Loops are iterated to a fixpoint with widening; states that differ
in exactly one fact are joined.  Nothing is executed and no solver is used.
"""
import re, sys

sys.setrecursionlimit(20000)

NULL = -1


class Limit(Exception):
    """The analysis could not be completed (never a pass, never a violation)."""


def root(p):
    """The object a pointer is computed from, p + i or p - i."""
    while p[0] == "op" and p[1] in ("+", "-"):
        rs = [x for x in p[2:] if allocated(root(x))]
        if len(rs) != 1:
            return p
        p = root(rs[0])
    return p


def allocated(p):
    return p[0] == "r" and p[1] in ("malloc", "calloc", "alloca")


class Ev(tuple):
    loc = ""


def ev(loc, *a):
    e = Ev(a)
    e.loc = loc
    return e


INT_TYPES = {           # name -> (bits, signed)
    "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False),
    "int": (32, True), "unsigned int": (32, False),
    "long": (64, True), "unsigned long": (64, False),
    "long long": (64, True), "unsigned long long": (64, False),
    "_Bool": (1, False),
}


def int_type(t):
    if t is None:
        return None
    t = t.replace("const ", "").replace("volatile ", "").strip()
    if t in INT_TYPES:
        return INT_TYPES[t]
    if t.startswith("enum ") or t in ("compound_type",):
        return (32, False)
    if t.endswith("*"):
        return (64, False)
    return None


def wrap_int(n, t):
    it = int_type(t)
    if it is None:
        return n
    bits, signed = it
    if bits == 1:
        return 1 if n else 0
    n &= (1 << bits) - 1
    if signed and n >> (bits - 1):
        n -= 1 << bits
    return n


class State:
    __slots__ = ("env", "facts", "trace", "cnt")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.trace = ()
        self.cnt = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.cnt = dict(self.cnt)
        return s

    def base_key(self):
        return (frozenset(self.env.items()), self.trace,
                frozenset(self.cnt.items()))

    def key(self):
        return (self.base_key(), frozenset(self.facts.items()))


def mentions(v, t):
    if v == t:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and mentions(x, t):
                return True
    return False


def subst(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple) and not isinstance(v, Ev):
        r = tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in v)
        return r
    return v


class Outcome:
    def __init__(self, kind, val, st, loc=""):
        self.kind = kind        # ret | die | jump
        self.val = val
        self.st = st
        self.loc = loc

    @property
    def trace(self):
        return self.st.trace


class Flow:
    """One analysis configuration."""

    MAX_STATES = 60000

    def __init__(self, prog, unit, opaque=None, unroll=0, saturate=2,
                 max_depth=60, record=None, ncap=3, log_signs=False, keep_facts=False,
                 rec_limit=1, real_lists=False, coarse=None, objects=2):
        self.p = prog
        self.unit = unit
        self.opaque = opaque or {}
        self.unroll = unroll
        self.sat = saturate
        self.max_depth = max_depth
        self.record = record
        self.ncap = ncap
        self.objects = objects
        self.log_signs = log_signs
        self.keep_facts = keep_facts
        self.coarse = coarse
        self.stack = []
        self.steps = 0
        self.fns = set()
        self.calls = 0
        self.all_types = frozenset(prog.type_names) | {NULL}
        self.special = dict(INTRINSICS)
        self.rec_limit = rec_limit
        if real_lists:
            for n in ("list_add", "list_add_tail", "list_del", "list_splice"):
                del self.special[n]
        self.special.update(self.opaque)
        self.outcomes_dead = []
        self.volatile = set()
        self.pure_reads = set()

    # ------------------------------------------------------------- driving
    def run(self, fname, args, st=None, unit=None):
        unit = unit or self.unit
        f = self.p.lookup(unit, fname)
        if f is None:
            raise Limit("function %s not found" % fname)
        st = st or State()
        self.outcomes_dead = []
        res = self.inline(f, args, st, "")
        out = [Outcome("ret", v, s) for v, s in res]
        return out + self.outcomes_dead

    def dead(self, kind, val, st, loc):
        o = Outcome(kind, val, st, loc)
        self.outcomes_dead.append(o)

    # --------------------------------------------------------------- facts
    def tyset(self, v, st):
        if v == ("i", 0):
            return frozenset([NULL])
        c = st.env.get(("F", v, "type"))
        if c is not None:
            if c[0] == "i":
                return frozenset([c[1]])
            if c[0] == "ty":
                return self.tyset(c[1], st) - {NULL}
            return self.all_types - {NULL}
        cp = st.env.get(("C", v))
        if cp is not None:
            return self.tyset(cp, st) - {NULL}
        if v[0] in ("new",):
            return frozenset([0])
        r = st.facts.get(("ty", v))
        if r is None:
            if v[0] in ("str", "fn", "pl"):
                return self.all_types - {NULL}
            return self.all_types
        return r

    def refine_ty(self, v, keep, st):
        """State with type(v) in keep, or None."""
        cur = self.tyset(v, st)
        n = cur & keep
        if not n:
            return None
        if n == cur:
            return st
        if ("F", v, "type") in st.env:
            # the set can only be a computed one
            c = st.env[("F", v, "type")]
            if c[0] == "ty":
                return self.refine_ty(c[1], keep, st)
            return st
        cp = st.env.get(("C", v))
        if cp is not None:
            return self.refine_ty(cp, keep, st)
        st = st.copy()
        st.facts[("ty", v)] = n
        return st

    def signs(self, v, st):
        return st.facts.get(("sgn", v), frozenset((-1, 0, 1)))

    def refine_sgn(self, v, keep, st):
        cur = self.signs(v, st)
        n = cur & keep
        if not n:
            return None
        if n == cur:
            return st
        st = st.copy()
        st.facts[("sgn", v)] = n
        return st

    def flush_signs(self, st):
        """Log the sign facts an effect happens under."""
        last = {}
        for e in st.trace:
            if e[0] == "sign":
                last[e[1]] = e[2]
        new = [ev("", "sign", f[1], n) for f, n in st.facts.items()
               if f[0] == "sgn" and last.get(f[1]) != n]
        if new:
            new.sort(key=repr)
            st = st.copy()
            st.trace = st.trace + tuple(new)
        return st

    # ------------------------------------------------------- state merging
    def merge(self, results):
        """Join (value, state) pairs that differ in at most one fact."""
        if len(results) < 2:
            return results
        groups = {}
        order = []
        for v, s in results:
            k = (v, s.base_key())
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        out = []
        for k in order:
            ss = groups[k]
            if len(ss) > 1:
                ss = self.merge_facts(ss)
            for s in ss:
                out.append((k[0], s))
        return out

    def merge_facts(self, ss):
        ss = list(ss)
        changed = True
        while changed and len(ss) > 1:
            changed = False
            seen = {}
            u = []
            for s in ss:
                fk = frozenset(s.facts.items())
                if fk not in seen:
                    seen[fk] = 1
                    u.append(s)
            ss = u
            # index by "facts without key k"
            for key in set(k for s in ss for k in s.facts):
                idx = {}
                for s in ss:
                    rest = frozenset((k, v) for k, v in s.facts.items()
                                     if k != key)
                    idx.setdefault(rest, []).append(s)
                new = []
                for rest, g in idx.items():
                    if len(g) == 1:
                        new.append(g[0])
                        continue
                    m = g[0].copy()
                    vals = [s.facts.get(key) for s in g]
                    j = self.join_fact(key, vals)
                    if j is None:
                        m.facts.pop(key, None)
                    elif j is False:
                        new.extend(g)
                        continue
                    else:
                        m.facts[key] = j
                    new.append(m)
                    changed = True
                ss = new
        return ss

    def join_fact(self, key, vals):
        """Exact join; None = no information left; False = can't join."""
        if any(v is None for v in vals):
            return None
        if key[0] in ("ty", "sgn"):
            r = frozenset()
            for v in vals:
                r |= v
            full = self.all_types if key[0] == "ty" else frozenset((-1, 0, 1))
            return None if r == full else r
        if key[0] == "val":
            ins = frozenset()
            notin = None
            for k, s in vals:
                if k == "in":
                    ins |= s
                else:
                    notin = s if notin is None else (notin & s)
            if notin is None:
                return ("in", ins)
            notin = notin - ins
            return ("notin", notin) if notin else None
        if key[0] in ("nz", "rel", "end"):
            return vals[0] if len(set(vals)) == 1 else None
        return False

    # ---------------------------------------------------------------- trace
    def emit(self, st, e):
        if self.record is not None and not self.record(e):
            return st
        if self.sat and st.trace.count(e) >= self.sat:
            return st
        if self.log_signs:
            st = self.flush_signs(st)
        st = st.copy()
        st.trace = st.trace + (e,)
        return st

    # --------------------------------------------------------------- memory
    def escape_ok(self, base):
        """Is base an object created by the analysed code?"""
        return base[0] in ("new",)

    def distinct(self, a, b):
        """Can the pointers a and b be assumed to be different?"""
        if a == b:
            return False
        if a[0] == "new" or b[0] == "new":
            return True
        a, b = root(a), root(b)
        return a != b and allocated(a) and allocated(b)

    def load(self, cell, st, cty=None):
        v = st.env.get(cell)
        if v is not None:
            return v
        k = cell[0]
        if k == "L":
            return ("undef", cell[2])
        if k == "G":
            c = self.const_global(cell)
            if c is not None:
                return c
            return ("g0", cell[1], cell[2])
        if k == "F":
            base, f = cell[1], cell[2]
            cp = st.env.get(("C", base))
            if cp is not None:
                return self.load(("F", cp, f), st, cty)
            if f == "type" and (base[0] != "pl"):
                ts = self.tyset(base, st) - {NULL}
                if len(ts) == 1:
                    return ("i", next(iter(ts)))
                return ("ty", base)
            if base[0] == "new":
                if f in ("chain.next", "chain.prev"):
                    return ("pl", ("F", base, "chain"))
                return ("i", 0)
            if base[0] == "pl":
                if f == "" and base[1][0] == "X":
                    return self.load(base[1], st, cty)
                return self.load(("S", base[1], f), st, cty)
            if f == "" and base[0] == "str":
                return self.load(("X", base, ("i", 0)), st, cty)
            return self.fresh_load(base, f, st)
        if k == "S":        # sub-object f of a cell holding a struct
            v = st.env.get(cell[1])
            if v is not None and v[0] == "st":
                for n, x in v[1]:
                    if n == cell[2]:
                        return x
            if v is not None:
                return ("ldf", v, cell[2])
            return ("ldc",) + cell
        if k == "X":
            b, i = cell[1], cell[2]
            g = self.const_element(b, i)
            if g is not None:
                return g
            return ("ldx", b, i)
        if k == "D":
            return ("ldp", cell[1])
        return ("ldc",) + cell

    def fresh_load(self, base, f, st):
        if f in self.volatile:
            return ("ldv", base, f, st.cnt.get("epoch", 0))
        return ("ld", base, f)

    def const_global(self, cell):
        u, g = self.p.global_def(self.unit_of(cell), cell[2])
        if g and g.get("init") is not None and \
                g["type"].startswith("const ") and "*" not in g["type"]:
            i = g["init"]
            if i[0] == "i":
                return ("i", i[1])
        return None

    def unit_of(self, cell):
        return cell[1] or self.unit

    def const_element(self, b, i):
        """A character of a string that is known."""
        if b[0] == "str" and i[0] == "i" and isinstance(b[1], str):
            if 0 <= i[1] < len(b[1]):
                c = ord(b[1][i[1]])
                if c < 256:
                    return ("i", c - 256 if c > 127 else c)
            elif i[1] == len(b[1]):
                return ("i", 0)
        return None

    def store(self, cell, v, st, loc, cty=None):
        st = st.copy()
        k = cell[0]
        if k == "F":
            base, f = cell[1], cell[2]
            if base[0] == "pl":
                return self.store(("S", base[1], f), v, st, loc)
            if base[0] != "new":
                # may-aliases of this field lose what is known about them
                for c in [c for c in st.env
                          if c[0] == "F" and c[2] == f and c[1] != base
                          and not self.distinct(c[1], base)]:
                    if st.env[c] != v:
                        st.env[c] = ("ldm", c[1], f, v)
            if f == "type" and ("C", base) in st.env and False:
                pass
            st.env[cell] = v
            if base[0] != "new":
                st = self.emit(st, ev(loc, "store", cell, v))
            return st
        if k == "S":
            st.env[cell] = v
            return st
        if k == "G":
            st.env[cell] = v
            return self.emit(st, ev(loc, "store", cell, v))
        if k == "L":
            st.env[cell] = v
            return st
        st.env[cell] = v
        if k == "D" or k == "X":
            st = self.emit(st, ev(loc, "store", cell, v))
        return st

    # ---------------------------------------------------------- expressions
    def frame(self):
        return len(self.stack)

    def gcell(self, name):
        u = self.cur_unit()
        g = self.p.globals.get(u, {}).get(name)
        if g is not None and g.get("static"):
            return ("G", u, name)
        if "." in name:
            return ("G", u, name)
        return ("G", "", name)

    def cur_unit(self):
        return self.stack[-1]["unit"] if self.stack else self.unit

    def tick(self):
        self.steps += 1
        if self.steps > 30000000:
            raise Limit("analysis budget exhausted")

    def lval(self, e, st):
        """List of (cell, state)."""
        k = e[0]
        if k == "v":
            return [(("L", self.frame(), "%s#%s" % (e[1], e[2])), st)]
        if k == "g":
            return [(self.gcell(e[1]), st)]
        if k == "m":
            out = []
            field = e[2]
            for c, s in self.lval(e[1], st):
                out.append((self.member(c, field), s))
            return out
        if k == "deref":
            out = []
            for v, s in self.eval(e[1], st):
                out.append((self.cell_of(v), s))
            return out
        if k == "idx":
            out = []
            for b, s in self.eval(e[1], st):
                for i, s2 in self.eval(e[2], s):
                    out.append((self.elem_cell(b, i), s2))
            return out
        if k in ("decay", "cast"):
            return self.lval(e[1] if k == "decay" else e[2], st)
        if k == "s":
            return [(("STR", e[1]), st)]
        if k == "f":
            return [(("FN", e[1]), st)]
        # an rvalue used as an lvalue (struct returned by value ...)
        out = []
        for v, s in self.eval(e, st):
            out.append((("T", v), s))
        return out

    def member(self, c, field):
        if field == "data" or field == "":
            return c
        if c[0] == "F":
            f = c[2]
            if f == "":
                return ("F", c[1], field)
            return ("F", c[1], f + "." + field)
        if c[0] == "S":
            return ("S", c[1], c[2] + "." + field)
        return ("S", c, field)

    def cell_of(self, v):
        """The cell a pointer value designates."""
        if v[0] == "pl":
            return v[1]
        return ("F", v, "")

    def elem_cell(self, b, i):
        if i == ("i", 0) and b[0] == "pl":
            return b[1]
        if b[0] == "pl" and b[1][0] == "X" and b[1][2][0] == "i" and i[0] == "i":
            return ("X", b[1][1], ("i", b[1][2][1] + i[1]))
        return ("X", b, i)

    def addr(self, c):
        if c[0] == "F":
            if c[2] == "":
                return c[1]
            if c[2] == "chain" and c[1][0] == "cof":
                return c[1][1]
        if c[0] == "STR":
            return ("str", c[1])
        if c[0] == "FN":
            return ("fn", c[1])
        if c[0] == "T":
            return c[1]
        if c[0] == "X" and c[2] == ("i", 0):
            return c[1]
        return ("pl", c)

    def eval(self, e, st):
        """List of (value, state)."""
        self.tick()
        k = e[0]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return [(("unk", k), st)]
        return m(e, st)

    def e_i(self, e, st):
        return [(("i", e[1]), st)]

    def e_e(self, e, st):
        return [(("i", e[2]), st)]

    def e_s(self, e, st):
        return [(("str", e[1]), st)]

    def e_fl(self, e, st):
        return [(("fl", e[1]), st)]

    def e_f(self, e, st):
        return [(("fn", e[1]), st)]

    def e_v(self, e, st):
        return [(self.addr(c), s) for c, s in self.lval(e, st)]

    e_g = e_v
    e_m = e_v
    e_deref = e_v
    e_idx = e_v

    def e_ld(self, e, st):
        out = []
        for c, s in self.lval(e[1], st):
            if c[0] == "T":
                out.append((c[1], s))
                continue
            if c[0] == "FN":
                out.append((("fn", c[1]), s))
                continue
            v, s = self.load_rec(c, s, e[2] if len(e) > 2 else None)
            out.append((v, s))
        return out

    def load_rec(self, c, s, ty):
        if c[0] == "F" and c[2] == "_mp_size":
            return zsign(self.zload_cell(c, s)), s
        if c[0] == "S" and c[2] == "_mp_size":
            return zsign(self.zload(c[1], s)), s
        if c[0] == "F" and c[2].endswith("._mp_size"):
            return zsign(self.zload((c[0], c[1], c[2][:-9]), s)), s
        v = self.load(c, s, ty)
        if c[0] == "F" and ty and c[2] in getattr(self.p, "uv_types", ()):
            v = self.read_as(v, self.p.uv_types[c[2]], ty)
        if c[0] == "F" and c[2].endswith(".next") or c[0] == "F" and c[2] == "next":
            # following a ring: what is known about the summary element of
            # this list was about another element
            v, s = self.ring_next(c, v, s)
        if c[0] == "F" and c[1][0] != "new":
            # the dereferenced pointer isn't NULL on the way past here
            s2 = self.refine_nonnull(c[1], s)
            if s2 is not None:
                s = s2
        if self.record is not None and self.pure_reads:
            fld = c[2] if c[0] == "F" else None
            if fld in self.pure_reads:
                s = self.emit(s, ev("", "read", c))
        return v, s

    def read_as(self, v, have, ty):
        """A member that is read through a pointer to another type."""
        ty = ty.replace("const ", "").replace("volatile ", "")
        if ty == have or ty.endswith("*") and have.endswith("*"):
            return v
        a, b = int_type(have), int_type(ty)
        if a and b and b[0] <= a[0]:
            return v if a == b else ("cast", ty, v)
        return ("pun", ty, v)

    def refine_nonnull(self, v, st):
        if v[0] in ("pl", "str", "fn", "elem", "i"):
            return st
        key = ("ty", v)
        r = st.facts.get(key)
        if r is not None and NULL in r:
            st = st.copy()
            st.facts[key] = r - {NULL}
        return st

    def ring_next(self, c, v, s):
        return v, s

    def e_decay(self, e, st):
        return [(self.addr(c), s) for c, s in self.lval(e[1], st)]

    def e_addr(self, e, st):
        return [(self.addr(c), s) for c, s in self.lval(e[1], st)]

    def vtype(self, v):
        k = v[0]
        if k == "cast":
            return v[1]
        if k in ("ld", "ldv", "ldm", "uv"):
            f = v[2]
            t = self.p.uv_types.get(f) if hasattr(self.p, "uv_types") else None
            return t
        if k == "zget":
            return "unsigned long" if v[1] == "ui" else \
                "long" if v[1] == "si" else "double"
        if k == "wrap":
            return "long"
        if k in ("zsgn", "zcmp"):
            return "int"
        return None

    def e_cast(self, e, st):
        ty, kind = e[1], e[3]
        fr = e[4] if len(e) > 4 else None
        out = []
        for v, s in self.eval(e[2], st):
            if kind in ("ToVoid",):
                out.append((("i", 0), s))
            elif kind in ("IntegralToBoolean", "PointerToBoolean"):
                for b, s2 in self.branch(v, s, fr):
                    out.append((("i", 1 if b else 0), s2))
            else:
                out.append((self.conv(v, ty, fr, s), s))
        return out

    def conv(self, v, ty, fr, st):
        k = v[0]
        if k == "i":
            it = int_type(ty)
            if it is not None:
                return ("i", wrap_int(v[1], ty))
            if ty in ("float", "double", "long double"):
                return ("fl", v[1])
            return v
        if ty in ("float", "double", "long double") and k == "zget":
            return ("cast", ty, v)      # an unsigned value stays one
        v = self.canon(v, st)
        src = self.vtype(v) or fr
        if src == ty:
            return v
        a, b = int_type(src), int_type(ty)
        if a is not None and b is not None:
            if a == b:
                return v
            if (src or "").endswith("*") and ty.endswith("*"):
                return v
            # value preserving widening
            if a[1] == b[1] and a[0] <= b[0]:
                return v
            if not a[1] and b[1] and a[0] < b[0]:
                return v
            if k == "ty":
                return v
            if k in ("zsgn", "zcmp", "rel"):
                return v
            if k == "pl" or k == "fn" or k == "str":
                return v
            return ("cast", ty, v)
        if ty.endswith("]") or ty.startswith("struct ") or ty.startswith("union "):
            return v
        if src is not None and src.endswith(")"):
            return v
        return ("cast", ty, v)

    def canon(self, v, st):
        """Simplify a value using the facts of the state."""
        if v[0] == "un" and v[1] == "-" and v[2][0] == "zget" and v[2][1] == "ui":
            if self.signs(v[2][2], st) <= frozenset((-1,)):
                return ("wrap", v[2][2])
        if v[0] == "zget" and v[1] == "ui":
            if self.signs(v[2], st) <= frozenset((0, 1)):
                return ("wrap", v[2])
        return v

    def e_un(self, e, st):
        op = e[1]
        out = []
        for v, s in self.eval(e[2], st):
            if op == "!":
                ty = e[3] if len(e) > 3 else None
                for b, s2 in self.branch(v, s, self.etype(e[2])):
                    out.append((("i", 0 if b else 1), s2))
            elif v[0] == "i":
                n = {"-": -v[1], "+": v[1], "~": ~v[1]}.get(op, v[1])
                out.append((("i", wrap_int(n, e[3] if len(e) > 3 else None)), s))
            elif op == "+":
                out.append((v, s))
            elif v[0] == "zsgn" and op == "-":
                for g in sorted(self.signs(v[1], s)):
                    s2 = self.refine_sgn(v[1], frozenset((g,)), s)
                    out.append((("i", -g), s2))
            else:
                out.append((("un", op, v), s))
        return out

    def etype(self, e):
        """Static type of an expression node, where it's recorded."""
        k = e[0]
        if k in ("ld", "idx", "deref", "un", "v", "g", "i", "m", "cast"):
            if k == "cast":
                return e[1]
            if k == "ld":
                return e[2]
            t = e[-1]
            return t if isinstance(t, str) else None
        if k == "call":
            return e[4]
        if k == "asg":
            return e[3]
        if k == "bin":
            return e[4]
        if k == "cond":
            return self.etype(e[2])
        return None

    def e_bin(self, e, st):
        op = e[1]
        if op in ("&&", "||"):
            out = []
            for v, s in self.eval(e[2], st):
                for b, s2 in self.branch(v, s, self.etype(e[2])):
                    if b == (op == "||"):
                        out.append((("i", 1 if b else 0), s2))
                    else:
                        for v3, s3 in self.eval(e[3], s2):
                            for b4, s4 in self.branch(v3, s3, self.etype(e[3])):
                                out.append((("i", 1 if b4 else 0), s4))
            return self.merge(out)
        if op == ",":
            out = []
            for v, s in self.eval(e[2], st):
                out.extend(self.eval(e[3], s))
            return out
        out = []
        for a, s in self.eval(e[2], st):
            for b, s2 in self.eval(e[3], s):
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    for r, s3 in self.rel(op, a, b, s2, e[5] if len(e) > 5 else None):
                        out.append((("i", 1 if r else 0), s3))
                else:
                    out.append((self.arith(op, a, b, e[4] if len(e) > 4 else None,
                                           e[5] if len(e) > 5 else None, s2), s2))
        return out

    def arith(self, op, a, b, ty, lty, st):
        a = self.canon(a, st)
        b = self.canon(b, st)
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            try:
                if op == "/":
                    n = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                elif op == "%":
                    n = abs(x) % abs(y) * (1 if x >= 0 else -1)
                else:
                    n = {"+": lambda: x + y, "-": lambda: x - y,
                         "*": lambda: x * y, "&": lambda: x & y,
                         "|": lambda: x | y, "^": lambda: x ^ y,
                         "<<": lambda: x << y, ">>": lambda: x >> y}[op]()
            except (ZeroDivisionError, ValueError, KeyError):
                return ("op", op, a, b)
            return ("i", wrap_int(n, ty))
        if op == "-" and b[0] == "pl" and b[1][0] == "F" and b[1][1] == ("i", 0):
            f = b[1][2]
            return self.container_of(a, f)
        if op == "-" and b[0] == "off":
            return self.container_of(a, b[1])
        if op in ("+", "-") and b == ("i", 0):
            return a
        if op == "+" and a == ("i", 0):
            return b
        if op == "*" and b == ("i", 1):
            return a
        if op == "*" and a == ("i", 1):
            return b
        if lty and lty.endswith("*") and op == "+" and a[0] == "pl" and \
                a[1][0] == "X" and a[1][2][0] == "i" and b[0] == "i":
            return ("pl", ("X", a[1][1], ("i", a[1][2][1] + b[1])))
        if op in ("+", "-") and b[0] == "i" and a[0] == "op" and a[1] in ("+", "-") \
                and a[3][0] == "i":
            n = (a[3][1] if a[1] == "+" else -a[3][1]) + \
                (b[1] if op == "+" else -b[1])
            if n == 0:
                return a[2]
            return ("op", "+", a[2], ("i", n))
        if op == "-" and b[0] == "i":
            return ("op", "+", a, ("i", -b[1]))
        if op in ("+", "*", "&", "|", "^"):
            if a[0] == "i" or (b[0] != "i" and repr(b) < repr(a)):
                a, b = b, a
        return ("op", op, a, b)

    def container_of(self, a, f):
        if f == "chain" or f.endswith("chain"):
            if a[0] == "pl" and a[1][0] == "F" and a[1][2] == f:
                return a[1][1]
            if a[0] in ("ld", "ldv") and a[2] in ("chain.next",):
                return self.sib(a[1])
            return ("cof", a)
        return ("op", "-", a, ("off", f))

    def sib(self, t):
        """The tree that follows t in its ring."""
        if t[0] == "elem":
            h, k = t[1], t[2]
            if k == "*" or k >= self.unroll:
                return ("elem", h, "*")
            return ("elem", h, k + 1)
        return ("elem", t, 1 if self.unroll >= 1 else "*")

    # -------------------------------------------------------------- branches
    def rel(self, op, a, b, st, lty=None):
        """List of (bool, state) for a op b."""
        a = self.canon(a, st)
        b = self.canon(b, st)
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            if lty and int_type(lty) and not int_type(lty)[1]:
                w = int_type(lty)[0]
                x &= (1 << w) - 1
                y &= (1 << w) - 1
            r = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y,
                 "<=": x <= y, ">=": x >= y}[op]
            return [(r, st)]
        if op == "!=":
            return [(not r, s) for r, s in self.rel("==", a, b, st, lty)]
        if a[0] == "i":
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if b[0] == "i":
            # sign-valued terms
            if a[0] in ("zsgn", "zcmp"):
                key = a[1] if a[0] == "zsgn" else a
                flip = 1
                if a[0] == "zcmp":
                    key, flip = self.cmp_key(a)
                yes, no = set(), set()
                for g in self.signs(key, st):
                    # any value of that sign; compared with 0, 1, -1
                    x = g * flip
                    y = b[1]
                    if y == 0:
                        r = {"==": x == 0, "<": x < 0, ">": x > 0,
                             "<=": x <= 0, ">=": x >= 0}[op]
                        (yes if r else no).add(g)
                    elif y == 1 and op in ("<", ">="):
                        r = (x < 1) if op == "<" else (x >= 1)
                        (yes if r else no).add(g)
                    elif y == -1 and op in (">", "<="):
                        r = (x > -1) if op == ">" else (x <= -1)
                        (yes if r else no).add(g)
                    else:
                        # the magnitude isn't specified by GMP
                        yes.add(g)
                        no.add(g)
                out = []
                if yes:
                    out.append((True, self.refine_sgn(key, frozenset(yes), st)))
                if no:
                    out.append((False, self.refine_sgn(key, frozenset(no), st)))
                return out
            if a[0] == "ty":
                ts = self.tyset(a[1], st) - {NULL}
                n = b[1]
                yes = frozenset(t for t in ts if
                                {"==": t == n, "<": t < n, ">": t > n,
                                 "<=": t <= n, ">=": t >= n}[op])
                no = ts - yes
                out = []
                if yes:
                    out.append((True, self.refine_ty(a[1], yes, st)))
                if no:
                    out.append((False, self.refine_ty(a[1], no, st)))
                return out
            if op == "==":
                if b[1] == 0:
                    return [(not r, s) for r, s in self.branch(a, st, lty)]
                return self.val_eq(a, b[1], st)
        if a == b:
            return [(op in ("==", "<=", ">="), st)]
        if op == "==":
            return self.ptr_eq(a, b, st)
        # canonical '<'
        neg = False
        x, y = a, b
        if op == ">":
            x, y = b, a
        elif op == "<=":
            x, y, neg = b, a, True
        elif op == ">=":
            neg = True
        # a bound on a value with a known finite set
        if y[0] == "i" or x[0] == "i":
            v, n, vleft = (x, y[1], True) if y[0] == "i" else (y, x[1], False)
            d = st.facts.get(("val", v))
            if d and d[0] == "in":
                yes = frozenset(t for t in d[1] if (t < n if vleft else n < t))
                no = d[1] - yes
                out = []
                for r, ss in ((True, yes), (False, no)):
                    if ss:
                        s = st.copy()
                        s.facts[("val", v)] = ("in", ss)
                        out.append((r != neg, s))
                return out
        key = ("rel", "<", x, y)
        f = st.facts.get(key)
        if f is not None:
            return [(f != neg, st)]
        out = []
        for r in (True, False):
            s = st.copy()
            s.facts[key] = r
            out.append((r != neg, s))
        return out

    def cmp_key(self, a):
        """zcmp(x,y) with a canonical operand order, and the sign flip."""
        if a[2] == ("zc", 0):
            return a[1], 1
        if a[1] == ("zc", 0):
            return a[2], -1
        if repr(a[2]) < repr(a[1]):
            return ("zcmp", a[2], a[1]), -1
        return a, 1

    def val_eq(self, v, n, st):
        d = st.facts.get(("val", v))
        out = []
        if d and d[0] == "in":
            if n in d[1]:
                s = st
                if len(d[1]) > 1:
                    s = st.copy()
                    s.facts[("val", v)] = ("in", frozenset([n]))
                out.append((True, s))
            rest = d[1] - {n}
            if rest:
                s = st
                if rest != d[1]:
                    s = st.copy()
                    s.facts[("val", v)] = ("in", rest)
                out.append((False, s))
            return out
        ex = d[1] if d else frozenset()
        if n in ex:
            return [(False, st)]
        s = st.copy()
        s.facts[("val", v)] = ("in", frozenset([n]))
        out.append((True, s))
        s = st.copy()
        s.facts[("val", v)] = ("notin", ex | {n})
        out.append((False, s))
        return out

    def nonnull(self, v):
        return v[0] in ("new", "pl", "str", "fn", "elem")

    def ptr_eq(self, a, b, st):
        # places of ring nodes
        if a[0] == "pl" and b[0] == "pl":
            ca, cb = a[1], b[1]
            if ca[0] == "F" and cb[0] == "F" and ca[2] == cb[2]:
                a, b = ca[1], cb[1]
                if a == b:
                    return [(True, st)]
            elif ca[0] != "D" and cb[0] != "D":
                return [(False, st)]
        if b[0] == "elem":
            a, b = b, a
        if a[0] == "elem" and a[1] == b:
            if a[2] == "*":
                return [(True, st), (False, st)]
            key = ("end", a)
            f = st.facts.get(key)
            if f is not None:
                return [(f, st)]
            out = []
            for r in (True, False):
                s = st.copy()
                s.facts[key] = r
                out.append((r, s))
            return out
        if a[0] == "new" and b[0] == "new":
            return [(False, st)]
        if (a[0] == "new" and b[0] in ("p", "g0", "ld", "str", "fn")) or \
           (b[0] == "new" and a[0] in ("p", "g0", "ld", "str", "fn")):
            return [(False, st)]
        if repr(b) < repr(a):
            a, b = b, a
        key = ("rel", "==", a, b)
        f = st.facts.get(key)
        if f is not None:
            return [(f, st)]
        out = []
        for r in (True, False):
            s = st.copy()
            if r and (a[0] in ("lv", "deep") or b[0] in ("lv", "deep")):
                x, y = (a, b) if a[0] in ("lv", "deep") else (b, a)
                s.env = {c: subst(v, x, y) for c, v in s.env.items()}
            else:
                s.facts[key] = r
            out.append((r, s))
        return out

    def branch(self, v, st, ty=None):
        """List of (truth, state) of using v as a condition."""
        v = self.canon(v, st)
        k = v[0]
        if k == "i":
            return [(v[1] != 0, st)]
        if k == "fl":
            return [(float(v[1]) != 0, st)]
        if self.nonnull(v):
            return [(True, st)]
        if k in ("zsgn", "zcmp"):
            return [(not r, s) for r, s in self.rel("==", v, ("i", 0), st)]
        if k == "ty":
            return [(not r, s) for r, s in self.rel("==", v, ("i", 0), st)]
        if ty is not None and ty.startswith("struct tree *") or \
                ("ty", v) in st.facts or ("F", v, "type") in st.env:
            ts = self.tyset(v, st)
            out = []
            if ts - {NULL}:
                out.append((True, self.refine_ty(v, ts - {NULL}, st)))
            if NULL in ts:
                out.append((False, self.refine_ty(v, frozenset([NULL]), st)))
            return out
        d = st.facts.get(("val", v))
        if d is not None:
            if d[0] == "in" and d[1] == frozenset([0]):
                return [(False, st)]
            if (d[0] == "in") and 0 not in d[1]:
                return [(True, st)]
            if d[0] == "notin" and 0 in d[1]:
                return [(True, st)]
        return [(not r, s) for r, s in self.val_eq(v, 0, st)]

    def e_cond(self, e, st):
        out = []
        for v, s in self.eval(e[1], st):
            for b, s2 in self.branch(v, s, self.etype(e[1])):
                for v3, s3 in self.eval(e[2] if b else e[3], s2):
                    out.append((self.canon(v3, s3), s3))
        return self.merge(out)

    def e_elvis(self, e, st):
        out = []
        for v, s in self.eval(e[1], st):
            for b, s2 in self.branch(v, s, self.etype(e[1])):
                if b:
                    out.append((v, s2))
                else:
                    out.extend(self.eval(e[2], s2))
        return out

    def e_asg(self, e, st):
        out = []
        loc = e[4]
        for v, s in self.eval(e[2], st):
            for c, s2 in self.lval(e[1], s):
                s3 = self.store(c, v, s2, loc, e[3])
                if e[3].startswith("struct ") and not e[3].endswith("*"):
                    s3 = self.copy_parts(c, e, s3, loc)
                out.append((v, s3))
        return out

    def copy_parts(self, dst, e, st, loc):
        """Structure assignment: the members of a structure inside an object."""
        rec = self.p.recs.get(e[3][7:])
        if rec is None or dst[0] != "F" or e[2][0] != "ld" or len(rec["fields"]) > 8:
            return st
        src = self.lval(e[2][1], st)
        if len(src) != 1 or src[0][0][0] != "F":
            return st
        for f in rec["fields"]:
            v = self.load(self.member(src[0][0], f[0]), st, f[1])
            st = self.store(self.member(dst, f[0]), v, st, loc, f[1])
        return st

    def e_asgop(self, e, st):
        out = []
        op, loc = e[1].rstrip("="), e[6]
        for c, s in self.lval(e[2], st):
            v0, s = self.load_rec(c, s, e[4])
            for b, s2 in self.eval(e[3], s):
                v = self.arith(op, v0, b, e[5], e[5], s2)
                v = self.conv(v, e[4], e[5], s2) if e[4] != e[5] else v
                out.append((v, self.store(c, v, s2, loc, e[4])))
        return out

    def e_incdec(self, e, st):
        out = []
        for c, s in self.lval(e[2], st):
            v0, s = self.load_rec(c, s, e[3])
            v = self.arith("+" if "+" in e[1] else "-", v0, ("i", 1), e[3], e[3], s)
            s2 = self.store(c, v, s, "")
            out.append((v0 if e[1].startswith("p") else v, s2))
        return out

    def e_offsetof(self, e, st):
        return [(("off", e[1]), st)]

    def e_se(self, e, st):
        out = []
        body = e[1]
        items = body[2] if body[0] == "blk" else [body]
        states = [st]
        for it in items[:-1]:
            nxt = []
            for s in states:
                for kind, val, s2 in self.exec(it, s):
                    if kind != "n":
                        raise Limit("jump out of a statement expression")
                    nxt.append(s2)
            states = nxt
        last = items[-1] if items else None
        for s in states:
            if last is None:
                out.append((("i", 0), s))
            elif last[0] == "x":
                out.extend(self.eval(last[2], s))
            else:
                for kind, val, s2 in self.exec(last, s):
                    out.append((("i", 0), s2))
        return out

    def e_il(self, e, st):
        return [(("unk", "il"), st)]

    # ----------------------------------------------------------------- calls
    def e_call(self, e, st):
        out = []
        callee = e[1]
        names = None
        if callee[0] == "f":
            targets = [(("fn", callee[1]), st)]
        else:
            targets = self.eval(callee, st)
        for fv, s in targets:
            # evaluate the arguments
            work = [((), s)]
            for a in e[2]:
                nxt = []
                for vs, s1 in work:
                    for v, s2 in self.eval(a, s1):
                        nxt.append((vs + (v,), s2))
                work = nxt
            for vs, s1 in work:
                out.extend(self.call(fv, vs, s1, e))
        return self.merge(out)

    def call(self, fv, args, st, e):
        loc, rty, noret = e[3], e[4], e[5]
        self.calls += 1
        if fv[0] != "fn":
            if fv[0] == "pl" and fv[1][0] == "FN":
                fv = ("fn", fv[1][1])
            else:
                return self.unknown_call(fv, args, st, loc, rty)
        name = fv[1]
        h = self.special.get(name)
        if h is not None:
            r = h(self, name, args, st, loc, e)
            if r is not None:
                return r
        f = self.p.lookup(self.cur_unit(), name)
        if f is not None and len(self.stack) < self.max_depth and \
                sum(fr["name"] == name for fr in self.stack) < self.rec_limit:
            return self.inline(f, args, st, loc)
        if noret or (f is not None and f.get("noreturn")):
            st = self.emit(st, ev(loc, "die", name, args))
            self.dead("die", ("die", name, args), st, loc)
            return []
        return self.extern(name, args, st, loc, rty)

    def unknown_call(self, fv, args, st, loc, rty):
        n = st.cnt.get(("icall", fv), 0)
        st = st.copy()
        st.cnt[("icall", fv)] = min(n + 1, self.ncap)
        st = self.emit(st, ev(loc, "icall", fv, args))
        return [(("r", fv, args, n), st)]

    def extern(self, name, args, st, loc, rty):
        st = st.copy()
        key = ("call", name, args)
        n = st.cnt.get(key, 0)
        st.cnt[key] = min(n + 1, self.ncap)
        for i, a in enumerate(args):
            if a[0] == "pl" and a[1][0] in ("L", "G", "S"):
                st.env[a[1]] = ("out", name, i, n)
        st = self.emit(st, ev(loc, "call", name, args))
        return [(("r", name, args, n), st)]

    def new_object(self, st, ty, loc):
        st = st.copy()
        n = st.cnt.get("new", 0)
        st.cnt["new"] = n + 1
        # objects are named by the site and the site's use on this path
        site = loc
        m = st.cnt.get(("site", site), 0)
        if m < self.objects:
            st.cnt[("site", site)] = m + 1
        st.cnt["new"] = 0
        o = ("new", site, m)
        if m >= self.objects:
            for c in [c for c in st.env if len(c) > 1 and c[1] == o]:
                del st.env[c]
            for f in [f for f in st.facts if mentions(f, o)]:
                del st.facts[f]
        if ty is not None:
            st.env[("F", o, "type")] = ty
        return o, st

    def inline(self, f, args, st, loc):
        if len(self.stack) >= self.max_depth:
            raise Limit("call depth")
        self.fns.add(f["name"])
        self.stack.append({"name": f["name"], "unit": f["unit"], "loc": loc})
        try:
            fr = self.frame()
            st = st.copy()
            for i, pr in enumerate(f["params"]):
                # params: [name, id, type] or ["v", name, id, type]
                nm, pid = (pr[1], pr[2]) if pr[0] == "v" else (pr[0], pr[1])
                st.env[("L", fr, "%s#%s" % (nm, pid))] = \
                    args[i] if i < len(args) else ("undef", nm)
            outs = self.exec(f["body"], st)
            res = []
            for kind, val, s in outs:
                if kind == "r":
                    v = val
                elif kind == "n":
                    v = ("void",)
                else:
                    raise Limit("stray jump in " + f["name"])
                v = self.canon(v, s)
                env = {c: x for c, x in s.env.items()
                       if not (c[0] == "L" and c[1] == fr)
                       and not (c[0] == "S" and c[1][0] == "L" and c[1][1] == fr)
                       and not (c[0] == "Z" and c[1][0] == "L" and c[1][1] == fr)}
                s2 = s.copy()
                s2.env = env
                res.append((v, s2))
        finally:
            self.stack.pop()
        return self.merge(res)

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        """List of (kind, value, state); n normal, r return, b break,
        c continue, g goto."""
        self.tick()
        if s is None:
            return [("n", None, st)]
        m = getattr(self, "s_" + s[0], None)
        if m is None:
            raise Limit("statement %s not understood" % s[0])
        return m(s, st)

    def s_x(self, s, st):
        return [("n", None, s2) for v, s2 in
                self.dedupe_vals(self.eval(s[2], st))]

    def dedupe_vals(self, res):
        if len(res) < 2:
            return res
        return self.merge([(("i", 0), s) for v, s in res])

    def s_nop(self, s, st):
        return [("n", None, st)]

    def s_dcl(self, s, st):
        states = [st]
        for var, init, static, ext in s[2]:
            if static or ext:
                continue
            cell = ("L", self.frame(), "%s#%s" % (var[1], var[2]))
            if init is None:
                states = [self.undef(cell, x) for x in states]
                continue
            nxt = []
            for x in states:
                if init[0] == "il":
                    nxt.append(self.init_list(cell, init, x))
                    continue
                for v, s2 in self.eval(init, x):
                    s3 = s2.copy()
                    s3.env[cell] = v
                    nxt.append(s3)
            states = nxt
        return [("n", None, x) for x in states]

    def undef(self, cell, st):
        if cell in st.env:
            st = st.copy()
            del st.env[cell]
        return st

    def init_list(self, cell, init, st):
        m = re.fullmatch(r"[^\[(]*\[(\d+)\]", init[2]) if len(init) > 2 else None
        st = st.copy()
        st.env[cell] = ("unk", "il")
        if m is None or int(m.group(1)) > 64 or any(x[0] == "il" for x in init[1]):
            return st
        n = int(m.group(1))
        for k in range(n):
            if k < len(init[1]):
                vs = self.eval(init[1][k], st)
                if len(vs) != 1:
                    return st
                v, st = vs[0]
                st = st.copy()
            else:
                v = ("i", 0)
            st.env[("X", self.addr(cell), ("i", k))] = v
        return st

    def s_blk(self, s, st):
        return self.run_seq(s[2], st)

    def run_seq(self, items, st, start=0):
        labels = {}
        for i, it in enumerate(items):
            x = it
            while x and x[0] in ("label", "case", "default"):
                if x[0] == "label":
                    labels[x[2]] = i
                x = x[-1]
        done = []
        work = [(start, st, 0)]
        while work:
            i, s, jumps = work.pop(0)
            cur = [s]
            j = i
            while j < len(items) and cur:
                nxt = []
                for s1 in cur:
                    for kind, val, s2 in self.exec(items[j], s1):
                        if kind == "n":
                            nxt.append(s2)
                        elif kind == "g" and val in labels:
                            if jumps > 4:
                                raise Limit("goto loop")
                            work.append((labels[val], s2, jumps + 1))
                        else:
                            done.append((kind, val, s2))
                if len(nxt) > 1:
                    nxt = [x for _, x in self.merge([(("i", 0), y) for y in nxt])]
                if len(nxt) > self.MAX_STATES:
                    raise Limit("too many states")
                cur = nxt
                j += 1
            for s1 in cur:
                done.append(("n", None, s1))
        return self.dedupe(done)

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = set()
        r = []
        for o in outs:
            k = (o[0], o[1], o[2].key())
            if k not in seen:
                seen.add(k)
                r.append(o)
        return r

    catch = False       # follow longjmp to the setjmp it returns to

    def calls_setjmp(self, e):
        if not isinstance(e, list):
            return False
        if e and e[0] == "call" and e[1][0] == "f" and e[1][1] in SETJMP:
            return True
        return any(self.calls_setjmp(x) for x in e)

    def s_if(self, s, st):
        if self.catch and self.calls_setjmp(s[2]):
            return self.caught(s, st)
        return self.if_(s, st)

    def caught(self, s, st):
        """An if whose condition calls setjmp: the states in which what follows
        jumps back to it go on from there."""
        fr, bufs, saved = self.frame(), [], {n: self.special.get(n) for n in SETJMP}

        def first(value):
            def h(fl, name, args, st, loc, e):
                if args[0] not in bufs:
                    bufs.append(args[0])
                return [(("i", value), fl.emit(st, ev(loc, "setjmp" if not value else "longjmp-return", args)))]
            return h

        def go(value, st):
            sides = []
            for n in SETJMP:
                self.special[n] = first(value)
            try:
                for v, s1 in self.eval(s[2], st):
                    sides += [(b, s2) for b, s2 in self.branch(v, s1, self.etype(s[2]))]
            finally:
                for n, h in saved.items():
                    self.special[n] = h
            for b, s2 in sides:
                yield from self.exec(s[3] if b else s[4], s2)
        n0 = len(self.outcomes_dead)
        out = list(go(0, st))
        for k in range(9):
            back = [o for o in self.outcomes_dead[n0:] if o.kind == "jump" and o.val[1][0] in bufs]
            if not back:
                return out
            self.outcomes_dead[n0:] = [o for o in self.outcomes_dead[n0:] if o not in back]
            for o in back:
                s1 = o.st.copy()
                for c in [c for c in s1.env if frame_of(c) is not None and frame_of(c) > fr]:
                    del s1.env[c]
                out += go(1, s1)
        raise Limit("a function is returned to too often")

    def if_(self, s, st):
        out = []
        sides = {True: [], False: []}
        for v, s1 in self.eval(s[2], st):
            for b, s2 in self.branch(v, s1, self.etype(s[2])):
                sides[b].append((("i", 0), s2))
        for b in (True, False):
            for _, s2 in self.merge(sides[b]):
                out.extend(self.exec(s[3] if b else s[4], s2))
        return out

    def s_ret(self, s, st):
        if s[2] is None:
            return [("r", ("void",), st)]
        return [("r", v, s2) for v, s2 in self.eval(s[2], st)]

    def s_brk(self, s, st):
        return [("b", None, st)]

    def s_cont(self, s, st):
        return [("c", None, st)]

    def s_goto(self, s, st):
        return [("g", s[2], st)]

    def s_label(self, s, st):
        return self.exec(s[3], st)

    def s_case(self, s, st):
        return self.exec(s[4], st)

    def s_default(self, s, st):
        return self.exec(s[2], st)

    def s_switch(self, s, st):
        body = s[3]
        items = list(body[2]) if body[0] == "blk" else [body]
        targets = []            # (index, [(lo,hi)], is_default)
        for i, it in enumerate(items):
            ranges = []
            dflt = False
            x = it
            while x and x[0] in ("case", "default", "label"):
                if x[0] == "case":
                    lo = self.const(x[2])
                    hi = self.const(x[3]) if x[3] is not None else lo
                    ranges.append((lo, hi))
                    x = x[4]
                elif x[0] == "default":
                    dflt = True
                    x = x[2]
                else:
                    x = x[3]
            if ranges or dflt:
                targets.append((i, ranges, dflt))
        out = []
        for v, s1 in self.eval(s[2], st):
            v = self.canon(v, s1)
            for idx, s2 in self.switch_targets(v, targets, s1):
                if idx is None:
                    out.append(("n", None, s2))
                    continue
                for kind, val, s3 in self.run_seq(items, s2, idx):
                    out.append(("n", None, s3) if kind == "b" else (kind, val, s3))
        return self.dedupe(out)

    def const(self, e):
        if isinstance(e, int):
            return e
        while e[0] in ("cast",):
            e = e[2]
        if e[0] == "i":
            return e[1]
        if e[0] == "e":
            return e[2]
        r = self.eval(e, State())
        if len(r) == 1 and r[0][0][0] == "i":
            return r[0][0][1]
        raise Limit("case label is not constant")

    def switch_targets(self, v, targets, st):
        out = []

        def hit(n, ranges):
            return any(lo <= n <= hi for lo, hi in ranges)
        dom = None
        if v[0] == "i":
            dom = frozenset([v[1]])
        elif v[0] == "ty":
            dom = self.tyset(v[1], st) - {NULL}
        elif v[0] in ("zsgn",):
            dom = None
        else:
            d = st.facts.get(("val", v))
            if d and d[0] == "in":
                dom = d[1]
        if dom is not None:
            left = dom
            dflt = None
            for i, ranges, isd in targets:
                if isd:
                    dflt = i
                sub = frozenset(n for n in left if hit(n, ranges))
                if sub:
                    left = left - sub
                    out.append((i, sub))
            if left:
                # default may share its target with cases
                out.append((dflt, left))
            grouped = {}
            for i, sub in out:
                grouped[i] = grouped.get(i, frozenset()) | sub
            res = []
            for i, sub in grouped.items():
                s2 = st
                if v[0] == "ty":
                    s2 = self.refine_ty(v[1], sub, st)
                elif v[0] != "i":
                    s2 = st.copy()
                    s2.facts[("val", v)] = ("in", sub)
                if s2 is not None:
                    res.append((i, s2))
            return res
        d = st.facts.get(("val", v))
        ex = d[1] if d else frozenset()
        dflt = None
        seen = set()
        for i, ranges, isd in targets:
            if isd:
                dflt = i
            vals = set()
            for lo, hi in ranges:
                if hi - lo > 4096:
                    raise Limit("wide case range")
                vals |= set(range(lo, hi + 1))
            seen |= vals
            vals -= ex
            if vals:
                s2 = st.copy()
                s2.facts[("val", v)] = ("in", frozenset(vals))
                out.append((i, s2))
        s2 = st.copy()
        s2.facts[("val", v)] = ("notin", ex | frozenset(seen))
        out.append((dflt, s2))
        return out

    # loops
    def s_while(self, s, st):
        return self.loop(s[1], s[2], s[3], None, st, True)

    def s_do(self, s, st):
        return self.loop(s[1], s[3], s[2], None, st, False)

    def s_for(self, s, st):
        out = []
        for kind, val, s1 in self.exec(s[2], st):
            if kind != "n":
                out.append((kind, val, s1))
                continue
            out.extend(self.loop(s[1], s[3], s[5], s[4], s1, True))
        return out

    def loop(self, loc, cond, body, inc, st, test_first):
        lid = loc
        out = []
        seen = set()
        fr = self.frame()
        work = [(st, 0, test_first)]
        guard = 0
        widen_at = self.unroll + 1
        while work:
            s, n, test = work.pop(0)
            guard += 1
            if guard > 40000:
                raise Limit("loop at %s does not stabilise" % loc)
            k = (s.key(), test)
            if k in seen:
                continue
            seen.add(k)
            if test and cond is not None:
                ent = []
                for v, s1 in self.eval(cond, s):
                    for b, s2 in self.branch(v, s1, self.etype(cond)):
                        if b:
                            ent.append(s2)
                        else:
                            out.append(("n", None, s2))
            else:
                ent = [s]
            ent = [x for _, x in self.merge([(("i", 0), y) for y in ent])]
            nexts = []
            for s1 in ent:
                for kind, val, s2 in self.exec(body, s1):
                    if kind in ("n", "c"):
                        if inc is not None:
                            nexts.extend(x for _, x in self.eval(inc, s2))
                        else:
                            nexts.append(s2)
                    elif kind == "b":
                        out.append(("n", None, s2))
                    else:
                        out.append((kind, val, s2))
            if self.coarse is not None:
                nexts = [self.project(lid, st, y) for y in nexts]
            elif not self.keep_facts:
                nexts = [self.drop_dead(y) for y in nexts]
            nexts = [x for _, x in self.merge([(("i", 0), y) for y in nexts])]
            for s2 in nexts:
                if n + 1 >= widen_at:
                    s2 = self.widen(lid, fr, s, s2)
                work.append((s2, n + 1, True))
            if len(work) > self.MAX_STATES:
                raise Limit("too many loop states")
        outs = self.dedupe(out)
        res = []
        norm = [(("i", 0), x) for kd, v, x in outs if kd == "n"]
        for _, x in self.merge(norm):
            res.append(("n", None, x))
        res.extend(o for o in outs if o[0] != "n")
        return res

    def project(self, lid, entry, new):
        """Keep of an iteration only what the analysis is about (the cells of
        self.coarse and the trace); whatever else it changed is unknown."""
        s = new.copy()
        s.cnt = dict(entry.cnt)
        changed = set()
        for c, v in new.env.items():
            if c in self.coarse:
                continue
            o = entry.env.get(c)
            if v[0] == "elem":
                continue
            if o is None:
                del s.env[c]
            elif o != v:
                s.env[c] = t = ("lv", lid, c)
                changed.add(t)
        for c, v in entry.env.items():
            if c not in new.env and c not in self.coarse:
                s.env[c] = t = ("lv", lid, c)
                changed.add(t)
        s.facts = {f: v for f, v in entry.facts.items()
                   if not any(mentions(f, t) for t in changed) and not self.iter_fact(f, lid)}
        return s

    def drop_dead(self, st):
        """Forget facts about call results that no cell holds any more."""
        live = set()

        def go(v):
            if isinstance(v, tuple) and v:
                if v[0] in ("ev", "evs", "r", "out"):
                    if v in live:
                        return
                    live.add(v)
                for x in v:
                    if isinstance(x, tuple):
                        go(x)

        for c, v in st.env.items():
            go(v)
            go(c)

        def dead(v):
            if isinstance(v, tuple) and v:
                if v[0] in ("ev", "evs", "r", "out") and v not in live:
                    return True
                return any(dead(x) for x in v if isinstance(x, tuple))
            return False
        gone = [f for f in st.facts if dead(f)]
        if gone:
            st = st.copy()
            for f in gone:
                del st.facts[f]
        return st

    def widen(self, lid, fr, old, new):
        s = new.copy()
        for c, v in new.env.items():
            o = old.env.get(c)
            if o is None or o == v or v[0] == "elem":
                continue
            if v[0] == "lv" and v[1] == lid:
                continue
            if self.coarse and c in self.coarse and v[0] == "i":
                continue
            if v[0] == "new" and c[0] == "L":
                continue
            t = ("lv", lid, c)
            s.env[c] = t
            for f in [f for f in s.facts if mentions(f, t)]:
                del s.facts[f]
        # facts about summary elements concern the element of one iteration
        for f in [f for f in s.facts if self.iter_fact(f, lid)]:
            del s.facts[f]
        return s

    def iter_fact(self, f, lid):
        def go(v):
            if not isinstance(v, tuple):
                return False
            if len(v) >= 3 and v[0] == "elem" and v[2] == "*":
                return True
            if len(v) >= 2 and v[0] == "lv" and v[1] == lid:
                return True
            return any(go(x) for x in v)
        return go(f)

    # ------------------------------------------------------------------- GMP
    def zcell(self, ptr):
        """The cell of the mpz_t a pointer designates."""
        if ptr[0] == "pl":
            return ptr[1]
        return ("F", ptr, "")

    def zload(self, cell, st):
        z = st.env.get(("Z", cell))
        if z is not None:
            return z
        if cell[0] == "F":
            cp = st.env.get(("C", cell[1]))
            if cp is not None:
                return self.zload(("F", cp, cell[2]), st)
            if cell[2].startswith("integer"):
                return ("int", cell[1])
        return ("z0", cell)

    def zload_cell(self, c, st):
        # c = ("F", ptr, "_mp_size")
        return self.zload(self.zcell(c[1]), st)

    def zstore(self, ptr, z, st, loc):
        cell = self.zcell(ptr)
        st = st.copy()
        st.env[("Z", cell)] = z
        if cell[0] == "F" and cell[1][0] != "new":
            st = self.emit(st, ev(loc, "zstore", cell, z))
        if cell[0] in ("G", "X"):
            st = self.emit(st, ev(loc, "zstore", cell, z))
        return st

    def znum(self, v, st, signed):
        """mpz term of a C number passed as (un)signed long."""
        v = self.canon(v, st)
        if v[0] == "i":
            return ("zc", v[1])
        if v[0] in ("zsgn", "zcmp"):
            return ("zv", v)
        lv = self.lvint(v, st)
        if lv is not None:
            return lv
        return ("zv", v)

    def lvint(self, v, st):
        """A live variable's value read through the member of its own type."""
        if v[0] in ("ldv", "ld") and v[1][0] == "ld" and v[1][2] == "live_var_val0":
            x = v[1][1]
            tv = self.load(("F", x, "t0"), st)
            ts = self.tyset(tv, st)
            want = self.p.tree_types.get(v[2])
            if want is not None and ts == frozenset([want]):
                return ("lvint", x) if not self.volatile or v[0] == "ld" \
                    else ("lvint", x, v[3])
        return None


COMM = {"add", "mul", "and", "ior", "xor"}


def zop(op, *a):
    if op in COMM and repr(a[1]) < repr(a[0]):
        a = (a[1], a[0])
    if op in ("add", "sub", "mul") and len(a) == 2 and all(x[0] == "zc" for x in a):
        x, y = a[0][1], a[1][1]
        return ("zc", x + y if op == "add" else x - y if op == "sub" else x * y)
    return ("z", op) + tuple(a)


def gmp(fl, name, args, st, loc, e):
    n = name.replace("__gmpz_", "")
    if n in ("init", "inits"):
        return [(("void",), fl.zstore(args[0], ("zc", 0), st, loc))]
    if n in ("clear", "realloc2"):
        st = fl.emit(st, ev(loc, "zclear", fl.zcell(args[0])))
        return [(("void",), st)]
    if n in ("set", "init_set"):
        return [(("void",), fl.zstore(args[0], fl.zload(fl.zcell(args[1]), st), st, loc))]
    if n in ("set_si", "init_set_si", "set_ui", "init_set_ui"):
        z = fl.znum(args[1], st, n.endswith("si"))
        return [(("void",), fl.zstore(args[0], z, st, loc))]
    if n in ("set_str", "init_set_str"):
        z = ("zstr", args[1], args[2])
        return [(("r", name, args[1:], 0), fl.zstore(args[0], z, st, loc))]
    if n in ("set_d", "init_set_d"):
        return [(("void",), fl.zstore(args[0], ("zd", args[1]), st, loc))]
    if n in ("com", "neg", "abs", "sqrt"):
        z = ("z", n, fl.zload(fl.zcell(args[1]), st))
        return [(("void",), fl.zstore(args[0], z, st, loc))]
    if n in ("add", "sub", "mul", "ior", "xor", "and", "tdiv_q", "fdiv_q",
             "cdiv_q", "tdiv_r", "fdiv_r", "cdiv_r", "mod", "divexact"):
        z = zop(n, fl.zload(fl.zcell(args[1]), st), fl.zload(fl.zcell(args[2]), st))
        return [(("void",), fl.zstore(args[0], z, st, loc))]
    if n in ("add_ui", "sub_ui", "mul_ui", "mul_si"):
        z = zop(n[:-3], fl.zload(fl.zcell(args[1]), st), fl.znum(args[2], st, False))
        return [(("void",), fl.zstore(args[0], z, st, loc))]
    if n in ("mul_2exp", "fdiv_q_2exp", "tdiv_q_2exp", "cdiv_q_2exp",
             "fdiv_r_2exp", "tdiv_r_2exp"):
        z = ("z", n, fl.zload(fl.zcell(args[1]), st), fl.canon(args[2], st))
        return [(("void",), fl.zstore(args[0], z, st, loc))]
    if n in ("cmp",):
        return [(mkcmp(fl.zload(fl.zcell(args[0]), st),
                       fl.zload(fl.zcell(args[1]), st)), st)]
    if n in ("cmp_ui", "cmp_si"):
        return [(mkcmp(fl.zload(fl.zcell(args[0]), st),
                       fl.znum(args[1], st, True)), st)]
    if n in ("get_ui", "get_si", "get_d"):
        z = fl.zload(fl.zcell(args[0]), st)
        if z[0] == "zc" and n != "get_d":
            return [(("i", abs(z[1]) if n == "get_ui" else z[1]), st)]
        return [(("zget", n[4:], z), st)]
    if n == "sgn":
        return [(zsign(fl.zload(fl.zcell(args[0]), st)), st)]
    return None


def zsign(z):
    if z[0] == "zc" and isinstance(z[1], int):
        return ("i", (z[1] > 0) - (z[1] < 0))
    return ("zsgn", z)


def mkcmp(a, b):
    if b == ("zc", 0):
        return ("zsgn", a)
    return ("zcmp", a, b)


def i_tree_make(fl, name, args, st, loc, e):
    o, st = fl.new_object(st, args[0], site(fl, loc))
    return [(o, st)]


def i_alloc_tree(fl, name, args, st, loc, e):
    o, st = fl.new_object(st, ("i", 0), site(fl, loc))
    return [(o, st)]


def site(fl, loc):
    return "|".join([f["loc"] for f in fl.stack if f["loc"]] + [loc])


def i_tree_check(fl, name, args, st, loc, e):
    obj, ty = args[0], args[1]
    if ty[0] != "i":
        return [(obj, st)]
    s = fl.refine_ty(obj, frozenset([ty[1]]), st)
    if s is None:
        s2 = fl.emit(st, ev(loc, "die", "tree_check", (obj, ty)))
        fl.dead("die", ("die", "tree_check", (obj, ty)), s2, loc)
        return []
    return [(obj, s)]


def i_constant_p(fl, name, args, st, loc, e):
    return [(("i", 1 if args[0][0] == "i" else 0), st)]


def i_expect(fl, name, args, st, loc, e):
    return [(args[0], st)]


def i_list(fl, name, args, st, loc, e):
    def node(v):
        if v[0] == "pl" and v[1][0] == "F" and v[1][2].endswith("chain"):
            return v[1][1]
        return ("nodeptr", v)
    st = fl.emit(st, ev(loc, "list", name, tuple(node(a) for a in args)))
    return [(("void",), st)]


def i_memcpy(fl, name, args, st, loc, e):
    dst, src = args[0], args[1]
    sz = args[2]
    trec = fl.p.recs.get("tree")
    if trec and sz == ("i", trec["size"]):
        st = st.copy()
        for c in [c for c in st.env if c[0] in ("F",) and c[1] == dst]:
            del st.env[c]
        for c in [c for c in st.env if c[0] == "Z" and c[1][0] == "F" and c[1][1] == dst]:
            del st.env[c]
        if dst != src:
            st.env[("C", dst)] = src
            if src[0] == "new":
                # what is known of the source now
                for c, v in list(st.env.items()):
                    if c[0] == "F" and c[1] == src:
                        st.env[("F", dst, c[2])] = v
                    elif c[0] == "Z" and c[1][0] == "F" and c[1][1] == src:
                        st.env[("Z", ("F", dst, c[1][2]))] = v
        if dst[0] != "new":
            st = fl.emit(st, ev(loc, "copy", dst, src))
        return [(dst, st)]
    st = fl.emit(st, ev(loc, "call", name, args))
    return [(dst, st)]


def i_memset(fl, name, args, st, loc, e):
    st = fl.emit(st, ev(loc, "call", name, args))
    return [(args[0], st)]


SETJMP = ("setjmp", "_setjmp", "__sigsetjmp")


def frame_of(c):
    """The frame that a cell belongs to."""
    while isinstance(c, tuple) and c:
        if c[0] == "L":
            return c[1]
        c = c[1] if c[0] in ("S", "Z", "X", "pl") else None
    return None


def i_setjmp(fl, name, args, st, loc, e):
    a = fl.emit(st, ev(loc, "setjmp", args))
    b = fl.emit(st, ev(loc, "longjmp-return", args)).copy()
    b.cnt["epoch"] = min(b.cnt.get("epoch", 0) + 1, 9)
    h = getattr(fl, "on_longjmp", None)
    if h:
        b = h(b, args)
    return [(("i", 0), a), (("i", 1), b)]


def i_longjmp(fl, name, args, st, loc, e):
    st = fl.emit(st, ev(loc, "longjmp", args))
    fl.dead("jump", ("longjmp", args), st, loc)
    return []


def i_exit(fl, name, args, st, loc, e):
    st = fl.emit(st, ev(loc, "exit", name, args))
    fl.dead("exit", ("exit", name, args), st, loc)
    return []


def i_die(fl, name, args, st, loc, e):
    st = fl.emit(st, ev(loc, "die", name, args))
    fl.dead("die", ("die", name, args), st, loc)
    return []


def i_strdup(fl, name, args, st, loc, e):
    st = st.copy()
    key = ("call", name, args)
    n = st.cnt.get(key, 0)
    st.cnt[key] = min(n + 1, fl.ncap)
    return [(("r", name, args, n), st)]


INTRINSICS = {
    "tree_make": i_tree_make, "alloc_tree": i_alloc_tree,
    "tree_check": i_tree_check, "__builtin_constant_p": i_constant_p,
    "__builtin_expect": i_expect,
    "list_add": i_list, "list_add_tail": i_list, "list_del": i_list,
    "list_splice": i_list,
    "memcpy": i_memcpy, "memset": i_memset, "__builtin_memcpy": i_memcpy,
    "_setjmp": i_setjmp, "setjmp": i_setjmp, "__sigsetjmp": i_setjmp,
    "longjmp": i_longjmp, "_longjmp": i_longjmp,
    "exit": i_exit, "_exit": i_exit, "abort": i_die, "__assert_fail": i_die,
    "eval_die": i_die,
    "strdup": i_strdup, "malloc": None, "free": None,
}
INTRINSICS = {k: v for k, v in INTRINSICS.items() if v}
for _n in ("init inits clear set init_set set_si init_set_si set_ui init_set_ui "
           "set_str init_set_str set_d init_set_d com neg abs sqrt add sub mul ior "
           "xor and tdiv_q fdiv_q cdiv_q tdiv_r fdiv_r cdiv_r mod divexact add_ui "
           "sub_ui mul_ui mul_si mul_2exp fdiv_q_2exp tdiv_q_2exp cdiv_q_2exp "
           "fdiv_r_2exp tdiv_r_2exp cmp cmp_ui cmp_si get_ui get_si get_d sgn").split():
    INTRINSICS["__gmpz_" + _n] = gmp
