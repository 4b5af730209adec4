"""Evaluating a program leaves the program's syntax tree as it was parsed."""
import re
from world import *
from oblig import spread
from ceval import EvalFlow, o_pure
from compose import Front
from balance import run_self, address_taken
from prog import nodes

READERS = re.compile(r"__gmp[zf]_(get_|cmp|sgn|fits_|sizeinbase|out_|tstbit|scan|size|popcount|even|odd|integer_p)")
SKIP = ("gc.c", "gc-internal.c", "util.c", "hash_table.c", "list.c")
TREEOPS = ("tree_copy",)


class Keep(EvalFlow):
    """Follows every store to a member that the parser sets."""

    def start(self, syntax, kinds, judge, fresh):
        self.syntax, self.kinds, self.judge, self.fresh = syntax, kinds, judge, fresh

    def store(self, cell, v, st, loc, cty=None):
        if cell[0] == "F" and cell[2] not in ("reachable",) and not cell[2].startswith("locus"):
            self.judge(self, "member", cell[1], cell[2], v, st, loc)
        elif cell[0] in ("D", "X"):
            self.judge(self, "pointer", cell[1], None, v, st, loc)
        return super().store(cell, v, st, loc, cty)

    def affected(self, o, m, st):
        """Types whose syntax a store to member m of o changes."""
        ts = self.tyset(o, st) - {NULL}
        if m == "type" or m.startswith("chain"):
            return {t for t in ts if t in self.kinds}
        return {t for t in ts if (t, m) in self.syntax}


def provenance(fl, o, st):
    """'own' (made by the evaluator), ('param', n) or 'ast'."""
    if o[0] in ("new", "g0", "fn", "str", "nodeptr", "i"):
        return "own"
    if o[0] == "p":
        return ("param", o[1])
    if o[0] in ("ld", "ldv", "ldm"):
        b, m = o[1], o[2]
        if isinstance(b, tuple):
            if b[0] in ("g0",):
                return "own" if not fl.affected(b, m, st) else "ast"
            if b[0] == "new":
                return "ast"
            return "ast" if fl.affected(b, m, st) else "own"
    if o[0] == "r":
        return "own" if fl.fresh(fl.cur_unit(), o[1]) else "ast"
    return "ast"


def collect(ctx, p):
    """(type, member) pairs the semantic actions set; types they make."""
    syntax, kinds = set(), set()

    class Look(EvalFlow):
        def store(self, cell, v, st, loc, cty=None):
            if cell[0] == "F" and cell[2] != "type" and not cell[2].startswith(("chain", "locus")):
                ts = self.tyset(cell[1], st) - {NULL}
                if len(ts) == 1:
                    syntax.add((next(iter(ts)), cell[2]))
            return super().store(cell, v, st, loc, cty)

        def new_object(self, st, ty, loc):
            o, st = super().new_object(st, ty, loc)
            if ty is not None and ty[0] == "i":
                kinds.add(ty[1])
            return o, st
    n = 0
    for target in ("repl", "cscript"):
        g = Front(p, target, ctx.dir).g
        for r in sorted(g.index):
            if r not in g.rules:
                continue
            fl = Look(p, opaque={}, unroll=1, ncap=1, coarse={("G", "", "")}, record=lambda e: False)
            for name in p.units["evaluate.c"]:
                if not p.units["evaluate.c"][name]["inline"] and name not in fl.special:
                    fl.special[name] = o_pure
            fl.unit = g.unit
            for x in list(fl.special):
                if x.startswith("__gmp"):
                    fl.special[x] = lambda fl2, nm, a, s, loc, e: [(("void",), note(fl2, p, a, s, syntax))]
            vals = [(("p", "$%d" % i), ("loc", i)) for i, x in enumerate(g.rules[r][1])]
            try:
                g.reduce(fl, r, vals, State(), 0)
            except Limit as e:
                if "jump out" not in str(e):
                    raise
            n += 1
    if n < 200:
        raise Limit("semantic actions not understood")
    return syntax, kinds


def note(fl, p, args, st, syntax):
    c = fl.zcell(args[0])
    if c is not None and c[0] == "F":
        for t in fl.tyset(c[1], st) - {NULL}:
            syntax.add((t, c[2]))
    return st


def scalar(g):
    """Is the function a mere mapping of numbers?"""
    ps = [pr[-1] for pr in g["params"]]
    return bool(ps) and not any("*" in str(t) or "tree" == str(t) for t in ps)


class Analysis:
    def __init__(self, ctx, p, syntax, kinds):
        self.ctx, self.p, self.syntax, self.kinds = ctx, p, syntax, kinds
        self.cache = {}
        self.through = set()         # functions analysed as part of their callers

    def fresh(self, u, name):
        """Does the function return only objects that it has made?"""
        f = self.p.lookup(u, name)
        if f is None:
            return False
        k = (f["unit"], name)
        if k not in self.cache:
            self.cache[k] = False
            try:
                outs, fl = self.flow(f["unit"], name, lambda *a: None)
            except Limit:
                return False
            self.cache[k] = bool(outs) and all(
                o.kind != "ret" or o.val == ("i", 0) or o.val[0] == "new" or
                o.val[0] == "r" and self.fresh(f["unit"], o.val[1]) for o in outs)
        return self.cache[k]

    def flow(self, u, name, judge):
        p = self.p
        fl = Keep(p, opaque={}, unroll=1, ncap=1, coarse={("G", "", "")}, record=lambda e: False)
        fl.unit = u
        fl.start(self.syntax, self.kinds, judge, self.fresh)
        base = fl.call

        def call(fv, args, st, e):
            nm = fv[1] if fv[0] == "fn" else None
            if nm in ("list_add", "list_add_tail", "list_del", "list_splice"):
                for a in args:
                    if a[0] == "pl" and a[1][0] == "F":
                        fl.judge(fl, nm, a[1][1], "chain", None, st, e[3])
                return [(("void",), st)]
            if nm and nm.startswith("__gmp") and not READERS.match(nm) and args:
                c = fl.zcell(args[0])
                if c is not None and c[0] == "F" and c[2]:
                    fl.judge(fl, "number", c[1], c[2], None, st, e[3])
            if nm in ("memcpy", "__builtin_memcpy", "memmove", "memset", "__builtin_memset"):
                if args[2] == ("i", p.recs["tree"]["size"]):
                    fl.judge(fl, "whole", args[0], "type", args[1], st, e[3])
            g = p.lookup(fl.cur_unit(), nm) if nm else None
            if nm in ("longjmp", "_longjmp"):
                return []
            if nm in ("setjmp", "_setjmp"):
                return [(("i", 0), st), (("i", 1), st)]
            if g is not None and ((g["unit"], nm) in self.through or scalar(g)) and sum(x["name"] == nm for x in fl.stack) == 0:
                return fl.inline(g, args, st, e[3])
            if nm in ("__evaluate_1", "__evaluate") or \
                    g is not None and nm not in INTRINSICS and nm != "tree_check" and not g["inline"]:
                if g is not None and (g.get("noreturn") or e[5]):
                    return []
                s = st.copy()
                k = ("call", nm, args)
                i = s.cnt.get(k, 0)
                s.cnt[k] = min(i + 1, 2)
                for j, a in enumerate(args):
                    if a[0] == "pl" and a[1][0] in ("L", "G", "S"):
                        s.env[a[1]] = ("out", nm, j, i)
                return [(("r", nm, args, i), s)]
            return base(fv, args, st, e)
        fl.call = call
        f = p.units[u][name]
        fl.outcomes_dead = []
        fl.stack.append({"name": "", "unit": u, "loc": ""})
        try:
            res = fl.inline(f, tuple(("p", pr[1] if pr[0] == "v" else pr[0]) for pr in f["params"]), State(), "")
        finally:
            fl.stack.pop()
        self.ctx.states += fl.steps
        self.ctx.functions.add(name)
        return [Outcome("ret", v, s) for v, s in res] + fl.outcomes_dead, fl


def run(ctx):
    p = ctx.prog
    ctx.rule("stores", "what the evaluator stores in a member that the parser sets is stored in an object that it has made itself")
    ctx.rule("lists", "the evaluator links and unlinks only objects, and lists, that it has made itself")
    ctx.rule("numbers", "the evaluator computes only in numbers that it has made itself")
    ctx.rule("completion", "a structure's members are expanded once")
    with ctx.guarded("syntax"):
        syntax, kinds = collect(ctx, p)
        ctx.notes.append("%d members of %d types are set by the parsers" % (len(syntax), len(kinds)))
        analyse(ctx, p, syntax, kinds)
    ctx.need("stores", 25)
    ctx.need("lists", 6)
    ctx.need("numbers", 15)
    ctx.need("completion", 1)


RULE = {"member": "stores", "whole": "stores", "number": "numbers", "pointer": "stores"}


def analyse(ctx, p, syntax, kinds):
    A = Analysis(ctx, p, syntax, kinds)
    comp, decl = p.tree_types["T_DECL_COMPOUND"], p.tree_types["T_DECL"]
    members, expanded = p.acc["tCOMP_DECL_DECLS"][1], p.acc["tCOMP_DECL_EXPANDED"][1]
    jobs = [(u, n) for u, fns in sorted(p.units.items()) for n, f in sorted(fns.items())
            if not (u in SKIP or u.endswith(("lex.c", "parser.c")) or u.startswith("tree-dump") or f["inline"])]
    users, entries = {}, set()
    for u, n in jobs:
        for c in nodes(p.units[u][n]["body"], "call"):
            if c[1][0] == "f":
                g = p.lookup(u, c[1][1])
                if g is not None:
                    users.setdefault((g["unit"], c[1][1]), set()).add((u, n))
                    if n in ("__evaluate_1", "__evaluate"):
                        entries.add((g["unit"], c[1][1]))
    for u in p.units:
        entries |= {(u, n) for n in address_taken(p, u) if n in p.units[u]}
    handlers = {(u, n) for u in p.units for n in address_taken(p, u) if n in p.units[u]}
    entries |= {("evaluate.c", n) for n in ("__evaluate_1", "__evaluate", "evaluate", "evaluate_expr")}
    work, seen = list(jobs), {}
    while work:
        u, name = work.pop(0)
        facts = []

        def zero(fl, o, st):
            v, st = fl.load_rec(("F", o, expanded), st, "")
            return v == ("i", 0) or st.facts.get(("val", v)) == ("in", frozenset([0]))

        def judge(fl, kind, o, m, v, st, loc):
            pr = provenance(fl, o, st)
            if kind == "pointer":
                if o[0] == "pl" and o[1][0] == "F":
                    kind, m, o = "member", o[1][2], o[1][1]
                    pr = provenance(fl, o, st)
                elif pr[0] == "param":
                    facts.append((kind, pr, None, loc, name, ""))
                    return
                else:
                    return
            ts = fl.affected(o, m, st)
            if not ts:
                return
            ok = ""
            all_ts = fl.tyset(o, st) - {NULL}
            if kind == "member" and m == members and all_ts == {comp} and v is not None and \
                    (v[0] == "new" or v[0] == "r" and A.fresh(fl.cur_unit(), v[1])):
                ok = "completion" if zero(fl, o, st) else ""
            elif kind == "whole" and v is not None and o[0] == "r" and fl.tyset(v, st) - {NULL} == {comp}:
                ok = "forward"
            elif kind == "member" and m == "type" and v == ("i", p.tree_types["E_CTX"]) and all_ts == {decl}:
                ok = "static"
            elif kind == "list_del" and (u, name) in handlers and len(p.units[u][name]["params"]) == 1:
                ok = "builtin"
            facts.append((kind, pr, m, loc, fl.stack[-1]["name"] or name, ok))
        done = False
        with ctx.guarded("%s: %s" % (u, name)):
            outs, fl = A.flow(u, name, judge)
            done = True
        if not done:
            continue
        more = False
        results = []
        for kind, pr, m, loc, fn, ok in facts:
            rule = RULE.get(kind, "lists")
            what = "%s: %s" % (fn, m if kind == "member" else kind)
            if pr == "own":
                results.append((True, rule, what, loc, ""))
            elif pr[0] == "param" and (u, name) not in entries and users.get((u, name)):
                more = True
            elif kind == "pointer":
                continue
            elif ok:
                results.append((True, "completion" if ok == "completion" else rule, what, loc, ""))
            else:
                results.append((False, rule, "%s: %s" % (name, what), loc, "the syntax tree is changed when it is evaluated (%s)" %
                                {"member": "a member the parser has set is overwritten", "whole": "an object is overwritten",
                                 "number": "a constant is overwritten"}.get(kind, "an element or list of it is relinked")))
        if more and (u, name) not in A.through:
            A.through.add((u, name))
            work += [x for x in users[(u, name)] if x in seen and x not in work]
        for o in outs:
            for c, v in list(o.st.env.items()):
                if c[0] == "F" and c[2] == members and fl.tyset(c[1], o.st) - {NULL} == {comp} and o.kind == "ret" \
                        and c[1][0] != "new" and v != ("ld", c[1], members) and (u, name) in entries and \
                        any(f[5] == "completion" for f in facts):
                    results.append((o.st.env.get(("F", c[1], expanded)) == ("i", 1), "completion", name, p.units[u][name]["loc"],
                                    "a structure whose members were expanded isn't marked: they are expanded again"))
        seen[(u, name)] = results
    for k, results in sorted(seen.items()):
        for ok, rule, what, loc, why in results:
            ctx.check(ok, rule, what, loc, why)
