"""Statements execute in the order and as often as C says.

Each path the evaluator takes through a statement construct is replayed
against C's semantics of the construct: the semantics consume the evaluations
of the construct's parts in the order in which the path performs them, and
decide at each condition (statement) by what the path has established about
its value (its completion).  What a path leaves open must not matter, so it is
replayed with every value."""
from world import *
from compare import truth

K = 3                   # occurrences of a part that are told apart; later ones share a state


class L:                # an arbitrary statement or declaration
    def __init__(self, n, nt="statement"):
        self.n, self.nt = n, nt

    def items(self):
        return [(self.nt, self.n)]


class X(L):             # an expression statement
    def items(self):
        return [P(self.n), ";"]


class Break:
    def items(self):
        return ["break", ";"]


class Empty:
    def items(self):
        return [";"]


class Return:
    def __init__(self, a=None):
        self.a = a

    def items(self):
        return ["return"] + ([P(self.a)] if self.a else []) + [";"]


class Block:
    def __init__(self, *b):
        self.b = b

    def items(self):
        return ["{"] + [i for s in self.b for i in s.items()] + ["}"]


class Chain(Block):     # a translation unit
    def items(self):
        return [i for s in self.b for i in s.items()]


class If:
    def __init__(self, c, a, b=None):
        self.c, self.a, self.b = c, a, b

    def items(self):
        return ["if", "(", P(self.c), ")"] + self.a.items() + \
            (["else"] + self.b.items() if self.b else [])


class While:
    def __init__(self, c, b):
        self.c, self.b = c, b

    def items(self):
        return ["while", "(", P(self.c), ")"] + self.b.items()


class For:
    def __init__(self, i, c, a, b):
        self.i, self.c, self.a, self.b = i, c, a, b

    def items(self):
        i = [P(self.i), ";"] if isinstance(self.i, str) else \
            self.i.items() if self.i else [";"]
        return ["for", "("] + i + ([P(self.c)] if self.c else []) + [";"] + \
            ([P(self.a)] if self.a else []) + [")"] + self.b.items()


def conds(s):
    if isinstance(s, (If, While, For)):
        if s.c:
            yield s.c
    for k in ("a", "b"):
        x = getattr(s, k, None)
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, (If, While, For, Block)):
                yield from conds(y)


class End(Exception):
    """The path stops here."""


class Cut(Exception):
    """From here on the path stands for any number of occurrences."""


class Bad(Exception):
    pass


class Replay:
    """One execution of the construct, following a path or free.

    `choose(options)` resolves what is open; `follow` is the path's list of
    evaluations, or None to enumerate the construct's executions."""

    def __init__(self, choose, events=None, decide=None, cap=None):
        self.choose, self.events, self.decide, self.cap = choose, events, decide, cap
        self.i, self.cnt, self.log = 0, {}, []

    def part(self, n):
        k = self.cnt.get(n, 0)
        self.cnt[n] = k + 1
        if self.cap is not None:
            if k >= self.cap:
                raise End()
        else:
            if self.i >= len(self.events):
                raise End()
            e = self.events[self.i]
            self.i += 1
            if e[0:2] != (n, k):
                raise Bad("evaluates %s%s where C evaluates %s%s" %
                          (e[0], "'" * e[1], n, "'" * k))
            if k >= K:
                raise Cut()
        self.log.append(n)
        return k

    def value(self, n):
        self.part(n)

    def cond(self, n):
        k = self.part(n)
        r = self.decide(n, k, "cond") if self.decide else (True, False)
        v = self.choose(r)
        self.log.append(v)
        return v

    def stmt(self, n, kinds):
        k = self.part(n)
        r = self.decide(n, k, "stmt") if self.decide else kinds
        v = self.choose(r)
        self.log.append(v)
        return v

    def run(self, s):
        """'normal', 'break' or ('return', value name)."""
        if isinstance(s, X):
            self.value(s.n)
            return "normal"
        if isinstance(s, L):
            if s.nt.endswith("declaration"):
                self.value(s.n)
                return "normal"
            return self.stmt(s.n, ("normal", "break"))
        if isinstance(s, Break):
            return "break"
        if isinstance(s, Empty) or s is None:
            return "normal"
        if isinstance(s, Return):
            if s.a:
                self.value(s.a)
            return ("return", s.a)
        if isinstance(s, Block):
            for x in s.b:
                r = self.run(x)
                if r != "normal":
                    return r
            return "normal"
        if isinstance(s, If):
            return self.run(s.a if self.cond(s.c) else s.b)
        if isinstance(s, For):
            if isinstance(s.i, str):
                self.value(s.i)
            elif s.i:
                self.run(s.i)
        n = 0
        while s.c is None or self.cond(s.c):
            n += 1
            if n > 12:
                raise End()
            r = self.run(s.b)
            if r == "break":
                return "normal"
            if r != "normal":
                return r
            if isinstance(s, For) and s.a:
                self.value(s.a)
        return "normal"


def explore(make):
    """Every resolution of the choices of make(choose)."""
    work = [()]
    while work:
        pre = work.pop()
        taken = []

        def choose(opts):
            i = len(taken)
            if i < len(pre):
                taken.append(pre[i])
                return pre[i]
            for o in opts[1:]:
                work.append(tuple(taken) + (o,))
            taken.append(opts[0])
            return opts[0]
        yield make(choose)


def executions(s, cap):
    """The construct's complete executions in which no part occurs more than
    cap times."""
    out = set()

    def one(choose):
        r = Replay(choose, cap=cap)
        try:
            r.run(s)
        except End:
            return None
        return tuple(r.log)
    for l in explore(one):
        if l is not None:
            out.add(l)
    return out


def run(ctx):
    w = World(ctx, ("cscript",))
    ctx.rule("execution-order", "on every path the parts of the construct are evaluated in the order, and as "
             "often, as C's semantics of the construct prescribe for the conditions and completions the path "
             "has established")
    ctx.rule("completion", "the construct completes by passing a break on exactly when C does (a loop ends "
             "it), by returning, or normally")
    ctx.rule("executions-covered", "every execution of the construct that C allows, with up to two loop "
             "iterations, is taken by some path")
    ctx.rule("return-target", "return stores the value of its expression in, and continues in, the innermost "
             "function call in progress; outside any function it ends the script with that value")
    V = lambda n: L(n)
    D = lambda n: L(n, "declaration")
    shapes = {
        "statement sequence": Block(V("S"), V("T"), V("U")),
        "declarations and statements": Block(D("D"), V("S"), D("E"), X("A")),
        "top level": Chain(V("S"), L("D", "external_declaration"), V("T")),
        "if": If("A", V("S")),
        "if else": If("A", V("S"), V("T")),
        "dangling else": If("A", If("B", V("S"), V("T"))),
        "else if": If("A", V("S"), If("B", V("T"), V("U"))),
        "while": While("A", V("S")),
        "for": For("I", "A", "B", V("S")),
        "for without after": For("I", "A", None, V("S")),
        "for with declaration": For(D("D"), "A", "B", V("S")),
        "for with declaration without after": For(D("D"), "A", None, V("S")),
        "for without init": For(None, "A", "B", V("S")),
        "for without condition": For("I", None, "B", V("S")),
        "for (;;)": For(None, None, None, V("S")),
        "empty statements": Block(Empty(), V("S"), Block(), If("A", Empty(), V("T"))),
        "while, empty": While("A", Empty()),
        "for, empty": For("I", "A", "B", Empty()),
    }
    loops = {"while": lambda b: While("A", b), "for": lambda b: For("I", "A", "J", b),
             "for (;;)": lambda b: For(None, None, None, b)}
    bodies = {
        "{break}": Block(X("S"), Break(), X("T")),
        "break": Break(),
        "{if break}": Block(X("S"), If("B", Break()), X("T")),
        "{if else break}": Block(If("B", X("S"), Break()), X("T")),
        "{if {break}}": Block(If("B", Block(X("S"), Break())), X("T")),
        "{{break}}": Block(X("S"), Block(X("T"), Break(), X("U")), X("V")),
        "{{stmt}}": Block(Block(V("S")), X("T")),
        "{if if break}": Block(If("B", If("C", Break())), X("T")),
        "{return}": Block(X("S"), Return("R"), X("T")),
        "{if return}": Block(If("B", Return("R")), X("T")),
        "{while break}": Block(While("B", Break()), X("T")),
        "{for break}": Block(For("K", "B", "M", Break()), X("T")),
        "{while {stmt break}}": Block(While("B", Block(X("S"), Break())), X("T")),
        "{while return}": Block(While("B", Return("R")), X("T")),
        "while stmt": While("B", X("S")),
        "for stmt": For("K", "B", "M", X("S")),
        "if break else stmt": If("B", Break(), X("S")),
    }
    for ln, lf in loops.items():
        for bn, b in bodies.items():
            shapes["%s %s" % (ln, bn)] = lf(b)
    for bn in ("{break}", "{if break}", "{return}", "{{break}}", "{if return}"):
        shapes["if %s" % bn] = If("A", bodies[bn], V("Z"))
        shapes["else %s" % bn] = If("A", V("Z"), bodies[bn])
        shapes["block %s" % bn] = Block(X("Y"), bodies[bn], X("Z"))
    shapes["return"] = Return("R")
    shapes["return nothing"] = Return()
    shapes["block return"] = Block(X("S"), Return("R"), X("T"))
    for n, s in shapes.items():
        with ctx.guarded(n):
            construct(ctx, w, n, s)
    with ctx.guarded("return-target"):
        target(ctx, w)
    ctx.need("execution-order", 150)
    ctx.need("executions-covered", 150)


def assume(w, s, chain):
    st = State()
    ft = st.facts
    ft[("ty", w.CUR)] = frozenset([w.tt["E_CTX"]])
    if not chain:
        # directly inside a function call
        ft[("val", ("ld", w.CUR, w.p.acc["tECTX_IS_FN_CALL"][1]))] = ("notin", frozenset([0]))
        ft[("ty", ("ld", w.CUR, w.p.acc["tECTX_PARENT_CTX"][1]))] = frozenset([w.tt["E_CTX"]])
    for c in conds(s):
        for k in range(K + 1):
            ft[("ty", EV(c, k))] = frozenset([w.tt["T_INTEGER"]])
    return st


def ends(fl, name, args, st, loc, e):
    st = fl.emit(st, ev(loc, "call", name, args))
    fl.dead("exit", ("exit", name, args), st, loc)
    return []


def outcomes(w, s, chain=False):
    goal, follow = ("cscript_translation_unit", "$end") if isinstance(s, Chain) else ("statement", "'}'")
    st = assume(w, s, chain)
    leaves(w, s, st)
    return w.expr("cscript", s.items(), goal, follow, st=st, fname="__evaluate", ncap=K,
                  opaque={"cscript_exit": ends})


def leaves(w, s, st):
    """Evaluating an expression or a declaration yields a value or nothing;
    evaluating a statement nothing, a break or a return that has to be passed
    on."""
    tt = w.tt
    for x in walk(s):
        if isinstance(x, X) or x.nt in ("declaration", "external_declaration"):
            ty = frozenset([NULL, tt["T_INTEGER"], tt["T_LIVE_VAR"]])
        else:
            ty = frozenset([NULL, tt["T_INTEGER"], tt["T_BREAK"]])
        for k in range(K + 1):
            st.facts[("ty", EV(x.n, k))] = ty


def walk(s):
    if isinstance(s, L):
        yield s
    for k in ("i", "a", "b"):
        x = getattr(s, k, None)
        for y in (x if isinstance(x, tuple) else (x,)):
            if y is not None and not isinstance(y, str):
                yield from walk(y)


def construct(ctx, w, name, s):
    outs = outcomes(w, s)
    if outs is None:
        return ctx.fail("execution-order", name, "parser.m4", "not accepted by the grammar")
    tt = w.tt
    BRK = tt["T_BREAK"]
    leafs = {x.n: x for x in walk(s)}
    covered = set()
    for o in outs:
        events = []
        for e in w.evals(o):
            if e[1][0] == "p":
                events.append((e[1][1], e[2], e[0], e.loc))
            elif e[1][0] not in ("ev", "evs"):
                ctx.fail("execution-order", name, e.loc, "evaluates %s" % w.sh(e[1]))

        def decide(n, k, what):
            if what == "cond":
                t = truth(EV(n, k), w, o)
                return (True, False) if t is None else (t,)
            how = [e[2] for e in events if e[0] == n and e[1] == k][0]
            v = EV(n, k) if how == "eval" else ("evs", leaf(n), k)
            ts = w.tys(v, o)
            r = ()
            if ts - {BRK}:
                r += ("normal",)
            if BRK in ts:
                r += ("break",)
            return r

        def one(choose):
            r = Replay(choose, events, decide)
            try:
                res = r.run(s)
            except End:
                res = None
            except (Bad, Cut) as b:
                return r, b
            return r, res
        for r, res in explore(one):
            at = events[min(r.i, len(events)) - 1][3] if events else w.site(o)
            how = lambda: "path %s" % " ".join(str(x) for x in r.log)
            if isinstance(res, Cut):
                continue
            if isinstance(res, Bad):
                ctx.fail("execution-order", name, at, "%s (%s)" % (res, how()))
                continue
            if res is None:
                if o.kind == "ret":
                    ctx.fail("execution-order", name, at, "stops after %s" % how())
                elif o.kind == "die" and o.val[1] == "eval_die":
                    ctx.fail("execution-order", name, o.loc, "rejects a valid statement (%s)" % how())
                elif o.kind == "jump":
                    ctx.fail("completion", name, at, "returns early (%s)" % how())
                continue
            if r.i != len(events):
                ctx.fail("execution-order", name, at, "goes on with %s after %s" % (events[r.i][0], how()))
                continue
            if o.kind in ("die", "exit") and res in ("normal", "break"):
                if o.kind == "die" and o.val[1] == "eval_die":
                    ctx.fail("execution-order", name, o.loc, "rejects a valid statement (%s)" % how())
                continue
            ctx.ok("execution-order", "%s: %s" % (name, " ".join(str(x) for x in r.log)))
            if res == "normal":
                ctx.check(o.kind == "ret" and completes(w, o, r, events, False), "completion",
                          "%s: %s" % (name, "normal"), w.site(o),
                          lambda: "%s %s (%s)" % (o.kind, w.sh(o.val), how()))
            elif res == "break":
                ctx.check(o.kind == "ret" and completes(w, o, r, events, True), "completion",
                          "%s: %s" % (name, "break"), w.site(o),
                          lambda: "%s %s (%s)" % (o.kind, w.sh(o.val), how()))
            else:
                ctx.check(returns(w, o, res[1], r), "completion", "%s: %s" % (name, "return"), w.site(o),
                          lambda: "%s %s (%s)" % (o.kind, w.sh(o.val), how()))
            covered.add(tuple(r.log))
    for l in executions(s, K):
        ctx.check(l in covered, "executions-covered", "%s: %s" % (name, " ".join(str(x) for x in l)),
                  "evaluate.c", "no path takes this execution")


def completes(w, o, r, events, brk):
    """The outcome's value says whether a break has to be passed on."""
    BRK = w.tt["T_BREAK"]
    v = o.val
    ts = w.tys(v, o)
    if BRK not in ts:
        return not brk
    if ts == {BRK}:
        return brk
    # passed on as it came: a break exactly if the part broke
    for i, e in enumerate(events):
        x = EV(e[0], e[1]) if e[2] == "eval" else ("evs", leaf(e[0]), e[1])
        if v == x:
            # the replayed choice is the last one of that part
            j = len(r.log) - 1 - r.log[::-1].index(e[0])
            return (r.log[j + 1] == "break") == brk
    return False


def returns(w, o, a, r):
    want = EV(a, r.cnt[a] - 1) if a else ("i", 0)
    if o.kind == "exit" and o.val[1] == "cscript_exit":
        return o.val[2][0] == want
    if o.kind != "jump":
        return o.kind in ("die", "exit") and not (o.kind == "die" and o.val[1] == "eval_die")
    st = [e for e in o.st.trace if e[0] == "store" and e[1][0] == "F" and e[1][2] == w.p.acc["tECTX_RETVAL"][1]]
    buf = o.val[1][0]
    return len(st) == 1 and st[0][2] == want and buf[0] == "pl" and \
        buf[1] == ("F", st[0][1][1], w.p.acc["tECTX_JMP_BUF"][1])


def target(ctx, w):
    f_fn, f_par = w.p.acc["tECTX_IS_FN_CALL"][1], w.p.acc["tECTX_PARENT_CTX"][1]
    for name, s, k in (("return A;", Return("R"), 0), ("{ return A; }", Block(Return("R")), 1),
                       ("return;", Return(), 0), ("while (A) return B;", While("A", Return("R")), 1)):
        outs = outcomes(w, s, chain=True)
        reached = set()
        for o in outs:
            if not (o.kind == "jump" or o.kind == "exit" and o.val[1] == "cscript_exit"):
                continue
            # walk outwards from the context in which return was executed
            c = o.st.env.get(w.CURCELL, w.CUR)
            flag = lambda c: flagged(w, o, c, f_fn)
            n = 0
            goal = o.val[2][0][1][1] if o.kind == "jump" and False else None
            if o.kind == "jump":
                goal = o.val[1][0]
                goal = goal[1][1] if goal[0] == "pl" and goal[1][0] == "F" else None
            why = None
            while True:
                if o.kind == "jump" and c == goal:
                    if flag(c) is not True:
                        why = "continues in a context that isn't known to be a function call"
                    reached.add(("call", min(n, 3)))
                    break
                if c == ("i", 0) or w.tys(c, o) == {NULL}:
                    if o.kind == "jump":
                        why = "continues in %s, not in an enclosing context" % w.sh(goal)
                    reached.add(("exit", min(n, 3)))
                    break
                if flag(c) is not False:
                    why = "passes over %s, which may be a function call" % w.sh(c)
                    break
                nx = o.fl.load(("F", c, f_par), o.st)
                n += 1
                if n > 6:
                    # the widened part of the walk: any context further out
                    if o.kind == "jump" and goal[0] == "lv":
                        if flag(goal) is not True:
                            why = "continues in a context that isn't known to be a function call"
                    elif o.kind == "jump":
                        why = "continues in %s" % w.sh(goal)
                    break
                if w.tys(nx, o) == o.fl.all_types:
                    # the rest of the walk is summarised by the loop
                    if o.kind == "jump" and goal[0] == "lv":
                        if flag(goal) is not True:
                            why = "continues in a context that isn't known to be a function call"
                        break
                    if o.kind == "exit":
                        break
                c = nx
            if o.kind == "jump" and why is None:
                r = [e for e in o.st.trace if e[0] == "store" and e[1][0] == "F" and e[1][2] == w.p.acc["tECTX_RETVAL"][1]]
                if len(r) != 1 or r[0][1][1] != goal:
                    why = "the value is stored elsewhere than in the context it returns to"
            ctx.check(why is None, "return-target", name, w.site(o), lambda: why)
        for d in range(k, k + 2):
            ctx.check(("call", d) in reached, "return-target", "%s from %d contexts deep" % (name, d),
                      "evaluate.c", "no path returns to a function call %d contexts out" % d)
        ctx.check(any(x[0] == "exit" for x in reached), "return-target", "%s outside any function" % name,
                  "evaluate.c", "no path ends the script")


def flagged(w, o, c, f):
    v = o.fl.load(("F", c, f), o.st)
    if v[0] == "i":
        return v[1] != 0
    d = o.st.facts.get(("val", v))
    if d and d[0] == "in":
        return True if 0 not in d[1] else False if d[1] == frozenset([0]) else None
    if d and d[0] == "notin" and 0 in d[1]:
        return True
    return None
