"""Construct-level analysis: source construct -> tokens -> LALR automaton ->
semantic actions -> abstract syntax -> evaluator, with opaque operands.

The text of a construct is given as a sentential form.  Its lexemes are
classified by the scanner's automaton, the form is reduced by the LALR
automaton applying the dataflow of each semantic action, and the resulting
tree is taken through the evaluator's handlers.  Operands stay opaque: what is
found holds for every operand.
"""
from ceval import *
from front import *


def c_eval(fl, name, args, st, loc, e):
    t = args[0]
    if fl.values is not None:
        v = fl.values(fl, t, st)
        if isinstance(v, list):
            return v
        if v is not None:
            # the value of a leaf that is known
            return [(v, fl.emit(st, ev(loc, "eval", t, 0, *fl.mark(st))))]
    if t[0] == "new":
        ts = fl.tyset(t, st)
        if len(ts) == 1:
            f = fl.p.lookup("evaluate.c", name)
            return fl.real_inline(name, f, args, st, loc)
    return o_eval(fl, name, args, st, loc, e)


def c_exec(fl, name, args, st, loc, e):
    t = args[0]
    if t[0] == "new":
        f = fl.p.lookup("evaluate.c", name)
        return fl.real_inline(name, f, args, st, loc)
    return o_exec(fl, name, args, st, loc, e)


class Compose(EvalFlow):
    def __init__(self, prog, unroll=3, opaque=None, values=None, **kw):
        self.values = values
        kw.setdefault("real_lists", True)
        kw.setdefault("rec_limit", 8)
        super().__init__(prog, unroll=unroll, opaque=opaque, **kw)
        self.special["__evaluate_1"] = c_eval
        self.special["__evaluate"] = c_exec
        self.leaves = set()

    def distinct(self, a, b):
        # operands of one construct are different nodes of the tree
        if a in self.leaves and b in self.leaves and a != b:
            return True
        return super().distinct(a, b)

    def ptr_eq(self, a, b, st):
        if a in self.leaves and b in self.leaves and a != b:
            return [(False, st)]
        return super().ptr_eq(a, b, st)

    def real_inline(self, name, f, args, st, loc):
        return self.inline(f, args, st, loc)


class Front:
    """Scanner + grammar of one front end."""

    def __init__(self, prog, target, xmldir):
        self.p = prog
        self.target = target
        self.lex = Lexer(prog, target)
        self.g = Grammar(prog, target, "%s/%sparser.xml" % (xmldir, target))
        self._tok = {}

    def tokname(self, lexeme):
        if lexeme not in self._tok:
            k = self.lex.token(lexeme)
            self._tok[lexeme] = IGNORED if k == IGNORED else self.g.tok.get(k) if k is not None else None
        return self._tok[lexeme]

    def form(self, items):
        """items: lexemes (str) and ('nonterminal', name) leaves.
        A lexeme may be given as ('tok', lexeme, value)."""
        out = []
        for it in items:
            if isinstance(it, str):
                s = self.tokname(it)
                if s is None:
                    return None, it
                if s == IGNORED:
                    continue
                out.append((s, ("tok", it), ("loc", it)))
            elif it[0] == "tok":
                s = self.tokname(it[1])
                if s is None:
                    return None, it[1]
                out.append((s, it[2], ("loc", it[1])))
            else:
                out.append((it[0], ("p", it[1]), ("loc", it[1])))
        return out, None

    def parse(self, fl, items, goal, follow, st=None):
        seq, bad = self.form(items)
        if seq is None:
            return None
        fl.leaves |= set(v for s, v, l in seq if v[0] == "p")
        st = st or State()
        st.env.setdefault(("G", "", self.target + "_current_file"), ("str", "input.c"))
        return self.g.parse(fl, seq, goal, follow, st)


def evaluate(fl, tree, st, fname="__evaluate_1"):
    f = fl.p.lookup("evaluate.c", fname)
    fl.outcomes_dead = []
    st = st.copy()
    st.trace = ()
    res = fl.inline(f, (tree, ("p", "depth")), st, "")
    return [Outcome("ret", v, s) for v, s in res] + fl.outcomes_dead
