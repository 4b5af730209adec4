"""Obligations, violations and known findings of one check."""
import os, pickle, re, signal, sys, time
from flow import Limit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    def __init__(self, pid, prog, gendir, tier="quick"):
        self.pid, self.prog, self.dir, self.tier = pid, prog, gendir, tier
        self.obs = {}            # rule -> list of subjects
        self.bad = []            # (key, rule, subject, loc, why)
        self.limits = []
        self.functions = set()
        self.rules = {}
        self.cache = {}
        self.notes = []
        self.states = 0

    # -- bookkeeping
    def rule(self, name, text):
        self.rules[name] = text
        self.obs.setdefault(name, [])

    def ok(self, rule, subject):
        self.obs.setdefault(rule, []).append(str(subject))

    def fail(self, rule, subject, loc, why):
        key = "%s|%s" % (rule, re.sub(r"\s+", " ", str(subject)))
        self.obs.setdefault(rule, []).append(str(subject))
        if any(b[0] == key for b in self.bad):
            return
        self.bad.append((key, rule, str(subject), loc or "?", why))

    def check(self, cond, rule, subject, loc="", why=""):
        if cond:
            self.ok(rule, subject)
        else:
            self.fail(rule, subject, loc, why() if callable(why) else why)
        return cond

    def limit(self, what):
        self.limits.append(str(what))

    def need(self, rule, n):
        """The rule must have found at least n instances."""
        k = len(self.obs.get(rule, ()))
        if k < n:
            self.limit("rule %s applied to %d constructs, expected at least %d"
                       % (rule, k, n))

    def guarded(self, what):
        return Guard(self, what)


SLICE, TOTAL = 150, 700     # seconds: one construct, the whole check
START = time.time()


def late(sig, frame):
    raise Limit("analysis takes too long")


class Guard:
    """Turns what makes a part of the analysis stop into an undecided construct."""
    deadlines = []

    def __init__(self, ctx, what, slice=SLICE):
        self.ctx, self.what, self.slice = ctx, what, slice

    def __enter__(self):
        now = time.time()
        end = min([now + self.slice, START + TOTAL] + Guard.deadlines[-1:])
        Guard.deadlines.append(end)
        signal.signal(signal.SIGALRM, late)
        arm(end)
        return self

    def __exit__(self, t, v, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        Guard.deadlines.pop()
        if t is not None and issubclass(t, (Limit, KeyError, IndexError, TypeError,
                                            AttributeError, ValueError,
                                            RecursionError, AssertionError)):
            import traceback
            if os.environ.get("BIC_TB"):
                traceback.print_exception(t, v, tb)
            self.ctx.limit("%s: %s: %s" % (self.what, t.__name__, v))
            t = None
            done = True
        else:
            done = False
        if Guard.deadlines:
            arm(Guard.deadlines[-1])
        return done


def arm(end):
    signal.setitimer(signal.ITIMER_REAL, max(0.05, end - time.time()), 2.0)


def spread(ctx, jobs, procs=6):
    """Run the (title, function) jobs, in processes of their own; what they
    decide is recorded in the order of the jobs."""
    if os.environ.get("BIC_SERIAL") or len(jobs) < 2:
        for title, fn in jobs:
            with ctx.guarded(title):
                fn()
        return
    n = min(procs, len(jobs))
    sys.stdout.flush()
    kids = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = []
                for i in range(k, len(jobs), n):
                    ctx.obs = {x: [] for x in ctx.obs}
                    ctx.bad, ctx.limits, ctx.notes, ctx.functions, ctx.states = [], [], [], set(), 0
                    with ctx.guarded(jobs[i][0]):
                        jobs[i][1]()
                    out.append((i, ctx.obs, ctx.bad, ctx.limits, ctx.notes, ctx.functions, ctx.states))
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    res = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            res += pickle.loads(data)
        except Exception:
            ctx.limit("a part of the analysis ended without an answer")
    for i, obs, bad, limits, notes, fns, states in sorted(res, key=lambda x: x[0]):
        for r, l in obs.items():
            ctx.obs.setdefault(r, []).extend(l)
        for b in bad:
            if not any(x[0] == b[0] for x in ctx.bad):
                ctx.bad.append(b)
        ctx.limits += limits
        ctx.notes += [x for x in notes if x not in ctx.notes]
        ctx.functions |= fns
        ctx.states += states


def load_findings(pid):
    """{key: text} of the recorded, unrepaired findings of a property."""
    out = {}
    if not os.path.exists(FINDINGS):
        return out
    for line in open(FINDINGS):
        m = re.match(r"finding: property=(\w+) key=<(.*?)> (.*)", line)
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3).strip()
    return out
