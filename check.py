#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]

Regenerates bic's generated sources from /repo's working tree, extracts every
translation unit with clang, decides property ID on the result and writes
evidence/ID.json.  Exit 0: holds.  1: violated (with a VIOLATION line).
2: could not be decided (never counted as a pass)."""
import argparse, importlib, json, os, shutil, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, d) for d in ("lib", "tool", "checks")]
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    import gen, prog, flow, oblig, catalog
    meta = catalog.CHECKS[a.pid]
    pre = os.environ.get("BIC_GEN")
    tmp = None
    try:
        if pre:
            d = pre + "/src"
        else:
            os.makedirs(gen.BUILD, exist_ok=True)
            tmp = tempfile.mkdtemp(prefix="gen-", dir=gen.BUILD)
            d = tmp + "/src"
            gen.generate(d)
            gen.extract(d)
        p = prog.Prog(d)
        ctx = oblig.Ctx(a.pid, p, d, a.tier)
        mod = importlib.import_module(meta["module"])
        with oblig.Guard(ctx, "check", oblig.TOTAL):
            getattr(mod, meta.get("entry", "run"))(ctx)
    except (gen.GenError, flow.Limit, RuntimeError, KeyError, OSError) as e:
        print("ERROR property=%s not decided: %s: %s" % (a.pid, type(e).__name__, e))
        return 2
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    for r in ctx.rules:
        if not ctx.obs.get(r):
            ctx.limit("rule %s found nothing to apply to" % r)
    known = oblig.load_findings(a.pid)
    new = [b for b in ctx.bad if b[0] not in known]
    nob = sum(len(v) for v in ctx.obs.values())
    ev = {
        "property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": meta["level"],
        "coverage": {
            "obligations": nob, "discharged": nob - len(ctx.bad),
            "checker_cmd": "python3 /verif/check.py %s --tier %s" % (a.pid, a.tier),
            "trusted_base": catalog.TRUSTED,
            "explanation": meta["level_note"],
            "rules": {r: {"text": t, "applied_to": len(ctx.obs.get(r, ())),
                          "subjects": sorted(set(ctx.obs.get(r, ())))[:400]}
                      for r, t in ctx.rules.items()},
            "functions_analysed": sorted(ctx.functions),
            "abstract_steps": ctx.states,
            "notes": ctx.notes,
            "undecided": ctx.limits,
            "known_findings": [b[0] for b in ctx.bad if b[0] in known],
            "violation_list": [{"rule": b[1], "construct": b[2], "at": b[3], "why": b[4]}
                               for b in new],
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    evd = os.environ.get("BIC_EVID", HERE + "/evidence")
    os.makedirs(evd, exist_ok=True)
    path = evd + "/%s.json" % a.pid
    json.dump(ev, open(path, "w"), indent=1)
    print("property %s: %d obligations under %d rules, %d functions, %d abstract steps, %.1fs"
          % (a.pid, nob, len(ctx.rules), len(ctx.functions), ctx.states, ev["wall_s"]))
    for r in ctx.rules:
        print("  %-28s %4d  %s" % (r, len(ctx.obs.get(r, ())), ctx.rules[r]))
    for b in ctx.bad:
        if b[0] in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.pid, b[0], known[b[0]]))
    if new:
        rep = evd + "/%s.violation.txt" % a.pid
        with open(rep, "w") as f:
            for b in new:
                f.write("%s: [%s] %s: %s\n  rule: %s\n" % (
                    b[3], b[1], b[2], b[4], ctx.rules.get(b[1], "")))
        for b in new[:20]:
            print("%s: [%s] %s: %s" % (b[3], b[1], b[2], b[4][:600]))
        print("VIOLATION property=%s replay=%s" % (a.pid, rep))
        return 1
    if ctx.limits:
        for l in ctx.limits[:20]:
            print("UNDECIDED property=%s %s" % (a.pid, l))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
