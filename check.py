#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property from the MIR of /repo's current tree."""
import argparse, importlib, json, os, signal, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from engine import build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    from engine import rules
    try:
        ctx = rules.Ctx(a.prop, a.tier)
    except build.BuildFailure as x:
        print("BUILD FAILURE:", x)
        return 2
    mod = importlib.import_module("checks." + a.prop.lower())
    try:
        mod.check(ctx)
    except Exception as x:
        # what could not be analysed is undecided, not violated
        ctx.ob.append("analysis")
        ctx.undecided.append(f"analysis: {type(x).__name__}: {x}")
        ctx.notes.append("".join(traceback.format_exc())[-1500:])
    known = {}
    kf = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            if line.strip():
                j = json.loads(line)
                if j.get("status") == "known" and j["property"] == a.prop:
                    known[j["key"]] = j
    new = [v for k, v in ctx.violations.items() if k not in known]
    for k in ctx.violations:
        if k in known:
            print(f"KNOWN-FINDING: property={a.prop} {known[k]['what']}")
    rep = os.path.join(VERIF, "evidence", a.prop + ".violations.json")
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "explanation": mod.EXPLANATION + " Rules: " + " | ".join(ctx.rules),
            "obligations": len(ctx.ob), "discharged": ctx.nok, "undecided": len(ctx.undecided),
            "functions_analysed": len(ctx.fns),
            "crates": ctx.P.nfiles,
            "samples": ctx.ob[:12],
            "undecided_list": ctx.undecided[:40],
            "notes": ctx.notes,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": [f"{v['key']}: {v['message']}" for v in new],
        "wall_s": round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print(f"{a.prop}: {len(ctx.ob)} obligations, {ctx.nok} discharged, {len(ctx.undecided)} undecided, "
          f"{len(ctx.fns)} functions analysed, {time.time() - t0:.1f}s")
    if a.v:
        for u in ctx.undecided:
            print("  undecided", u)
    if new:
        json.dump(new, open(rep, "w"), indent=1)
        for v in new[:30]:
            print(f"  {v['where']}: [{v['key']}] {v['message']}")
        print(f"VIOLATION property={a.prop} replay={rep}")
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    return 0


def guarded():
    """The analysis in a child process: whatever happens to it, there is an answer in time."""
    quick = "thorough" not in sys.argv and (os.environ.get("VERIF_TIER") or "quick") != "thorough"
    limit = time.monotonic() + (780 if quick else 7000)
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        code = 2
        try:
            os.setpgid(0, 0)
            code = main()
        except SystemExit as x:
            code = x.code if isinstance(x.code, int) else 2
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st)
        if time.monotonic() > limit:
            break
        time.sleep(0.05)
    for target in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            target()
        except OSError:
            pass
    os.waitpid(pid, 0)
    prop = next(x for x in sys.argv[1:] if not x.startswith("-"))
    mod = importlib.import_module("checks." + prop.lower())
    ev = {"property": prop, "tier": "quick" if quick else "thorough", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": mod.LEVEL,
          "coverage": {"explanation": mod.EXPLANATION + " The time was up before the analysis ended; nothing was decided.", "obligations": 0,
                       "discharged": 0, "undecided": 1, "undecided_list": ["the time is up"]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "violations": [], "wall_s": 780.0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: the time is up, nothing was decided")
    return 0


if __name__ == "__main__":
    sys.exit(guarded())
