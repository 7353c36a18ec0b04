#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]     decide one property
   check.py --build                        build every harness (setup)
   check.py --replay FILE                  replay a saved violation"""
import json, os, shutil, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, engine, tlc, props

HERE = os.path.dirname(os.path.abspath(__file__))


def findings(prop):
    """lines 'known: property=ID replay=FILE what fails' of known_findings.txt"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            w = l.strip().split(" ", 3)
            if w[0] == "known:" and w[1] == "property=" + prop:
                out.append((os.path.join(HERE, w[2].split("=", 1)[1]), w[3]))
    return out


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    os.makedirs(engine.OUT, exist_ok=True)
    if a[0] == "--build":
        build.build(verbose=True)
        return 0
    if a[0] == "--replay":
        f = json.load(open(a[1]))
        bins = build.build([f["harness"]])
        r = engine.replay_again(bins, f)
        print("fails: " + json.dumps(r) if r else "conforms")
        return 1 if r else 0
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    names = list(props.HARNESS_OF[prop])
    known = findings(prop)
    kf = [(json.load(open(p)), p, what) for p, what in known]
    names += [f["harness"] for f, _, _ in kf if f["harness"] not in names]
    bins = build.build(names)
    c = engine.Check(prop, tier, seed, bins)
    props.CHECKS[prop](c)
    err = c.finish()
    for f, p, what in kf:
        if engine.replay_again(bins, f):
            print(f"KNOWN-FINDING: property={prop} {what}")
    confirmed = []
    for f in c.cov.failures:
        if len(confirmed) >= int(os.environ.get('VERIF_MAXV', '5')):
            break
        if f.get("confirmed"):
            confirmed.append(f)
            continue
        r = engine.replay_again(bins, f)
        if r is None:
            print(f"note: not repeated, ignored: {f['msg'][:200]}", file=sys.stderr)
            continue
        confirmed.append(f)
    cov = c.cov
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": cov.mc_states + cov.gen_states, "transitions": cov.mc_trans + cov.gen_states,
                       "exhaustively_explored_states": cov.mc_states, "sampled_states": cov.gen_states,
                       "traces_validated_against_impl": cov.traces, "comparisons": cov.checks,
                       "parts": merge(cov.parts), "samples": [shorten(s) for s in cov.samples]},
          "assumptions": ["the specification's bounds given per part", "primitive functions (sin, exp, ...) are interpreted by libm in the harness"],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in confirmed:
        path = engine.save_violation(prop, f)
        print(f"{prop}: {f['label']}: {f['kind']} at event {f['at']}: {f['msg'][:400]}")
        print(f"VIOLATION property={prop} replay={path}")
    if confirmed:
        return 1
    if err:
        raise err
    print(f"{prop}: held; {cov.traces} behaviours replayed, {cov.checks} comparisons, "
          f"{cov.mc_states} states explored, {cov.gen_states} sampled, {time.time() - t0:.1f} s")
    return 0


def merge(parts):
    out = {}
    for p in parts:
        k = p.get("model") or p.get("replay") or p.get("trace")
        if k not in out:
            out[k] = dict(p, runs=1)
        else:
            o = out[k]
            o["runs"] += 1
            for f, v in p.items():
                if isinstance(v, int) and not isinstance(v, bool) and f != "depth":
                    o[f] += v
    return list(out.values())


def shorten(s):
    t = json.dumps(s)
    return s if len(t) < 6000 else t[:6000] + "..."


if __name__ == "__main__":
    try:
        rc = main()
    except (tlc.TLCError, build.BuildError, engine.FrameworkError) as e:
        print(f"error: {e}", file=sys.stderr)
        rc = 2
    sys.exit(rc)
