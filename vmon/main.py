"""Entry point: python -m vmon.main <ID> [--replay FILE]   (through run.sh, which sets the environment)."""
import importlib
import json
import os
import sys
import time

from . import core


def load(prop):
    return importlib.import_module("vmon.checks.%s" % prop.lower())


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = os.environ["VMON_SCRATCH"]
    check = load(prop)
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rec = json.load(f)
        os.makedirs(os.path.join(scratch, "r"), exist_ok=True)
        os.chdir(os.path.join(scratch, "r"))
        if rec["case"] is None:
            print("pooled verdict: run the whole check with VERIF_SEED=%s VERIF_TIER=%s" % (rec["seed"], rec["tier"]))
            return 2
        out = core.run_case(check, rec["case"], rec["seed"], rec["index"])
        print(out["status"], out.get("message", ""))
        for k, v in (out.get("witness") or {}).items():
            print("  %s: %s" % (k, v))
        return 1 if out["status"] == "violated" else 0

    t0 = time.time()
    cases = check.cases(tier, seed)
    workers = min(int(os.environ.get("VMON_WORKERS", "8")), max(1, len(cases)))
    total, lines = core.Monitor(), set()
    samples, violations, inconclusive, done = [], [], [], 0
    for out in core.Pool(check, cases, seed, workers, scratch).run():
        mon = out["mon"]
        done += 1
        lines |= out.get("lines", set())
        for k, v in mon.counts.items():
            if k.startswith("max_"):
                total.top(k, v)
            else:
                total.count(k, v)
        total.sigs |= mon.sigs
        total.pool.extend(mon.pool)
        if mon.samples and len(samples) < 4:
            samples.append({"case": cases[out["index"]], "observed": mon.samples[0]})
        if out["status"] == "violated":
            violations.append(out)
        elif out["status"] == "inconclusive":
            inconclusive.append(out)
    if not violations and hasattr(check, "finish"):
        try:
            check.finish(total.pool, total)
        except core.Violation as v:
            violations.append({"index": None, "message": v.message, "key": v.key, "witness": v.witness})

    known = core.known_findings(prop)
    fresh, listed = [], {}
    for v in violations:
        if v.get("key") in known:
            listed[v["key"]] = v
        else:
            fresh.append(v)
    for key in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))

    replays = os.path.join(core.VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    for v in fresh:
        name = "%s-%s-%s-%s.json" % (prop, tier, seed, "pool" if v["index"] is None else v["index"])
        path = os.path.join(replays, name)
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "index": v["index"],
                       "case": None if v["index"] is None else cases[v["index"]],
                       "message": v["message"], "witness": v.get("witness")}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s" % v["message"])

    short = {k: (total.counts.get(k, 0), n) for k, n in getattr(check, "FLOORS", {}).items() if total.counts.get(k, 0) < n}
    counts = dict(sorted(total.counts.items()))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(check, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(total.sigs),
            "rule": check.RULE,
            "samples": samples or [{"note": "no sample recorded"}],
            "monitor_events": counts,
            "library_lines_executed": core.line_report(lines),
            "known_findings_seen": sorted(listed),
            "inconclusive_cases": len(inconclusive),
            "cases_planned": len(cases),
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    if fresh:
        return 1
    if inconclusive:
        print("INCONCLUSIVE property=%s %d case(s): %s" % (prop, len(inconclusive), inconclusive[0].get("message")))
        return 2
    if short and not listed:
        print("INCONCLUSIVE property=%s too little observed: %s" % (prop, short))
        return 2
    print("HELD property=%s cases=%d distinct=%d oracle_evaluations=%d wall=%.1fs" %
          (prop, done, len(total.sigs), total.counts.get("oracle_evaluations", 0), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
