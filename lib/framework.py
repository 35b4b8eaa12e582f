"""Entry point shared by all checks: build, known findings, exploration, evidence, exit code."""
import argparse, importlib, json, os, pathlib, sys, time, traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "lib"))
sys.path.insert(0, str(VERIF / "checks"))
sys.dont_write_bytecode = True


def load_known(pid):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [e for e in json.loads(p.read_text())["findings"] if e["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--stream", help="development: run only this stream")
    ap.add_argument("--scale", type=float)
    a = ap.parse_args()
    if a.scale:
        os.environ["WF_SCALE"] = str(a.scale)
    t0 = time.monotonic()
    import pbt, wfbuild
    mods = [p.stem for p in (VERIF / "checks").glob(a.property.lower() + "_*.py")]
    mod_src = mods[0]
    targets = ("pywrenfold",)
    src_text = (VERIF / "checks" / (mod_src + ".py")).read_text()
    for line in src_text.splitlines():
        if line.startswith("# TARGETS:"):
            targets = tuple(line.split(":", 1)[1].split())
    bdir = wfbuild.ensure(targets)
    for p in reversed(wfbuild.python_paths(bdir)):
        sys.path.insert(0, p)
    os.environ["WF_BDIR"] = str(bdir)
    t_build = time.monotonic() - t0
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module(mod_src)
    streams = mod.streams()
    if a.stream:
        streams = [s for s in streams if s.name == a.stream]
    by_name = {s.name: s for s in streams}
    if a.replay:
        r = json.load(open(a.replay))
        (st, msg, data), _ = pbt.probe(by_name[r["stream"]], r["choices"], r.get("rng"), 120)
        print(st, msg)
        for k, v in data.items():
            print(f"  {k}: {v}")
        if st in ("violation", "crash", "hang"):
            print(f"VIOLATION property={a.property} replay={a.replay}")
            return 1
        return 0

    known_lines = []
    violations = []
    for e in load_known(a.property):
        # A finding's reproduction lives in the check module; it must still fail as described.
        still = mod.KNOWN[e["id"]]()
        if still:
            known_lines.append(f"KNOWN-FINDING: property={a.property} {e['id']}: {e['what']}")
    agg = pbt.explore(streams, a.tier, a.seed)
    if agg["errors"]:
        # An exception out of the harness itself. Deterministic ones point at the code under test
        # rejecting/raising where the harness expects it not to; see cases wrapped by the checks.
        for m in agg["errors"]:
            print("HARNESS-ERROR", m, file=sys.stderr)
    agg["viol"].sort(key=lambda v: (len(v["choices"]), v["choices"]))
    (VERIF / "replays").mkdir(exist_ok=True)
    unconfirmed = 0
    seen = set()
    for v in agg["viol"]:
        if len(violations) >= 3:
            break
        c = pbt.confirm(by_name[v["stream"]], v)
        if c is None:
            unconfirmed += 1
            print(f"unconfirmed: {v['stream']}[{v['index']}] {v['message']}", file=sys.stderr)
            continue
        sig = (c["stream"], c["message"][:80])
        if sig in seen:
            continue
        seen.add(sig)
        path = VERIF / "replays" / f"{a.property}-{c['stream']}-{a.seed}-{c['index']}.json"
        c["property"], c["seed"] = a.property, a.seed
        path.write_text(json.dumps(c, indent=1))
        violations.append((c, path))
    evals = sum(agg["evals"].values())
    ev = {
        "property": a.property, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(agg["keys"]),
            "rule": mod.RULE,
            "samples": agg["samples"][:12],
            "cases_per_stream": agg["evals"],
            "rejected_per_stream": agg["rejects"],
            "classification": agg["labels"],
            "cut_short_by_time": agg["timeout"],
            "unconfirmed_failures": unconfirmed,
            "harness_errors": len(agg["errors"]),
            "build_s": round(t_build, 1),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 1),
        "violations": len(violations),
    }
    if not ev["coverage"]["samples"]:
        ev["coverage"]["samples"] = ["(none)"]
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{a.property}.json").write_text(json.dumps(ev, indent=1))
    for l in known_lines:
        print(l)
    for c, path in violations:
        print(f"--- {c['stream']}: {c['message']}")
        for k, v in c["data"].items():
            print(f"    {k}: {v}")
        print(f"VIOLATION property={a.property} replay={path}")
    print(f"{a.property} tier={a.tier} seed={a.seed} cases={evals} "
          f"distinct_nontrivial={len(agg['keys'])} violations={len(violations)} "
          f"wall={ev['wall_s']}s build={t_build:.0f}s" + (" TIME-CAPPED" if agg["timeout"] else ""))
    if violations:
        return 1
    return 3 if agg["errors"] else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
