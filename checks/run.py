"""Run the check for one property; see DESIGN.md."""

import argparse
import importlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_PYTHON = "/opt/venv/bin/python"
# Used while developing: what the model cannot decide is an error
STRICT = bool(os.environ.get("VERIF_STRICT"))
MAX_SPURIOUS = 150
REPO = os.environ.get("VERIF_REPO", "/repo")


def replay(replay_mod, scenarios, seeds=(0,), timeout=300, environ=()):
    """
    Run scenarios against the unmodified code with the project's own
    interpreter. Returns a list of {"violated": bool, "detail": str}.
    """
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    env = dict(os.environ)
    env["PYTHONPATH"] = f"{REPO}:{VERIF}"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONUTF8"] = "1"
    env.update(environ)
    out = None
    for seed in seeds:
        env["PYTHONHASHSEED"] = str(seed)
        p = subprocess.run(
            [REAL_PYTHON, "-m", "replay.driver", replay_mod],
            input=json.dumps(scenarios),
            capture_output=True,
            text=True,
            env=env,
            cwd=VERIF,
            timeout=timeout,
        )
        if p.returncode != 0:
            res = [
                {"violated": None, "detail": f"driver failed: {p.stderr[-2000:]}"}
            ] * len(scenarios)
        else:
            res = json.loads(p.stdout.splitlines()[-1])
        if out is None:
            out = res
        else:
            out = [a if a["violated"] else b for a, b in zip(out, res)]
    return out


def load_known(pid):
    """Known findings: lines 'known: property=<id> signature=<sig> <text>'"""
    out = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        with open(fn) as fp:
            for ln in fp:
                ln = ln.strip()
                if ln.startswith(f"known: property={pid} "):
                    rest = ln.split("signature=", 1)[1]
                    sig, _, text = rest.partition(" ")
                    out[sig] = text
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--harness")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--max-s", type=float, default=0)
    ap.add_argument("--debug", action="store_true")
    args = ap.parse_args(argv)
    if args.jobs:
        os.environ["VERIF_JOBS"] = str(args.jobs)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = args.property
    t0 = time.monotonic()

    from sym import rewrite

    rewrite.install()
    from sym.explore import explore

    mod = importlib.import_module(f"checks.{pid.lower()}")
    harnesses = mod.harnesses(args.tier)
    if args.harness:
        harnesses = [h for h in harnesses if h.name == args.harness]
    total_s = args.max_s or (600.0 if args.tier == "quick" else 3000.0)
    known = load_known(pid)
    known_hit = {}
    reported = None
    spurious = []
    errors = []
    inconclusive = []
    rows = []
    all_samples = []
    validated = 0
    from sym.core import Stats

    total = Stats()
    for h in harnesses:
        if hasattr(h, "prepare"):
            h.prepare()
        left = total_s - (time.monotonic() - t0)
        if left < 5:
            rows.append({"harness": h.name, "skipped": "time"})
            continue

        def on_violation(v):
            nonlocal reported
            if reported is not None:
                return True
            sig = h.signature(v)
            if sig in known:
                known_hit[sig] = v
                return False
            buffer.append(v)
            if len(spurious) < 3 or len(buffer) >= 24:
                return flush()
            return False

        buffer = []

        def flush():
            """
            Replay counterexamples. Those that do not reproduce are due to
            imprecision, exploration continues after the first ones.
            """
            nonlocal reported
            todo = buffer[:]
            buffer.clear()
            outs = replay(
                h.replay, [v["scenario"] for v in todo], seeds=h.seeds, environ=h.env
            )
            for v, r in zip(todo, outs):
                if r["violated"]:
                    reported = (h, v, r)
                    return True
                spurious.append((h.name, v, r))
            return sum(nm == h.name for nm, _, _ in spurious) >= MAX_SPURIOUS

        res = explore(
            h, on_violation, max_s=min(left, h.max_s or left), sample_mod=h.sample_mod
        )
        if buffer and reported is None:
            flush()
        total.merge(res.stats)
        row = {
            "harness": h.name,
            "bounds": h.bounds,
            "exhausted": res.exhausted,
            "unexplored_prefixes": res.left,
            "wall_s": round(res.wall_s, 2),
            "reached": dict(sorted(res.stats.reach.items())),
            **res.stats.as_dict(),
        }
        if res.error:
            errors.append(f"{h.name}: {res.error}")
        if reported is None and not res.error:
            missing = sorted(set(h.must_reach) - set(res.stats.reach))
            if missing:
                # vacuity guard
                (inconclusive if spurious or res.stats.pins else errors).append(f"{h.name}: never reached: {missing}")
        # Validate the model of the environment: run path witnesses for real.
        if reported is None and res.samples and h.replay:
            todo = res.samples[: h.max_validate]
            outs = replay(h.replay, todo, seeds=h.seeds[:1], environ=h.env)
            good = 0
            for sc, r in zip(todo, outs):
                if r["violated"]:
                    v = {"message": "path witness", "scenario": sc, "info": {}}
                    if h.signature(v) in known:
                        continue
                    if r.get("mismatch"):
                        inconclusive.append(
                            f"{h.name}: model mismatch: {r['detail'][:600]} {json.dumps(sc)[:2500]}"
                        )
                        continue
                    reported = (h, v, r)
                    break
                elif r["violated"] is None:
                    errors.append(
                        f"{h.name}: replay failed: {r['detail'][-400:]} {json.dumps(sc)[:1500]}"
                    )
                    break
                else:
                    good += 1
            row["witnesses_replayed"] = good
            validated += good
            all_samples.extend(todo[:2])
        rows.append(row)
        if args.debug:
            print(json.dumps(row, indent=1))
        if reported is not None:
            break

    wall = time.monotonic() - t0
    evidence = {
        "property": pid,
        "tier": args.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total.paths,
            "transitions": total.decisions,
            "traces_validated_against_impl": validated,
            "samples": all_samples[:6] or ["no path completed"],
            "explanation": "states are complete symbolic paths through the "
            "instrumented code, transitions the decisions on symbolic values on "
            "those paths; every assertion was discharged by z3 (or was already "
            "concrete) under the path condition",
            "functions_encoded": sorted(
                f for f in total.functions if not f.startswith("oracle.")
            ),
            "queries": total.branch_queries,
            "asserts": total.asserts,
            "asserts_discharged_by_solver": total.asserts_solver,
            "solver_s": round(total.solver_s, 2),
            "solver": "z3 " + __import__("z3").get_version_string(),
            "unknown_results": total.unknown,
            "pinned_values": total.pins,
            "pin_sites": sorted(total.pin_sites),
            "harnesses": rows,
            "exhausted": not spurious and all(r.get("exhausted") for r in rows),
            "known_findings": sorted(known_hit),
            "counterexamples_not_reproduced": len(spurious),
            "inconclusive": [x[:300] for x in inconclusive],
        },
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fp:
        json.dump(evidence, fp, indent=1)

    for r in rows:
        print(
            f"# {pid} {r['harness']}: paths={r.get('paths')} "
            f"exhausted={r.get('exhausted')} asserts={r.get('asserts')} "
            f"queries={r.get('branch_queries')} solver_s={r.get('solver_s')} "
            f"pins={r.get('pins')} validated={r.get('witnesses_replayed', 0)} "
            f"wall_s={r.get('wall_s')}"
        )
    for sig, text in sorted(known.items()):
        print(f"KNOWN-FINDING: property={pid} {sig} {text}")
    if reported is not None:
        h, v, r = reported
        os.makedirs(os.path.join(VERIF, "work", "replays"), exist_ok=True)
        path = os.path.join("work", "replays", f"{pid}.json")
        with open(os.path.join(VERIF, path), "w") as fp:
            json.dump(
                {
                    "property": pid,
                    "harness": h.name,
                    "replay_module": h.replay,
                    "message": v["message"],
                    "scenario": v["scenario"],
                    "detail": r["detail"],
                },
                fp,
                indent=1,
            )
        print(f"# {v['message']}")
        print(f"# real code: {r['detail'][:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    for e in errors:
        print("ERROR", e[:6000], file=sys.stderr)
    for e in inconclusive:
        print("INCONCLUSIVE", e[:6000], file=sys.stderr)
    for name, v, r in spurious[:4]:
        # The real code does what it should for these values: no violation, but
        # the paths they stand for are not decided.
        print(
            "INCONCLUSIVE counterexample does not reproduce:",
            name,
            v["message"],
            json.dumps(v["scenario"])[:3000],
            r["detail"][:1500],
            file=sys.stderr,
        )
    if errors or (STRICT and (spurious or inconclusive)):
        return 2
    return 0


class Harness:
    """Base class of all harnesses"""

    name = ""
    bounds = {}
    replay = None
    seeds = (0,)
    must_reach = ()
    env = {}
    sample_mod = 64
    max_validate = 12
    max_s = None

    def setup(self):
        pass

    def run(self, E):
        raise NotImplementedError

    def signature(self, v):
        return v["message"].replace(" ", "_")


if __name__ == "__main__":
    sys.exit(main())
