"""
Concrete counterpart of oracle.p14: builds the graph in processes with different
hash seeds.
"""

import json
import os
import subprocess
import sys
import tempfile

SEEDS = 12


def replay(sc, tmp):
    dumps = {}
    for seed in range(SEEDS):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        with tempfile.TemporaryDirectory(dir=tmp) as sub:
            p = subprocess.run(
                [sys.executable, "-m", "replay.p14", sub],
                input=json.dumps(sc),
                capture_output=True,
                text=True,
                env=env,
            )
            if p.returncode:
                raise RuntimeError(p.stderr)
            text = p.stdout.replace(sub, "")
        dumps.setdefault(text, seed)
        if text.startswith("VIOLATED"):
            return True, text
        if len(dumps) > 1:
            (a, s1), (b, s2) = list(dumps.items())[:2]
            diff = sorted(set(a.split("\n")) ^ set(b.split("\n")))
            return True, f"hash seeds {s1} and {s2} give different graphs: {diff}"
    return False, "holds"


def child(tmp):
    from oracle import p14
    from oracle.ops import Graph
    from replay import world as rw

    sc = json.load(sys.stdin)
    w = rw.World(
        tmp,
        sc["modules"],
        sc.get("sysmodules", ()),
        sc.get("finders", ()),
        sc.get("missing", ()),
    )
    env = rw.Env(w)
    out = sys.stdout
    sys.stdout = sys.stderr

    r = p14.build(env, sc["ops"])
    g = Graph(r.mg)
    lines = [f"results {[repr(x) for x in r.results]}", f"roots {sorted(g.roots)}"]
    for name in sorted(g.nodes):
        lines.append(f"{g.nodes[name]} {name}")
        for dst in sorted(g.out[name]):
            lines.append(f"{name} -> {dst} {sorted(map(repr, g.out[name][dst]))}")
    text = "\n".join(lines)
    for op in sc["ops"]:
        if op[0] == "module":
            r.do(len(r.results), op)
            try:
                p14.compare(g, Graph(r.mg), rw.bad, ("at first", "after adding again"))
                if Graph(r.mg).roots != g.roots:
                    rw.bad("adding a root again changes the roots", "roots")
            except rw.Violated as exc:
                text = f"VIOLATED {exc}"
    print(text, file=out)


if __name__ == "__main__":
    child(sys.argv[1])
