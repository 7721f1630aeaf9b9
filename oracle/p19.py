"""Look-ups of distributions"""

import os
import sys

import modulegraph2
from modulegraph2 import _distributions

from . import dists, reports


def graph(spec):
    """ModuleGraph.distributions"""
    mg, nodes = reports.make_graph(spec)
    for only in (True, False, None):
        got = list(mg.distributions()) if only is None else list(mg.distributions(reachable=only))
        want = []
        for k in range(len(nodes)) if only is False else reports.reachable(spec):
            if spec["nodes"][k][0] != "dist":
                d = nodes[k].distribution
                if d is not None and not any(x is d for x in want):
                    want.append(d)
        for d in want:
            if not any(x is d for x in got):
                return f"distribution {d.identifier} is missing (reachable={only})"
        if len(got) != len(want):
            return f"distributions {[d.identifier for d in got]}, not {[d.identifier for d in want]} (reachable={only})"
    return None


def run(sc, base, note):
    """
    sc: {"path": [[kind, specs]], "ops": [[what, ...]], "spelling"}
    """
    if "graph" in sc:
        return graph(sc["graph"])
    path = []
    where = []  # for all entries: [directory, spec] of valid distributions
    for k, (kind, specs) in enumerate(sc["path"]):
        if kind == "same":
            path.append(path[0])
            where.append(where[0])
            continue
        site = os.path.join(base, f"s{k}")
        found = []
        if kind == "file":
            with open(site, "w", encoding="utf-8"):
                pass
        elif kind != "missing":
            os.mkdir(site)
            for spec in specs:
                d = dists.write(site, spec)
                if not spec.get("broken"):
                    found.append([d, spec])
        path.append(f"s{k}" if kind == "relative" else site)
        where.append(found)

    def key(d):
        return os.path.normpath(os.path.join(base, d.identifier))

    seen = []

    def same(d, what):
        for x in seen:
            if x is d:
                return None
            if key(x) == key(d):
                return f"{what}: another object for {d.identifier}"
        seen.append(d)
        return None

    def expected(test):
        for found in where:
            hits = [d for d, spec in found if test(d, spec)]
            if hits:
                return hits
        return []

    def look_up(op):
        arg = path
        if op[0] == "install":
            d = dists.write(os.path.join(base, f"s{op[2]}"), op[1])
            where[op[2]].append([d, op[1]])
            return None
        if op[0] == "all":
            got = list(_distributions.all_distributions(arg))
            want = []
            for found in where:
                for d, _ in found:
                    if d not in want:
                        want.append(d)
            keys = [key(d) for d in got]
            for d in want:
                if d not in keys:
                    return f"all: {d} is missing"
            for d in keys:
                if d not in want:
                    return f"all: {d} is wrong"
            for d in got:
                msg = same(d, "all")
                if msg is not None:
                    return msg
            return None
        if op[0] == "name":
            if op[2]:
                old = list(sys.path)
                sys.path[:] = path
                got = modulegraph2.distribution_named(op[1])
                sys.path[:] = old
            else:
                got = modulegraph2.distribution_named(op[1], arg)
            want = expected(lambda d, spec: spec["name"] == op[1])
        else:
            file = os.path.join(base, f"s{op[2]}", op[1])
            got = _distributions.distribution_for_file(file, arg)

            def owns(d, spec):
                if d.startswith(os.path.join(base, f"s{op[2]}") + "/"):
                    for p in spec["record"]:
                        if p == op[1]:
                            return True
                return False

            want = expected(owns)
        if not want:
            note("none")
            return None if got is None else f"{op[0]}: found {got.identifier}, expected nothing"
        note("found")
        if got is None:
            return f"{op[0]}: found nothing, expected {want}"
        if key(got) not in want:
            return f"{op[0]}: found {got.identifier}, expected {want}"
        return same(got, op[0])

    for op in sc["ops"]:
        msg = look_up(op)
        if msg is not None:
            return msg
    return None
