"""P22: Graphviz and HTML output

All graphs of the stated shapes, with symbolic names (identifiers, or strings of
arbitrary characters): the output is parsed again with a parser for the format and
has to describe exactly the reachable part of the graph.
"""

from .graphs import FILES, KINDS, LONG, Graphs, chars, ids, long, one


def harnesses(tier):
    deep = tier == "thorough"
    out = []
    for what in ("dot", "html"):
        out += [
            Graphs(f"{what}-edges", what, 3, edges=(0, 1), files=FILES[:1], names=one, must=("reachable", "unreachable")),
            Graphs(f"{what}-attributes", what, 2, edges=(0, 1, 2, 3), loops=True, files=FILES[:1], names=ids),
            Graphs(f"{what}-kinds", what, 2, kinds=KINDS, kindn=2 if deep else 1, files=FILES[:2], dists=(0,), names=one),
            Graphs(f"{what}-dists", what, 3, kinds=("SourceModule", "dist") if deep else ("SourceModule",), kindn=1, files=FILES[:1], dists=(0, 1), names=one, chain=True),
            Graphs(f"{what}-names", what, 2, names=chars(1, 3 if deep else 2), chain=True, edges=(1,), roots=(0,), files=FILES[:1], sample=16),
            Graphs(f"{what}-distnames", what, 2, kinds=("dist", "SourceModule"), kindn=2, chain=True, edges=(1,), names=one, distname=chars(1, 3 if deep else 2), dists=(0,), roots=(0,), files=FILES[:1], sample=8),
            Graphs(f"{what}-long", what, 2 if deep else 1, kinds=KINDS, chain=True, edges=(1,), roots=(0,), files=LONG, names=long),
        ]
    return out
