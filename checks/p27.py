"""P27: the textual report

All graphs of the stated shapes, with symbolic names: the report has exactly one
line for each reachable node that is not a distribution, in order of the names.
"""

from .graphs import FILES, KINDS, LONG, Graphs, long, one


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Graphs("edges", "report", 3, edges=(0, 1), files=FILES[:1], must=("reachable", "unreachable")),
        Graphs("kinds", "report", 2, kinds=KINDS, kindn=2 if deep else 1, files=FILES, dists=(0,), names=one),
        Graphs("order", "report", 5 if deep else 4, chain=True, edges=(1,), roots=(0,), files=FILES[:1], must=("reachable",)),
        Graphs("long", "report", 2 if deep else 1, kinds=KINDS, chain=True, edges=(1,), roots=(0,), files=LONG, names=long),
    ]
