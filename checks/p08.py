"""P08: graph building does not fail; missing and invalid modules

Programs of the stated shapes with symbolic names in worlds where each name is
missing or any kind of module, where importing a package can fail in several
ways and code can be invalid in several ways: no exception, and every node is
missing exactly when the import system finds nothing, invalid exactly when its
code cannot be compiled.
"""

from oracle.model import CRASHES, INVALID

from .p11 import one, simple, two
from .worlds import ALL, SOME, Prog, dotted

FROM = (("from", 0, 1, 1, False), ("from", 0, 2, 1, False), ("import", 3, False))
OTHER = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False),
         ("from", 1, 0, 1, False), ("assign",))
CRASH = tuple(range(len(CRASHES)))
INV = tuple(range(len(INVALID)))
RELATIVE = (
    ("from", 1, 0, 1, False),
    ("from", 1, 1, 1, False),
    ("from", 2, 1, 1, False),
)


def entry(E, w):
    """an entry of sys.modules that is not a module"""
    w.alias(dotted(1 + E.choice("n", 2), "al"), E.pick("what", ("nospec", "nonespec")))
    return []


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Prog("kinds", "p08", FROM, kinds=ALL, crashes=(0, 1), must=(
            "NamespacePackage", "ExtensionModule", "InvalidModule", "MissingModule")),
        Prog("crash", "p08", FROM[1:] if not deep else FROM,
             kinds=("pkg", "source", "bpkg", "extpkg", "ns") if deep else ("pkg", None),
             crashes=CRASH),
        Prog("invalid", "p08", FROM if deep else FROM[:1],
             kinds=("invalid", "invpkg", "pkg"), invalid=INV),
        Prog("reexport", "p08", FROM, other=OTHER, other_n=1, crashes=(0, 3)),
        Prog("relative", "p08", RELATIVE, root=2, other=OTHER, other_n=1),
        Prog("script", "p08", FROM[:1] + OTHER[1:2], n=2, script=True, kinds=SOME, crashes=(0, 1)),
        Prog("roots", "p08", FROM[:1], kinds=SOME + ("invalid",), again=1, crashes=(0, 1)),
        Prog("sysmodules", "p08", FROM, pre=entry, crashes=(0, 1), must=("SourceModule", "MissingModule")),
        Prog("explicit", "p08", FROM[:1], other=(("extend", "pkgutil"), ("extend", "pkg_resources")),
             other_n=1, crashes=CRASH, must=("extend",)),
        Prog("implies", "p08", FROM[:2] + OTHER[1:2] if deep else FROM[:1] + OTHER[1:2],
             pre=one, rootkinds=("source",), must=("AliasNode", "VirtualNode")),
        Prog("star", "p08", (("star", 0, 1), ("star", 0, 2)), pre=two if deep else simple,
             kinds=ALL, must=("VirtualNode",)),
    ]
