"""
Runs a sequence of operations on a ModuleGraph and dumps the result. Used on
symbolic values (instrumented) and on concrete ones.
"""

import io

import modulegraph2


class Stop(Exception):
    """Raised by users of a graph"""


class Graph:
    """Plain copy of a module graph"""

    def __init__(self, mg):
        self.nodes = {}
        self.objects = {}
        self.out = {}
        self.roots = set()
        for node in mg.nodes():
            self.nodes[node.identifier] = type(node).__name__
            self.objects[node.identifier] = node
            self.out[node.identifier] = {}
        for src, dst, attrs in mg.edges():
            self.out[src.identifier][dst.identifier] = {
                (a.is_optional, a.is_global, a.in_fromlist, a.imported_as)
                for a in attrs
            }
        for node in mg.roots():
            self.roots.add(node.identifier)

    def actual(self, name):
        """Name of the module behind an alias or virtual node"""
        node = self.objects[name]
        return node.actual_module

    def describe(self):
        out = []
        for name, kind in self.nodes.items():
            out.append(f"{kind} {name!r}")
            for dst, attrs in self.out[name].items():
                out.append(f"   -> {dst!r} {sorted(map(repr, attrs))}")
        out.append(f"roots {sorted(map(repr, self.roots))}")
        return "\n".join(out)


class Env:
    """Overridden by the symbolic and the concrete runner"""

    def script_path(self, k, stmts):
        raise NotImplementedError

    def source_text(self, stmts):
        raise NotImplementedError

    def distribution(self, spec):
        raise NotImplementedError


def implied(v):
    if v is None:
        return None
    if isinstance(v, dict):
        if "alias" in v:
            return modulegraph2.Alias(v["alias"])
        return modulegraph2.Virtual(v["virtual"])
    return list(v)


class Run:
    def __init__(self, env, *, builtin_hooks=False):
        self.mg = modulegraph2.ModuleGraph(
            use_stdlib_implies=False, use_builtin_hooks=builtin_hooks
        )
        self.env = env
        self.results = []  # per operation: exception or None
        self.events = []
        self.asked = []

    def do(self, k, op):
        """Returns the exception that is raised, or None"""
        mg = self.mg
        what = op[0]
        try:
            if what == "module":
                r = mg.add_module(op[1])
            elif what == "script":
                no = op[2] if len(op) > 2 else k
                r = mg.add_script(self.env.script_path(no, op[1]))
            elif what == "noscript":
                r = mg.add_script(self.env.script_path(op[1], None))
            elif what == "unknown":
                r = mg.add_distribution("zz-unknown")
            elif what == "exclude":
                r = mg.add_excludes(op[1])
            elif what == "implies":
                r = mg.add_implies({n: implied(v) for n, v in op[1]})
            elif what == "source":
                r = mg.add_dependencies_for_source(self.env.source_text(op[1]))
            elif what == "dist":
                r = mg.add_distribution(self.env.distribution(op[1], op[2]))
            elif what == "hook_import":
                with mg.hook_context():
                    r = mg.import_module(mg.find_node(op[1]), op[2])
            elif what == "hook_package":
                with mg.hook_context():
                    r = mg.import_package(mg.find_node(op[1]), op[2])
            elif what == "hook_raise":
                with mg.hook_context():
                    for what, name in op[2]:
                        if what == "import":
                            mg.import_module(mg.find_node(op[1]), name)
                        else:
                            mg.import_package(mg.find_node(op[1]), name)
                    raise Stop
            elif what == "hook_many":
                with mg.hook_context():
                    for what, name in op[2]:
                        if what == "import":
                            mg.import_module(mg.find_node(op[1]), name)
                        else:
                            mg.import_package(mg.find_node(op[1]), name)
                r = None
            else:
                raise RuntimeError(what)
        except Exception as exc:
            self.results.append(exc)
            return exc
        self.results.append(None)
        self.value = r
        return None

    def graph(self):
        return Graph(self.mg)

    def report(self):
        fp = io.StringIO()
        self.mg.report(fp)
        return fp.getvalue()
