from oracle.graph import Oracle, parent_of
from oracle.ops import Graph, Run

HELPER = "swig_import_helper"


def swig(o, src, name):
    """
    the extension module that *src* uses SWIG to import as *name*, or None, and
    whether it certainly is a SWIG wrapper
    """
    if src.script:
        return None
    if name != "_" + src.name.rpartition(".")[2]:
        return None
    helper = None
    for st in src.stmts:
        if st["form"] == "def" and st["name"] == HELPER:
            helper = "must"
            break
        if st["form"] == "assign" and st["name"] == HELPER:
            helper = "may"
        elif st["form"] in ("import", "from"):
            for nm, asname in st["names"]:
                if asname == HELPER or (asname is None and nm.split(".")[0] == HELPER):
                    helper = "may"
            if st["form"] == "from" and st["star"]:
                helper = "may"
    if helper is None:
        return None
    package = src.name if src.is_pkg else parent_of(src.name)
    if package == "":
        return None
    d = o.find(f"{package}.{name}")
    if d is None or d.kind != "ext":
        return None
    return helper, d


def run(W, env, sc, bad):
    r = Run(env, builtin_hooks=True)
    seen = []
    r.mg.add_post_processing_hook(lambda mg, node: seen.append(node.identifier))
    for k, op in enumerate(sc["ops"]):
        exc = r.do(k, op)
        if exc is not None:
            bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
    G = Graph(r.mg)
    o = Oracle(W, G, bad)
    found = set()
    for name in G.nodes:
        if "." in name or o.find(name) is not None:
            continue
        if G.nodes[name] in ("Script", "InvalidRelativeImport"):
            continue
        importers = []
        for src in o.sources():
            for st, target, asname, names in o.imports(src):
                if target is None:
                    continue
                if target == name or target.startswith(name + "."):
                    importers.append(src)
                    break
        exts = [swig(o, src, name) for src in importers]
        known = [d[1] for d in exts if d is not None]
        sure = [d for d in exts if d is not None and d[0] == "must"]
        if len(known) > 0:
            found.add(name)
        if len(known) == 0:
            if G.nodes[name] != "MissingModule":
                bad(f"{name} is a {G.nodes[name]}", "not-swig")
            continue
        if G.nodes[name] == "MissingModule" and (
            len(sure) < len(exts) or name in G.roots
        ):
            # first imported by another module
            continue
        W.note("swig")
        if G.nodes[name] != "ExtensionModule":
            bad(f"{name} is a {G.nodes[name]}, not an ExtensionModule", "swig")
        files = [str(W.file(d)) for d in known]
        if str(G.objects[name].filename) not in files:
            bad(f"the file of {name} is {G.objects[name].filename}", "file")
        if G.objects[name].name != name:
            bad(f"the name of {name} is {G.objects[name].name}", "name")
        for src in importers:
            if src.name == name:
                continue
            if name not in G.out[src.name] and not any(
                n.startswith(name + ".") for n in G.out[src.name]
            ):
                bad(f"no edge from {src.name} to {name}", "edge")
        if seen.count(name) != 1:
            bad(f"{name} is processed {seen.count(name)} times", "hooks")
    o.kinds(found)
    o.complete()
    o.explained_nodes(G.roots)
    o.explained_edges()
    for name in W.placeholders():
        # packages of modules in the graph can have a placeholder
        for n in G.nodes:
            if n.startswith(name + "."):
                break
        else:
            bad(f"placeholder for {name} is left in sys.modules", "placeholder")
