"""Graphs made directly from a description, and what their reports must be."""

import io
import pathlib

OPTS = ((), (False,), (True,), (False, True))
BARE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-"


def make_graph(spec):
    """
    spec: {"nodes": [[kind, name, file, dist]], "edges": [[i, j, opt]],
    "roots": [i], "dists": [[name, version]]}
    """
    import modulegraph2 as m
    from modulegraph2 import _depinfo

    mg = m.ModuleGraph(use_stdlib_implies=False, use_builtin_hooks=False)
    dists = [
        m.PyPIDistribution(f"/site/{k}.dist-info", nm, version, set(), set(), {})
        for k, (nm, version) in enumerate(spec["dists"])
    ]
    nodes = []
    for kind, name, file, dist in spec["nodes"]:
        d = None if dist is None else dists[dist]
        filename = None if file is None else pathlib.Path(file)
        if kind == "dist":
            node = d
        elif kind == "Script":
            node = m.Script("/scripts/x.py", None)
            node.name = name
            node.filename = filename
        elif kind in ("MissingModule", "ExcludedModule", "InvalidRelativeImport"):
            node = getattr(m, kind)(name)
        elif kind == "AliasNode":
            node = m.AliasNode(name, "zz_other")
        elif kind == "VirtualNode":
            node = m.VirtualNode(name, "zz_other")
        elif kind == "NamespacePackage":
            node = m.NamespacePackage(
                name=name, loader=None, distribution=d, filename=filename,
                extension_attributes={}, search_path=[], has_data_files=False,
            )
        elif kind in ("Package", "FrozenPackage"):
            node = getattr(m, kind)(
                name=name, loader=None, distribution=d, filename=filename,
                extension_attributes={}, init_module=None, search_path=[],
                has_data_files=False, namespace_type=None,
            )
        else:
            node = getattr(m, kind)(
                name=name, loader=None, distribution=d, filename=filename,
                extension_attributes={}, globals_written=set(), globals_read=set(),
                code=None,
            )
        nodes.append(node)
        mg.add_node(node)
    for i, j, opt in spec["edges"]:
        for o in OPTS[opt]:
            mg.add_edge(
                nodes[i], nodes[j], _depinfo.DependencyInfo(o, True, False, None)
            )
    for i in spec["roots"]:
        mg.add_root(nodes[i])
    return mg, nodes


def reachable(spec):
    seen = list(spec["roots"])
    todo = list(seen)
    while todo:
        k = todo.pop()
        for i, j, opt in spec["edges"]:
            if i == k and opt and j not in seen:
                seen.append(j)
                todo.append(j)
    return sorted(set(seen))


def take(items, value):
    """Remove an item equal to *value*, false if there is none"""
    for k, x in enumerate(items):
        if x == value:
            del items[k]
            return True
    return False


# ---------------------------------------------------------------- report


def check_report(spec, nodes, text):
    lines = text.split("\n")
    if lines[-1] != "":
        return "the last line is not terminated"
    lines = [ln for ln in lines[:-1] if ln.strip()]
    if len(lines) < 2 or lines[0].split() != ["Class", "Name", "File"]:
        return "the heading is missing"
    left = [k for k in reachable(spec) if spec["nodes"][k][0] != "dist"]
    prev = None
    for ln in lines[2:]:
        fields = ln.split()
        for k in left:
            kind, name, file, _ = spec["nodes"][k]
            if kind in NO_FILE:
                file = None
            if len(fields) >= 2 and fields[1] == name:
                if fields[0] != kind:
                    return f"{name} is shown as {fields[0]} and not as {kind}"
                if fields[2:] != ([] if file is None else [file]):
                    return f"the file of {name} is {fields[2:]} and not {file}"
                left.remove(k)
                break
        else:
            return f"unexpected line {ln!r}"
        if prev is not None and not prev < fields[1]:
            return f"{fields[1]} is after {prev}"
        prev = fields[1]
    if left:
        return f"no line for {[spec['nodes'][k][1] for k in left]}"
    return None


NO_FILE = ("MissingModule", "ExcludedModule", "InvalidRelativeImport", "AliasNode", "VirtualNode")


# ------------------------------------------------------------------- dot


class Bad(Exception):
    pass


def dot_tokens(text):
    out = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c == '"':
            i += 1
            value = ""
            while True:
                if i >= n:
                    raise Bad("string that is not terminated")
                c = text[i]
                if c == '"':
                    i += 1
                    break
                if c == "\\":
                    # the language has one escape, backslashes are literal;
                    # a pair is shown as one backslash
                    if i + 1 >= n:
                        raise Bad("string that is not terminated")
                    d = text[i + 1]
                    if d == '"' or d == "\\":
                        value += d
                    elif d == "\n":
                        pass
                    else:
                        # \n, \l, \N, ...: shown as something else
                        value += "\ue000" + d
                    i += 2
                    continue
                value += c
                i += 1
            out.append(("id", value))
        elif c in " \t\n\r":
            i += 1
        elif c in "{}[]=,;":
            out.append((c, c))
            i += 1
        elif text[i : i + 2] == "->":
            out.append(("->", "->"))
            i += 2
        else:
            start = i
            while i < n and text[i] in BARE:
                i += 1
            if start == i:
                raise Bad(f"unexpected text {text[i:i + 20]!r}")
            word = text[start:i]
            out.append(("subgraph" if word == "subgraph" else "id", word))
    return out


class Dot:
    """Parser for the subset of the language that is needed"""

    def __init__(self, text):
        self.toks = dot_tokens(text)
        self.toks.append(("end", ""))
        self.i = 0
        self.nodes = []
        self.edges = []
        self.groups = []
        self.expect("id")
        if self.peek() == "id":
            self.expect("id")
        self.expect("{")
        self.block(None)
        self.expect("end")

    def peek(self):
        return self.toks[self.i][0]

    def expect(self, kind):
        tok = self.toks[self.i]
        if tok[0] != kind:
            raise Bad(f"{tok[1]!r} instead of {kind}")
        self.i += 1
        return tok[1]

    def attributes(self):
        out = {}
        while self.peek() == "[":
            self.expect("[")
            while self.peek() != "]":
                key = self.expect("id")
                self.expect("=")
                out[key] = self.expect("id")
                if self.peek() in (",", ";"):
                    self.i += 1
            self.expect("]")
        return out

    def block(self, group):
        while self.peek() != "}":
            if self.peek() == ";":
                self.i += 1
                continue
            if self.peek() == "subgraph":
                self.i += 1
                if self.peek() == "id":
                    self.expect("id")
                self.expect("{")
                sub = {"label": None, "nodes": []}
                self.block(sub)
                self.groups.append(sub)
                continue
            name = self.expect("id")
            if self.peek() == "=":
                self.expect("=")
                value = self.expect("id")
                if group is not None and name == "label":
                    group["label"] = value
            elif self.peek() == "->":
                self.expect("->")
                other = self.expect("id")
                self.edges.append((name, other, self.attributes()))
            else:
                attrs = self.attributes()
                if group is None:
                    self.nodes.append((name, attrs))
                else:
                    group["nodes"].append(name)
        self.expect("}")


def ident(spec, nodes, k):
    return nodes[k].identifier if spec["nodes"][k][0] == "dist" else spec["nodes"][k][1]


def check_dot(spec, nodes, text):
    try:
        d = Dot(text)
    except Bad as exc:
        return f"not well-formed: {exc}"
    reach = reachable(spec)
    left = list(reach)
    for name, attrs in d.nodes:
        for k in left:
            if ident(spec, nodes, k) == name:
                left.remove(k)
                if ("root" in attrs) != (k in spec["roots"]):
                    return f"{name}: root is {k in spec['roots']}, attributes {attrs}"
                break
        else:
            return f"unexpected node {name!r}"
    if left:
        return f"no node for {[ident(spec, nodes, k) for k in left]}"
    edges = [e for e in spec["edges"] if e[2] and e[0] in reach]
    for source, target, attrs in d.edges:
        for e in edges:
            if ident(spec, nodes, e[0]) == source and ident(spec, nodes, e[1]) == target:
                edges.remove(e)
                optional = OPTS[e[2]] == (True,)
                if (attrs.get("style") == "dashed") != optional:
                    return f"{source} -> {target}: optional is {optional}, attributes {attrs}"
                inside = True if source.startswith(target + ".") else False
                if (attrs.get("arrowhead") == "none") != inside:
                    return f"{source} -> {target}: in the package is {inside}, attributes {attrs}"
                break
        else:
            return f"unexpected edge {source!r} -> {target!r}"
    if edges:
        return f"no line for edges {edges}"
    groups = []
    for k, (name, _) in enumerate(spec["dists"]):
        members = [
            i for i in reach
            if spec["nodes"][i][3] == k and spec["nodes"][i][0] not in NO_FILE + ("dist", "Script")
        ]
        for g in groups:
            if g[0] == name:
                g[1].extend(members)
                break
        else:
            groups.append((name, members))
    groups = [g for g in groups if g[1]]
    for found in d.groups:
        for g in groups:
            if g[0] == found["label"]:
                groups.remove(g)
                want = [spec["nodes"][i][1] for i in g[1]]
                for name in found["nodes"]:
                    if not take(want, name):
                        return f"unexpected node {name!r} in the group {g[0]!r}"
                if want:
                    return f"the group {g[0]!r} has no {want}"
                break
        else:
            return f"unexpected group {found['label']!r}"
    if groups:
        return f"no group for {[g[0] for g in groups]}"
    return None


# ------------------------------------------------------------------ html

ENTITIES = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'", "#x27": "'", "#39": "'", "#34": '"', "#38": "&"}


def decode(text):
    """text with character references"""
    out = ""
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c == "<":
            raise Bad("< in text or attribute")
        if c == "&":
            j = i + 1
            name = ""
            while j < n and j < i + 7 and text[j] != ";":
                name += text[j]
                j += 1
            for key in ENTITIES:
                if name == key and j < n:
                    out += ENTITIES[key]
                    break
            else:
                raise Bad("& that does not start a known character reference")
            i = j + 1
            continue
        out += c
        i += 1
    return out


def html_items(text):
    """("open", tag, attributes), ("close", tag) and ("text", text)"""
    out = []
    i = 0
    n = len(text)
    cur = ""
    while i < n:
        c = text[i]
        if c != "<":
            cur += c
            i += 1
            continue
        if cur:
            out.append(("text", decode(cur)))
            cur = ""
        i += 1
        close = i < n and text[i] == "/"
        if close:
            i += 1
        tag = ""
        while i < n and text[i] in BARE:
            tag += text[i]
            i += 1
        if not tag:
            raise Bad("< that does not start a tag")
        attrs = {}
        while True:
            while i < n and text[i] in " \n\t":
                i += 1
            if i >= n:
                raise Bad("tag that is not terminated")
            if text[i] == ">":
                i += 1
                break
            name = ""
            while i < n and text[i] in BARE:
                name += text[i]
                i += 1
            if not name or text[i : i + 2] != '="':
                raise Bad(f"invalid attribute of {tag}")
            i += 2
            value = ""
            while i < n and text[i] != '"':
                value += text[i]
                i += 1
            if i >= n:
                raise Bad("attribute that is not terminated")
            attrs[name] = decode(value)
            i += 1
        if close:
            out.append(("close", tag.lower()))
        else:
            out.append(("open", tag.lower(), attrs))
    if cur:
        out.append(("text", decode(cur)))
    return out


def html_entries(text):
    """[anchor, heading, links before "Used by", links after]"""
    entries = []
    heading = None
    link = None
    part = 2
    for item in html_items(text):
        if item[0] == "open" and item[1] == "a":
            if "name" in item[2] or "id" in item[2]:
                entries.append([item[2]["name"] if "name" in item[2] else item[2]["id"], "", [], []])
                part = 2
            elif "href" in item[2]:
                if not entries:
                    raise Bad("link outside of an entry")
                link = [item[2]["href"], ""]
                entries[-1][part].append(link)
            else:
                raise Bad("strange <a>")
        elif item[0] == "open" and item[1] == "h2":
            heading = entries[-1] if entries else None
        elif item[0] == "close" and item[1] == "h2":
            heading = None
        elif item[0] == "close" and item[1] == "a":
            link = None
        elif item[0] == "text":
            if link is not None:
                link[1] += item[1]
            elif heading is not None:
                heading[1] += item[1]
            elif "Used by" in item[1]:
                part = 3
        elif item[1] not in ("html", "head", "title", "body", "h1", "h2", "p", "a"):
            raise Bad(f"unexpected tag {item[1]!r}")
    return entries


def check_html(spec, nodes, text):
    try:
        entries = html_entries(text)
    except Bad as exc:
        return f"not well-formed: {exc}"
    reach = reachable(spec)
    left = [k for k in reach if spec["nodes"][k][0] != "dist"]
    for anchor, heading, depends, used in entries:
        for k in left:
            kind, name = spec["nodes"][k][:2]
            if name == anchor:
                left.remove(k)
                if heading != f"{kind} {name}":
                    return f"the heading of {name!r} is {heading!r}"
                out = [e[1] for e in spec["edges"] if e[2] and e[0] == k]
                inc = [e[0] for e in spec["edges"] if e[2] and e[1] == k and e[0] in reach]
                for what, links, want in (("dependency", depends, out), ("use", used, inc)):
                    want = [
                        ["#" + ident(spec, nodes, x), nodes[x].name] for x in want
                    ]
                    for href, label in links:
                        if not take(want, [href, label]):
                            return f"unexpected link {[href, label]} for a {what} of {name!r}"
                    if want:
                        return f"{name!r}: no link for a {what}: {want}"
                break
        else:
            return f"unexpected entry {anchor!r}"
    if left:
        return f"no entry for {[spec['nodes'][k][1] for k in left]}"
    return None


# ------------------------------------------------------------------- run


def run(spec, what):
    """The message of a violation, or None"""
    from modulegraph2 import __main__ as cmd

    mg, nodes = make_graph(spec)
    fp = io.StringIO()
    if what == "report":
        mg.report(fp)
        return check_report(spec, nodes, fp.getvalue())
    fmt = cmd.OutputFormat.GRAPHVIZ if what == "dot" else cmd.OutputFormat.HTML
    cmd.print_graph(fp, fmt, mg)
    return (check_dot if what == "dot" else check_html)(spec, nodes, fp.getvalue())
