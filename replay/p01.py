import ast
import collections

KINDS = {
    "If": "if x:\n{body}\nelse:\n{orelse}",
    "FunctionDef": "@deco\ndef f(p: x = 2) -> x:\n{body}",
    "AsyncFunctionDef": "async def f(p: x = 2):\n{body}",
    "ClassDef": "class C(B):\n{body}",
    "For": "for i in x:\n{body}\nelse:\n{orelse}",
    "AsyncFor": "async for i in x:\n{body}\nelse:\n{orelse}",
    "While": "while x:\n{body}\nelse:\n{orelse}",
    "With": "with x:\n{body}",
    "AsyncWith": "async with x:\n{body}",
}


def indent(text):
    return "\n".join("  " + ln for ln in text.splitlines())


def block(children):
    return indent("\n".join(text(c) for c in children) or "pass")


def alias(names):
    return ", ".join(f"{n} as {a}" if a else n for n, a in names)


def text(node):
    k = node[0]
    if k == "Import":
        return f"import {alias(node[1])}"
    if k == "ImportFrom":
        return f"from {'.' * node[2]}{node[1] or ''} import {alias(node[3])}"
    if k in ("Pass", "Expr", "Assign", "Global"):
        return {"Pass": "pass", "Expr": "y", "Assign": "z = 1", "Global": "global g"}[k]
    parts = collections.defaultdict(list)
    for slot, c in node[1]:
        parts[slot].append(c)
    if k in KINDS:
        return KINDS[k].format(body=block(parts["body"]), orelse=block(parts["orelse"]))
    if k in ("Try", "TryStar"):
        out = ["try:", block(parts["body"])]
        ex = "except*" if k == "TryStar" else "except"
        handlers = parts["handlers"]
        if not handlers and (parts["orelse"] or not parts["finalbody"] or k == "TryStar"):
            handlers = [["Pass"]]
        for h in handlers:
            out += [f"{ex} E:", block([h])]
        if parts["orelse"]:
            out += ["else:", block(parts["orelse"])]
        if parts["finalbody"]:
            out += ["finally:", block(parts["finalbody"])]
        return "\n".join(out)
    if k == "Match":
        out = ["match x:"]
        cases = parts["cases"]
        for c in cases:
            out += ["  case 1:", indent(block([c]))]
        out += ["  case _:", "    pass"]
        return "\n".join(out)
    raise AssertionError(k)


def expected(node, flags, out):
    k = node[0]
    if k == "Import":
        for n, a in node[1]:
            out.append((n, a, 0, (), False, *flags))
    elif k == "ImportFrom":
        star = any(n == "*" for n, _ in node[3])
        out.append(
            (
                node[1] or "",
                None,
                node[2],
                () if star else tuple(sorted({(n, a or "") for n, a in node[3]})),
                star,
                *flags,
            )
        )
    elif k in ("Pass", "Expr", "Assign", "Global"):
        pass
    else:
        f, i, t = flags
        for slot, c in node[1]:
            expected(
                c,
                (
                    f or k in ("FunctionDef", "AsyncFunctionDef"),
                    i or k == "If",
                    t or (k in ("Try", "TryStar") and slot != "finalbody"),
                ),
                out,
            )


def replay(sc, tmp):
    from modulegraph2._ast_tools import extract_ast_info

    src = "\n".join(text(n) for n in sc["body"])
    tree = ast.parse(src)
    exp = []
    for n in sc["body"]:
        expected(n, (False, False, False), exp)
    try:
        got = [
            (
                str(i.import_module),
                i.import_module.asname,
                i.import_level,
                tuple(sorted((str(n), n.asname or "") for n in i.import_names)),
                i.star_import,
                bool(i.is_in_function),
                bool(i.is_in_conditional),
                bool(i.is_in_tryexcept),
            )
            for i in extract_ast_info(tree)
        ]
    except Exception as exc:
        return True, f"{src}\nraised {exc!r}"
    if sc.get("repeated"):

        def flat(es):
            return {
                (e[0], e[1], e[2], p, *e[4:]) for e in es for p in (e[3] or [("", "")])
            }

        return flat(got) != flat(exp), f"{src}\n got {got}\nwant {exp}"
    bad = collections.Counter(got) != collections.Counter(exp)
    return bad, f"{src}\n got {got}\nwant {exp}"
