"""Code objects with the given indexes of constants and names"""

import dis
import types

from oracle import code as oracle

SHIFTED = {"LOAD_GLOBAL": 1, "LOAD_ATTR": 1, "LOAD_SUPER_ATTR": 2}


def small(indexes):
    """Other indexes that need as many bytes, below 70000"""
    n = 0
    out = []
    for i in indexes:
        if i >= 65536:
            i = 65536 + n
            n += 1
        out.append(i)
    return out


def assemble(real, tables):
    consts, names, inner = tables
    consts, names = small(consts), small(names)
    new_consts = [None] * (max(consts, default=-1) + 1)
    for k, value in enumerate(real.co_consts):
        if isinstance(value, types.CodeType):
            value = assemble(value, inner[str(k)])
        new_consts[consts[k]] = value
    new_names = ["zz_fill"] * (max(names, default=-1) + 1)
    for k, value in enumerate(real.co_names):
        new_names[names[k]] = value
    out = bytearray()
    raw = real.co_code
    k = 0
    while k < len(raw):
        op, arg = raw[k], raw[k + 1]
        s = 0
        if op == dis.EXTENDED_ARG:
            raise AssertionError
        if op in dis.hasconst:
            arg = consts[arg]
        elif op in dis.hasname:
            s = SHIFTED.get(dis.opname[op], 0)
            arg = names[arg >> s] << s | arg & (1 << s) - 1
        for b in (16, 8):
            if arg >> b:
                out += bytes([dis.EXTENDED_ARG, arg >> b & 255])
        out += bytes([op, arg & 255])
        caches = dis._inline_cache_entries
        n = caches[op] if not isinstance(caches, dict) else caches.get(dis.opname[op], 0)
        out += raw[k + 2 : k + 2 + 2 * n]
        k += 2 + 2 * n
    return real.replace(co_consts=tuple(new_consts), co_names=tuple(new_names), co_code=bytes(out))


def padded(src, n):
    """The program after many other constants and names"""
    return "".join(f"zz_p.zz_a{k} = {k + 1000}.5\n" for k in range(n)) + src


def replay(sc, tmp):
    src = oracle.render(sc["body"])
    real = compile(src, "zz", "exec", dont_inherit=True)
    codes = [real, assemble(real, sc["tables"]), compile(padded(src, 300), "zz", "exec", dont_inherit=True)]
    if sc["tables"][0][:1] > [60000] or sc["tables"][1][:1] > [60000]:
        codes.append(compile(padded(src, 66000), "zz", "exec", dont_inherit=True))
    for code in codes:
        try:
            msg = oracle.run(sc, code, lambda what: None)
        except Exception as exc:
            return True, f"{type(exc).__name__}: {exc}\n{src}"
        if msg is not None:
            return True, f"{msg}\n{src}"
    return False, "ok"
