OTHER = [None, 3, 2.5, b"a.b", ["a", "b"], ("a",), {"a": 1}, object, True]


def replay(sc, tmp):
    from modulegraph2._utilities import split_package

    if "other" in sc:
        v = OTHER[sc["other"]]
        try:
            r = split_package(v)
        except TypeError:
            return False, "TypeError"
        except Exception as exc:
            return True, f"{v!r}: {exc!r}"
        return True, f"{v!r} accepted: {r!r}"

    s = sc["value"]
    rest = s.lstrip(".")
    valid = bool(rest) and all(rest.split("."))
    try:
        r = split_package(s)
    except ValueError:
        return valid, f"{s!r} rejected"
    except Exception as exc:
        return True, f"{s!r}: {exc!r}"
    if not valid:
        return True, f"{s!r} accepted: {r!r}"
    pkg, name = r
    if not name or "." in name:
        return True, f"{s!r}: {r!r}"
    if (pkg is None) != ("." not in s):
        return True, f"{s!r}: {r!r}"
    if pkg is None:
        ok = name == s
    elif not pkg.strip("."):
        ok = bool(pkg) and pkg + name == s
    else:
        ok = pkg + "." + name == s
    return not ok, f"{s!r}: {r!r}"
