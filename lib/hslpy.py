"""A small reader of well-formed HSL, used only to hand the bundled specs to
the specification without going through the code under test. (That the code
reads HSL the same way is what C12 and C14 check, with Hsl.tla.)"""
import re, unicodedata


def tokens(src):
    i, n, line = 0, len(src), 1
    while i < n:
        c = src[i]
        if c == "\n":
            yield ("nl", None, line)
            line += 1
            i += 1
        elif c.isspace():
            i += 1
        elif c == "#":
            while i < n and src[i] != "\n":
                i += 1
        elif c == '"':
            start, i, buf = line, i + 1, []
            while src[i] != '"':
                if src[i] == "\\":
                    i += 1
                    if src[i] not in '"\\':
                        buf.append("\\")
                if src[i] == "\n":
                    line += 1
                buf.append(src[i])
                i += 1
            i += 1
            yield ("str", "".join(buf), line)
        elif src.startswith("->", i):
            yield ("->", None, line)
            i += 2
        elif c in ":,=":
            yield (c, None, line)
            i += 1
        elif c == "_" or unicodedata.category(c)[0] == "L":
            j = i
            while j < n and (src[j] == "_" or unicodedata.category(src[j])[0] == "L"
                             or unicodedata.category(src[j]) == "Nd"):
                j += 1
            yield ("str", src[i:j], line)
            i = j
        else:
            raise ValueError("bad character %r on line %d" % (c, line))


def parse(src):
    """-> {section: [(left, [right...], line)]} in file order"""
    secs, cur, last = {}, None, None
    it = list(tokens(src))
    k = 0
    while k < len(it):
        t, v, line = it[k]
        k += 1
        if t == "str":
            last = v
        elif t == ":":
            cur = secs.setdefault(last, [])
        elif t in ("=", "->"):
            vals = []
            while k < len(it) and it[k][0] != "nl":
                if it[k][0] == "str":
                    vals.append(it[k][1])
                k += 1
            cur.append((last, vals, line))
    return secs


def spec_of(src):
    """the structured spec (texts as str)"""
    s = parse(src)
    d = lambda n: {l: r for l, r, _ in s.get(n, [])}
    lang = d("lang")
    return {
        "id": lang.get("id", [""])[0],
        "script": lang.get("script", [""])[0],
        "schemes": lang.get("translit", []),
        "macros": [(l, r[0]) for l, r in d("macros").items()],
        "vars": [(l, r) for l, r in d("vars").items()],
        "norms": [(l, r) for l, r in d("normalize").items()],
        "rewrite": [(l, r[0]) for l, r, _ in s.get("rewrite", [])],
        "transcribe": [(l, r[0]) for l, r, _ in s.get("transcribe", [])],
        "test": [(l, r[0]) for l, r, _ in s.get("test", [])],
        "sections": s,
    }
