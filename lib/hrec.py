"""HRE on the real code against HreCheck.tla."""
from vlib import *
import pipe


def pj(p):
    return {"expr": cps(p["expr"]), "rexpr": cps(p.get("rexpr", "")),
            "macros": [[cps(a), cps(b)] for a, b in p.get("macros", [])],
            "vars": [[cps(a), [cps(x) for x in b]] for a, b in p.get("vars", [])],
            "alpha": [ord(c) for c in p["alpha"]], "len": p["len"]}



def heads(pats, shards=8):
    """ok / unlimited / letters of each pattern by the specification"""
    idx = [x for x in [list(range(i, len(pats), shards)) for i in range(shards)] if x]
    outs = tlc_many([dict(module="HreCheck", data={"pats": [dict(pj(pats[i]), len=0) for i in ix], "cases": []},
                          workers=1, heap="2500m") for ix in idx])
    res = [None] * len(pats)
    for ix, (recs, _) in zip(idx, outs):
        for x in recs:
            res[ix[x["pat"] - 1]] = x
    return res


def check_patterns(check, drv, pats, timeout=800, shards=8):
    """pats: list of dict(expr, rexpr, macros, vars, alpha (list of chars), len, words=[(word, n)...])
    The machine enumerates all words over alpha up to len; every one of them
    and every extra word runs on the real code."""
    def base(p, i):
        return {"id": str(i), "op": "hre", "expr": cps(p["expr"]), "rexpr": cps(p.get("rexpr", "")),
                "macros": [[cps(a), cps(b)] for a, b in p.get("macros", [])],
                "vars": [{"name": cps(a), "vals": [cps(x) for x in b]} for a, b in p.get("vars", [])]}

    def desc(p):
        return "pattern %r -> %r (macros %r, vars %r)" % (p["expr"], p.get("rexpr", ""), p.get("macros", []), p.get("vars", []))

    # 1. the machine enumerates
    idx = [list(range(i, len(pats), shards)) for i in range(shards)]
    idx = [x for x in idx if x]
    outs = tlc_many([dict(module="HreCheck", data={"pats": [pj(pats[i]) for i in ix], "cases": []},
                          timeout=timeout, workers=1, heap="2500m") for ix in idx])
    head, enum = {}, {}
    for ix, (recs, _) in zip(idx, outs):
        for r in recs:
            i = ix[r["pat"] - 1]
            if "ok" in r:
                head[i] = r
            else:
                enum.setdefault(i, []).append(r)
    # 2. the real code runs everything that was enumerated, plus the extra words
    reqs, plan = [], []
    for i, p in enumerate(pats):
        ws = [r["w"] for r in enum.get(i, [])]
        reqs.append(dict(base(p, "e%d" % i), words=ws))
        plan.append((i, "enum", None))
        byn = {}
        for w, n in p.get("words", []):
            byn.setdefault(n, []).append(w)
        for n, ws in byn.items():
            reqs.append(dict(base(p, "c%d/%d" % (i, n)), words=[cps(w) for w in ws], n=n))
            plan.append((i, n, ws))
    resp = drv.run(reqs)
    cases, meta = [], []
    parsed = []
    for (i, kind, ws), rq, m in zip(plan, reqs, resp):
        p = pats[i]
        cr = crashed(m)
        if cr:
            check.violation("%s: %s" % (desc(p), cr), {"request": rq})
            continue
        if kind == "enum":
            h = head[i]
            if h["ok"] != (not m.get("perr")):
                check.violation("%s: %s by the specification, the code says %r" % (
                    desc(p), "legal" if h["ok"] else "illegal", m.get("perr")), {"request": rq})
                continue
            if not h["ok"]:
                check.traces += 1
                continue
            if h["unl"] != (m["wa"] == -1 or m["wb"] == -1):
                check.violation("%s: the forbidden expression is %sbounded, the code reports widths %d, %d" % (
                    desc(p), "un" if h["unl"] else "", m["wa"], m["wb"]), {"request": rq})
            parsed.append((p, h))
            for what, key in (("letters", "letters"), ("rletters", "rletters")):
                if sorted(h[key]) != sorted(m[what]):
                    check.violation("%s: %s are %r, the code gives %r" % (
                        desc(p), what, text(sorted(h[key])), text(m[what])), {"request": rq})
            for e, x in zip(enum.get(i, []), m["res"]):
                check.traces += 1
                cr = crashed(x)
                if cr:
                    check.violation("%s on %r: %s" % (desc(p), text(e["w"]), cr), {"request": dict(rq, words=[e["w"]])})
                    continue
                if x["find"] != e["find"] or x["repl"] != e["repl"] or x["rule"] != e["repl"]:
                    check.violation("%s on %r: the specification finds %r and gives %r; the code finds %r and gives %r / %r" % (
                        desc(p), text(e["w"]), e["find"], text(e["repl"]), x["find"], text(x["repl"]), text(x["rule"])),
                        {"request": dict(rq, words=[e["w"]])})
        elif not m.get("perr") and head[i]["ok"] and not head[i]["unl"]:
            for w, x in zip(ws, m["res"]):
                cr = crashed(x)
                if cr:
                    check.violation("%s on %r: %s" % (desc(p), w, cr), {"request": dict(rq, words=[cps(w)])})
                    continue
                meta.append((i, w, kind, rq, x))
                cases.append({"id": len(meta), "pat": i + 1, "word": cps(w), "n": kind,
                              "find": x["find"], "repl": x["repl"]})
    # 3. the recorded extra cases are validated
    if cases:
        idx = [[c for c in cases if c["id"] % shards == s] for s in range(shards)]
        calls = []
        for cs in idx:
            if not cs:
                continue
            used = sorted({c["pat"] for c in cs})
            new = {p: k + 1 for k, p in enumerate(used)}
            calls.append(dict(module="HreCheck", timeout=timeout, workers=1, heap="2500m",
                              data={"pats": [dict(pj(pats[p - 1]), len=0) for p in used],
                                    "cases": [dict(c, pat=new[c["pat"]]) for c in cs]}))
        for recs, _ in tlc_many(calls):
            for r in recs:
                if "case" in r:
                    i, w, n, rq, x = meta[r["case"] - 1]
                    check.violation("%s on %r (n=%d): the specification finds %r and gives %r; the code finds %r and gives %r" % (
                        desc(pats[i]), w, n, r["find"], text(r["repl"]), x["find"], text(x["repl"])),
                        {"request": dict(rq, words=[cps(w)])})
        check.traces += len(cases)
    return parsed
