"""Recording executions of the pipeline and validating them with TracePipe."""
import json, os
from vlib import *
import hslpy


def q(s):
    """an HSL string literal"""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def render(sp):
    """a structured spec -> HSL source"""
    o = ["lang:", '  id = "x"', '  codes = "xx", "xxx"', '  english = "X"', '  korean = "엑스"',
         "  script = " + q(sp["script"])]
    if sp["schemes"]:
        o.append("  translit = " + ", ".join(q(x) for x in sp["schemes"]))
    o += ["config:", '  authors = "A"', '  stage = "draft"']
    if sp["macros"]:
        o.append("macros:")
        o += ["  %s = %s" % (q(a), q(b)) for a, b in sp["macros"]]
    if sp["vars"]:
        o.append("vars:")
        o += ["  %s = %s" % (q(a), ", ".join(q(x) for x in b)) for a, b in sp["vars"]]
    if sp["norms"]:
        o.append("normalize:")
        o += ["  %s = %s" % (q(a), ", ".join(q(x) for x in b)) for a, b in sp["norms"]]
    for sec in ("rewrite", "transcribe"):
        if sp[sec]:
            o.append(sec + ":")
            o += ["  %s -> %s" % (q(a), q(b)) for a, b in sp[sec]]
    return "\n".join(o) + "\n"


def spec_json(sp):
    return {"script": sp["script"], "schemes": list(sp["schemes"]),
            "macros": [[cps(a), cps(b)] for a, b in sp["macros"]],
            "vars": [[cps(a), [cps(x) for x in b]] for a, b in sp["vars"]],
            "norms": [[cps(a), [cps(x) for x in b]] for a, b in sp["norms"]],
            "rewrite": [[cps(a), cps(b)] for a, b in sp["rewrite"]],
            "transcribe": [[cps(a), cps(b)] for a, b in sp["transcribe"]]}


def spec_chars(sp):
    s = set()
    for a, b in sp["macros"] + sp["rewrite"] + sp["transcribe"]:
        s |= set(a) | set(b)
    for a, b in list(sp["vars"]) + list(sp["norms"]):
        s |= set(a)
        for x in b:
            s |= set(x)
    return {ord(c) for c in s}


def closure(drv, chars):
    """facts about the characters and everything they fold to"""
    base = {ord(c) for c in " '\",.:!?~-\n\t{}"} | set(range(0x3130, 0x3170))
    ks = set(chars) | base
    for _ in range(3):
        f = facts(drv, ks)
        more = {b for _, b in f["lower"]} | {b for _, b in f["base"]}
        more |= {c + 96 for c in ks if 12352 <= c <= 12447}
        if more <= ks:
            return f
        ks |= more
    return facts(drv, ks)


def shards(f, specs, cases, n=8):
    """split the cases over n TLC runs, each with the specs it needs"""
    weight = {}
    for c in cases:
        weight[c["spec"]] = weight.get(c["spec"], 0) + 1
    cost = {k: (len(specs[k - 1]["rewrite"]) + len(specs[k - 1]["transcribe"])) * (1 + 0.1 * w)
            for k, w in weight.items()}
    bins = [(0, []) for _ in range(min(n, len(cost)))]
    for k in sorted(cost, key=cost.get, reverse=True):
        i = min(range(len(bins)), key=lambda j: bins[j][0])
        bins[i] = (bins[i][0] + cost[k] + 1, bins[i][1] + [k])
    out = []
    for _, ks in bins:
        new = {k: i + 1 for i, k in enumerate(ks)}
        out.append({"facts": f, "specs": [specs[k - 1] for k in ks],
                    "cases": [dict({a: b for a, b in c.items() if a != "_w"}, spec=new[c["spec"]])
                              for c in cases if c["spec"] in new]})
    return out


def validate(check, drv, jobs, mode, describe, timeout=800):
    """jobs: list of (spec, [word, ...], options). options: {"lang": id} for a
    bundled language, {"translits": [...]}, {"std": True}.
    Runs everything on the real code and validates it against Pipeline.
    Calls check.violation for each mismatch."""
    reqs = []
    for j, (sp, words, opt) in enumerate(jobs):
        r = {"id": str(j), "op": "spec", "words": [cps(w) for w in words], "events": mode == "trace"}
        if opt.get("lang"):
            r.update(op="lang", lang=opt["lang"], std=True)
            if opt.get("via"):
                r["via"] = opt["via"]
        else:
            r["src"] = cps(opt.get("src") or render(sp))
            r["translits"] = opt.get("translits", [])
            r["std"] = opt.get("std", False)
        reqs.append(r)
    resp = drv.run(reqs)
    chars = set()
    specs, cases = [], []
    for j, (sp, words, opt) in enumerate(jobs):
        m = resp[j]
        specs.append(spec_json(sp))
        chars |= spec_chars(sp)
        cr = crashed(m)
        if cr:
            check.violation("%s: %s" % (describe(sp, opt), cr), {"request": reqs[j]})
            continue
        if m.get("perr"):
            check.violation("%s: spec refused: %s" % (describe(sp, opt), m["perr"]), {"request": reqs[j]})
            continue
        for i, w in enumerate(words):
            x = m["res"][i]
            cr = crashed(x)
            if cr or x.get("err"):
                check.violation("%s, word %r: %s" % (describe(sp, opt), w, cr or x.get("msg")),
                                {"request": dict(reqs[j], words=[cps(w)])})
                continue
            tl = [[c["scheme"], c["in"], c["out"]] for c in (x.get("calls") or [])]
            ev = [{k: e[k] for k in ("step", "word", "why", "rule")} for e in x.get("events") or []]
            chars |= {ord(c) for c in w}
            for t in tl:
                chars |= set(t[2])
            for e in ev:
                chars |= set(e["word"])
            chars |= set(x["out"])
            cases.append({"id": len(cases) + 1, "spec": j + 1, "word": cps(w), "mode": mode,
                          "result": x["out"], "events": ev, "tl": tl, "_w": w})
    if not cases:
        return []
    f = closure(drv, chars)
    recs = []
    for r, _ in tlc_many([dict(module="TracePipe", data=d, timeout=timeout, workers=1, heap="2500m")
                          for d in shards(f, specs, cases)]):
        recs += r
    check.traces += len(cases)
    bad = {}
    for r in recs:
        bad.setdefault(r["id"], r)
    for cid, r in sorted(bad.items()):
        c = cases[cid - 1]
        sp, _, opt = jobs[c["spec"] - 1]
        what = "%s, word %r: the specification allows %s %r%s (%s); the code gave %s" % (
            describe(sp, opt), c["_w"], r["what"], text(r["want"]),
            " at step %s rule %s" % (r["step"], r["rule"]) if mode == "trace" else "", r["what"],
            repr(text(c["result"])) if mode != "trace" else
            [(e["step"], e["rule"], text(e["word"])) for e in c["events"]])
        check.violation(what, {"request": dict(reqs[c["spec"] - 1], words=[c["word"]]), "spec": render(sp),
                               "want": r})
    return cases


_langs = None


def bundled():
    """{lang: structured spec} from /repo/specs"""
    global _langs
    if _langs is None:
        _langs = {}
        d = os.path.join(REPO, "specs")
        for f in sorted(os.listdir(d)):
            if f.endswith(".hsl"):
                with open(os.path.join(d, f), encoding="utf-8") as h:
                    _langs[f[:-4]] = hslpy.spec_of(h.read())
    return _langs


def total(check, drv, jobs, timeout=800):
    """jobs: (spec, words, lang): the real results only have to be proper"""
    reqs = [{"id": str(i), "op": "lang", "lang": l, "std": True, "words": [cps(w) for w in ws]} for i, (_, ws, l) in enumerate(jobs)]
    chars, cases, specs = set(), [], []
    for i, (m, (sp, ws, l)) in enumerate(zip(drv.run(reqs), jobs)):
        specs.append(dict(spec_json(sp), macros=[], vars=[], rewrite=[], transcribe=[], norms=[]))
        if crashed(m) or m.get("perr"):
            check.violation("%s: %s" % (l, crashed(m) or m["perr"]), {"request": reqs[i]})
            continue
        for w, q, x in zip(ws, reqs[i]["words"], m["res"]):
            if crashed(x) or x.get("err"):
                check.violation("%s, word %r: %s" % (l, w, crashed(x) or x["msg"]), {"request": dict(reqs[i], words=[q])})
                continue
            chars |= set(x["out"]) | set(q)
            cases.append({"id": len(cases) + 1, "spec": i + 1, "word": q, "mode": "total", "result": x["out"], "events": [], "tl": []})
    if not cases:
        return cases
    f = closure(drv, chars)
    n = 8
    outs = tlc_many([dict(module="TracePipe", workers=1, heap="2500m", timeout=timeout,
                          data={"facts": f, "specs": specs, "cases": cases[k::n]}) for k in range(n) if cases[k::n]])
    check.traces += len(cases)
    for recs, _ in outs:
        for r in recs:
            k = cases[r["id"] - 1]
            l = jobs[k["spec"] - 1][2]
            check.violation("%s, word %r gives %r: a letter of its script, a failed syllable or a broken character" % (
                l, text(k["word"]), text(k["result"])), {"request": dict(reqs[k["spec"] - 1], words=[k["word"]])})
    return cases


def enumerate_model(check, drv, specs, alphas, lens, invariants, timeout=800, opts=None, module="MCPipe", extra_chars=()):
    """TLC enumerates all words of each spec; the invariants are checked on the
    specification and every word runs on the real code."""
    chars = set(extra_chars)
    sj = [spec_json(s) for s in specs]
    for s in specs:
        chars |= spec_chars(s)
    for a in alphas:
        chars |= {ord(c) for c in a}
    f = closure(drv, chars)
    cfg = "INIT Init\nNEXT Next\nINVARIANT %s\n" % " ".join(["EmitResult"] + list(invariants))
    calls = []
    for i in range(len(specs)):
        calls.append(dict(module=module, workers=1, heap="2500m", timeout=timeout, cfgtext=cfg, name="+".join(invariants) or "emit",
                          data={"facts": f, "specs": [sj[i]], "alphas": [[ord(c) for c in alphas[i]]], "lens": [lens[i]]}))
    outs = tlc_many(calls)
    reqs = []
    for i, (recs, _) in enumerate(outs):
        r = {"id": str(i), "op": "spec", "src": cps(render(specs[i])), "words": [x["w"] for x in recs]}
        if opts and opts[i].get("lang"):
            r = {"id": str(i), "op": "lang", "lang": opts[i]["lang"], "std": True, "words": r["words"]}
        reqs.append(r)
    for i, (m, (recs, _)) in enumerate(zip(drv.run(reqs), outs)):
        cr = crashed(m)
        if cr or m.get("perr"):
            check.violation("spec %d: %s" % (i, cr or m["perr"]), {"request": dict(reqs[i], words=[]), "spec": render(specs[i])})
            continue
        check.traces += len(recs)
        for x, o in zip(recs, m["res"]):
            cr = crashed(o)
            if cr or o.get("err") or o["out"] != x["out"]:
                check.violation("word %r: the specification gives %r; the code gave %s; spec:\n%s" % (
                    text(x["w"]), text(x["out"]), cr or o.get("msg") or repr(text(o["out"])), render(specs[i])),
                    {"request": dict(reqs[i], words=[x["w"]]), "spec": render(specs[i]), "want": x["out"]})
    if outs and outs[0][0]:
        recs = outs[0][0]
        check.sample({"spec": render(specs[0]), "word": text(recs[len(recs) // 2]["w"]), "result": text(recs[len(recs) // 2]["out"])})
    return outs
