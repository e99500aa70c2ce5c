"""Checks decided with Hre.tla (HreCheck)."""
from vlib import *
import gen, hrec, pipe


ALS = [["a", "b"], ["a", "b", "é"], ["é", "ñ", "b"], ["я", "б"], ["ア", "カ", "a"], ["𐐷", "a"], ["α", "ά"]]


def stats(c, parsed, pats):
    c.cover["patterns"] = c.cover.get("patterns", 0) + len(pats)
    for p in pats[:3]:
        c.sample({k: p[k] for k in ("expr", "rexpr", "macros", "vars") if k in p})


def run(c, pats, parse=False):
    d = Driver()
    parsed = hrec.check_patterns(c, d, pats, timeout=c.n(300, 2400))
    stats(c, parsed, pats)
    return d


def extra_words(r, al, n=8, parts=()):
    out = []
    if parts:       # words put together from pieces which the pattern names
        out = [("".join(r.choice(parts) if r.random() < 0.8 else r.choice(al) for _ in range(r.randint(2, 8))), -1) for _ in range(n)]
    if r.random() < 0.15:
        ls = r.sample(al, min(2, len(al)))
        out.append(("".join(r.choice(ls) if r.random() > 0.03 else r.choice([" ", "{}"]) for _ in range(r.choice([70, 140, 300]))), -1))
    return out + [(gen.word(r, al, ["{}", " ", "\t", "7", "漢"], 1, 12, 0.12), r.choice([-1, -1, -1, 0, 1, 2, 3])) for _ in range(n)]


def C09(c):
    r = c.rng
    pats = []
    for i in range(c.n(96, 1600)):
        al = r.choice(ALS)
        P = gen.Pat(r, al, depth=r.choice([0, 1, 1, 2]), puncts=["'"] if r.random() < 0.1 else ())
        e = P.make(neg=0.04, pos=0.3, edge=0.3, both=0.06, topalt=0.08)
        x = r.random()
        alpha = al + [" "] if x < 0.6 else al[:2] + ["{", "}"] if x < 0.8 else al + ["\n"] if x < 0.9 else al + ["7"]
        pats.append(dict(expr=e, rexpr=r.choice(["X", "", "XY", al[0]]), alpha=alpha, len=4 if len(alpha) < 5 else 3,
                         words=extra_words(r, al)))
    # runs of matches which are each other's context
    for i in range(c.n(24, 300)):
        al = r.choice(ALS)[:2]
        a, b = al
        before = r.choice(["{%s}" % a, "{%s|%s}" % (a, b), "{~%s}" % b, "{~%s%s}" % (b, a), "{~x}", "^", "", "{%s+}" % a, "{.}"])
        after = r.choice(["{%s}" % a, "{%s|%s}" % (b, a), "{~%s}" % b, "{~%s%s}" % (a, b), "{~x}", "$", "", "{%s+}" % a, "{.}", "{%s%s?}" % (a, b)])
        core = r.choice([a, a, a + a, a + "+", "(%s|%s)" % (a, b), a + b + "?", "[%s%s]" % (a, b)])
        pats.append(dict(expr=before + core + after, rexpr=r.choice(["X", "", a, b]), alpha=al + [r.choice([" ", "x"])], len=c.n(5, 7), words=extra_words(r, al, 4)))
    # all edges, all lookarounds, next to each other
    for l in ("", "^", "^^", "{a}", "{a|b}", "^{a}", "^^{a}", "^{~a}", "{~a}", "{(?:a)b?}"):
        for g in ("", "$", "$$", "{b}", "{b|a}", "{b}$", "{b}$$", "{~b}$$", "{~b}", "{b?(a)}"):
            if c.thorough or r.random() < 0.4:
                pats.append(dict(expr=l + r.choice(["a", "ab", "b", "a+", "[ab]", "(a|ba)"]) + g, rexpr="X",
                                 alpha=["a", "b", " "] + (["{", "}"] if c.thorough else []), len=4, words=[]))
    # broken ones
    for e in ["a{b}c", "a{b}c{d}", "({b}a)", "a{b}{c}a", "{a}{b}c", "(a", "a)", "[a", "a**", "a(*b)", "(+)", "(?a)", "(?a)", "a|*", "(?:a", "a{~b}c", "x{y}?", "\\", "a\\",
              "({a}|b)", "b{a}|c", "{a}b|{c}d"]:
        pats.append(dict(expr=e, rexpr="X", alpha=["a", "b", "c"], len=2, words=[]))
    run(c, pats)


def C10(c):
    r = c.rng
    pats = []
    for i in range(c.n(110, 1800)):
        al = r.choice(ALS[:5])
        if len(al) < 3:
            al = al + ["n"]
        meta = r.random() < 0.15
        many = r.random() < 0.2
        up = [al[0].upper(), al[1].upper(), al[0] + al[1].upper()] if r.random() < 0.5 else []
        mt = list(".*+?()[]|\\-")
        pool = al + up + [al[0] + al[1], al[1] + al[0], al[0] * 2, al[1] + al[2]] + ((mt + [r.choice(al) + r.choice(mt) for _ in range(6)] + [r.choice(mt) + r.choice(al) for _ in range(4)] + [r.choice(al) + r.choice("|.?") + r.choice(al) for _ in range(3)]) if meta else [])
        vs = []
        for n in ["v", "w", "long", "é", "v2", "v3"][:6 if many else r.randint(1, 4)]:
            k = r.randint(1, 6)
            vs.append((n, r.sample(pool, min(k, len(pool)))))
        if r.random() < 0.2:        # a value that is listed twice
            n, q = r.choice(vs)
            q.insert(r.randint(0, len(q)), r.choice(q))
        if r.random() < 0.15:       # names that differ only by blanks
            n = r.choice(vs)[0]
            vs.append((r.choice([" %s", "%s ", " %s ", "%s%s"]).replace("%s", n), r.sample(pool, min(3, len(pool)))))
        names = [v for v, _ in vs]
        macros = []
        for n in r.sample([x for x in ["@", "@@", "@a", "%", "%%", "V", "VV", al[0].upper()] if x not in al], r.randint(0, 4)):
            y = r.random()
            macros.append((n, "<%s>" % r.choice(names) if y < 0.4 else r.choice(al) if y < 0.6 else
                           r.choice(["@", "%", "V"]) if y < 0.75 else "(?:%s|%s)" % (al[0], al[1])))
        P = gen.Pat(r, al, vars=names, macros=[m for m, _ in macros], depth=r.choice([0, 0, 1]))
        k = r.randint(4, 7) if many else r.randint(1, 3)
        used = [r.choice(names) for _ in range(k)]
        if r.random() < 0.4 and len(macros) > 1:    # macros which name each other
            ks = [m for m, _ in macros]
            macros = [(m, ("<%s>" % r.choice(names) if r.random() < 0.4 else "") + r.choice([x for x in ks if x != m]) if r.random() < 0.6 else v) for m, v in macros]
        if r.random() < 0.6:
            core = "".join("<%s>" % u + (r.choice(al) if r.random() < 0.3 else "") for u in used)
        else:
            core = None
        e = P.make(neg=0.08, pos=0.15, edge=0.12, both=0, topalt=0, core=core)
        ms = [m for m, _ in macros]
        rx = "".join(("<%s>" % r.choice(names + ["nosuch"] if r.random() < 0.1 else names)) if r.random() < 0.7 else
                     r.choice(al + ms + ["X"]) for _ in range(r.randint(1, k + 1)))
        if many:    # each variable to its own place
            rx = "".join("<%s>" % r.choice(names) for _ in range(r.randint(max(1, k - 1), k + 1)))
        elif r.random() < 0.3:      # the same variables again
            rx = "".join("<%s>" % u for u in used)
            e = r.choice(["", "", "^", "{.}"]) + "".join("<%s>" % u for u in used) + r.choice(["", "", "$"])
            vs = [(n, r.sample(pool, min(r.randint(4, 6), len(pool)))) if r.random() < 0.7 else (n, q) for n, q in vs]
        alpha = (al + list(".*(|\\"))[:6] if meta else al + up[:1]
        D = dict(vs)
        fits = [("".join(r.choice(D[u]) for u in used) * r.randint(1, 2), -1) for _ in range(8 if many else 3)]
        pats.append(dict(expr=e, rexpr=rx, macros=macros, vars=vs, alpha=alpha, len=3 if meta or len(alpha) > 4 else 4,
                         words=fits + extra_words(r, al, 6, [x for _, q in vs for x in q] + ms)))
    # long variables onto short ones, many macros
    for i in range(c.n(30, 400)):
        al = list("abcdefghij") if i % 3 else list("абвгдежзий")
        v = r.sample(al, r.randint(5, 10))
        if r.random() < 0.3:        # the first place counts
            v.insert(r.randint(0, len(v)), r.choice(v))
        w = ["".join(r.choice(al) for _ in range(r.randint(0, 2))) for _ in range(r.randint(1, 4))]
        vs = [("v", v), ("w", w)]
        k = r.randint(1, 2)
        pats.append(dict(expr="<v>" * k + r.choice(["", "", "{.}"]), rexpr=r.choice(["<w>" * k, "<w>", "<w>X"]), vars=vs, alpha=al, len=1,
                         words=[("".join(r.choice(v) for _ in range(r.randint(2, 9))), -1) for _ in range(8)]))
        ks = r.sample(["@", "%", "&", "~", "!", "@@", "%%", "&&", "!!", "@%", "%@", "!@", "A", "B", "AB", "C", "BA", "AA", "CC", "D", "E", "F", "G", "H"], r.randint(8, 20))
        macros = [(x, r.choice(al) if r.random() < .8 else r.choice(al) + r.choice(al)) for x in ks]
        e = "".join(r.choice(ks) for _ in range(r.randint(1, 4)))
        if "~" not in e:
            pats.append(dict(expr=e, rexpr="".join(r.choice(ks + al[:2]) for _ in range(r.randint(1, 3))), macros=macros, vars=[], alpha=al[:2], len=1,
                             words=[("".join(r.choice([m for _, m in macros] + [dict(macros).get(ch, ch) for ch in e]) for _ in range(r.randint(2, 9))), -1) for _ in range(6)]
                             + [("".join(dict(macros).get(ch, ch) for ch in e), -1)]))
    run(c, pats)


def C11(c):
    r = c.rng
    pats = []
    for i in range(c.n(120, 2000)):
        al = r.choice(ALS)
        vs = [("v", [al[0], al[-1]]), ("w", [al[0] + al[1], al[1]])]
        P = gen.Pat(r, al, vars=["v", "w"] if r.random() < 0.5 else (), depth=1)
        x = r.random()
        core = P.seq(1, True, r.choice([1, 1, 2]))
        bounded = r.random() < 0.9
        nl = "{~" + P.neglook(bounded) + "}"
        if x < 0.4:
            e = core + nl
        elif x < 0.75:
            e = nl + core
        elif x < 0.85:
            e = nl + core + "{~" + P.neglook() + "}"
        elif x < 0.9:
            e = "{" + P.look() + "}" + core + nl
        elif x < 0.95:
            e = nl + core + "{" + P.look() + "}"
        else:
            e = r.choice(["^", "^^", ""]) + core + nl
        pats.append(dict(expr=e, rexpr=r.choice(["X", "", "<v>"]), vars=vs, alpha=al + ([" "] if r.random() < 0.5 else ["7"] if r.random() < 0.5 else []),
                         len=4, words=extra_words(r, al, 10)))
    # neighbours of any width and script
    for e, al in (("a{~é}", "aéb"), ("{~é}a", "aéb"), ("{~日本}a", "a日本"), ("a{~日本}", "a日本"), ("{~𐐷}a{~é}", "a𐐷é"), ("a{~bé|c}", "abéc"),
                  ("{~é?b}a", "aéb"), ("a{~b?é}", "aéb"), ("{~(?:ab|é)c}a", "abéc"), ("a+{~b}", "ab "), ("{~a}a", "ab"), ("a{~a}", "ab"), ("aa{~a}", "ab"), ("{~a}aa", "ab"),
                  ("a{~[bé]}", "aéb"), ("{~[bé]}a", "aéb"), ("a{~.}", "ab "), ("{~.}a", "ab "), ("{~..}a", "ab"), ("a{~..b}", "ab")):
        pats.append(dict(expr=e, rexpr="X", alpha=list(al), len=c.n(5, 7) if len(al) < 4 else c.n(4, 6), words=extra_words(r, list(al))))
    # forbidden words of different lengths, in any order
    for i in range(c.n(40, 500)):
        al = r.choice(ALS)[:3]
        ws = ["".join(r.choice(al) for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7]))) for _ in range(r.randint(2, 5))]
        # some letters written as a class, an optional one or a group
        vague = lambda w: "".join(r.choice(["[%s%s]" % (x, r.choice(al)), x + "?", "(%s|%s)" % (x, r.choice(al)), "."]) if r.random() < 0.3 else x for x in w)
        bs = [vague(w) if r.random() < 0.5 else w for w in ws]
        body = "|".join(bs) if r.random() < 0.7 else "(?:%s)%s" % ("|".join(ws[1:]), r.choice(["", "?", ws[0]]))
        core = r.choice(al)
        e = core + "{~" + body + "}" if i % 2 else "{~" + body + "}" + core
        words = []
        for _ in range(14):
            w = "".join(r.choice([core, r.choice(ws), r.choice(ws), r.choice(al), "7"]) for _ in range(r.randint(1, 5)))
            words.append((r.choice([core + r.choice(ws), r.choice(ws) + core, w]) + r.choice(["", w]), -1))
        pats.append(dict(expr=e, rexpr="X", alpha=al, len=2, words=words))
    # wide forbidden words: as wide as the neighbourhood may be, and one more
    for i in range(c.n(24, 300)):
        al = r.choice(ALS)[:3]
        n = r.choice([8, 12, 13, 15, 16, 17, 20, 31, 33, 40])
        f = "".join(r.choice(al) for _ in range(n))
        core = r.choice(al)
        x = r.random()
        body = f if x < 0.5 else r.choice(al) + "|" + f if x < 0.7 else f[:-2] + "(?:%s|%s)" % (f[-2:], r.choice(al)) if x < 0.85 else f[0] + "?" + f[1:]
        e = core + "{~" + body + "}" if i % 2 else "{~" + body + "}" + core
        words = []
        for _ in range(8):
            k = r.randrange(n)
            g = r.choice([f, f, f[:k] + r.choice(al) + f[k + 1:], f[1:], f[:-1], r.choice(al) + f[1:]])
            words.append((("" if r.random() < 0.5 else "".join(r.choice(al) for _ in range(r.randint(1, 4)))) + (core + g if i % 2 else g + core) + r.choice(["", "7", core, f[:5]]), -1))
        pats.append(dict(expr=e, rexpr="X", alpha=al[:2], len=2, words=words))
    d = run(c, pats)
    # a spec with an unbounded forbidden expression is refused, any other accepted
    bad = []
    for _ in range(c.n(60, 800)):
        al = r.choice(ALS[:4])
        P = gen.Pat(r, al, vars=["v"], depth=1)
        b = P.neglook(bounded=r.random() < 0.5)
        core = P.ch()
        bad.append(dict(body=b, core=core))
    def both(x):
        P = gen.Pat(r, ALS[0], depth=1)
        return dict(x, core=x["core"] + "{~" + P.neglook(bounded=r.random() < 0.5) + "}") if r.random() < 0.4 else x
    bad = [both(x) for x in bad]
    bad = [dict(expr=("{~" + x["body"] + "}" + x["core"]) if r.random() < 0.5 or "{" in x["core"] else (x["core"] + "{~" + x["body"] + "}"), rexpr="x",
                vars=[("v", ["a", "bb"])], macros=[], alpha=[], len=0, words=[]) for x in bad]
    heads = hrec.heads(bad)
    reqs = []
    for i, p in enumerate(bad):
        sp = {"script": "Latn", "schemes": [], "macros": [], "vars": p["vars"], "norms": [], "rewrite": [], "transcribe": []}
        good = ("a", "b")
        sec = r.choice(["rewrite", "transcribe"])
        k = r.randint(0, 2)
        sp[sec] = [good] * k + [(p["expr"], "x")] + [good] * (2 - k)
        reqs.append({"id": str(i), "op": "spec", "src": cps(pipe.render(sp)), "norun": True})
    n = 0
    for p, h, rq, m in zip(bad, heads, reqs, d.run(reqs)):
        c.traces += 1
        want = not h["ok"] or h["unl"]
        n += want
        if crashed(m) or bool(m.get("perr")) != want:
            c.violation("a spec with the rule %r: %s by the specification, the code says %s" % (
                p["expr"], "refused" if want else "accepted", crashed(m) or m.get("perr") or "accepted"), {"request": rq})
    c.cover["refused_specs"] = n
