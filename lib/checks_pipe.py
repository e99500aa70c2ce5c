"""Checks decided with Pipeline.tla (MCPipe, MCJamo, TracePipe)."""
import os
from vlib import *
import pipe, gen, hslpy


def describe(sp, opt):
    return "language " + opt["lang"] if opt.get("lang") else "a spec (in the replay file)"


def spec_jobs(c, n, words, **focus):
    wk = focus.pop("wordargs", {})
    mk = focus.pop("tweak", None)
    ws = focus.pop("gw", None)
    jobs = []
    for _ in range(n):
        G = gen.SpecGen(c.rng, **focus)
        sp = G.make()
        if mk:
            mk(c.rng, G, sp)
        jobs.append((sp, [ws(c.rng, G, sp) if ws else G.word(sp, **wk) for _ in range(words)], {}))
    return jobs


def bundled_words(c, lang, sp, n):
    """words of the language: examples, spliced and disturbed examples"""
    r = c.rng
    ex = [w for w, _ in sp["test"]] or ["a"]
    chars = sorted({ch for w in ex for ch in w})
    out = []
    for _ in range(n):
        x = r.random()
        w = r.choice(ex)
        if x < 0.35:
            out.append(w)
            continue
        v = r.choice(ex)
        i, j = r.randint(0, len(w)), r.randint(0, len(v))
        w = w[:i] + v[j:]
        if x < 0.75:
            for _ in range(r.randint(1, 2)):
                k = r.randint(0, len(w))
                w = w[:k] + r.choice(chars + [" ", "-", "'", ",", "7", "漢" if lang not in ("jpn", "jpn-ck", "chi", "zho") else "7"]) + w[k + r.randint(0, 1):]
        if r.random() < 0.15 and sp["rewrite"] + sp["transcribe"]:
            y = gen.instance(r, r.choice(sp["rewrite"] + sp["transcribe"])[0], sp)
            if y:
                w = r.choice(["", w[:3]]) + y + r.choice(["", "", w[-3:]])
        out.append(w[:14] or "a")
    return out


def bundled_jobs(c, n, heavy=2, only=None):
    B = pipe.bundled()
    jobs = []
    for lang, sp in B.items():
        if only and lang not in only:
            continue
        k = n if len(sp["rewrite"]) + len(sp["transcribe"]) < 400 else heavy
        jobs.append((sp, bundled_words(c, lang, sp, k), {"lang": lang}))
    return jobs


def note(c, cases, jobs, kind):
    for k in cases[:: max(1, len(cases) // 3)][:2]:
        sp, _, opt = jobs[k["spec"] - 1]
        c.sample({kind: opt.get("lang") or pipe.render(sp), "word": text(k["word"]), "result": text(k["result"])})


def count_effect(c, cases, key="cases_with_effect"):
    c.cover[key] = c.cover.get(key, 0) + sum(1 for k in cases if k["result"] != k["word"])
    c.cover["distinct_words"] = c.cover.get("distinct_words", 0) + len({tuple(k["word"]) for k in cases})


def fuzz(c, d, n, words, mode="result", **focus):
    jobs = spec_jobs(c, n, words, **focus)
    cases = pipe.validate(c, d, jobs, mode, describe)
    note(c, cases, jobs, "spec")
    count_effect(c, cases)
    return cases


def several_schemes(c, d, n, mode="result"):
    """specs of several standard transliterators, the same one more than once too"""
    r = c.rng
    jobs = []
    for _ in range(n):
        G = gen.SpecGen(r, script=r.choice(["Cyrl", "Hrkt", "Latn"]))
        sp = G.make()
        sp["schemes"] = [r.choice(["cyrillic[bg]", "cyrillic[mk]", "cyrillic[ru]", "cyrillic[ua]", "pinyin", "furigana"]) for _ in range(r.choice([1, 2, 2, 3, 4]))]
        ws = ["".join(r.choice([r.choice(G.al), r.choice("abvgdezhikstf"), r.choice("日本中国猫東京々ゝー"), r.choice(" -,")]) for _ in range(r.randint(1, 8))) for _ in range(8)]
        jobs.append((sp, ws, {"std": True}))
    cases = pipe.validate(c, d, jobs, mode, describe)
    note(c, cases, jobs, "spec")
    count_effect(c, cases)


def long_words(c, d, mode="result", **f):
    """words of hundreds of letters under few rules"""
    f = dict(dict(rewrites=(0, 2), transcribes=(1, 3), norms=False, depth=0), **f)
    fuzz(c, d, c.n(16, 150), 3, mode=mode, gw=lambda r, G, sp: G.long(), **f)


def C01(c):
    d = Driver()
    long_words(c, d)
    jobs = bundled_jobs(c, c.n(6, 60), c.n(2, 20))
    for sp, words, opt in jobs[::3]:
        opt["via"] = "pkg"
        opt["pkgwords"] = True
    # the package-level function as well as instances
    jobs2 = [(sp, w, {k: v for k, v in o.items() if k != "pkgwords"}) for sp, w, o in jobs if not o.get("via")]
    cases = pipe.validate(c, d, jobs2, "result", describe, timeout=c.n(300, 3000))
    note(c, cases, jobs2, "language")
    count_effect(c, cases)
    # ... through the package-level function the transliterators' answers are not recorded:
    # take those from an instance
    pk = [(sp, w, {"lang": o["lang"]}) for sp, w, o in jobs if o.get("via")]
    cases = pipe.validate(c, d, pk, "result", describe, timeout=c.n(300, 3000))
    reqs, want = [], {}
    for k in cases:
        want.setdefault(k["spec"] - 1, []).append(k)
    for i, ks in want.items():
        reqs.append({"id": str(i), "op": "lang", "via": "pkg", "std": True, "lang": pk[i][2]["lang"], "words": [k["word"] for k in ks]})
    for rq, m in zip(reqs, d.run(reqs)):
        for k, x in zip(want[int(rq["id"])], m["res"]):
            c.traces += 1
            if crashed(x) or x.get("out") != k["result"] or x.get("err"):
                c.violation("hangulize.Hangulize(%r, %r) gives %s, the specification %r" % (
                    rq["lang"], text(k["word"]), crashed(x) or x.get("msg") or repr(text(x["out"])), text(k["result"])),
                    {"request": dict(rq, words=[k["word"]])})
    for _ in range(c.n(1, 10)):
        fuzz(c, d, c.n(150, 400), 20, depth=1)
        fuzz(c, d, c.n(40, 100), 12, depth=2, rewrites=(4, 10), transcribes=(4, 10))
    several_schemes(c, d, c.n(16, 200))
    # foreign marks and invisible spaces next to each other
    fuzz(c, d, c.n(16, 200), 12, gw=lambda r, G, sp: "".join(r.choice(G.al[:2] + list("「」。、！？\u200b\u200b\u200b -!")) for _ in range(r.randint(2, 9))), depth=0, script=None)
    fuzz(c, d, c.n(8, 100), 12, gw=lambda r, G, sp: "".join(r.choice(G.al[:2] + list("「」。、！？\u200b\u200b\u200b -!")) for _ in range(r.randint(2, 9))), depth=0, script="Hrkt")
    # long specs: many rules, in order
    fuzz(c, d, c.n(6, 60), 10, rewrites=(20, 40), transcribes=(20, 40), depth=0)
    # very long words
    for n, br in ((420, True), (1300, False)):
        fuzz(c, d, c.n(4, 10), 1, rewrites=(0, 1), transcribes=(1, 2), norms=False, depth=0, macros=False, look=False, vars=False,
             gw=lambda r, G, sp: G.long(n, n, br)[:n])
    # a model of every word over a small alphabet
    enum_specs(c, d, c.n(8, 48), c.n(4, 5), ["Separation", "Claimed", "Leftover"])


def enum_specs(c, d, n, length, invs, alpha=None, tweak=None, **focus):
    specs, alphas = [], []
    for _ in range(n):
        G = gen.SpecGen(c.rng, **focus)
        sp = G.make()
        if tweak:
            tweak(c.rng, G, sp)
        specs.append(sp)
        if alpha:
            a = alpha(c.rng, G, sp)
        else:
            pu = [p for p in gen.PUNCT if any(p in l for l, _ in sp["rewrite"] + sp["transcribe"])]
            a = G.al[:3] + (pu[:1] or ["-"]) + [c.rng.choice(gen.OUTSIDE[G.script]), " "]
        alphas.append(a)
    return pipe.enumerate_model(c, d, specs, alphas, [length] * n, invs, timeout=c.n(300, 1500))


def maybe_var(r, G, sp):
    """rules with a variable which is not always there: where it is not, the match stays as it is"""
    vs = [v for v, _ in sp["vars"]]
    if vs and r.random() < 0.3:
        for side in ("rewrite", "transcribe"):
            e = r.choice(["<%s>?%s", "(?:<%s>|" + r.choice(G.al) + ")%s", "%.0s(?:<" + r.choice(vs) + ">)?%s"]) % (r.choice(vs), r.choice(G.al))
            sp[side].insert(r.randint(0, len(sp[side])), (e, "<%s>" % r.choice(vs) + r.choice(["", r.choice(G.al)])))


def C03(c):
    d = Driver()
    long_words(c, d, tokens=True, rewrites=(1, 3))

    def words(r, G, sp):
        return gen.word(r, G.al, gen.OUTSIDE[G.script] + [",", "'"], 1, 10, 0.1)
    ident = dict(tokens=True, norms=False, transcribes=(0, 0))

    def tweak(r, G, sp):
        # every letter is visible in the result, so is what each rule did to it
        sp["transcribe"] = [(ch, gen.TOKENS[i]) for i, ch in enumerate(G.al)]
        x = r.random()
        if x < 0.3:
            # a chain: the result depends on the order of the rules
            ch = [r.choice(G.al) for _ in range(5)]
            sp["rewrite"] = [(ch[i], ch[i + 1]) for i in range(4) if ch[i] != ch[i + 1]] + sp["rewrite"]
            r.shuffle(sp["rewrite"])
        elif x < 0.45:
            # rules which bring meaningless text to life or make it
            o = r.choice(gen.OUTSIDE[G.script])
            sp["rewrite"] += [(o, r.choice(G.al)), (r.choice(G.al) + "$", r.choice([o, "7", ""]))]
        elif x < 0.6:
            # repeated letters, one pass
            l = r.choice(G.al)
            sp["rewrite"] += [(l + l, r.choice([l, l + l + l, r.choice(G.al)])), ("{%s}%s" % (l, l), r.choice(G.al))]
        elif sp["vars"]:
            maybe_var(r, G, sp)
    fuzz(c, d, c.n(200, 3000), 20, tweak=tweak, gw=words, rewrites=(2, 8), **ident)
    fuzz(c, d, c.n(40, 600), 20, tweak=tweak, gw=words, rewrites=(2, 6), depth=2, **ident)
    enum_specs(c, d, c.n(16, 64), c.n(4, 5), ["Separation"], tweak=tweak, rewrites=(2, 5), **ident)
    rule_replace(c, d)


def rule_replace(c, d):
    """Rule.Replace on its own text"""
    import hrec
    pats = []
    for _ in range(c.n(24, 300)):
        al = c.rng.choice([["a", "b"], ["a", "é"], ["b", "я"]])
        vs = [("v", al), ("w", [al[0] + al[1], al[1]])]
        P = gen.Pat(c.rng, al, vars=["v", "w"])
        pats.append(dict(expr=P.make(), rexpr=c.rng.choice(["X", "", "<v>", al[0] + "{}", al[0] * 2]), vars=vs, alpha=al + [" "], len=4))
    for e in ("<v>?X", "(?:<v>|Y)X", "(<v>|Y)X", "<v>?<w>?X", "<w>?X{~<v>}", "{Y?}<v>?X$"):
        for rx in ("<v>", "<w>", "<v><w>", "a<v>"):
            if c.thorough or c.rng.random() < 0.5:
                al = c.rng.sample(["a", "b", "é", "n"], 3)
                vs = [("v", al[:2]), ("w", c.rng.choice([al[1:], [al[0] + al[1], al[1]], al[:1]]))]
                pats.append(dict(expr=e.replace("X", al[2]).replace("Y", al[0]), rexpr=rx, vars=vs, alpha=al, len=c.n(5, 6)))
    hrec.check_patterns(c, d, pats)


def C04(c):
    d = Driver()
    long_words(c, d, rewrites=(0, 0), transcribes=(2, 4))

    def tweak(r, G, sp):
        # what a transcribe rule writes looks like what other rules read
        for i, (l, rx) in enumerate(sp["transcribe"]):
            x = r.random()
            if x < 0.35:
                sp["transcribe"][i] = (l, "".join(r.choice(G.al) for _ in range(r.randint(1, 2))))
            elif x < 0.5:
                sp["transcribe"][i] = (l, r.choice(gen.TOKENS))
            elif x < 0.55:
                sp["transcribe"][i] = (l, r.choice([" ", "", "ㄱ "]))
        r.shuffle(sp["transcribe"])
        for _ in range(r.choice([0, 0, 1, 2])):     # a wildcard which may meet what is claimed already
            sp["transcribe"].insert(r.randint(0, len(sp["transcribe"])), (r.choice(G.al) + r.choice([".", ".", ".+", ".*" + r.choice(G.al), ".+" + r.choice(G.al), ".+$"]), r.choice([r.choice(gen.TOKENS), gen.jamo(r), "ㅊㅠ"])))
        if r.random() < 0.3:        # claims within, then a rule that would reach over them
            a, b, x = (r.choice(G.al) for _ in range(3))
            sp["transcribe"][:0] = [(x, r.choice([gen.jamo(r), r.choice(gen.TOKENS), x, ""])), ("%s.%s%s" % (a, r.choice("+*"), b), r.choice(gen.TOKENS))]
        maybe_var(r, G, sp)
        if r.random() < 0.5:
            sp["transcribe"] = sp["transcribe"][: max(1, len(sp["transcribe"]) // 2)]   # leave leftovers

    def words(r, G, sp):
        return gen.word(r, G.al, gen.OUTSIDE[G.script] + [",", "'", "\t", "\n", "\u00a0", "\u3000"], 1, 10, 0.2)
    f = dict(norms=False, rewrites=(0, 2), transcribes=(3, 8))
    fuzz(c, d, c.n(220, 3000), 20, tweak=tweak, gw=words, **f)
    fuzz(c, d, c.n(40, 600), 20, tweak=tweak, gw=words, depth=2, **f)
    enum_specs(c, d, c.n(16, 64), c.n(4, 5), ["Claimed", "Leftover"], tweak=tweak, **f)


def C05(c):
    d = Driver()
    long_words(c, d)

    def words(r, G, sp):
        o = gen.OUTSIDE[G.script] + [chr(r.choice([0x4e00, 0x30a2, 0x3042, 0x5d0, 0x661, 0xe01, 0x1f600, 0xac00, 0x3131, 0x24b6, 0x2160, 0x3b1, 0x10d0, 0x0301, 0x2028, 0xa9, 0x488, 0x20dd, 0x903, 0x7f9, 0x660, 0xb2]))
                                     for _ in range(4)] + gen.PUNCT + list("«»“”…/&@#%*()\u200b\u00a0") + [ch.upper() for ch in G.al]
        return gen.word(r, G.al, o, 2, 12, 0.1) if r.random() < 0.5 else "".join(r.choice(G.al + o) for _ in range(r.randint(2, 10)))

    SYM = "~`°€´=<>©→♪¨^+|$¬§"

    def lit(ch):
        """a sign as a pattern"""
        return ch if ch in gen.PUNCT or ch in "`°€´=©→♪¨¬§~" else None

    def tweak(r, G, sp):
        # punctuation: read by rules, made by rules, before and after
        p, q = r.sample(gen.PUNCT, 2)
        a = r.choice(G.al)
        if r.random() < 0.25:       # a symbol is no punctuation
            s = r.choice([x for x in SYM if lit(x)])
            sp["rewrite" if r.random() < 0.5 else "transcribe"].append((r.choice(["%s", "%s" + a, a + "%s", "[%s" + p + "]", "{%s}" + a, a + "{~%s}"]) % s, jam(r)))
        x = r.random()
        if x < 0.3:
            sp["rewrite"] = [(a, a + p), (p, q)] + sp["rewrite"]
        elif x < 0.5:
            sp["rewrite"] = [(p, a), (a + "$", p)] + sp["rewrite"]
        elif x < 0.7:
            sp["transcribe"] = [(p + a, jam(r))] + sp["transcribe"]
        elif x < 0.85:
            sp["transcribe"].append(("{%s}%s" % (p, a), jam(r)))
            sp["rewrite"].append((a, a + p))
        else:
            sp["transcribe"].insert(0, ("%s{~%s}" % (a, p), jam(r)))
    jam = gen.jamo
    fuzz(c, d, c.n(200, 3000), 20, gw=words, tweak=tweak, rewrites=(0, 3), norms=False)

    def with_signs(r, G, sp):
        return "".join(r.choice(G.al + list(SYM) + gen.PUNCT) for _ in range(r.randint(2, 10)))
    fuzz(c, d, c.n(60, 800), 20, gw=with_signs, tweak=tweak, rewrites=(0, 3), norms=False)
    # characters from everywhere, next to letters of the script
    pool = [x for x in range(0x20, 0x1fb00) if not 0xd800 <= x < 0xe000]
    jobs = []
    for sc in ("Latn", "Cyrl", "Grek", "Geor", "Hrkt"):
        al = gen.ALPHA[sc][:3]
        sp = {"script": sc, "schemes": [], "macros": [], "vars": [], "norms": [], "rewrite": [(al[0] + al[0], al[1])], "transcribe": [(x, jam(c.rng)) for x in al]}
        near = [x for x in pool if x < 0x3200]
        xs = c.rng.sample(near, c.n(1200, 9000)) + c.rng.sample(pool, c.n(600, 20000))
        jobs.append((sp, ["".join(chr(x) + c.rng.choice(al + ["", ""]) for x in xs[i:i + 30]) for i in range(0, len(xs), 30)], {}))
    fuzzed = pipe.validate(c, d, jobs, "result", describe)
    c.cover["characters_passed"] = sum(len(k["word"]) for k in fuzzed)
    enum_specs(c, d, c.n(16, 64), c.n(4, 5), ["Separation"], tweak=tweak, rewrites=(0, 3), norms=False,
               alpha=lambda r, G, sp: G.al[:2] + r.sample(gen.PUNCT, 2) + [r.choice(gen.OUTSIDE[G.script]), " "])


def C06(c):
    d = Driver()
    cap = {"Latn": "ÀÉÑŽABǅǈĳßİſŊœÆ", "Cyrl": "АБЁЙҐЄїЇ", "Grek": "ΑΆΩΐΰΣς", "Geor": "ႠႡᲐა", "Hrkt": "ぁあがゔゞゟヿーｱヵ", "": "ÀÉÑŽABǅẞ"}

    def tweak(r, G, sp):
        sp["norms"] = []
        al = G.al + list(cap[G.script])
        base = [r.choice(al) for _ in range(3)]
        pool = set()
        for _ in range(r.randint(3, 8)):        # overlapping alternatives, some prefixes of others
            pool.add("".join(r.choice(base) for _ in range(r.randint(1, 4))))
        pool = sorted(pool)
        r.shuffle(pool)
        for t in r.sample(sorted(set(al)) + [G.al[0] + G.al[1], "\u0301"], r.randint(1, 3)):
            fr = [pool.pop() for _ in range(min(len(pool), r.randint(1, 3)))]
            if fr:
                sp["norms"].append((t, fr))
        # letters are visible in the result
        ls = sorted(set(G.al + list(cap[G.script]) + [x for t, _ in sp["norms"] for x in t]))
        sp["rewrite"] = []
        sp["transcribe"] = [(ch, chr(0x24ea) + chr(0x2460 + i) if i < 20 else chr(0x3251 + i - 20)) for i, ch in enumerate(ls)]

    def words(r, G, sp):
        al = G.al + list(cap[G.script])
        froms = [x for _, f in sp["norms"] for x in f] or al
        o = list("ÀÉéабвΑαაあアぁゝaBж漢 ·7") + ["\u0301", "\u1e69", "\ufb01"]
        return "".join(r.choice(froms) if r.random() < 0.5 else r.choice(al) if r.random() < 0.7 else r.choice(o) for _ in range(r.randint(1, 7)))
    fuzz(c, d, c.n(200, 3000), 20, tweak=tweak, gw=words, rewrites=(0, 0), transcribes=(0, 0))
    # every letter and mark of every script, under every script: what is folded how
    import unicodedata as ud
    r = c.rng
    ls = [chr(x) for x in range(0x41, 0x30000) if ud.category(chr(x))[0] in "LM" and
          ud.name(chr(x), "").replace("COMBINING ", "").replace("FULLWIDTH ", "").replace("HALFWIDTH ", "").split(" ")[0].split("-")[0] in
          ("LATIN", "CYRILLIC", "GREEK", "COPTIC", "GEORGIAN", "HIRAGANA", "KATAKANA", "KELVIN", "ANGSTROM", "OHM", "MODIFIER", "MICRO")]
    ls += [chr(x) for x in list(range(0x300, 0x370)) + [0x483, 0x488, 0x903, 0x20d0, 0x20dd, 0x3099, 0x309a, 0x309b, 0x309c, 0x309f, 0x30fb, 0x30fc, 0x30ff, 0xff70, 0x1b000, 0x1f200, 0x32d0, 0x3300]]
    jobs = []
    for sc in ("Latn", "Cyrl", "Grek", "Geor", "Hrkt"):
        xs = list(ls)
        r.shuffle(xs)
        sp = {"script": sc, "schemes": [], "macros": [], "vars": [], "norms": [], "rewrite": [("zz", "z")], "transcribe": []}
        for k in range(4):
            jobs.append((sp, ["".join(xs[i:i + 48]) for i in range(48 * k, len(xs), 192)], {}))
    c.cover["letters_folded"] = len(ls) * 5
    cases = pipe.validate(c, d, jobs, "trace", describe)
    count_effect(c, cases)
    enum_specs(c, d, c.n(10, 60), 4 if not c.thorough else 5, ["Normalization"], tweak=tweak, rewrites=(0, 0), transcribes=(0, 0),
               alpha=lambda r, G, sp: sorted({x for _, f in sp["norms"] for y in f for x in y})[:4] + [r.choice(cap[G.script])])


JPUNCT = list("。、：！？〜「」『』・…－") + list(".,!?'\"-:")


def C07(c):
    d = Driver()

    def tweak(r, G, sp):
        sp["norms"], sp["rewrite"] = [], []
        sp["transcribe"] = [(ch, gen.TOKENS[i]) for i, ch in enumerate(G.al)]
        if r.random() < 0.3:
            sp["transcribe"] += [(p, r.choice([p, "。", "、 ", "「", " 」", "\u200b"])) for p in r.sample(JPUNCT, 3) if p not in ".?"]

    def words(r, G, sp):
        return "".join(r.choice(JPUNCT) if r.random() < 0.5 else r.choice(G.al + [" ", "\u200b", "\u3000", "漢", "7", "\t", "가", "〱"]) for _ in range(r.randint(1, 8)))
    fuzz(c, d, c.n(120, 2000), 25, tweak=tweak, gw=words, script="Hrkt", norms=False, rewrites=(0, 0), transcribes=(0, 0))
    fuzz(c, d, c.n(80, 1000), 25, tweak=tweak, gw=words, norms=False, rewrites=(0, 0), transcribes=(0, 0))
    base = lambda sc, al: {"script": sc, "schemes": [], "macros": [], "vars": [], "norms": [], "rewrite": [],
                           "transcribe": [(ch, gen.TOKENS[i]) for i, ch in enumerate(al)]}
    sets = [list("。「ア \u200b"), list("、」『ア "), list("！』？ア "), list("：〜』 ア"), list(".'。ア "), list("\u200b「』 。"), list("…。、「 "), list("「」『』ア")]
    specs = [base("Hrkt", "ア") for _ in sets] + [base(x, "aбαა") for x in ("Latn", "Cyrl", "Grek", "Geor")]
    alphas = sets + [list("。, \u200b") + [x] for x in "aбαა"]
    pipe.enumerate_model(c, d, specs, alphas, [c.n(4, 6)] * len(specs), ["Localization"], timeout=1500)
    # every punctuation mark (and every blank) under every script: between letters, in a row, at the ends
    import unicodedata as ud
    marks = [chr(x) for x in range(0x20, 0x1f000) if ud.category(chr(x))[0] in "PZS" or chr(x) in "\t\n\r\x0b\x0c\x85"]
    extra = [x for x in marks if ud.category(x)[0] == "S"]
    marks = [x for x in marks if x not in set(extra)] + c.rng.sample(extra, 200)
    jobs = []
    for sc in ("Latn", "Cyrl", "Grek", "Geor", "Hrkt"):
        xs = list(marks)
        c.rng.shuffle(xs)
        sp = base(sc, gen.ALPHA[sc][:3])
        sp["rewrite"] = [("zz", "z")]
        jobs.append((sp, ["".join(y + c.rng.choice(["漢", "漢", "", " ", "7", "。", gen.ALPHA[sc][0]]) for y in xs[i:i + 40]) for i in range(0, len(xs), 40)], {}))
    c.cover["marks_localized"] = len(marks) * 5
    cases = pipe.validate(c, d, jobs, "result", describe)
    count_effect(c, cases)


def C08(c):
    d = Driver()
    r = c.rng
    allj = [chr(x) for x in range(0x3131, 0x3164)]
    syl = [chr(r.randint(0xac00, 0xd7a3)) for _ in range(6)] + ["가", "각", "힣"]

    def table(items):
        """a spec whose transcribe rules write each item for a letter of its own"""
        al = [chr(x) for x in list(range(0x10d0, 0x10f6)) + list(range(0x10a0, 0x10c5))][:len(items)]
        assert len(al) == len(items)
        return dict(script="Geor", schemes=[], macros=[], vars=[], norms=[], rewrite=[], transcribe=list(zip(al, items))), dict(zip(items, al))
    # 1. exhaustive: sequences of representative jamo
    sets = [["ㄱ", "ㅏ", "-", "ㄴ", "가"], ["ㅇ", "ㅡ", "-", "각", "X"], ["ㄲ", "ㅏ", "ㅣ", "-", "."], ["ㄸ", "ㅢ", "-", "ㅎ", "힣"],
            ["ㄳ", "ㅏ", "-", r.choice("A\u2010\u2013\u2212\uff0d"), "ㅂ"], ["-", "ㄹ", "ㅗ", "가", " "], ["ㅃ", "ㅐ", "-", "각", "ㅆ"], [r.choice(allj[:30]), r.choice(allj[30:]), "-", r.choice(syl), r.choice(allj)]]
    L = c.n(5, 7)
    cfg = "INIT Init\nNEXT Next\nINVARIANT EmitResult Syllabic NoHyphen\n"
    outs = tlc_many([dict(module="MCJamo", workers=1, cfgtext=cfg, name="Syllabic", timeout=1500, long=c.thorough,
                          data={"alphas": [[ord(x) for x in s]], "lens": [L]}) for s in sets])
    reqs, want = [], []
    for s, (recs, _) in zip(sets, outs):
        sp, m = table(s)
        reqs.append({"id": str(len(reqs)), "op": "spec", "src": cps(pipe.render(sp)),
                     "words": [[ord(m[chr(x)]) for x in q["w"]] for q in recs]})
        want.append(recs)
    for rq, m, recs in zip(reqs, d.run(reqs), want):
        if crashed(m) or m.get("perr"):
            c.violation("jamo spec: %s" % (crashed(m) or m["perr"]), {"request": dict(rq, words=[])})
            continue
        for q, w, x in zip(recs, rq["words"], m["res"]):
            c.traces += 1
            if crashed(x) or x["out"] != q["out"]:
                c.violation("jamo %r compose to %r by the specification; the code gave %s" % (
                    text(q["w"]), text(q["out"]), crashed(x) or repr(text(x["out"]))), {"request": dict(rq, words=[w])})
    c.sample({"jamo": text(want[0][-1]["w"]), "composed": text(want[0][-1]["out"])})
    # 2. all pairs and tails over all jamo
    hy = list("\u2010\u2011\u2013\u2212\uff0d\u00ad\u30fc\u2500\uffa1\u321d\u3200")      # looks like a hyphen or a jamo, is none (conjoining jamo, U+1100.., do compose: not promised)
    items = allj + ["-"] + syl[:3] + ["Z"] + hy
    sp, m = table(items)
    ws = []
    for a in allj:
        for b in r.sample(allj, c.n(12, 51)):
            ws.append(m[a] + m[b])
            ws.append(m[a] + m[b] + m["-"] + m[r.choice(allj)])
        ws.append(m[syl[0]] + m["-"] + m[a])
        ws.append(m["가"] + m[a] if "가" in m else m[syl[1]] + m[a])
        ws.append(m["-"] + m[a] + m["Z"] + m[a])
        ws.append(m["가"if "가" in m else syl[1]] + m[r.choice(hy)] + m[a] + m[r.choice(allj[30:])])
        ws.append(m[r.choice(hy)] + m[a] + m[r.choice(hy)] + m["-"] + m[r.choice(allj[:30])])
    for _ in range(c.n(4, 40)):
        ws.append("".join(m[r.choice(allj + ["-", "-"] + syl[:2])] for _ in range(r.randint(80, 250))))
    for _ in range(c.n(400, 8000)):
        ws.append("".join(m[r.choice(items) if r.random() > 0.2 else "-"] for _ in range(r.randint(2, 9))))
    cases = pipe.validate(c, d, [(sp, ws[i::8], {}) for i in range(8)], "result", describe)
    count_effect(c, cases)
    # 3. every lead and vowel, with and without a tail; every composed syllable before a tail
    L, V, T = [chr(0x3131 + i) for i in range(30)], [chr(x) for x in range(0x314f, 0x3164)], [chr(0x3131 + i) for i in range(30)]
    chunks = []
    def cell(kind):
        if kind == "lvt":
            return [r.choice(L), r.choice(V), "-", r.choice(T)]
        if kind == "s-t":
            return [chr(0xac00 + 28 * r.randrange(399)), "-", r.choice(T)]
        if kind == "st-t":
            return [chr(0xac00 + r.randrange(11172)), "-", r.choice(T)]
        return [chr(0xac00 + r.randrange(11172)), r.choice(L + V)]
    if c.thorough:
        cells = [[a, b, "-", t] for a in L for b in V for t in T + [None]]
        cells = [x if x[3] else x[:2] for x in cells] + [[chr(0xac00 + 28 * i), "-", t] for i in range(399) for t in T]
        r.shuffle(cells)
    else:
        cells = [[a, b, "-", r.choice(T)] for a in L for b in V] + [[a, "ㅏ", "-", t] for a in L for t in r.sample(T, 4)]
        cells += [[chr(0xac00 + 28 * i), "-", r.choice(T)] for i in range(399)]
    cells += [cell(r.choice(["st-t", "x", "lvt", "s-t"])) for _ in range(c.n(300, 5000))]
    while cells:
        part, cells = cells[:24], cells[24:]
        # the items of these cells, each written for a letter of its own
        its = sorted({x for q in part for x in q if x != "Z"})[:70] + ["Z"]
        part = [q for q in part if all(x in its for x in q)]
        sp2, m2 = table(its)
        chunks.append((sp2, ["".join("".join(m2[x] for x in q) + (m2["Z"] if r.random() < 0.3 else "") for q in part[k:k + 4]) for k in range(0, len(part), 4)], {}))
    c.cover["jamo_cells"] = sum(len(ws) for _, ws, _ in chunks) * 4
    cases = pipe.validate(c, d, chunks, "result", describe)
    count_effect(c, cases)
    # a syllable is not broken wherever it begins
    sp3, m3 = table(["ㄱ", "ㅏ", "-", "ㄴ", "각나다", "X"])
    jobs = []
    for n in c.n([1430, 1600], [1430, 2000, 2800, 4200]):
        jobs.append((sp3, ["".join(m3[x] for x in (["X"] * k + ["ㄱ", "ㅏ", "-", "ㄴ"] * n)[:n]) for k in range(4)], {}))
    jobs += [(sp3, ["".join(m3[r.choice(["ㄱ", "ㅏ", "ㅏ", "-", "ㄴ", "각나다", "X"])] for _ in range(n))], {}) for n in c.n([1500], [1500, 2300, 4000])]
    long = "각나다라마바사하가" * 13 + "하"
    sp4, m4 = table(["ㄱ", "ㅏ", "-", "ㄴ", long])
    for n in c.n([600], [600, 1200, 2400]):
        jobs.append((sp4, ["".join(m4[x] for x in ([long] * k + ["ㄱ", "ㅏ", "-", "ㄴ"] + [long, "-", "ㄴ"] * n)[:n]) for k in range(2)], {}))
    cases = pipe.validate(c, d, jobs, "result", describe)
    # 4. across parts
    fuzz(c, d, c.n(60, 1000), 15, norms=False, rewrites=(0, 1))


BLOCKS = [(0x20, 0x7f), (0xa0, 0x24f), (0x250, 0x2af), (0x300, 0x36f), (0x370, 0x3ff), (0x400, 0x52f), (0x10a0, 0x10ff), (0x1e00, 0x1fff),
          (0x2000, 0x206f), (0x3000, 0x30ff), (0x3130, 0x318f), (0x4e00, 0x4fff), (0xac00, 0xacff), (0xff00, 0xffef), (0x1f600, 0x1f640),
          (1, 0x1f), (0x10400, 0x1044f), (0x1100, 0x11ff), (0xfff0, 0xfffd)]


def C15(c):
    d = Driver(limit=120)
    r = c.rng
    B = pipe.bundled()
    jobs = []
    for l, sp in B.items():
        ex = [w for w, _ in sp["test"]]
        pool = "".join(ex)
        ws = []
        for _ in range(c.n(120, 3000)):
            x = r.random()
            if x < 0.3:
                w = "".join(r.choice(pool) for _ in range(r.randint(1, 12)))
            elif x < 0.6:
                w = "".join(r.choice(pool) if r.random() < .6 else chr(r.randint(*r.choice(BLOCKS))) for _ in range(r.randint(1, 12)))
            elif x < 0.7:
                w = "".join(chr(r.randint(*r.choice(BLOCKS))) for _ in range(r.randint(1, 8)))
            elif x < 0.8:
                w = r.choice(ex) + r.choice([" ", "-", ",", "\n", "'"]) + r.choice(ex)
            elif x < 0.9:
                w = "".join(r.choice(sorted(set(pool))[:4] + [" ", "{}", "-", "'"]) for _ in range(r.randint(2, 30)))
            elif x < 0.95:
                w = r.choice(ex).upper()
            else:
                w = r.choice(sorted(set(pool))) * r.randint(2, 40)
            ws.append(w)
        # long stretches of letters, also of ones that no rule knows
        for _ in range(c.n(5, 40)):
            a, b = r.choice(BLOCKS)
            ws.append(r.choice(["", "a", r.choice(ex)]) + "".join(chr(r.randint(a, b)) for _ in range(r.randint(20, 200))))
        for _ in range(c.n(8, 80)):
            x = chr(r.randint(*r.choice(BLOCKS[1:8])))
            ws.append(r.choice(["", "", r.choice(ex)]) + x * r.choice([3, 17, 40, 70, 130, 260]) + r.choice(["", "", r.choice(ex)]))
        for n in (r.choice([90, 130, 300, 520, 1030]), r.choice([600, 1500, 3000]) if c.thorough or r.random() < 0.3 else 350):
            ws.append(r.choice(["".join(r.choice(ex) for _ in range(n))[:n], r.choice(pool) * n, "".join(r.choice(pool) for _ in range(n))]))
        if c.thorough or r.random() < 0.25:
            ws.append("".join(r.choice(ex) + " " for _ in range(200)))
        # what each rule waits for
        ins = [x for x in (gen.instance(r, e, sp) for e, _ in sp["rewrite"] + sp["transcribe"]) if x]
        c.cover["rules_met"] = c.cover.get("rules_met", 0) + len(ins)
        r.shuffle(ins)
        while ins:
            ws.append(r.choice(["", r.choice(ex) + " "]) + " ".join(ins[:6]))
            ins = ins[6:]
        ws += ["", " ", "\u200b", "\x00", "a\x00b", "{}", "\ufffd", "<v>", "\\", "$^.*", "ㅎ", "-", "ㄱ-ㄴ"]
        jobs.append((sp, ws, l))
    # broken bytes go in as well: no claim about the result but that there is one
    reqs = [{"id": l, "op": "lang", "lang": l, "std": True,
             "words": [[-2000 - r.randint(128, 255) if r.random() < .4 else ord(r.choice("".join(w for w, _ in sp["test"]))) for _ in range(r.randint(1, 8))]
                       for _ in range(c.n(20, 400))]} for l, sp in B.items()]
    cases = pipe.total(c, d, jobs)
    for rq, m in zip(reqs, d.run(reqs)):
        for w, x in zip(rq["words"], m.get("res", [])):
            c.traces += 1
            if crashed(x) or x.get("err"):
                c.violation("%s, bytes %r: %s" % (rq["id"], w, crashed(x) or x["msg"]), {"request": dict(rq, words=[w])})
        if crashed(m):
            c.violation("%s: %s" % (rq["id"], crashed(m)), {"request": rq})
    count_effect(c, cases)
    c.sample({"language": jobs[0][2], "word": text(cases[0]["word"]), "result": text(cases[0]["result"])})
    # the specification of each language, on every word over some of its letters
    langs = [l for l, sp in B.items() if not sp["schemes"] and (c.thorough or len(sp["rewrite"]) + len(sp["transcribe"]) < 400)]
    specs = [B[l] for l in langs]
    alphas = [r.sample(sorted({ch for w, _ in sp["test"] for ch in w}), c.n(4, 6)) for sp in specs]
    pipe.enumerate_model(c, d, specs, alphas, [c.n(2, 3)] * len(specs), ["Proper"], timeout=2400, opts=[{"lang": l} for l in langs])


def C16(c):
    d = Driver()
    r = c.rng
    B = pipe.bundled()
    m = d.one(op="langs")
    c.traces += 1
    want = sorted(B)
    if m["langs"] != want:
        c.violation("the listed languages are %r, the bundled ones %r" % (m["langs"], want), {"request": {"id": "x", "op": "langs"}})
    known = {"", "Latn", "Cyrl", "Geor", "Grek", "Hrkt"}
    # every example, in shuffled order, twice, all languages mixed, on instances and through the package
    reqs = []
    for l, sp in B.items():
        ws = [w for w, _ in sp["test"]]
        for rep in range(2):
            idx = list(range(len(ws)))
            r.shuffle(idx)
            if rep:
                idx = idx[: max(1, len(idx) // 4)] * 2
            for k in range(0, max(1, len(idx)), 40):
                part = idx[k:k + 40]
                reqs.append({"id": l, "op": "lang", "lang": l, "std": True, "words": [cps(ws[i]) for i in part], "_i": part,
                             "via": "pkg" if rep and k % 80 else "", "dump": k == 0})
    r.shuffle(reqs)
    for rq, m in zip(reqs, d.run([{k: v for k, v in q.items() if k != "_i"} for q in reqs])):
        l = rq["id"]
        if crashed(m) or m.get("perr"):
            c.violation("%s: %s" % (l, crashed(m) or m["perr"]), {"request": rq})
            continue
        if m.get("dump"):
            D = m["dump"]
            if text(D["id"]) != l or text(D["script"]) not in known:
                c.violation("%s loads as %r with script %r" % (l, text(D["id"]), text(D["script"])), {"request": rq})
        for i, x in zip(rq["_i"], m["res"]):
            c.traces += 1
            w, e = B[l]["test"][i]
            if crashed(x) or x.get("err") or x["out"] != cps(e):
                c.violation("%s: %r gives %s, its example says %r" % (l, w, crashed(x) or x.get("msg") or repr(text(x["out"])), e),
                            {"request": dict(rq, words=[cps(w)])})
    std = set(d.one(op="langs")["std"])
    for l, sp in B.items():
        for s in sp["schemes"]:
            if s not in std:
                c.violation("%s needs the scheme %r which the standard set lacks" % (l, s), {"request": {"op": "langs", "id": "x"}})
    # names nobody listed
    bad = ["", "xxx", "ITA", "ita ", " ita", "ita.hsl", "../specs/ita", "specs/ita", "./ita", "it", "kor", "ita\x00", "jpn-", "jpn/ck", "*", "ita/../ita", "한국어", "i?a", "itaa"]
    bad += ["".join(r.choice("abcdefghij-") for _ in range(3)) for _ in range(10)]
    bad = [b for b in bad if b not in B]
    import checks_hist
    # ... also once the language is loaded
    hs = []
    for l in sorted(B):
        odd = [x for x in checks_hist.strange(l) if x not in B]
        hs.append({"id": l, "op": "history", "ops": [{"op": "load", "lang": l, "snap": "s1"}] + [o for x in odd for o in (
            {"op": "load", "lang": x, "snap": "s2"}, {"op": "run", "reg": "", "lang": x, "word": cps("Abc")})]})
    for q, m in zip(hs, d.run(hs)):
        c.traces += 1
        if crashed(m):
            c.violation("%s: %s" % (q["id"], crashed(m)), {"request": q})
            continue
        for o, x in list(zip(q["ops"], m["res"]))[1:]:
            if crashed(x) or x["err"] != "notfound" or x.get("spec") or o["op"] == "run" and x["out"] != o["word"]:
                c.violation("%s after %s was loaded: %s" % (o, q["id"], crashed(x) or x), {"request": q})
                break
    reqs = [{"id": b, "op": "lang", "lang": b, "via": v, "words": [cps("Cappuccino"), cps(""), cps("é漢"), cps(r.choice([" a ", "\ta", "a\n", "  ", "\u200ba\u200b", "e\u0301", "A\x00"])), [97, -2255, 98]]} for b in bad for v in ("", "pkg")]
    for rq, m in zip(reqs, d.run(reqs)):
        c.traces += 1
        if crashed(m):
            c.violation("language %r: %s" % (rq["lang"], crashed(m)), {"request": rq})
        elif rq["via"] == "":
            if m.get("perr") != "notfound":
                c.violation("LoadSpec(%r) gives %r" % (rq["lang"], m.get("perr")), {"request": rq})
        else:
            for w, x in zip(rq["words"], m["res"]):
                if crashed(x) or x["err"] != "notfound" or x["out"] != w:
                    c.violation("Hangulize(%r, %r) gives %r, error %r" % (rq["lang"], text(w), text(x.get("out", [])), x.get("err")), {"request": rq})
    # by the specification the rules of each language imply its examples
    n = c.n(10, 10000)
    jobs = [(sp, r.sample([w for w, _ in sp["test"]], min(len(sp["test"]), n if len(sp["rewrite"]) + len(sp["transcribe"]) < 400 or c.thorough else 3)), {"lang": l})
            for l, sp in B.items()]
    cases = pipe.validate(c, d, jobs, "result", describe, timeout=2400)
    count_effect(c, cases)
    note(c, cases, jobs, "language")


def C02(c):
    d = Driver()
    long_words(c, d, "trace")

    def many(r, G, sp):
        # hundreds of rules, most of which change nothing
        z = lambda: r.choice(G.al) + r.choice(G.al) + r.choice(G.al)
        sp["rewrite"] = [(z(), r.choice(G.al)) for _ in range(r.randint(258, 330))]
        sp["transcribe"] = [(z(), jam(r)) for _ in range(r.randint(258, 330))] + [(x, jam(r)) for x in G.al]
    jam = gen.jamo
    fuzz(c, d, c.n(2, 10), 6, mode="trace", tweak=many, gw=lambda r, G, sp: "".join(r.choice(G.al) for _ in range(12)), norms=False)
    jobs = bundled_jobs(c, c.n(4, 40), c.n(1, 10))
    cases = pipe.validate(c, d, jobs, "trace", describe, timeout=c.n(300, 3000))
    note(c, cases, jobs, "language")
    count_effect(c, cases)
    for _ in range(c.n(1, 12)):
        fuzz(c, d, c.n(220, 400), 15, mode="trace")
        fuzz(c, d, c.n(40, 100), 12, mode="trace", depth=2, rewrites=(4, 12), transcribes=(4, 12))

    def tweak(r, G, sp):
        # steps which change nothing, or back and forth
        a, b = G.al[:2]
        sp["rewrite"] += [(a, b), (b, a)] if r.random() < 0.5 else [(a, a), (b, b + a)]
        if r.random() < 0.5:
            sp["transcribe"].insert(0, (a, r.choice([a, b, " ", ""])))
    fuzz(c, d, c.n(60, 800), 15, mode="trace", tweak=tweak)
    several_schemes(c, d, c.n(40, 400), "trace")
    import checks_hist
    checks_hist.trace_histories(c, d)


def stirring(r, chars, n):
    """words that may leave something behind: long, odd, of every script, of the word's own letters"""
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.3:
            w = "".join(r.choice(chars) for _ in range(r.choice([3, 20, 45, 70, 140])))
        elif x < 0.6:
            w = "".join(r.choice(chars) if r.random() < .5 else chr(r.randint(*r.choice(BLOCKS))) for _ in range(r.choice([2, 8, 30, 60])))
        elif x < 0.8:
            w = "".join(chr(r.randint(*r.choice(BLOCKS))) for _ in range(r.choice([1, 5, 20, 90])))
        elif x < 0.9:
            w = "".join(r.choice(chars) for _ in range(r.randint(1, 6))).upper()
        else:
            w = r.choice(chars) * r.choice([2, 9, 33, 257]) + r.choice([" ", "-", "\u00b7", "ǅ", "\u0000", "{}", ""])
        out.append(cps(w))
    out.append([-2000 - r.randint(128, 255), ord(r.choice(chars)), -2000 - 200])
    return out


def probes(r, chars, n):
    """words on which something left behind would show: every mark between letters, odd letters"""
    marks = "!\"#%&'()*+,-./:;=?@_|~\u00a1\u00ab\u00b7\u00bb\u2010\u2013\u2014\u2018\u2019\u201c\u201d\u2022\u2026\u2027\u3001\u3002\u30fb\u30a0\uff0c ǅßĸŉſIİıΣς\u0301"
    al = [x for x in chars if x.strip()] or ["a"]
    return ["".join(r.choice(al) + x for x in r.sample(marks, 7)) + r.choice(al) for _ in range(n)]


def siblings(r, sp):
    """specs which have much in common with a spec but mean something else"""
    def but(**kw):
        return dict(sp, **kw)
    al = list(gen.ALPHA[sp["script"]])
    out = [but(macros=[]), but(norms=[]), but(vars=[(n, list(reversed(v))) for n, v in sp["vars"]]),
           but(vars=[(n, r.sample(al, len(v))) for n, v in sp["vars"]]),
           but(script=r.choice([x for x in gen.ALPHA if x != sp["script"]])),
           but(rewrite=[]), but(transcribe=sp["transcribe"][::-1]), but(rewrite=sp["rewrite"][::-1])]
    if sp["macros"]:
        out.append(but(macros=[(n, r.choice(al)) for n, _ in sp["macros"]]))
    if sp["norms"]:
        k = sp["norms"]
        out.append(but(norms=[(r.choice(al) + str(i), f) for i, (_, f) in enumerate(k)]))
    # the same left sides, other right sides; the same right sides, other left sides
    out.append(but(rewrite=[(l, r.choice(al)) for l, _ in sp["rewrite"]], transcribe=[(l, gen.jamo(r)) for l, _ in sp["transcribe"]]))
    out.append(but(rewrite=[(r.choice(al), x) for _, x in sp["rewrite"] if "<" not in x]))
    r.shuffle(out)
    return out


def C17(c):
    import checks_hist
    d = Driver()
    r = c.rng
    reqs, jobs = [], []

    def tweak(rr, G, sp):
        # overlapping macros and alternatives, so that an order could matter
        al = G.al
        sp["macros"] = [(n, rr.choice(al)) for n in rr.sample(["%", "%%", "%%%", "%" + al[0], "@", "@@", "@%"], 4)]
        x = rr.choice(al)
        pool = list({x * k + y for k in range(0, 3) for y in al})
        rr.shuffle(pool)
        sp["norms"] = [(t, [pool.pop() for _ in range(3)]) for t in rr.sample(al, 2)]
        sp["rewrite"] += [("%%%", rr.choice(al)), ("%" + al[0] + "%", rr.choice(al)), ("@@%", rr.choice(al))]
    for i in range(c.n(120, 1200)):
        G = gen.SpecGen(r)
        sp = G.make()
        if i % 2:
            tweak(r, G, sp)
        ws = [G.word(sp) for _ in range(9)]
        jobs.append((sp, ws, {}))
        if sp["norms"] and r.random() < 0.4:       # an alternative of several targets: which one wins is not promised, that it is always the same is
            sp = dict(sp, norms=[(t, list(f)) for t, f in sp["norms"]])
            x = r.choice(r.choice(sp["norms"])[1])
            for t in r.sample(G.al + ["q", "z"], 3):
                at = [f for y, f in sp["norms"] if y == t]
                if not at:
                    sp["norms"].append((t, [x]))
                elif x not in at[0]:
                    at[0].append(x)
            ws = ws + [x, r.choice(G.al) + x * 2]
        seen = sorted({x for w in ws for x in w}) or ["a"]
        ws = ws + probes(r, seen, 3)
        reqs.append({"id": str(i), "op": "reload", "src": cps(pipe.render(sp)), "words": [cps(w) for w in ws], "repeat": c.n(6, 16), "stir": stirring(r, seen, c.n(8, 30))})
    B = pipe.bundled()
    for l, sp in B.items():
        ws = bundled_words(c, l, sp, c.n(5, 30))
        if sp["schemes"]:
            ws += ["shch", "yuya", "zhzh", "ts't", "yiye", "kh'", "Shchyo"]
        with open(os.path.join(REPO, "specs", l + ".hsl"), "rb") as h:
            src = h.read()
        reqs.append({"id": l, "op": "reload", "src": cps(src), "words": [cps(w) for w in ws + probes(r, sorted({x for w in ws for x in w}) or ["a"], 3)], "repeat": c.n(3, 8), "std": True,
                     "stir": stirring(r, sorted({x for w in ws for x in w}) or ["a"], c.n(4, 30))})
    first = None
    for run in range(c.n(3, 8)):
        res = d.run(reqs)
        for rq, m in zip(reqs, res):
            c.traces += len(rq["words"]) * rq["repeat"]
            if crashed(m):
                c.violation("%s: %s" % (rq["id"], crashed(m)), {"request": rq})
            elif m.get("perr"):
                c.violation("%s: refused: %s" % (rq["id"], m["perr"]), {"request": rq})
            elif m["diff"]:
                c.violation("loaded and run %d times, the same spec and word differ: %s" % (rq["repeat"], json.dumps(m["diff"][0])[:1500]), {"request": rq})
        if first is None:
            first = res
        for rq, a, b in zip(reqs, first, res):
            if a != b and not crashed(a) and not crashed(b):
                c.violation("another process gives another answer for %s" % rq["id"], {"request": rq, "a": a.get("res"), "b": b.get("res")})
    # one process loads specs which are nearly the same
    for _ in range(c.n(14, 300)):
        G = gen.SpecGen(r, vars=r.random() < 0.6)
        sp = G.make()
        while not sp["macros"]:
            sp = G.make()
        for m, _ in sp["macros"]:
            if r.random() < 0.7:
                sp["rewrite"].append((r.choice(["", "^", "{%s}" % r.choice(G.al)]) + m, r.choice(G.al)))
        ws = [G.word(sp) for _ in range(7)] + ["".join(r.choice(G.al + [m for m, _ in sp["macros"]]) for _ in range(6)) for _ in range(2)]
        sib = siblings(r, sp)
        for x in ([sp] if r.random() < 0.5 else []) + sib + [sp]:
            jobs.append((x, ws, {}))
    cases = pipe.validate(c, d, jobs, "trace", describe)
    note(c, cases, jobs, "spec")
    count_effect(c, cases)
    checks_hist.same_answers(c, d)
