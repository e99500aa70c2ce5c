"""C23, C24 (Furigana.tla), C25 (Pinyin.tla), C26 (Cyrillic.tla): the standard
transliterators."""
import json, os, unicodedata
from vlib import *

# --- facts of Unicode about kana -----------------------------------------------------

def kana_facts():
    """[c, syllabary, plain, voiced, vowel]"""
    out = []
    for syl, lo, hi in (("hira", 0x3041, 0x3096), ("kata", 0x30A1, 0x30FA)):
        for c in range(lo, hi + 1):
            ch = chr(c)
            plain = unicodedata.normalize("NFD", ch)[0]
            v = unicodedata.normalize("NFC", plain + "\u3099") if plain == ch else ch
            voiced = v if len(v) == 1 else ch
            name = unicodedata.name(ch).split()[-1]
            vowel = ""
            if syl == "kata" and name[-1] in "AIUEO" and ch not in "ッヵヶ":
                vowel = name[-1].lower()
            out.append([c, syl, ord(plain), ord(voiced), vowel])
    return out


FURI_CACHE = {}


def furi_replay(cases):
    """runs the in-package replay; returns one record per case"""
    d = os.path.join(scratch(), "furi%d" % len(FURI_CACHE))
    FURI_CACHE[d] = 1
    os.makedirs(d)
    with open(os.path.join(d, "in.json"), "w") as f:
        json.dump(cases, f)
    test_bin = os.path.join(scratch(), "furi.test")
    if not os.path.exists(test_bin):
        build_test("./translit/furigana", "furi.test", {os.path.join(REPO, "translit/furigana/verif_replay_test.go"): os.path.join(VERIF, "driver/furigana/verif_test.go")})
    e = dict(os.environ, VERIF_IN=os.path.join(d, "in.json"), VERIF_OUT=os.path.join(d, "out.json"))
    p = subprocess.run(["timeout", "-k", "5", "300", test_bin, "-test.run", "^TestVerifReplay$", "-test.count=1"], capture_output=True, text=True, env=e, cwd=d, errors="replace")
    out = []
    if os.path.exists(os.path.join(d, "out.json")):
        for line in open(os.path.join(d, "out.json")):
            try:
                out.append(json.loads(line))
            except ValueError:
                break
    if not out or not out[-1].get("end"):
        n = len(cases.get("kana", [])) + len(cases.get("picks", []))
        # the process stopped on a case: it crashed or hung there
        return out + [{"panic": "the process ended: rc=%d %s" % (p.returncode, (p.stderr + p.stdout)[-800:])}] * (n - len(out))
    return out[:-1]


def base(d, chars):
    f = d.one(op="facts", chars=sorted(set(chars)))
    return {"kana": kana_facts(), "space": f["space"], "alphabets": [], "depth": 0, "pool": [], "tdepth": 0, "cases": []}


VOWELS = "ァアィイゥウェエォオ"
KATA = "".join(chr(c) for c in range(0x30A1, 0x30FB))
HIRA = "".join(chr(c) for c in range(0x3041, 0x3097))
MARKS = "ゝゞヽヾ"


def C23(c):
    d = Driver()
    r = c.rng
    al = []
    # every kana with every mark and every vowel; longer texts over a few
    for k in range(0, len(KATA), 30):
        al.append((KATA[k:k + 30] + HIRA[k:k + 30] + MARKS, 2))
    al += [("かカがーゝヽゞヾ", c.n(4, 5)), ("かハー・゛ゝヽ", 4)]
    al += [("かがはばぱうゔんっ" + MARKS, 4), ("カガハバパウヴワヷ" + MARKS, 4), ("ヰヸヱヹヲヺつづツヅ" + MARKS + "々x", c.n(3, 4))]
    al += [(VOWELS + KATA[k:k + 12], 2) for k in range(0, len(KATA), 12)]
    al += [(VOWELS + "コテトデドチ", 3), ("アイウエオコーンxか", 4)]
    for _ in range(c.n(4, 24)):
        al.append(("".join(r.sample(KATA + HIRA + VOWELS * 3 + "ーンx漢々 、", 6)) + "".join(r.sample(MARKS, 2)) + r.choice(VOWELS), c.n(4, 5)))
    al = [("".join(sorted(set(s))), n) for s, n in al]
    B = base(d, [ord(x) for s, _ in al for x in s])
    B["alphabets"] = [{"chars": cps(s), "depth": n} for s, n in al]
    recs, _ = tlc("MCFuri", cfgtext="INIT Init\nNEXT Next\nINVARIANT Check\n", name="every-text", data=B, heap="6g", long=True, timeout=c.n(500, 3000))
    recs = [x for x in recs if x["k"] == "kana"]
    # a mark after a sign of its own kana block is not promised
    odd = {(ord(x), ord(y)) for xs, ys in (("ー・゠ヿ", "ヽヾ"), ("゛゜ゟ", "ゝゞ")) for x in xs for y in ys}
    clear = lambda w: not any(p in odd for p in zip(w, w[1:]))
    got = furi_replay({"kana": [x["w"] for x in recs], "merges": [list(range(len(x["w"]) + 1)) for x in recs]})
    for x, g in zip(recs, got):
        c.traces += 1
        t = text(x["w"])
        if crashed(g):
            c.violation("%r: %s" % (t, crashed(g)), {"word": t})
        elif clear(x["w"]) and g["out"] != x["r"]:
            c.violation("iteration marks of %r: %r instead of %r" % (t, text(g["out"]), text(x["r"])), {"word": t})
        else:
            for n, (a, b) in enumerate(zip(x["m"], g["merges"])):
                if a != b:
                    c.violation("long vowels of %r from %d: %r instead of %r" % (t, n, text(b), text(a)), {"word": t, "offset": n})
                    break
    c.cover["enumerated_texts"] = len(recs)
    # long texts, checked step by step; through the exported function as well
    words = []
    for _ in range(c.n(250, 5000)):
        w = "".join(r.choice([KATA, HIRA, VOWELS, MARKS, MARKS, "ー々x 漢、1é"])[0:][r.randrange(4)] if r.random() < 0.3 else r.choice(KATA + HIRA + VOWELS * 4 + MARKS * 8 + "ー々 漢x") for _ in range(r.randint(0, 24)))
        if clear(cps(w)):
            words.append(w)
    offs = [sorted(r.randint(0, len(w) + 2) for _ in range(3)) for w in words]
    got = furi_replay({"kana": [cps(w) for w in words], "merges": offs})
    cases = []
    for i, (w, g) in enumerate(zip(words, got)):
        c.traces += 1
        if crashed(g):
            c.violation("%r: %s" % (w, crashed(g)), {"word": w})
        else:
            cases.append({"id": i, "kind": "kana", "word": cps(w), "out": g["out"], "merges": [{"n": n, "out": m} for n, m in zip(offs[i], g["merges"])]})
    for x in trace_furi(c, d, cases):
        w = words[x["id"]]
        k = next(y for y in cases if y["id"] == x["id"])
        c.violation("%r: iteration marks %r (should be %r), long vowels %s (should be %s)" % (
            w, text(k["out"]), text(x["want"]), [(m["n"], text(m["out"])) for m in k["merges"]], [text(m) for m in x["merges"]]), {"word": w, "offsets": offs[x["id"]]})
    for w in words[:3]:
        c.sample(w)


def trace_furi(c, d, cases):
    """-> the records of the wrong ones"""
    if not cases:
        return []
    chars = {x for k in cases for x in k.get("word", []) + k["out"]} | {x for k in cases for t in k.get("tokens", []) for x in t["surf"]}
    n = min(8, max(1, len(cases) // 40))
    B = base(d, chars)
    outs = tlc_many([dict(module="TraceFuri", cfgtext="INIT Init\nNEXT Next\n", name="judge", workers=1, heap="2g", data=dict(B, cases=cases[k::n])) for k in range(n)])
    recs = [x for o, _ in outs for x in o]
    if len(recs) != len(cases):
        raise HarnessError("TraceFuri judged %d of %d" % (len(recs), len(cases)))
    return sorted((x for x in recs if not x["right"]), key=lambda x: x["id"])


# --- C24 ------------------------------------------------------------------------------

POS = {"フィラー": "filler", "記号": "sign", "助動詞": "aux", "助詞": "particle"}


def token(t):
    f = [text(x) for x in t["f"]]
    known = t["class"] == "KNOWN"
    f += [""] * 9
    return {"dummy": t["class"] == "DUMMY", "known": known, "surf": t["surf"], "pos": POS.get(f[0], "other") if known else "other",
            "root": {"は": "ha", "へ": "he"}.get(f[6], "other"), "person": f[2] == "人名", "pron": cps(f[8]) if known else []}


NAMES_ = ["新海", "誠", "松本", "行弘", "田中", "太郎", "山田", "花子", "鈴木", "一郎", "佐藤", "健", "宮崎", "駿"]
NOUNS = ["東京", "学校", "北海道", "自動車", "食べ物", "城", "猫", "犬", "本", "映画", "空", "天気", "王", "大通り", "お母さん", "会社"]
VERBS = ["食べよう", "話さなかろう", "行きましょう", "思う", "縫う", "聞いて", "動く", "食べた", "走らない", "見たい", "歌うだろう", "来ない", "です", "でしょう", "だろう", "だ", "ます", "った", "行こうとした"]
ADJ = ["優しい", "可愛い", "遠い", "美しかった", "大きくない"]
PART = ["は", "へ", "を", "が", "の", "に", "と", "も", "から", "ヘ", "ハ", "って"]
ODDW = ["ホウオウ", "ゲーム", "キイテ", "ネェ", "チイ", "ヴァイオリン", "ｶﾞｯｺｳ", "abc", "ＡＢ", "12", "(^^)", " ", "　", "\t", "、", "。", "「", "」", "…", "\n", "ー", "々", "ゝ", "ゞ", "ヽ", "時々", "いすゞ", "バナヽ", "か\u3099", "ハ\u309a", "\uf900", "神", "ﾊﾟ", "🙂", "é", "えーと", "あのう", "うーん", "コウ", "イイ", "xオオ", "オウ", "ウ", "\u200b", "한글", "ノウ", "\x00", "ア", "アア"]


ASCII = [chr(x) for x in range(1, 0x7f)] + ["**", "* ", "*a", "-*-", "①", "㍿", "ﬁ", "か\u3099", "は\u309a", "カ\u3099", "ハ\u309a", "ゝ\u3099", "ヽ\u3099", "う\u3099", "ワ\u3099"]


def sentence(r):
    n = r.randint(1, 9)
    s = ""
    for _ in range(n):
        k = r.random()
        if k > 0.93:
            s += r.choice(ASCII) + r.choice(["", "ゝ", "ゞ", "ヽ", "ヾ", "ゝゞ"])
            continue
        s += r.choice(NAMES_ if k < 0.25 else NOUNS if k < 0.4 else PART if k < 0.58 else VERBS if k < 0.74 else ADJ if k < 0.79 else ODDW)
    return s


POOL = ["新海誠", "は", "私は", "東京へ行く", "食べよう", "だろう", "ましょう", "ホウオウ", "えーと", "、", "田中 太郎", "話さなかろう", "xオ", "　", "東京タワー", "京都", "コウだ", "コオ"]


def C24(c):
    d = Driver()
    r = c.rng
    # 1. every sequence of tokens of a pool
    sents = [x for x in POOL]
    toks = d.one(op="tokens", words=[cps(x) for x in sents])["res"]
    pool, seen = [], set()
    for i, ts in enumerate(toks):
        for j, t in enumerate(ts):
            k = token(t)
            key = (json.dumps(k, sort_keys=True))
            if key not in seen:
                seen.add(key)
                pool.append((i, j, k))
    # the kinds which matter, first; then a random part
    def kind(k):
        return "dummy" if k["dummy"] else ("u" if not k["known"] else "k") + k["pos"] + k["root"] + str(k["person"]) + str("ウ" in text(k["pron"])[:1])
    by = {}
    for p in pool:
        by.setdefault(kind(p[2]), []).append(p)
    def chosen(n):
        small = [r.choice(v) for v in by.values()]
        while len(small) < n:
            small.append(r.choice(pool))
        return small
    picks, want = [], []
    for depth, n in c.n([(3, 16), (4, 7)], [(4, 18), (5, 11), (3, 40)]):
        small = r.sample(chosen(n), n) if n < len(by) else chosen(n)
        B = base(d, {x for p in small for x in p[2]["surf"] + p[2]["pron"]})
        B["pool"], B["tdepth"] = [p[2] for p in small], depth
        recs, _ = tlc("MCFuri", cfgtext="INIT Init\nNEXT Next\nINVARIANT Check\n", name="every-sequence", data=B, heap="6g", long=True, timeout=c.n(500, 3000))
        for x in recs:
            if x["k"] == "token":
                picks.append([[small[i - 1][0], small[i - 1][1]] for i in x["w"]])
                want.append((x["o"], [small[i - 1][2] for i in x["w"]]))
    show = lambda ts: "/".join(text(t["surf"]) + ("" if t["known"] else "?") for t in ts)
    got = furi_replay({"kana": [], "merges": [], "sents": [cps(x) for x in sents], "picks": picks})
    for p, (o, ts), g in zip(picks, want, got):
        c.traces += 1
        if crashed(g):
            c.violation("tokens %s: %s" % (show(ts), crashed(g)), {"sentences": sents, "picks": p})
        elif g["out"] != o:
            c.violation("tokens %s: written %r instead of %r" % (show(ts), text(g["out"]), text(o)), {"sentences": sents, "picks": p})
        elif not g["again"]:
            c.violation("tokens %s: written differently the second time" % show(ts), {"sentences": sents, "picks": p})
    c.cover["token_sequences"] = len(picks)
    # 2. sentences through the transliterator
    words = ["", " ", "新海誠", "新海 誠", "新海　誠", "バナヽ", "いすゞ自動車"] + [sentence(r) for _ in range(c.n(260, 6000))]
    # longer than any buffer
    for n in c.n([63, 65, 100, 130, 260, 400], [63, 64, 65, 100, 127, 129, 200, 255, 257, 400, 513, 800] * 4):
        w = ""
        while len(w) < n:
            w += sentence(r)
        words.append(w)
    odd = {ord(x) for x in "ー・゠ヿ゛゜ゟ\u3099\u309a"}
    mk = {ord(x) for x in MARKS}
    for b in "かはうゝさト":
        for m in "ゝゞヽヾ":
            words += [b + v + m for v in ("\u3099", "\u309a", "")] + [b + m + "\u3099" + m]
    nfc = d.one(op="nfc", words=[cps(w) for w in words])["res"]
    fit = [not any(a in odd and b in mk for a, b in zip(w, w[1:])) for w in nfc]
    words, nfc = [w for w, f in zip(words, fit) if f], [w for w, f in zip(nfc, fit) if f]
    recs = resolve(d, nfc)
    toks = d.one(op="tokens", words=recs)["res"]
    res = []
    for k in range(0, len(words), 100):
        res.append({"id": str(k), "op": "translit", "scheme": "furigana", "words": [cps(w) for w in words[k:k + 100]]})
    outs = []
    for q, m in zip(res, d.run(res)):
        if crashed(m):      # find the word
            for w in q["words"]:
                m1 = d.one(op="translit", scheme="furigana", words=[w])
                outs.append(m1 if crashed(m1) else m1["res"][0])
        elif m.get("none"):
            c.violation("there is no standard transliterator of the scheme furigana", {})
            return
        else:
            outs += m["res"]
    cases = []
    for i, (w, ts, o) in enumerate(zip(words, toks, outs)):
        c.traces += 1
        if crashed(o):
            c.violation("%r: %s" % (w, crashed(o)), {"word": w})
        elif o["err"]:
            c.violation("%r: %s" % (w, o["err"]), {"word": w})
        else:
            cases.append({"id": i, "kind": "write", "tokens": [token(t) for t in ts], "out": o["out"]})
    for x in trace_furi(c, d, cases):
        w = words[x["id"]]
        c.violation("%r (%s): %r instead of %r" % (w, show([token(t) for t in toks[x["id"]]]), text(outs[x["id"]]["out"]), text(x["want"])), {"word": w})
    for w in words[8:11]:
        c.sample(w)


def resolve(d, ws):
    """the iteration marks of the texts, by the specification"""
    cases = [{"id": i, "kind": "kana", "word": w, "out": [-1], "merges": []} for i, w in enumerate(ws)]
    B = base(d, {x for w in ws for x in w})
    n = min(6, max(1, len(cases) // 60))
    outs = tlc_many([dict(module="TraceFuri", cfgtext="INIT Init\nNEXT Next\n", name="resolve", workers=1, heap="2g", data=dict(B, cases=cases[k::n])) for k in range(n)])
    m = {x["id"]: x["want"] for o, _ in outs for x in o}
    return [m[i] for i in range(len(ws))]


# --- C25, C26 ----------------------------------------------------------------------------

def tr_cases(c, d, scheme, country, words, B, module="TraceTr"):
    """through the standard transliterator, then judged"""
    nfc = d.one(op="nfc", words=[cps(w) for w in words])["res"] if not country else [cps(w) for w in words]
    m = d.one(op="translit", scheme=scheme, words=[cps(w) for w in words])
    outs = m.get("res")
    if crashed(m):
        outs = []
        for w in words:
            m1 = d.one(op="translit", scheme=scheme, words=[cps(w)])
            outs.append(m1 if crashed(m1) else m1["res"][0])
    if m.get("none"):
        c.violation("there is no transliterator %s" % scheme, {})
        return
    want_scheme = "cyrillic[%s]" % country if country else "pinyin"
    if not crashed(m) and m["scheme"] != want_scheme:
        c.violation("the transliterator %s says its scheme is %s" % (scheme, m["scheme"]), {})
    cases = []
    for i, (w, o) in enumerate(zip(nfc, outs)):
        c.traces += 1
        if crashed(o):
            c.violation("%s of %r: %s" % (scheme, words[i], crashed(o)), {"scheme": scheme, "word": words[i]})
        elif o["err"]:
            c.violation("%s of %r fails: %s" % (scheme, words[i], o["err"]), {"scheme": scheme, "word": words[i]})
        else:
            cases.append({"id": i, "country": country, "word": w, "out": o["out"]})
    return [(scheme, words, cases)]


def judge_tr(c, groups, B):
    flat, back = [], []
    for scheme, words, cases in groups:
        for k in cases:
            back.append((scheme, words[k["id"]], k["out"]))
            flat.append(dict(k, id=len(back) - 1))
    n = min(8, max(1, len(flat) // 60))
    outs = tlc_many([dict(module="TraceTr", cfgtext="INIT Init\nNEXT Next\n", name="judge", workers=1, heap="2g", data=dict(B, cases=flat[k::n])) for k in range(n)])
    recs = [x for o, _ in outs for x in o]
    if len(recs) != len(flat):
        raise HarnessError("TraceTr judged %d of %d" % (len(recs), len(flat)))
    for x in sorted(recs, key=lambda x: x["id"]):
        if not x["right"]:
            s, w, o = back[x["id"]]
            c.violation("%s of %r: %r instead of %r" % (s, w, text(o), text(x["want"])), {"scheme": s, "word": w})


def enum_tr(c, d, B, alphabets, schemes):
    """alphabets: (text, depth, country); schemes: country -> scheme"""
    data = dict(B, alphabets=[{"chars": cps(s), "depth": n, "country": k} for s, n, k in alphabets])
    recs, _ = tlc("MCTr", cfgtext="INIT Init\nNEXT Next\nINVARIANT Check\n", name="every-text", data=data, heap="6g", long=True, timeout=c.n(500, 3000))
    by = {}
    for x in recs:
        by.setdefault(alphabets[x["a"] - 1][2], []).append(x)
    for k, xs in by.items():
        for q in range(0, len(xs), 4000):
            part = xs[q:q + 4000]
            m = d.one(op="translit", scheme=schemes[k], words=[x["w"] for x in part])
            if crashed(m) or m.get("none"):
                c.violation("%s: %s" % (schemes[k], crashed(m) or "there is no such transliterator"), {"words": [text(x["w"]) for x in part][:50]})
                continue
            for x, o in zip(part, m["res"]):
                c.traces += 1
                if crashed(o) or o["err"]:
                    c.violation("%s of %r: %s" % (schemes[k], text(x["w"]), crashed(o) or o["err"]), {"word": text(x["w"])})
                elif o["out"] != x["o"]:
                    c.violation("%s of %r: %r instead of %r" % (schemes[k], text(x["w"]), text(o["out"]), text(x["o"])), {"word": text(x["w"])})
    c.cover["enumerated_texts"] = c.cover.get("enumerated_texts", 0) + len(recs)


def C25(c):
    d = Driver()
    r = c.rng
    every = d.one(op="readings", chars=list(range(0x3000, 0x30000)))["res"]
    hz = [x[0] for x in every]
    common = "中国人大小北京上海好女绿吕〇㐀长行了乐儿一"
    # every character with a reading, in one text of runs
    hanzi = hz if c.thorough else sorted(r.sample(hz, 1500))
    others = "ab 1,、ー가é\u0301\n。é🙂\u200b-'\u00b7ア々\x00ＡｂﬁㄱＯ１①ｱﾞ㍿㎏Ⅳ²ſ\u212b\u2126"
    words = ["", "a", "中", "中中", "a中", "中a", " ", "ab", "中 国", "\u200b", "中\u200b国", "\uf900", "\ufa10x", "가\u1100", "e\u0301中", "㍿中Ａ①", "⼀⼁", "㊥㊗"]
    for k in range(0, len(hanzi), 60):
        s = ""
        for h in hanzi[k:k + 60]:
            s += chr(h)
            if r.random() < 0.2:
                s += "".join(r.choice(others) for _ in range(r.randint(1, 3)))
        words.append(s)
    for _ in range(c.n(200, 5000)):
        words.append("".join(chr(r.choice(hz)) if r.random() < 0.3 else r.choice(common) if r.random() < 0.5 else r.choice(others + "\uf900\ufa1d\U0002f800") for _ in range(r.randint(0, 12))))
    nfc = d.one(op="nfc", words=[cps(w) for w in words])["res"]
    need = sorted({x for w in nfc for x in w} | {ord(x) for x in common})
    B = {"readings": d.one(op="readings", chars=need)["res"], "tables": {"": []}, "cases": [], "alphabets": []}
    g = tr_cases(c, d, "pinyin", "", words, B)
    if g:
        judge_tr(c, g, B)
        enum_tr(c, d, B, [("中国a ", c.n(5, 7), ""), ("女a\u200b1", c.n(4, 6), ""), ("绿〇x、b", c.n(4, 5), "")], {"": "pinyin"})
    c.cover["readings"] = len(B["readings"])
    for w in words[-3:]:
        c.sample(w)


ALIKE = "\u2018\u2019\u201b\u02b9\u02bc\u02bb\u02c8\u2032\u00b4`\"\u2033\uff07\u02ba\u201c\u201d\u044c\u044a\u2010\u2013-_.\u00ad\u200d\u200b\ufeff\u00b7\u0131\u0130\u00df\u017f\u212a"


def alike(r, ch):
    x = r.random()
    if x < 0.5 or not ch.isascii():
        return r.choice(ALIKE)
    if x < 0.65:
        return chr(ord(ch) + 0xfee0) if 0x21 <= ord(ch) <= 0x7e else ch
    if x < 0.85:
        return ch + r.choice("\u0301\u0306\u0308\u030c\u0300")
    return ch.swapcase()


def C26(c):
    d = Driver()
    r = c.rng
    src = os.path.join(REPO, "translit/cyrillic/dict.json")
    py = os.path.join(REPO, "translit/cyrillic/cyrtranslit-mapping.v1.1.py")
    tables = None
    if os.path.exists(py):      # the source of the embedded table
        ns = {}
        exec(compile(open(py, encoding="utf-8").read(), py, "exec"), ns)
        tables = ns.get("TRANSLIT_DICT")
    if tables is None:
        tables = json.load(open(src, encoding="utf-8"))
    countries = ["bg", "mk", "ru", "ua"]
    T = {k: sorted(tables[k]["tocyrillic"].items()) for k in countries}
    for k in countries:
        T[k] = [p for p in T[k] if p[0]]
    B = {"readings": [], "tables": {k: [[cps(a), cps(b)] for a, b in v] for k, v in T.items()}, "cases": [], "alphabets": []}
    schemes = {k: "@" + k for k in countries}
    # every text over the letters which begin several romanizations
    al = []
    for k in countries:
        multi = [a for a, _ in T[k] if len(a) > 1]
        letters = sorted({x for a in multi for x in a})
        for _ in range(c.n(2, 6)):
            al.append(("".join(sorted(set(r.choice(multi) + r.choice(multi) + r.choice(letters)))), c.n(4, 5), k))
        long = [a for a in multi if len(a) > 2]
        for a in long[:2]:
            al.append(("".join(sorted(set(a))), 5, k))
        allc = sorted({x for a, _ in T[k] for x in a})
        for q in range(0, len(allc), 24):
            al.append(("".join(allc[q:q + 24]), 2, k))
    enum_tr(c, d, B, al, schemes)
    runs = []
    for n in range(c.n(3, 8)):          # several processes
        d = Driver()
        r2 = random.Random("C26/%d" % c.seed)
        groups = []
        for k in countries:
            keys = [a for a, _ in T[k]]
            ws = ["", "y'", "''", "shh", "дa", "\x00", "é", "s̆"] + keys
            for _ in range(c.n(80, 2500)):
                ws.append("".join(r2.choice(keys) if r2.random() < 0.75 else r2.choice("xXwWqhHyYjJ' éäдЖ1,가\u0301žŽčš") for _ in range(r2.randint(1, 9))))
            # what only looks like a letter of a romanization
            for _ in range(c.n(60, 1500)):
                x = list("".join(r2.choice(keys) for _ in range(r2.randint(1, 6))))
                for _ in range(r2.randint(1, 2)):
                    i = r2.randrange(len(x)) if x else 0
                    x[i:i + r2.randint(0, 1)] = [alike(r2, x[i] if x else "a")]
                ws.append("".join(x))
            g = tr_cases(c, d, schemes[k], k, ws, B)
            if not g:
                return
            groups += g
        for k in countries:          # and as the standard set lists them
            m = d.one(op="translit", scheme="cyrillic[%s]" % k, words=[cps(a) for a, _ in T[k]])
            if m.get("none"):
                c.violation("no standard transliterator has the scheme cyrillic[%s]" % k, {})
                continue
            for (a, b), o in zip(T[k], m["res"]):
                c.traces += 1
                # a whole romanization is its letter
                if o["out"] != cps(b) or o["err"]:
                    c.violation("cyrillic[%s] of %r: %r instead of %r" % (k, a, text(o["out"]), b), {"word": a})
        if n == 0:
            first = groups
            judge_tr(c, groups, B)
        else:
            for (s, ws, a), (_, _, b) in zip(first, groups):
                for x, y in zip(a, b):
                    if x["out"] != y["out"]:
                        c.violation("%s of %r: %r in one process, %r in another" % (s, ws[x["id"]], text(x["out"]), text(y["out"])), {"word": ws[x["id"]]})
    c.sample(ws[-1])
