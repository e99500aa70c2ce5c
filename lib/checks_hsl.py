"""C12, C13, C14: the HSL notation and the loading of specs (Hsl.tla,
SpecFile.tla)."""
import json, os
import gen, pipe
from vlib import *

NAMES = ["lang", "config", "macros", "vars", "normalize", "rewrite", "transcribe", "test", "id", "codes", "english", "korean", "script", "translit", "authors", "stage"]
SCRIPTS = ["", "Latn", "Cyrl", "Geor", "Grek", "Hrkt"]
BLANKS = [" ", "\t", "  ", "\r", "\u00a0", "\u3000", "\u2003", "\x0b", "\x0c", "\u0085", "\u2028", "    "]
BARE = ["a", "b", "abc", "_", "_x1", "é", "가", "かな", "字", "x9", "a_b", "ß٣", "ـa", "ª", "z" * 70]
ODD = ['"', "\\", "#", "# x", ":", "=", "->", ",", "\n", "\t", "a b", "", " ", "\\n", "{}", "\x00", "é\u0301", "🙂", "\\\\", '\\"', "-", "->", "'", "\ufeff", "\ufffd", "0", "1a",
       "\\\n", "a\\\nb", "\\t", "\\ ", "\\x41", "\\é", "\\'", "\\\r", "x: y", "a = b", "\r\n", "q\"q", "tail\\", "\u2028", "ㄱ-ㄴ", "long " * 30]


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def isbare(s):
    import unicodedata
    return bool(s) and all(x == "_" or unicodedata.category(x)[0] == "L" or (i and unicodedata.category(x) == "Nd") for i, x in enumerate(s))


class Doc:
    """random documents"""
    def __init__(self, r):
        self.r = r

    def string(self, s):
        r = self.r
        if isbare(s) and r.random() < 0.6:
            return s
        q = quote(s)
        if r.random() < (0.5 if "\\" in s else 0.15):    # a backslash before anything else stands for itself
            e = lambda i: s[i] == '"' or s[i] == "\\" and (i + 1 == len(s) or s[i + 1] in '"\\' or i and s[i - 1] == "\\")
            q = '"' + "".join(("\\" if e(i) else "") + x for i, x in enumerate(s)) + '"'
        return q

    def text(self):
        r = self.r
        return r.choice(BARE) if r.random() < 0.55 else "".join(r.choice(ODD + BARE) for _ in range(r.randint(1, 3)))

    def bl(self, p=0.5):
        return self.r.choice(BLANKS) if self.r.random() < p else ""

    def comment(self):
        return "#" + self.r.choice(["", " note", ' "', " a -> b", " x:", "#", " \\", "\t= , ->", " é 가 🙂", '"a" -> "b"'])

    def eol(self, last=False):
        r = self.r
        s = self.bl(0.2)
        if r.random() < 0.2:
            s += self.comment()
        return s + ("" if last else "\n")

    def filler(self):
        r = self.r
        s = ""
        while r.random() < 0.3:
            s += self.bl(0.3) + (self.comment() if r.random() < 0.6 else "") + "\n"
        return s

    def pair(self, sign, left, rights):
        s = self.bl(0.8) + self.string(left) + self.bl() + sign + self.bl()
        s += (self.bl(0.2) + ",").join(self.bl() + self.string(x) for x in rights)
        return s

    def render(self, secs):
        """secs: [(name, sign, [(left, rights)])]"""
        r = self.r
        out = self.filler()
        for n, (name, sign, pairs) in enumerate(secs):
            out += self.bl(0.1) + self.string(name) + self.bl(0.2) + ":"
            if not (pairs and r.random() < 0.12):
                out += self.eol()
            for i, (l, rs) in enumerate(pairs):
                out += self.filler() if i or "\n" in out[-1:] else ""
                last = n == len(secs) - 1 and i == len(pairs) - 1 and r.random() < 0.4
                out += self.pair(sign, l, rs) + self.eol(last)
        return out

    def sections(self):
        r = self.r
        kinds, used, secs = {}, {}, []
        pool = ["lang", "test", "rewrite", "s", "é", self.text() or "n"]
        for _ in range(r.randint(1, 5)):
            n = r.choice(pool) or "n"
            k = kinds.setdefault(n, r.choice(["=", "->"]))
            ps = []
            for _ in range(r.randint(0, 4)):
                l = self.text()
                if k == "=":
                    if l in used.setdefault(n, set()):
                        continue
                    used[n].add(l)
                ps.append((l, [self.text() for _ in range(r.choice([1] * 8 + [2, 2, 2, 3, 3, 5, 0, 0]))]))
                if k == "->" and r.random() < 0.1:      # the same once more
                    ps.append(r.choice(ps))
            secs.append((n, k, ps))
        return secs


def mutate(r, d, pieces):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randint(0, len(d))
        k = r.random()
        if k < 0.45:
            d = d[:i] + r.choice(pieces) + d[i:]
        elif k < 0.75:
            d = d[:i] + d[i + r.choice([1, 1, 2, 5]):]
        elif k < 0.9:
            j = r.randint(0, len(d))
            d = d[:i] + d[min(i, j):max(i, j)][:40] + d[i:]
        else:
            d = d[:i]
    return d

PIECES = ['"', "\\", "#", ":", "=", "->", ",", "\n", " ", "a", "-", ">", "1", "(", "\x00", "\ufeff", "🙂", "\u0301", ".", "s:", '"x" -> "y"\n', 'k = "v"\n', "->\n", "\t", "{", "'", "0x", "--", "-->"]


def bytes_of(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogatepass")


def judge(c, d, cases, pid_words="", timeout=800):
    """cases: dicts with doc (str/bytes), what, optional reader settings, words.
    Runs them and lets TraceHsl decide; returns the records."""
    reqs = []
    for i, k in enumerate(cases):
        q = {"id": str(i), "op": "hsl" if k["what"] == "hsl" else "spec", "src": cps(bytes_of(k["doc"])), "chunk": k.get("chunk", 0), "mode": k.get("mode", 0)}
        if k["what"] == "spec":
            q.update(dump=True, norun=True, repeat=1 if k.get("again") else 0, words=[cps(w) for w in k.get("words", [])])
        reqs.append(q)
    tc, chars = [], set()
    for i, (k, m) in enumerate(zip(cases, d.run(reqs))):
        c.traces += 1
        cr = crashed(m)
        if cr:
            c.violation("%s of %r: %s" % (k["what"], k["doc"], cr), {"request": reqs[i]})
            continue
        if m["perr"] and not m.get("nil"):
            c.violation("%s of %r: an error and a value" % (k["what"], k["doc"]), {"request": reqs[i]})
        x = {"id": i, "doc": reqs[i]["src"], "what": k["what"], "err": bool(m["perr"]), "bad": [cps(b) for b in k.get("bad", [])],
             "secs": m.get("secs") or [], "dump": m.get("dump") or {}}
        chars |= set(x["doc"])
        if m.get("again"):
            c.violation("the source of the spec, loaded again, gives %s: %r" % (m["again"], k["doc"]), {"request": reqs[i]})
        for s in x["secs"]:
            s.setdefault("map", []); s.setdefault("inj", []); s.setdefault("acc", []); s.setdefault("injok", True)
        tc.append(x)
    if not tc:
        return []
    f = d.one(op="facts", chars=sorted(x for x in chars if x >= 0) + [65533])
    base = {"letter": f["letter"], "digit": f["digit"], "space": f["space"], "names": {n: cps(n) for n in NAMES}, "scripts": [cps(s) for s in SCRIPTS]}
    n = min(8, max(1, len(tc) // 15))
    tc.sort(key=lambda x: -len(x["doc"]))
    outs = tlc_many([dict(module="TraceHsl", cfgtext="INIT Init\nNEXT Next\n", name="judge", workers=1, heap="2500m", timeout=timeout,
                          data=dict(base, cases=tc[k::n])) for k in range(n)])
    recs = [x for o, _ in outs for x in o]
    if len(recs) != len(tc):
        raise HarnessError("TraceHsl judged %d of %d" % (len(recs), len(tc)))
    for x in sorted(recs, key=lambda x: x["id"]):
        c.cover["documents_" + x["verdict"]] = c.cover.get("documents_" + x["verdict"], 0) + 1
        if not x["right"]:
            k = cases[x["id"]]
            got = next(y for y in tc if y["id"] == x["id"])
            want = x["want"]
            if x["verdict"] == "error":
                what = "must be rejected, but was accepted"
            elif got["err"]:
                what = "is well formed, but was rejected"
            elif k["what"] == "hsl":
                sh = lambda ss: [(text(s["name"]), s["kind"], s["line"], [(text(p["l"]), [text(y) for y in p["r"]], p["line"]) for p in s["pairs"]]) for s in ss]
                what = "says %s; the code read %s" % (sh(want), sh(got["secs"]))
            else:
                w, g = want[0], got["dump"]
                bad = [f for f in w if (sorted(map(json.dumps, w[f])) != sorted(map(json.dumps, g[f])) if f in ("macros", "vars", "normalize") else w[f] != g[f])]
                what = "differs in %s: %s instead of %s" % (bad, json.dumps({f: g[f] for f in bad})[:400], json.dumps({f: w[f] for f in bad})[:400])
            c.violation("%s of %r: %s" % (k["what"], k["doc"] if len(k["doc"]) < 600 else k["doc"][:600], what), {"request": reqs[x["id"]], "want": want})
    return recs


LEX = ["a", '"b"', '"#\\""', ":", "=", "->", ",", "\n", " ", "#c\n", "#", '"', "-", "7"]


def enumerated(c, d, prefix, lex, depth, errors=True):
    f = d.one(op="facts", chars=sorted({ord(x) for s in lex + [prefix] for x in s} | {65533, 97, 35, 34}))
    base = {"letter": f["letter"], "digit": f["digit"], "space": f["space"], "prefix": cps(prefix), "depth": depth}
    recs, _ = tlc("MCHsl", cfgtext="INIT Init\nNEXT Next\nINVARIANT Check\n", name="every", workers=8, heap="6g", long=True,
                  data=dict(base, lexemes=[cps(x) for x in lex]))
    docs = [prefix + "".join(lex[i - 1] for i in x["w"]) for x in recs]
    res = d.run([{"id": str(i), "op": "hsl", "src": cps(t)} for i, t in enumerate(docs)])
    n = {"ok": 0, "error": 0, "loose": 0}
    for x, t, m in zip(recs, docs, res):
        c.traces += 1
        n[x["verdict"]] += 1
        cr = crashed(m)
        if cr:
            c.violation("%r: %s" % (t, cr), {"doc": t})
        elif x["verdict"] == "error" and not m["perr"] and errors:
            c.violation("%r must be rejected" % t, {"doc": t})
        elif x["verdict"] == "ok" and not x["noright"]:
            if m["perr"]:
                c.violation("%r is well formed, but: %s" % (t, m["perr"]), {"doc": t})
                continue
            key = lambda s: json.dumps([s["name"], s["kind"], s["line"], sorted(map(json.dumps, s["pairs"])) if s["kind"] == "dict" else s["pairs"]], sort_keys=True)
            pj = lambda s, ln: dict(s, line=ln, pairs=[{"l": p["l"], "line": p["line"], "r": p["r"]} for p in s["pairs"]])
            got = {json.dumps(s["name"]): s for s in m["secs"] if s["pairs"]}
            want = {json.dumps(s["name"]): s for s in x["secs"]}
            if set(got) != set(want) or any(key(pj(want[k], want[k]["line"])) != key(pj(got[k], want[k]["line"] and got[k]["line"])) for k in want):
                c.violation("%r says %s; the code read %s" % (t, json.dumps(x["secs"]), json.dumps(m["secs"])[:600]), {"doc": t})
    for k, v in n.items():
        c.cover["enumerated_" + k] = c.cover.get("enumerated_" + k, 0) + v


def C12(c):
    d = Driver()
    r = c.rng
    enumerated(c, d, "", ["a", '"b"', ":", "=", "->", "\n", "#c\n", " "], c.n(5, 6), errors=False)
    enumerated(c, d, "s:", ["\na", "=", "\n", '"b"', ","], c.n(6, 8), errors=False)
    enumerated(c, d, "s:\n", LEX[:11], c.n(4, 5), errors=False)
    enumerated(c, d, "s: a = b\n", ["x", "=", ",", "\n", "s", ":", '"\\\\"', "#c\n"], c.n(4, 6), errors=False)
    D = Doc(r)
    cases = []
    for _ in range(c.n(450, 6000)):
        cases.append({"doc": D.render(D.sections()), "what": "hsl", "chunk": r.choice([0, 0, 1, 2, 3, 7]), "mode": r.choice([0, 1])})
    # long documents pass the reader's buffer at every alignment
    for i in range(c.n(4, 40)):
        pad = "#" + "é가🙂x"[r.randint(0, 3)] * r.randint(1000, 1400) + "\n"
        t = pad
        while len(t.encode()) < 4200:
            t += D.render([("s", "->", [(D.text(), [D.text()])])])
            if not t.endswith("\n"):
                t += "\n"
        cases.append({"doc": t, "what": "hsl"})
    for i, k in enumerate(cases[:2]):
        c.sample(k["doc"])
    B = os.path.join(REPO, "specs")
    fs = sorted(os.listdir(B))
    for f in r.sample(fs, c.n(9, len(fs))):
        if f.endswith(".hsl"):
            with open(os.path.join(B, f), "rb") as h:
                t = h.read()
                if c.thorough or len(t) < 8000:
                    cases.append({"doc": t, "what": "hsl"})
    judge(c, d, cases, timeout=c.n(400, 3000))


BADPAT = ["(a", "a)", "[a", "(?z)", "a{", "{a", "a}", "{~a*}b", "b{~a+}", "{~(ab)*}c", "a(", "[", "a\\", "(((", "a(b(c)", "x{~a*", "(?P<n", "[b-a]", "(?:a", "{~a{b}", "\\8"]
SURE = ["{~a}b{~c+}", "{~a+}b{~cc}", "{~a*}b{~c*}", "{~aa}b{~c*}", "{~a*}b{~cccc}", "{a}b{~x*}", "{~x*}b{a}", "(a", "a)", "[a", "(?z)", "{~a*}b", "b{~a+}", "{~(ab)*}c", "a(", "a(b(c)", "[b-a]", "(?:a", "{~x+y}b"]


def spec_doc(r, D, sp=None, G=None):
    """a random spec as sections"""
    G = G or gen.SpecGen(r)
    sp = sp or G.make()
    secs = []
    T = lambda: r.choice(BARE + ["A B", "이름 이름", 'q"q', "b\\c", "#1", "", "x -> y"])
    lang = [("id", [T()]), ("codes", [T(), T()]), ("english", [T()]), ("korean", [T()]), ("script", [sp["script"]])]
    if r.random() < 0.3:
        lang.append(("translit", [T() for _ in range(r.randint(1, 3))]))
    lang = [x for x in lang if x[0] in ("codes", "script") or r.random() < 0.85]
    r.shuffle(lang)
    secs.append(("lang", "=", lang))
    if r.random() < 0.7:
        secs.append(("config", "=", [x for x in [("authors", [T() for _ in range(r.randint(1, 3))]), ("stage", [T()]), ("other", [T()])] if r.random() < 0.8]))
    if sp["macros"]:
        secs.append(("macros", "=", [(l, [v]) for l, v in sp["macros"]]))
    if sp["vars"]:
        secs.append(("vars", "=", [(l, list(v)) for l, v in sp["vars"]]))
    if sp["norms"]:
        secs.append(("normalize", "=", [(l, list(v)) for l, v in sp["norms"]]))
    for n in ("rewrite", "transcribe"):
        if sp[n]:
            secs.append((n, "->", [(l, [v] + ([T() for _ in range(r.randint(1, 3))] if r.random() < 0.03 else [])) for l, v in sp[n]]))
            if r.random() < 0.1:
                k = r.randrange(len(secs[-1][2]))
                secs[-1][2].insert(r.choice([k, k, len(secs[-1][2])]), secs[-1][2][k])
            if r.random() < 0.2 and len(sp[n]) > 1:      # written in two places
                _, _, ps = secs.pop()
                k = r.randint(1, len(ps) - 1)
                secs += [(n, "->", ps[:k]), (n, "->", ps[k:])]
    if r.random() < 0.8:
        X = lambda: r.choice([" lead", "trail ", "\ttab\t", "\u3000wide", "two  words", " ", "nl\nnl", "É È", "ﬁ e\u0301"]) if r.random() < 0.3 else T()
        secs.append(("test", "->", [(X(), [X() for _ in range(r.choice([1] * 8 + [2, 3]))]) for _ in range(r.randint(1, 4))]))
    if r.random() < 0.5:
        # any order, but a section's own pieces stay in order
        order = list(range(len(secs)))
        r.shuffle(order)
        left = {}
        for x in secs:
            left.setdefault(x[0], []).append(x)
        secs = [left[secs[i][0]].pop(0) for i in order]
    ws = [G.word(sp) for _ in range(4)]
    return secs, ws


def C13(c):
    d = Driver(limit=30)
    r = c.rng
    enumerated(c, d, "", LEX, c.n(4, 5))
    enumerated(c, d, "s:", LEX, c.n(3, 5))
    enumerated(c, d, "s: a = b\ns: a", LEX, c.n(3, 4))
    D = Doc(r)
    cases = []
    # every kind of character where a token must begin
    import unicodedata as ud
    pool = {}
    for x in range(1, 0x30000):
        if not 0xd800 <= x < 0xe000:
            pool.setdefault(ud.category(chr(x)), []).append(chr(x))
    xs = [chr(x) for x in range(1, 128)] + [chr(x) for x in range(0x80, 0xc0)] + [y for k in sorted(pool) for y in r.sample(pool[k], min(len(pool[k]), c.n(6, 60)))]
    for x in xs:
        for t in r.sample(["s:\n a = b\n %s", "s:\n a = %s", "%s", "s: a -> b, %s\n", "s:\n%s a = b\n", "s%s: a = b"], c.n(2, 6)):
            cases.append({"doc": t % x, "what": "hsl"})
    # documents broken in one or more places, and bytes that are no text
    for i in range(c.n(260, 5000)):
        t = mutate(r, D.render(D.sections()), PIECES)
        cases.append({"doc": t, "what": "hsl", "chunk": r.choice([0, 1, 3])})
        if i % 3 == 0:
            b = bytearray(t.encode())
            for _ in range(r.randint(1, 3)):
                b.insert(r.randint(0, len(b)), r.choice([0x80, 0xff, 0xc0, 0xed, 0xa0, 0x00, 0xf4, 0xe3]))
            cases.append({"doc": bytes(b), "what": "hsl"})
    for i in range(c.n(100, 2000)):
        cases.append({"doc": "".join(r.choice(PIECES) for _ in range(r.randint(0, 14))), "what": "hsl"})
    # specs with one thing wrong
    n = 0
    for i in range(c.n(260, 4000)):
        secs, ws = spec_doc(r, D)
        bad = []
        k = i % 13
        get = lambda n: [j for j, s in enumerate(secs) if s[0] == n]
        if k == 0:
            secs = [(n_, {"=": "->", "->": "="}[s] if r.random() < 0.3 else s, p) for n_, s, p in secs]
        elif k == 1:
            j = get("lang")[0]
            l = [x for x in secs[j][2] if x[0] != "codes"]
            z = r.choice([None, ["a"], ["a", "b", "c"], []])
            if z is not None:
                l.append(("codes", z))
            secs[j] = ("lang", "=", l)
        elif k == 2:
            j = get("lang")[0]
            secs[j] = ("lang", "=", [x for x in secs[j][2] if x[0] != "script"] + [("script", [r.choice(["latn", "LATN", "Hang", "Latin", "x", " Latn", "roman", "Hira"])])])
        elif k in (3, 4, 5):
            n_ = r.choice(["rewrite", "transcribe"])
            x = r.choice(SURE if k != 5 else BADPAT)
            if k == 5 and x not in SURE:
                n_ = "other"
            at = get(n_)
            bad = [x]
            if at:
                ps = secs[at[0]][2]
                ps.insert(r.randint(0, len(ps)), (x, ["a"]))
            else:
                secs.append((n_, "->", [(x, ["a"])]))
        elif k == 6:
            n_ = r.choice(["rewrite", "transcribe", "test"])
            at = get(n_)
            if at:
                secs[at[-1]][2].insert(r.randint(0, len(secs[at[-1]][2])), ("x", []))
            else:
                secs.append((n_, "->", [("x", [])]))
        elif k == 7:
            j = r.randrange(len(secs))
            if secs[j][1] == "=" and secs[j][2]:
                secs[j] = (secs[j][0], "=", secs[j][2] + [r.choice(secs[j][2])])
        elif k == 8:
            secs.append(("macros", "=", [("M", r.choice([["a", "b"], [], ["a"]]))]))
        elif k == 9:
            j = r.randrange(len(secs))
            secs.append((secs[j][0], {"=": "->", "->": "="}[secs[j][1]], [("zz", ["a"])]))
        t = D.render(secs)
        if k == 10:
            t = t[t.index(":") + 1:] if r.random() < 0.5 else "x = y\n" + t
        elif k == 11:
            t = mutate(r, t, PIECES)
            bad = None
        elif k == 12:
            b = bytearray(t.encode())
            b.insert(r.randint(0, len(b)), r.choice([0x80, 0xff, 0xc0]))
            t, bad = bytes(b), None
        if bad is None:     # what became of the patterns is not known: only HSL's own errors are promised
            cases.append({"doc": t, "what": "hsl"})
            cases.append({"doc": t, "what": "crash"})
        else:
            cases.append({"doc": t, "what": "spec", "bad": bad})
    crash = [k for k in cases if k["what"] == "crash"]
    cases = [k for k in cases if k["what"] != "crash"]
    judge(c, d, cases, timeout=c.n(400, 3000))
    for k in cases[:400:130]:
        c.sample(repr(k["doc"])[:300])
    only_ends(c, d, r, crash)
    readers(c, d, r, D)
    patterns(c, d, r)


def only_ends(c, d, r, crash):
    """whatever it is, loading it ends in a value or an error, and a loaded
    spec can be used"""
    D = Doc(r)
    docs = [k["doc"] for k in crash]
    al = list("ab{}<>()[]^$*+?|~\\.,-1 ㄱ") + ["\\d", "{~", "<V>", "M", "(?i)", "(?:", "\x00", "🙂", "{2}", "{1,9}", "é"]
    for _ in range(c.n(200, 6000)):
        p = lambda: "".join(r.choice(al) for _ in range(r.randint(0, 7)))
        secs = [("macros", "=", [(p(), [p()]), ("M", [p()])]), ("vars", "=", [("V", [p() for _ in range(r.randint(0, 3))]), (p(), [p()])]),
                ("normalize", "=", [(p(), [p() for _ in range(r.randint(0, 2))])]),
                ("rewrite", "->", [(p(), [p()]) for _ in range(2)]), ("transcribe", "->", [(p(), [p()])])]
        if len({x[0] for x in secs[0][2]}) < 2 or len({x[0] for x in secs[1][2]}) < 2:
            continue
        docs.append(D.render(secs))
    # long and deep ones
    for x in ("(" * 3000, "(" * 900 + "a" + ")" * 900, "{" * 3000, "[" * 3000, "a?" * 2000, "a|" * 3000, "<V>" * 500, "{~" * 900, "(a*)*" * 300, "((a{2}){2}){2}" * 50, "x" * 60000, "\\" * 999, "M" * 4000,
              "{~" + "a" * 900 + "}b", "((((((((((a+)+)+)+)+)+)+)+)+)+)+$", "{a}" * 300, "(a{9}){9}"):
        docs.append('macros:\n M = "%s"\nvars:\n V = %s\nrewrite:\n %s -> "b"\n' % ("ab" * 20, ", ".join('"%s"' % ("v%d" % i) for i in range(200)), quote(x)))
        docs.append('rewrite:\n "a" -> %s\n' % quote(x))
        docs.append('normalize:\n "a" = %s\n' % quote(x))
    docs += ["s:\n" + "a -> b\n" * 20000, "#" * 100000, '"' * 9999, "a:" * 9999, "s: a = " + ",".join(["b"] * 9999), "\n" * 100000, " " * 100000, '"' + "\\" * 70000, "-" * 9999, "\x00" * 9999]
    words = ["", "aab", "ab ba", "a\x00b", "b1,b.", "ㄱㅏ-ㄴ"]
    reqs = [{"id": str(i), "op": "spec", "src": cps(bytes_of(t)), "words": [cps(w) for w in words]} for i, t in enumerate(docs)]
    n = 0
    for q, t, m in zip(reqs, docs, d.run(reqs)):
        c.traces += 1
        if crashed(m):
            c.violation("spec %r: %s" % (t if len(t) < 400 else t[:400], crashed(m)), {"request": q})
            continue
        if m["perr"]:
            if not m["nil"]:
                c.violation("spec %r: an error and a value" % t[:400], {"request": q})
            continue
        n += 1
        for w, x in zip(words, m["res"]):
            if crashed(x, zerowidth=True):
                c.violation("spec %r was accepted, but %r: %s" % (t[:400], w, crashed(x)), {"request": q})
                break
    c.cover["hostile_specs"] = len(docs)
    c.cover["hostile_specs_accepted"] = n


def readers(c, d, r, D):
    """a reader that fails at any place"""
    reqs, docs = [], []
    for i in range(c.n(150, 3000)):
        secs, _ = spec_doc(r, D)
        t = D.render(secs if i % 2 else D.sections())
        if r.random() < 0.2:
            t += "#" + "x" * r.randint(4000, 4300) + "\n"
        b = t.encode()
        at = r.choice([len(b), len(b), r.randint(0, len(b)), 0, max(0, len(b) - 1), min(len(b), 4096)])
        for op in ("hsl", "spec"):
            reqs.append({"id": str(len(reqs)), "op": op, "src": cps(b), "failat": at, "chunk": r.choice([0, 1, 5, 4096]), "mode": r.choice([0, 0, 1, 2]), "norun": True,
                         "errkind": r.choice(["", "unexpected", "unexpected", "closed", "timeout", "pipe", "canceled", "noprogress", "eofish", "notexist", "short"])})
            docs.append(t)
    for q, t, m in zip(reqs, docs, d.run(reqs)):
        c.traces += 1
        how = "%s of a reader which %s (%s) after %d of %d bytes (%r)" % (q["op"], ["fails", "fails with the last bytes", "stalls"][q["mode"]], q["errkind"], q["failat"], len(t.encode()), t[:200])
        if crashed(m):
            c.violation("%s: %s" % (how, crashed(m)), {"request": q})
        elif not m["perr"]:
            c.violation("%s: no error was reported" % how, {"request": q})
    c.cover["failing_readers"] = len(reqs)


def patterns(c, d, r):
    """patterns and right sides of any kind"""
    al = list("ab{}<>()[]^$*+?|~\\.,-1 ") + ["\\d", "{~", "<V>", "M", "(?i)", "(?:", "é", "^^", "$$", "\\(", "[a", "b]", "{2}", "\\x{110000}", "\\pL"]
    # what Go's syntax of regular expressions knows besides
    foreign = ["\\" + x for x in "QEbBAzCwWsSDunrt1aftvpPxkKG0\\"] + ["\\x41", "\\pN", "\\p{Greek}", "\\P{Greek}", "\\101", "(?s)", "(?P<n>", "(?<n>", "(?U)", "(?m:", "(?-i)", "(?=a)", "[[:alpha:]]", "[[:^alpha:]]",
               "[^a]", "[^", "[a-c]", "[c-a]", "[]", "{,3}", "{2,}", "{3,1}", "{1001}", "*?", "??", "+?", "**", "*{2}", "\\Qa", "a\\E", "(|", "|)", "()", "(a)(b)", "^*", "$+", "{~}", "{}", "{?}", "{?:b}", "{?i}", "{??}", "{?b|a}", "<", "<>", "<V", "V>", "(?:)", "(?)", "(?", "{~a|}"]
    given = [(a + f + b, "") for f in foreign for a in ("", "a", "{~a}", "^") for b in ("", "b", "{~b}", "$", ")", "}", "\\E")]
    given += [(a, "x" + f + b) for f in foreign for a in ("a", "(a)", "<V>") for b in ("", "y")]
    r.shuffle(given)
    given = given[:c.n(1500, len(given))] + [("ab" + f, "") for f in foreign]
    al = al + [r.choice(foreign) for _ in range(12)]
    reqs = []
    for k in range(len(given) + c.n(2500, 60000)):
        p, q = given[k] if k < len(given) else ("".join(r.choice(al) for _ in range(r.randint(0, 9))), "".join(r.choice(al) for _ in range(r.randint(0, 5))))
        reqs.append({"id": str(len(reqs)), "op": "hre", "expr": cps(p), "rexpr": cps(q), "macros": [[cps("M"), cps(r.choice(["ab", "(a", "<V>", "a|b"]))]],
                     "vars": [{"name": cps("V"), "vals": [cps(x) for x in r.choice([["a"], ["a", "b"], [], ["(", "b"], ["", "a"]])]}], "words": [cps(w) for w in ("", "ab", "aabb ba", "é(1", "b ab()() a()() ()()")]})
    ok = 0
    for q, m in zip(reqs, d.run(reqs)):
        c.traces += 1
        if crashed(m):
            c.violation("pattern %r -> %r: %s" % (text(q["expr"]), text(q["rexpr"]), crashed(m)), {"request": q})
        elif m["perr"]:
            if not m["nil"]:
                c.violation("pattern %r: an error and a value" % text(q["expr"]), {"request": q})
        else:
            ok += 1
            for x in m["res"]:
                if crashed(x, zerowidth=True):
                    c.violation("pattern %r -> %r was accepted, but: %s" % (text(q["expr"]), text(q["rexpr"]), crashed(x)), {"request": q})
                    break
    c.cover["hostile_patterns"] = len(reqs)
    c.cover["hostile_patterns_accepted"] = ok


def C14(c):
    d = Driver()
    r = c.rng
    D = Doc(r)
    cases = []
    for i in range(c.n(300, 4000)):
        secs, ws = spec_doc(r, D)
        if i % 12 == 0:        # nearly the name of a script
            z = r.choice(["latn", "LATN", "Hang", " Latn", "Latn ", "Cyrl\t", "\u00a0", "Hrkt\n", "cyrl", "Latn,"])
            secs = [(a, g, [x for x in q if x[0] != "script"] + [("script", [z])]) if a == "lang" else (a, g, q) for a, g, q in secs]
        t = D.render(secs)
        if r.random() < 0.3:
            t += r.choice(["\n", ""]) + r.choice(["\n\n\n", " \t", "\r\n", "# \x00\x00", "#\n# é", "\u00a0", "#", "  \n", "# x \n\n", "#\ufeff", "\n# \ufffd\n\n"])
        cases.append({"doc": t, "what": "spec", "again": True, "words": ws, "chunk": r.choice([0, 0, 1, 3]), "mode": r.choice([0, 1])})
    for t in ("", "\n", "#x", "lang:\n codes = a, b\n", "rewrite:\n a -> b\n", "other:\n a = b\n", "test:\n a -> b", "lang:\nrewrite:\n"):
        cases.append({"doc": t, "what": "spec", "again": True, "words": ["a"]})
    B = os.path.join(REPO, "specs")
    fs = [f for f in sorted(os.listdir(B)) if f.endswith(".hsl")]
    P = pipe.bundled()
    small = [f for f in fs if os.path.getsize(os.path.join(B, f)) < 9000]
    for f in fs if c.thorough else r.sample(small, 3):
        with open(os.path.join(B, f), "rb") as h:
            cases.append({"doc": h.read(), "what": "spec", "again": not P[f[:-4]]["schemes"], "words": [x for x, _ in P[f[:-4]]["test"][:5]]})
    for _ in range(c.n(2, 12)):     # many rules
        z = lambda: "".join(r.choice("abc") for _ in range(3))
        cases.append({"doc": "rewrite:\n" + "".join("%s->%s\n" % (z(), r.choice("abc")) for _ in range(r.randint(258, 290))) +
                      "transcribe:\n" + "".join("%s->%s\n" % (z(), r.choice("ㅏㅓㅗ")) for _ in range(r.randint(258, 290))), "what": "spec"})
    for k in cases[:2]:
        c.sample(k["doc"])
    judge(c, d, cases, timeout=c.n(400, 3000))
    # every bundled spec says what its file says
    res = d.run([{"id": l, "op": "lang", "lang": l, "dump": True} for l in sorted(P)])
    for l, m in zip(sorted(P), res):
        c.traces += 1
        if crashed(m) or m["perr"]:
            c.violation("%s: %s" % (l, crashed(m) or m["perr"]), {"lang": l})
            continue
        sp, g = P[l], m["dump"]
        src = open(os.path.join(B, l + ".hsl"), "rb").read()
        want = {"id": cps(sp["id"]), "rewrite": [[cps(a), cps(b)] for a, b in sp["rewrite"]], "transcribe": [[cps(a), cps(b)] for a, b in sp["transcribe"]],
                "test": [[cps(a), cps(b)] for a, b in sp["test"]], "source": cps(src), "translit": [cps(x) for x in sp["schemes"]]}
        got = {"id": g["id"], "rewrite": [[x["from"], x["to"]] for x in g["rewrite"]], "transcribe": [[x["from"], x["to"]] for x in g["transcribe"]],
               "test": [[x["key"], x["vals"][0]] for x in g["test"]], "source": g["source"], "translit": g["translit"]}
        for f in want:
            if want[f] != got[f]:
                c.violation("%s: %s is not what the file says" % (l, f), {"lang": l})
