"""The library as a state machine (Api.tla, MCApi.tla): histories of calls on
the package-wide set, on instances and on the cache of specs. C19-C22, and the
history parts of C02 and C17."""
import json, os
import gen, pipe
from vlib import *

U = [  # user specs: (schemes, rewrite, transcribe, script, norms)
    ("u0", [], [("b", "c")], [("a", "ㅏ"), ("c", "ㅊ")], "Latn", []),
    ("u1", ["a"], [("b", "c")], [("a", "ㅏ"), ("c", "ㅊ"), ("d", "-ㄴ")], "Latn", [("d", ["é", "x"])]),
    ("u2", ["a", "b"], [("a", "d"), ("d$", "a")], [("a", "가"), ("d", "ㄷ"), (" ", "~")], "Latn", [("a", ["z"])]),
    ("u3", ["b", "a", "b"], [("^b", "a")], [("a", "ㅏ"), ("b", "ㅂ"), ("c", "ㅊ"), ("d", "ㄷ")], "Latn", []),
    ("u4", ["pinyin", "a"], [], [("a", "ㅏ"), ("b", "ㅂ"), ("c", "ㅋ")], "Latn", []),
    ("u5", ["c", "nosuch"], [], [("a", "ㅏ")], "Latn", []),
    ("u6", ["a", "c", "b", "a"], [], [], "Cyrl", []),
    ("u7", ["a", "a"], [("b", "c")], [("a", "ㅏ"), ("c", "ㅊ")], "Latn", []),
    ("u8", ["b", "b", "a", "a", "c", "c", "c"], [], [("a", "ㅏ")], "Cyrl", []),
]
TAGS = {
    "A1": ("a", "app", "b"), "A2": ("a", "rev", ""), "A3": ("a", "fail", "da"), "A4": ("a", "failif", "c"), "A5": ("a", "pre", "x1"),
    "B1": ("b", "pre", "ca"), "B2": ("b", "app", " 7d"), "B3": ("b", "fail", ""), "B4": ("b", "ident", ""), "B5": ("b", "failif", "ba"),
    "C1": ("c", "app", "é"), "C2": ("c", "empty", ""), "C3": ("c", "rev", ""),
    "P1": ("pinyin", "app", "d"), "P2": ("pinyin", "fail", "x"), "F1": ("furigana", "pre", "ア"), "F2": ("furigana", "failif", "a"),
    "R1": ("cyrillic[ru]", "app", "да"), "R2": ("cyrillic[ru]", "fail", "да"),
}
WORDS = ["", "a", "abc", "bad cab", "a1b", "中国", "c d", "дa", "é", "z\u200bb", "かさ"]


class World:
    """the fixed data of a run and the two renderings of an operation"""
    def __init__(self, c, d, langs=None):
        self.c, self.d = c, d
        li = d.one(op="langs")
        self.listed, self.std = li["langs"], li["std"]
        # the scheme of the R tags is whatever the Russian spec uses
        B = pipe.bundled()
        self.ru = B["rus"]["schemes"][0]
        self.tags = {}
        for k, (sc, kind, arg) in TAGS.items():
            if sc.startswith("cyrillic["):
                sc = self.ru
            self.tags[k] = (sc, kind, arg)
        if langs is None:
            plain = sorted((l for l in B if not B[l]["schemes"]), key=lambda l: len(B[l]["rewrite"]) + len(B[l]["transcribe"]))
            langs = c.rng.sample(plain[:14], 2) + ["rus"]
        self.langs = langs
        self.schemes = sorted({t[0] for t in self.tags.values()} | set(self.std) | {"zz"})
        self.specs, self.users, self.lang_at, chars = [], {}, {}, set()
        self.src = {}
        for n, sch, rw, tr, script, norms in U:
            sp = {"script": script, "schemes": sch, "macros": [], "vars": [], "norms": norms, "rewrite": rw, "transcribe": tr, "id": n}
            self.specs.append(pipe.spec_json(sp))
            chars |= pipe.spec_chars(sp)
            self.users[n] = len(self.specs)
            self.src[n] = cps(pipe.render(sp))
        for l in langs:
            self.specs.append(pipe.spec_json(B[l]))
            chars |= pipe.spec_chars(B[l])
            self.lang_at[l] = len(self.specs)
        self.words = list(WORDS)
        for l in langs[:2]:
            self.words += [t[0] for t in B[l]["test"][:2]]
        self.stdout = []
        for sc in self.std:
            r = d.one(op="translit", scheme=sc, words=[cps(w) for w in self.words])
            for w, m in zip(self.words, r["res"]):
                if m.get("panic") is None and not m["err"]:
                    self.stdout.append([sc, cps(w), m["out"]])
                    chars |= set(m["out"])
        for w in self.words:
            chars |= {ord(x) for x in w}
        for t in self.tags.values():
            chars |= {ord(x) for x in t[2]}
        self.facts = pipe.closure(d, chars)
        self.regs = ["", "i1", "i2", "i3"]
        self.slots = ["s1", "s2"]
        # what each language says, from a process of its own
        self.says = {}
        for l in langs:
            r = d.one(op="lang", lang=l, dump=True)
            self.says[l] = r["dump"]

    def data(self, **kw):
        x = {"facts": self.facts, "specs": self.specs, "schemes": self.schemes, "std": self.std,
             "tags": {k: {"scheme": s, "kind": kd, "arg": cps(a)} for k, (s, kd, a) in self.tags.items()},
             "langs": self.lang_at, "users": self.users, "regs": self.regs, "slots": self.slots, "stdout": self.stdout,
             "listed": self.listed, "hist": [], "depth": 0, "prefix": [], "alpha": []}
        x.update(kw)
        return x

    def op(self, op, reg="", tag="", scheme="", lang="", user="", word="", snap="", fn=""):
        return {"op": op, "reg": reg, "tag": tag, "scheme": scheme, "lang": lang, "user": user, "word": cps(word), "snap": snap, "fn": fn}

    def real(self, o):
        r = {k: v for k, v in o.items() if k != "user"}
        if o["tag"]:
            s, kd, a = self.tags[o["tag"]]
            r.update(scheme=s, kind=kd, arg=cps(a))
        if o["op"] == "new" and o["user"]:
            r["src"] = self.src[o["user"]]
        return r

    def show(self, o):
        return o["op"] + "(" + ", ".join("%s=%r" % (k, text(v) if k == "word" else v) for k, v in o.items() if k != "op" and v) + ")"


def differs(w, o, want, got, ids):
    """None, or what is wrong with the answer"""
    cr = crashed(got)
    if cr:
        return cr
    for k, v in want.items():
        g = got.get(k)
        if k == "who":
            if v and v not in got.get("msg", v):
                return "the message %r does not name %r" % (got.get("msg"), v)
            continue
        if k == "says":
            if got.get("dump") != w.says[v]:
                return "the spec of %s is not what it was" % v
            continue
        if k == "spec":
            if (v == 0) != (g == 0):
                return "spec %s for %s" % (g, v)
            if v:
                if ids["m"].setdefault(v, g) != g or ids["r"].setdefault(g, v) != v:
                    return "the spec is %s" % ("not the one handed out before" if v in ids["m"] and ids["m"][v] != g else "one handed out before")
            continue
        if k == "set":
            if isinstance(v, list):
                v = {}
            gs = {x["scheme"]: x["tag"] for x in g}
            if gs != v or any(x["own"] != x["scheme"] for x in g):
                return "the set is %s instead of %s" % (gs, v)
            continue
        if k == "seen":
            g = [{"fn": x["fn"], "events": [{y: e[y] for y in ("step", "word", "why", "rule")} for e in x["events"]]} for x in g]
            v = [{"fn": x["fn"], "events": [{y: e[y] for y in ("step", "word", "why", "rule")} for e in x["events"]]} for x in v]
        if g != v:
            f = lambda z: text(z) if k == "out" and isinstance(z, list) else z
            return "%s is %r instead of %r" % (k, f(g), f(v))
    return None


def compare(c, w, hists, answers, what="history"):
    """run the histories on the real code"""
    reqs = [{"id": str(i), "op": "history", "ops": [w.real(o) for o in h]} for i, h in enumerate(hists)]
    bad = 0
    for i, m in enumerate(w.d.run(reqs)):
        c.traces += 1
        cr = crashed(m)
        if cr:
            c.violation("history %s: %s" % ([w.show(o) for o in hists[i]], cr), {"request": reqs[i]})
            continue
        ids = {"m": {}, "r": {}}
        for k, (o, want) in enumerate(zip(hists[i], answers[i])):
            x = differs(w, o, want, m["res"][k], ids)
            if x:
                bad += 1
                if bad < 10:
                    c.violation("after %s, %s: %s" % ([w.show(y) for y in hists[i][:k]], w.show(o), x),
                                {"request": reqs[i], "step": k, "want": want, "got": m["res"][k]})
                break


CFG = "INIT Init\nNEXT Next\nINVARIANT Emit\nPROPERTY PIsolated PFirst PCopies PEmpty PInstall PSticky PNothing PEnds\n"


def given(c, w, hists, timeout=800):
    n = min(8, max(1, len(hists) // 40))
    parts = [hists[i::n] for i in range(n)]
    outs = tlc_many([dict(module="MCApi", cfgtext=CFG, name="given", workers=1, heap="2500m", timeout=timeout,
                          data=w.data(hist=p)) for p in parts])
    for p, (recs, _) in zip(parts, outs):
        ans = [None] * len(p)
        for r in recs:
            ans[r["h"] - 1] = r["a"]
        if any(a is None for a in ans):
            raise HarnessError("MCApi gave no answer for a history")
        compare(c, w, p, ans)
    if hists:
        c.sample([w.show(o) for o in hists[0]])
    c.cover["histories_given"] = c.cover.get("histories_given", 0) + len(hists)


def every(c, w, prefix, alpha, depth, timeout=800):
    """all histories over alpha"""
    recs, _ = tlc("MCApi", cfgtext=CFG, name="every", workers=4, heap="4g", timeout=timeout, long=True,
                  data=w.data(prefix=prefix, alpha=alpha, depth=depth))
    hs = [prefix + [alpha[i - 1] for i in r["h"]] for r in recs]
    compare(c, w, hs, [r["a"] for r in recs], "every")
    c.cover["histories_exhaustive"] = c.cover.get("histories_exhaustive", 0) + len(hs)


def strange(l):
    """names which are not the language's"""
    return ["", "xx", l.upper(), l.capitalize(), "../specs/" + l, "./" + l, l + ".hsl", " " + l, l + " ", l + "\n", l[:2], l + "\x00", l + "-", l + "-x", l.replace("-", "_") + "_"]


def used_slots(ops):
    """operations on a copy only after one was taken"""
    out, have = [], set()
    for o in ops:
        if o["op"] == "snap":
            have.add(o["snap"])
        if o["op"] in ("snapread", "snapadd", "snapdel") and o["snap"] not in have:
            continue
        out.append(o)
    return out


def random_history(w, r, weights, n, insts=("i1", "i2", "i3")):
    """a history: weights is {op: weight}"""
    ops, alive = [], set()
    names, ws = list(weights), list(weights.values())
    O = w.op
    for i in insts:
        if r.random() < 0.8:
            if r.random() < 0.2:
                ops.append(O("new", i, lang=r.choice(w.langs)))
            else:
                ops.append(O("new", i, user=r.choice(list(w.users))))
            alive.add(i)
    for _ in range(n):
        op = r.choices(names, ws)[0]
        regs = sorted(alive) + [""]
        g = r.choice(regs)
        i = r.choice(sorted(alive)) if alive else None
        tag = r.choice(list(w.tags))
        sl = r.choice(w.slots)
        word = r.choice(w.words)
        lang = r.choice(w.langs) if r.random() < 0.8 else r.choice(strange(r.choice(w.langs)))
        if op == "new":
            k = r.choice(insts)
            if r.random() < 0.7:
                ops.append(O("new", k, user=r.choice(list(w.users))))
            else:
                ops.append(O("new", k, lang=lang))
                if lang not in w.langs:
                    continue
            alive.add(k)
        elif op == "use":
            ops.append(O("use", g, tag=tag))
        elif op == "unuse":
            ops.append(O("unuse", g, scheme=r.choice(w.schemes + ["", "A", "nosuch"])))
        elif op == "install":
            ops.append(O("install", g))
        elif op == "list":
            ops.append(O("list", g))
        elif op == "snap":
            ops.append(O("snap", g, snap=sl))
        elif op == "snapread":
            ops.append(O("snapread", snap=sl))
        elif op == "snapadd":
            ops.append(O("snapadd", snap=sl, tag=tag))
        elif op == "snapdel":
            ops.append(O("snapdel", snap=sl, scheme=r.choice(w.schemes)))
        elif op == "run":
            if g == "":
                ops.append(O("run", lang=lang, word=word))
            else:
                ops.append(O("run", g, word=word))
        elif op == "prun":
            ops.append(O("run", lang=lang, word=word))
        elif op == "runtr" and i:
            ops.append(O("runtr", i, word=word))
        elif op == "trace" and i:
            ops.append(O("trace", i, fn=r.choice(["", "f", "g", "h"])))
        elif op == "specid" and i:
            ops.append(O("specid", i))
        elif op == "load":
            ops.append(O("load", lang=lang, snap=sl))
        elif op == "unload":
            ops.append(O("unload", lang=lang))
        elif op == "langs":
            ops.append(O("langs"))
        elif op == "langsmut":
            ops.append(O("langsmut"))
        elif op == "runspec":
            ops.append(O("runspec", snap=sl, word=word))
        elif op == "dumpspec":
            ops.append(O("dumpspec", snap=sl))
    return used_slots(ops)


def C19(c):
    d = Driver()
    w = World(c, d)
    O, r = w.op, c.rng
    a, b, _ = w.langs
    wa = pipe.bundled()[a]["test"][0][0]
    alpha = [O("load", lang=a, snap="s1"), O("load", lang=b, snap="s2"), O("unload", lang=a), O("unload", lang="xx"),
             O("run", lang=a, word=wa), O("runspec", snap="s1", word=wa), O("load", lang="xx", snap="s1")]
    every(c, w, [], alpha, c.n(4, 5))
    every(c, w, [O("load", lang=a, snap="s1"), O("new", "i1", lang=a)],
          [O("unload", lang=a), O("load", lang=a, snap="s2"), O("specid", "i1"), O("dumpspec", snap="s1"), O("new", "i2", lang=a), O("run", "i1", word=wa)], c.n(3, 5))
    wt = dict(load=8, unload=4, runspec=3, dumpspec=2, run=1, prun=3, new=1.5, specid=2, langs=0.7, langsmut=0.5)
    given(c, w, [random_history(w, r, wt, r.randint(6, 25)) for _ in range(c.n(250, 4000))])
    all_languages(c, d)
    # every language: load twice, unload, load again
    B = pipe.bundled()
    langs = w.listed
    reqs = []
    for l in langs:
        z = langs[(langs.index(l) + 7) % len(langs)]
        word = (B[l]["test"] or [("a", "")])[-1][0]
        h = [O("load", lang=l, snap="s1"), O("load", lang=z, snap="s2"), O("load", lang=l, snap="s3"), O("runspec", snap="s1", word=word),
             O("unload", lang=l), O("load", lang=l, snap="s3"), O("runspec", snap="s3", word=word), O("runspec", snap="s1", word=word),
             O("dumpspec", snap="s1"), O("dumpspec", snap="s3"), O("load", lang=z, snap="s4"), O("unload", lang="nosuch"), O("load", lang=l, snap="s4"),
             O("dumpspec", snap="s4"), O("load", lang="nosuch", snap="s4"), O("load", lang="nosuch", snap="s4")]
        odd = [x for x in strange(l) if x not in langs]
        h += [O("load", lang=x, snap="s4") for x in odd] + [O("unload", lang=x) for x in odd] + [O("load", lang=l, snap="s4")]
        reqs.append({"id": l, "op": "history", "ops": [w.real(o) for o in h]})
    for q, m in zip(reqs, d.run(reqs)):
        c.traces += 1
        l = q["id"]
        if crashed(m):
            c.violation("%s: %s" % (l, crashed(m)), {"request": q})
            continue
        x = m["res"]
        for k in x:
            if crashed(k):
                c.violation("%s: %s" % (l, crashed(k)), {"request": q})
                break
        else:
            why = None
            if x[0]["err"] or x[0]["lang"] != l:
                why = "does not load"
            elif x[0]["spec"] != x[2]["spec"]:
                why = "a second load gives another spec"
            elif x[5]["spec"] == x[0]["spec"]:
                why = "unloaded, the same spec is still handed out"
            elif not (x[3]["out"] == x[6]["out"] == x[7]["out"]):
                why = "the fresh spec gives another result"
            elif not (x[8]["dump"] == x[9]["dump"] == x[13]["dump"]):
                why = "the fresh spec is not equivalent"
            elif x[10]["spec"] != x[1]["spec"] or x[12]["spec"] != x[5]["spec"]:
                why = "unloading another language took it away"
            elif any(y["err"] != "notfound" or y["spec"] for y in x[16:16 + (len(x) - 17) // 2]):
                why = "a name which is not listed finds a language"
            elif x[-1]["spec"] != x[5]["spec"]:
                why = "unloading an unknown name took it away"
            elif x[14]["err"] != "notfound" or x[15] != x[14]:
                why = "an unknown language: %s, then %s" % (x[14], x[15])
            if why:
                c.violation("%s: %s" % (l, why), {"request": q, "got": x})
    c.cover["languages_cycled"] = len(reqs)


def all_languages(c, d):
    """every language at once: nothing is lost however many there are"""
    li = d.one(op="langs")["langs"]
    w = World(c, d, langs=li)
    w.specs = [dict(s, macros=[], vars=[], norms=[], rewrite=[], transcribe=[]) for s in w.specs]
    w.facts = pipe.closure(d, {97})
    O, r = w.op, c.rng
    hs = []
    for k in range(c.n(4, 30)):
        a, b, z = list(li), list(li), list(li)
        for x in (a, b, z):
            r.shuffle(x)
        h = [O("load", lang=l, snap="s1") for l in a]
        if k % 2:
            h += [O("unload", lang=l) for l in z[:k]]
            h += [O("load", lang=r.choice(z[:k]), snap="s1"), O("unload", lang="nosuch"), O("langsmut"), O("langs")]
        h += [O("load", lang=l, snap="s2") for l in b]
        h += [O("load", lang=l, snap="s1") for l in reversed(a)]
        hs.append(h)
    given(c, w, hs)


def C20(c):
    d = Driver()
    w = World(c, d)
    O, r = w.op, c.rng
    alpha = [O("use", "", tag="A1"), O("use", "i1", tag="A2"), O("unuse", "", scheme="a"), O("unuse", "i1", scheme="a"),
             O("list", "i1"), O("list", ""), O("snap", "i1", snap="s1"), O("use", "i2", tag="A1")]
    every(c, w, [O("new", "i1", user="u1"), O("new", "i2", user="u1")], alpha, c.n(4, 5))
    pre = [O("new", "i1", user="u2"), O("use", "i1", tag="A1"), O("use", "", tag="B1"), O("snap", "i1", snap="s1"), O("snap", "", snap="s2")]
    alpha = [O("snapadd", snap="s1", tag="A2"), O("snapadd", snap="s2", tag="A5"), O("snapdel", snap="s1", scheme="a"), O("snapread", snap="s1"),
             O("snapread", snap="s2"), O("use", "i1", tag="B1"), O("unuse", "", scheme="b"), O("list", "i1"), O("list", ""), O("run", "i1", word="abc"),
             O("unuse", "i1", scheme="a")]
    every(c, w, pre, alpha, c.n(3, 4))
    wt = dict(use=9, unuse=5, list=5, snap=2, snapread=2, snapadd=1.5, snapdel=1, install=0.7, new=1, run=2, prun=0.7)
    given(c, w, [random_history(w, r, wt, r.randint(8, 30)) for _ in range(c.n(350, 5000))])


def C21(c):
    d = Driver()
    w = World(c, d)
    O, r = w.op, c.rng
    alpha = [O("install", "i1"), O("install", ""), O("list", "i1"), O("list", ""), O("unuse", "i1", scheme=w.std[0]), O("unuse", "i1", scheme=w.std[-1]),
             O("use", "i1", tag="P1"), O("unuse", "", scheme=w.ru), O("use", "", tag="R1")]
    every(c, w, [O("new", "i1", user="u4"), O("new", "i2", user="u4")], alpha, c.n(4, 5))
    # every single scheme, and every pair, in the way
    hs = []
    for g in ("i1", ""):
        for i, x in enumerate(w.std):
            for y in w.std[i:]:
                keep = [s for s in w.std if s not in (x, y)]
                h = [O("new", "i1", user="u4"), O("new", "i2", user="u0"), O("use", g, tag="A1"), O("use", "i2", tag="B1"), O("install", g)]
                h += [O("unuse", g, scheme=s) for s in keep]
                h += [O("list", g), O("install", g), O("list", g), O("list", "i2"), O("list", "" if g else "i1"), O("unuse", g, scheme=x), O("install", g), O("list", g),
                      O("unuse", g, scheme=y), O("install", g), O("list", g), O("install", "i2"), O("install", g), O("list", "i2")]
                hs.append(h)
        for t in ("P1", "F1", "R2"):
            hs.append([O("new", "i1", user="u4"), O("use", g, tag=t), O("install", g), O("list", g), O("run", "i1", word="abc"), O("install", "" if g else "i1"), O("list", "" if g else "i1"), O("list", g)])
    wt = dict(install=6, use=4, unuse=6, list=5, new=1, run=1, prun=1, snap=1, snapread=1)
    hs += [random_history(w, r, wt, r.randint(8, 25)) for _ in range(c.n(250, 4000))]
    given(c, w, hs)


def C22(c):
    d = Driver()
    w = World(c, d)
    O, r = w.op, c.rng
    # every combination of what is registered for each scheme of each chain
    hs = []
    A, Bt, C_ = [None, "A1", "A2", "A3", "A4"], [None, "B1", "B2", "B3", "B5"], [None, "C1", "C2"]
    for u in ("u1", "u2", "u3", "u4", "u5", "u6", "u7", "u8"):
        for a in A:
            for b in Bt if u in ("u2", "u3", "u6", "u8") else [r.choice(Bt)]:
                for x in C_ if u in ("u5", "u6", "u8") else [r.choice(C_)]:
                    h = [O("new", "i1", user=u), O("new", "i2", user=u), O("trace", "i1", fn="f")]
                    if u == "u4":
                        h.append(O("use", "i1", tag="P1") if r.random() < 0.5 else O("install", "i1"))
                    tg = [t for t in (a, b, x) if t]
                    r.shuffle(tg)
                    h += [O("use", "i1", tag=t) for t in tg]
                    # decoys: the other registries know everything
                    h += [O("use", "", tag=t) for t in ("A5", "B4", "C3")] + [O("use", "i2", tag=t) for t in ("A2", "B2", "C3")]
                    for word in r.sample(w.words, c.n(3, 8)):
                        h.append(O("run", "i1", word=word))
                        h.append(O("runtr", "i1", word=word))
                    hs.append(h)
    wt = dict(use=8, unuse=3, run=9, runtr=2, trace=1, prun=2, install=0.7, new=1, list=0.5, unload=0.2)
    hs += [random_history(w, r, wt, r.randint(8, 25)) for _ in range(c.n(200, 4000))]
    given(c, w, hs)
    every(c, w, [O("new", "i1", user="u2"), O("use", "", tag="A1"), O("use", "", tag="B1")],
          [O("use", "i1", tag="A3"), O("use", "i1", tag="A4"), O("use", "i1", tag="B1"), O("unuse", "i1", scheme="a"), O("unuse", "i1", scheme="b"), O("run", "i1", word="abc"), O("use", "i1", tag="B2")],
          c.n(4, 5))


def trace_histories(c, d):
    """C02: which function sees what, and that it changes nothing"""
    w = World(c, d)
    O, r = w.op, c.rng
    wt = dict(trace=6, runtr=9, use=3, unuse=1, new=0.7, install=0.3, run=1)
    given(c, w, [random_history(w, r, wt, r.randint(8, 22)) for _ in range(c.n(120, 3000))])
    every(c, w, [O("new", "i1", user="u0"), O("new", "i2", user="u1"), O("use", "i2", tag="A1")],
          [O("trace", "i1", fn="f"), O("trace", "i1", fn="g"), O("trace", "i1", fn=""), O("runtr", "i1", word="abc"), O("runtr", "i2", word="abc"), O("trace", "i2", fn="f")],
          c.n(4, 5))


def same_answers(c, d):
    """C17: whatever happened before, a run gives the same answer"""
    w = World(c, d)
    r = c.rng
    wt = dict(run=8, prun=5, runtr=2, load=1, unload=2, use=2, unuse=1, new=1.5, install=0.5, trace=1, runspec=2)
    given(c, w, [random_history(w, r, wt, r.randint(12, 30)) for _ in range(c.n(80, 2000))])
