"""C18: concurrent histories of the real code, recorded with logical times,
must be linearizable (Conc.tla); race detector builds watch the same runs."""
import json
import gen, pipe
from vlib import *
from checks_hist import World


class Stopped(Exception):
    pass


def answers(c, drv, w, langs, words, insts):
    """what one call at a time gives"""
    class d:
        @staticmethod
        def run(reqs):
            out = drv.run(reqs)
            for q, m in zip(reqs, out):
                if crashed(m):
                    c.violation("one call after another, %s: %s" % (json.dumps(q, ensure_ascii=False)[:300], crashed(m)), {"request": q})
                    raise Stopped()
            return out
        one = staticmethod(lambda **r: d.run([dict(r, id="x")])[0])
    B = pipe.bundled()
    O = w.op
    tab, reqs, keys = {}, [], []
    for l in langs:
        sch = B[l]["schemes"][0] if B[l]["schemes"] else ""
        tags = [""] + [t for t, x in w.tags.items() if x[0] == sch] if sch else ["*"]
        for t in tags:
            h = [O("use", "", tag=t)] if t not in ("", "*") else []
            h += [O("run", "", lang=l, word=x) for x in words[l]]
            reqs.append({"id": "r", "op": "history", "ops": [w.real(o) for o in h]})
            keys.append((l, t))
    for (l, t), m in zip(keys, d.run(reqs)):
        for x, a in zip(words[l], m["res"][-len(words[l]):]):
            tab.setdefault((l, x), []).append([t, [a["out"], a["err"]]])
    for x in words["xx"]:
        a = d.run([{"id": "r", "op": "history", "ops": [w.real(O("run", "", lang="xx", word=x))]}])[0]["res"][0]
        tab["xx", x] = [["*", [a["out"], a["err"]]]]
    inst = {}
    for g, u in insts.items():
        for x in words["inst"]:
            h = [O("new", g, user=u) if u in w.users else O("new", g, lang=u)] + [O("use", g, tag=t) for t in ("A1", "B1", "R1")] + [O("run", g, word=x)]
            a = d.run([{"id": "r", "op": "history", "ops": [w.real(o) for o in h]}])[0]["res"][-1]
            inst[g, x] = (a["out"], a["err"])
    std = {}
    for sc in w.std:
        r = d.one(op="translit", scheme=sc, words=[cps(x) for x in words["std"]])
        for x, m in zip(words["std"], r["res"]):
            std[sc, x] = (m["out"], m["err"])
    return tab, inst, std


def C18(c):
    d = Driver(limit=60)
    race = Driver(race=True, limit=60, env={"GORACE": "halt_on_error=1 exitcode=66", "GOMAXPROCS": "8"})
    plain = Driver(limit=60, env={"GOMAXPROCS": "8"})
    w = World(c, d)
    B = pipe.bundled()
    O, r = w.op, c.rng
    langs = w.langs                      # two plain ones and rus
    words = {l: [t[0] for t in r.sample(B[l]["test"], 2)] for l in langs}
    words["xx"] = ["abc"]
    words["inst"] = ["abc", "bad cab", "дa"]
    words["std"] = ["abc", "中国 1", "シシャモ", "shcha zh", "かゞ田中さん", "時間は"]
    insts = {"i1": "u2", "i2": "rus", "i3": "u0"}
    try:
        tab, inst, std = answers(c, d, w, langs, words, insts)
    except Stopped:
        return
    setup0 = []
    for g, u in insts.items():
        setup0.append(O("new", g, user=u) if u in w.users else O("new", g, lang=u))
        setup0 += [O("use", g, tag=t) for t in ("A1", "B1", "R1")]

    def registry(n):
        k = r.random()
        tags = r.choice([["A1", "A2", "A3", "A4", "A5"], ["A1", "A2", "B1", "B2"], ["R1", "R2", "A1"]])
        if k < 0.45:
            return O("use", "", tag=r.choice(tags))
        if k < 0.7:
            return O("unuse", "", scheme=w.tags[r.choice(tags)][0])
        if k < 0.85:
            return O("list", "")
        return O("run", "", lang=langs[2], word=r.choice(words[langs[2]]))

    def cache(n):
        k = r.random()
        l = r.choice(langs[:2] + ["xx"])
        if k < 0.5:
            return O("load", lang=r.choice(langs[:2]) if k < 0.45 else l, snap="s1")
        if k < 0.7:
            return O("unload", lang=l)
        if k < 0.9:
            return O("run", "", lang=l, word=r.choice(words[l]))
        return O("langs")

    def mixed(n):
        k = r.random()
        if k < 0.3:
            return registry(n)
        if k < 0.6:
            return cache(n)
        if k < 0.8:
            return O("run", r.choice(list(insts)), word=r.choice(words["inst"]))
        return O("tr", scheme=r.choice(w.std), word=r.choice(words["std"]))

    def job(kind, rounds, nt, no):
        mk = {"registry": registry, "cache": cache, "mixed": mixed}[kind]
        th = [[mk(i) for _ in range(r.randint(1, no))] for i in range(r.randint(2, nt))]
        if kind == "registry" and r.random() < 0.4:   # everybody registers the same scheme
            tg = [t for t, x in w.tags.items() if x[0] == "a"]
            th = [[O("use", "", tag=tg[i % len(tg)])] + t[:2] for i, t in enumerate(th + th)][:6]
        if kind == "cache" and r.random() < 0.4:      # everybody loads at first
            l = r.choice(langs)
            th = [[O("load", lang=l, snap="s1")] + t[:3] for t in th + th][:6]
        su = list(setup0) if kind == "mixed" else []
        for t in r.sample(["A1", "B1", "R1"], r.randint(0, 2)):
            su.append(O("use", "", tag=t))
        # the instances' languages are loaded by now
        su += [O("unload", lang=l) for l in langs]
        return {"threads": th, "setup": su, "rounds": rounds}

    cases, seen, where = [], set(), []

    def collect(drv, jobs):
        if c.violations:
            return
        reqs = [{"id": str(i), "op": "conc", "rounds": j["rounds"], "setup": [w.real(o) for o in j["setup"]],
                 "threads": [[w.real(o) for o in t] for t in j["threads"]]} for i, j in enumerate(jobs)]
        for i, (j, m) in enumerate(zip(jobs, drv.run(reqs))):
            cr = crashed(m)
            if cr:
                what = "data race" if "DATA RACE" in cr else cr[:60]
                c.violation("threads %s: %s: %s" % ([[w.show(o) for o in t] for t in j["threads"]], what, cr), {"request": reqs[i], "race": drv is race})
                continue
            reg = [[w.tags[o["tag"]][0], o["tag"]] for o in j["setup"] if o["op"] == "use" and o["reg"] == ""]
            for rnd in m["rounds"]:
                c.traces += 1
                th, bad = [], None
                for ops, rs in zip(j["threads"], rnd):
                    calls = []
                    for o, x in zip(ops, rs or []):
                        q = {"op": o["op"], "s": x["s"], "e": x["e"]}
                        if crashed(x):
                            bad = "%s: %s" % (w.show(o), crashed(x))
                        if o["op"] in ("use", "unuse"):
                            q.update(scheme=w.tags[o["tag"]][0] if o["tag"] else o["scheme"], tag=o["tag"], ok=x.get("ok"))
                        elif o["op"] == "list":
                            q["set"] = [[y["scheme"], y["tag"]] for y in x.get("set", [])]
                        elif o["op"] == "load":
                            q.update(lang=o["lang"], err=x.get("err"), spec=x.get("spec"))
                        elif o["op"] == "unload":
                            q.update(lang=o["lang"])
                        elif o["op"] == "langs":
                            q.update(op="pure", ok=x.get("langs") == w.listed)
                        elif o["op"] == "tr":
                            q.update(op="pure", ok=(x.get("out"), x.get("err")) == std[o["scheme"], text(o["word"])])
                        elif o["reg"]:
                            q.update(op="pure", ok=(x.get("out"), x.get("err")) == inst[o["reg"], text(o["word"])])
                        else:
                            l, wd = o["lang"], text(o["word"])
                            q.update(lang=l, scheme=B[l]["schemes"][0] if l in B and B[l]["schemes"] else "",
                                     tab=tab[l, wd], got=[x.get("out"), x.get("err")])
                        calls.append(q)
                    th.append(calls)
                if bad:
                    c.violation(bad, {"request": reqs[i]})
                    continue
                # renumber the times, so that equal histories are checked once
                ts = sorted({x[y] for t in th for x in t for y in ("s", "e")})
                at = {t: n for n, t in enumerate(ts)}
                ids = {}
                for t in th:
                    for x in t:
                        x["s"], x["e"] = at[x["s"]], at[x["e"]]
                for x in sorted((x for t in th for x in t if x.get("spec")), key=lambda x: x["s"]):
                    x["spec"] = ids.setdefault(x["spec"], len(ids) + 1)
                key = json.dumps([reg, th], sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    cases.append({"threads": th, "reg": reg})
                    where.append((reqs[i], drv is race))

    # the same calls over and over, with nothing of ours between them which
    # would order them; what each call answers is known from one thread alone
    def free(drv, jobs, rounds):
        if c.violations:
            return
        mk = lambda i, ths, n: {"id": str(i), "op": "free", "rounds": n, "setup": [w.real(o) for o in setup0], "threads": [[w.real(o) for o in t] for t in ths]}
        alone = {}
        todo = []
        for ths in jobs:
            for t in ths:
                for o in t:
                    if json.dumps(o) not in alone:
                        alone[json.dumps(o)] = None
                        todo.append(o)
        for o, m in zip(todo, d.run([mk(i, [[o]], 1) for i, o in enumerate(todo)])):
            alone[json.dumps(o)] = m["answers"][0][0] if m.get("answers") else None
        reqs = [mk(i, ths, rounds) for i, ths in enumerate(jobs)]
        for q, ths, m in zip(reqs, jobs, drv.run(reqs)):
            cr = crashed(m)
            if cr:
                what = "data race" if "DATA RACE" in cr else cr[:60]
                c.violation("threads %s over and over: %s: %s" % ([[w.show(o) for o in t] for t in ths], what, cr), {"request": q, "race": drv is race})
                continue
            c.traces += rounds
            th = [[{"op": "pure", "s": 0, "e": 1, "ok": [a] == alone[json.dumps(o)], "what": w.show(o), "got": a}
                   for o, as_ in zip(t, ans) for a in as_] for t, ans in zip(ths, m["answers"])]
            cases.append({"threads": th, "reg": []})
            where.append((q, drv is race))

    def same(n):
        """a few calls on the same thing by everybody"""
        k = r.randrange(5)
        if k == 0:
            sc = r.choice(w.std)
            ops = [O("tr", scheme=sc, word=x) for x in r.sample(words["std"], 2)]
        elif k == 1:
            g = r.choice(list(insts))
            ops = [O("run", g, word=x) for x in r.sample(words["inst"], 2)]
        elif k == 2:
            l = r.choice(langs[:2])
            ops = [O("run", "", lang=l, word=x) for x in words[l]] + [O("unload", lang=l), O("load", lang=l, snap="s")]
        elif k == 3:
            ops = [O("list", ""), O("use", "", tag="A1"), O("unuse", "", scheme="a"), O("langs")]
        else:
            ops = [mixed(n) for _ in range(3)]
            ops = [o for o in ops if o["op"] in ("tr", "run", "load", "unload", "langs", "use", "unuse", "list")
                   and not (o["op"] == "run" and not o["reg"] and o["lang"] == langs[2])] or [O("langs")]
        return [[o for o in ops[i % len(ops):] + ops[:i % len(ops)]] for i in range(n)]

    for p in range(c.n(1, 6)):
        js = [same(r.randint(3, 6)) for _ in range(c.n(14, 40))]
        js += [[[O("tr", scheme=s, word=x)] for x in r.sample(words["std"], 4)] for s in w.std]
        free(race, js, c.n(8, 30))
        free(plain, js, c.n(60, 300))

    # several processes, so that first uses happen at the same time again and again
    for p in range(c.n(3, 12)):
        first = {"threads": [[O("tr", scheme=s, word=x)] for s in w.std for x in r.sample(words["std"], 2)], "setup": [], "rounds": 1}
        first2 = {"threads": [[O("tr", scheme="furigana", word=words["std"][i % 6]), O("load", lang=langs[i % 3], snap="s1")] for i in range(6)], "setup": [], "rounds": 1}
        js = [first2 if p % 2 else first]
        js += [job("mixed", c.n(6, 12), 5, 5) for _ in range(c.n(6, 20))]
        js += [job("registry", c.n(15, 30), 5, 4) for _ in range(c.n(8, 20))]
        js += [job("cache", c.n(6, 12), 5, 4) for _ in range(c.n(8, 20))]
        collect(race, js)
    for p in range(c.n(1, 6)):
        js = [job("registry", c.n(120, 300), 5, 4) for _ in range(c.n(20, 40))]
        js += [job("cache", c.n(40, 80), 5, 4) for _ in range(c.n(15, 30))]
        js += [job("mixed", c.n(20, 60), 4, 4) for _ in range(c.n(10, 20))]
        collect(plain, js)
    c.cover["concurrent_rounds"] = c.traces
    c.cover["distinct_histories"] = len(cases)
    overlap = sum(1 for k in cases if any(a["s"] < b["e"] and b["s"] < a["e"] for i, t in enumerate(k["threads"]) for a in t
                                          for u in k["threads"][i + 1:] for b in u))
    c.cover["histories_with_overlapping_calls"] = overlap
    cap = c.n(6000, 40000)
    idx = list(range(len(cases)))
    if len(idx) > cap:
        idx = sorted(r.sample(idx, cap))
    n = 8
    outs = tlc_many([dict(module="Conc", cfgtext="INIT Init\nNEXT Next\nINVARIANT Done\n", name="linearizable", workers=1, heap="2500m", long=True,
                          data={"cases": [cases[i] for i in idx[k::n]], "langs": langs, "schemes": w.schemes}) for k in range(n) if idx[k::n]])
    c.cover["histories_decided"] = len(idx)
    for k, (recs, _) in enumerate(outs):
        ok = {x["k"] for x in recs}
        for j, i in enumerate(idx[k::n]):
            if j + 1 not in ok:
                q, israce = where[i]
                show = [[{a: (text(b) if a == "word" else b) for a, b in x.items() if a != "tab"} for x in t] for t in cases[i]["threads"]]
                c.violation("no one-at-a-time order explains what these goroutines got: %s" % json.dumps(show, ensure_ascii=False)[:1500],
                            {"request": q, "history": cases[i]})
    if cases:
        c.sample([["%s %s" % (x["op"], {a: b for a, b in x.items() if a not in ("op", "tab")}) for x in t] for t in cases[len(cases) // 2]["threads"]])
    c.assumptions += ["schedules are the ones the Go runtime happened to take on 8 processors; data races are found by the race detector on them"]
