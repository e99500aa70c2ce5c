"""C29 (Wasm.tla): the WebAssembly build under node. C30 (Tracefmt.tla)."""
import itertools, json, os
from concurrent.futures import ThreadPoolExecutor
import pipe
from vlib import *

OK = ["value", "sync", "resolved", "thenable"]
EXACT = ["reject-error", "reject-string", "throw-error", "throw-type", "throw-string", "async-throw", "rejected"]
VAGUE = ["reject-undefined", "reject-null", "reject-number", "reject-object", "throw-undefined", "throw-null", "throw-object"]
# answers that are no text: the call settles, with what is not said
ODD = ["odd-number", "odd-undefined", "odd-null", "odd-object", "odd-array", "odd-bool", "odd-sync-number", "odd-sync-undefined", "odd-sync-null", "odd-sync-object"]
WCFG = "INIT Init\nNEXT Next\nINVARIANT Verdict\nINVARIANT Inv\n"


def node(wasm, sessions, patience=600):
    d = tempfile.mkdtemp(dir=scratch())
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
    try:
        p = subprocess.run(["node", os.path.join(VERIF, "driver", "wasm.js"), wasm, os.path.join(GOROOT, "lib", "wasm", "wasm_exec.js")],
                           input=json.dumps(sessions).encode(), capture_output=True, timeout=patience, cwd=d, env=env)
    except subprocess.TimeoutExpired as e:
        out, err, rc = e.stdout or b"", b"timeout", -1
    else:
        out, err, rc = p.stdout, p.stderr, p.returncode
    recs = []
    for l in out.decode("utf-8", "replace").split("\n"):
        if l.strip():
            try:
                recs.append(json.loads(l))
            except ValueError:
                break
    return recs, rc, err.decode("utf-8", "replace")


def play(wasm, sessions, specs_out):
    """sessions -> logs. A session on which node itself ends is played again
    alone before anything is concluded from it."""
    logs, rest, deaths = {}, list(sessions), 0
    while rest:
        recs, rc, err = node(wasm, rest)
        for x in recs:
            if "specs" in x:
                specs_out.append(x["specs"])
            else:
                logs[x["id"]] = x
        n = len([x for x in recs if "specs" not in x])
        if not recs:
            raise HarnessError("node did not start the wasm build: " + err[-1500:])
        if n == len(rest):
            break
        bad = rest[n]
        recs, rc, err = node(wasm, [bad], 120)
        got = [x for x in recs if "specs" not in x]
        if got:
            logs[bad["id"]] = got[0]
        elif rc in (-9, 137):
            raise HarnessError("node was killed")
        else:
            logs[bad["id"]] = {"id": bad["id"], "log": [["no answer", err[-300:]]], "reg": []}
        deaths += 1
        if deaths > 5:
            for b in rest[n + 1:]:
                logs.setdefault(b["id"], None)
            break
        rest = rest[n + 1:]
    return logs


def ev(e):
    return json.dumps([text(e["step"]) if isinstance(e["step"], list) else e["step"], text(e["word"]), text(e["why"]) if isinstance(e["why"], list) else e["why"],
                       [e["rule"] - 1, text(e["from"]), text(e["to"])] if e["rule"] else None], ensure_ascii=False, separators=(",", ":"))


class Natives:
    """what the library says, natively"""
    def __init__(self, d):
        self.d, self.want, self.out = d, {}, {}

    def need(self, lang, word, scheme, kind, val):
        """kind "-": nothing is registered"""
        if kind in VAGUE or kind in ODD:
            val = "?"
        k = (lang, scheme, "-" if kind == "-" else "ok" if kind in OK else "fail", val if kind != "-" else "")
        self.want.setdefault(k, {})[word] = None
        return k + (word,)

    def fetch(self):
        ks = list(self.want)
        reqs = []
        for i, k in enumerate(ks):
            q = {"id": str(i), "op": "lang", "lang": k[0], "words": [cps(w) for w in self.want[k]], "events": True}
            if k[2] != "-":
                q["translits"] = [{"scheme": k[1], "kind": "const" if k[2] == "ok" else "failmsg", "arg": cps(k[3]), "tag": "t"}]
            reqs.append(q)
        for k, m in zip(ks, self.d.run(reqs)):
            if crashed(m):
                raise HarnessError("the native library crashed: %s" % crashed(m))
            for i, w in enumerate(self.want[k]):
                if m["perr"]:
                    o = {"ok": False, "text": "", "msg": m["perrmsg"], "trace": []}
                else:
                    x = m["res"][i]
                    if crashed(x):
                        raise HarnessError("the native library crashed on %r: %s" % (w, crashed(x)))
                    o = {"ok": not x["msg"], "text": text(x["out"]), "msg": x["msg"], "trace": [ev(e) for e in x["events"]]}
                self.out[k + (w,)] = o

    def outcome(self, key, kind):
        return dict(self.out[key], exact=kind not in VAGUE, free=kind in ODD)


def norm_ev(s):
    """the event as JavaScript wrote it, written as ev() does"""
    return json.dumps(json.loads(s), ensure_ascii=False, separators=(",", ":"))


def judge(c, N, sessions, logs, specs=None):
    """sessions: id, steps, calls [{lang, word, scheme, known, traced, answer: (kind, value) or None}]"""
    outs, index = [], {}

    def ref(key, kind):
        j = json.dumps([key, kind in VAGUE, kind in ODD])
        if j not in index:
            outs.append(N.outcome(key, kind))
            index[j] = len(outs)
        return index[j]
    cases = []
    for s in sessions:
        l = logs.get(s["id"])
        if l is None:
            continue
        c.traces += 1
        log = [[e[0], e[1], norm_ev(e[2])] if e[0] == "trace" else e for e in l["log"]]
        cases.append({"id": s["id"], "reg": l["reg"], "log": log, "calls": [
            {"known": k["known"], "scheme": k["scheme"], "word": k["word"], "traced": k["traced"],
             "native": [["-", ref(k["k0"], "-")]] + ([[k["answer"][0], ref(k["k1"], k["answer"][0])]] if k["answer"] else [])} for k in s["calls"]]})
    n = 6
    specs = specs or []
    shards = []
    for k in range(n):
        part = cases[k::n]
        used = sorted({q[1] for x in part for y in x["calls"] for q in y["native"]})
        at = {u: i + 1 for i, u in enumerate(used)}
        part = [dict(x, calls=[dict(y, native=[[q[0], at[q[1]]] for q in y["native"]]) for y in x["calls"]]) for x in part]
        if part or (k == 0 and specs):
            shards.append(dict(module="TraceWasm", cfgtext=WCFG, name="sessions", workers=1, heap="2500m",
                               data={"cases": part, "outcomes": [outs[u - 1] for u in used], "fails": EXACT + VAGUE, "specs": specs if k == 0 else []}))
    recs = [x for o, _ in tlc_many(shards) for x in o]
    by = {s["id"]: s for s in sessions}
    for x in recs:
        if "specs" in x:
            for l in x["specs"]:
                c.violation("the list of specs in JavaScript differs for %s" % l, {"lang": l})
    recs = [x for x in recs if "id" in x]
    if len(recs) != len(cases):
        raise HarnessError("TraceWasm judged %d of %d" % (len(recs), len(cases)))
    for x in recs:
        if x["bad"]:
            l = logs[x["id"]]["log"]
            e = l[x["bad"] - 1]
            want = ""
            if e[0] == "settle":
                k = by[x["id"]]["calls"][e[1] - 1]
                want = " (%r as %s; natively %s)" % (k["word"], k["lang"], [{a: N.out[q][a] for a in ("ok", "text", "msg")} for q in ([k["k1"]] if k["answer"] else [k["k0"]])])
            if e[0] == "end":
                want = " (calls are %s)" % x["st"]
            c.violation("JavaScript saw %s after %s: not a behaviour of the promises%s" % (json.dumps(e, ensure_ascii=False)[:300], json.dumps([q for q in l[:x["bad"] - 1] if q[0] != "trace"], ensure_ascii=False)[:600], want),
                        {"session": by[x["id"]]["steps"], "log": l[:x["bad"] + 3]})


def C29(c):
    d = Driver()
    r = c.rng
    pool = ThreadPoolExecutor(max_workers=2)
    building = pool.submit(build, "./cmd/hangulize.wasm", "h.wasm", GOOS="js", GOARCH="wasm")
    P = pipe.bundled()
    scheme = {l: (P[l]["schemes"] + [""])[0] for l in P}
    if any(len(P[l]["schemes"]) > 1 for l in P):
        raise HarnessError("a bundled language with several transliterators: the model has one per call")
    N = Natives(d)
    sessions = []

    # 1. every schedule of a few calls
    def mc(name, calls):
        # calls: (lang, word, traced, kinds, early)
        data = {"odd": ODD, "calls": [{"known": k[0] in P, "scheme": scheme.get(k[0], ""), "kinds": k[3] or ["-"], "early": k[4]} for k in calls]}
        recs, _ = tlc("MCWasm", cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT Inv\nPROPERTY PApart\nPROPERTY POnce\nPROPERTY Live\n", data=data, name=name, workers=4)
        return recs
    rich = ["value", "sync", "reject-error", "throw-string", "reject-undefined", "throw-error", "async-throw"]
    models = [
        ("two-askers", [("jpn", "かな", True, ["value", "reject-error", "throw-string", "odd-number"], True), ("jpn", "漢字", False, ["value", "sync", "reject-undefined"], True), ("ita", "gnocchi", True, None, False)]),
        ("two-schemes", [("jpn", "さくら", False, ["value", "throw-undefined"], False), ("rus", "Moskva", True, ["value", "rejected"], False), ("xyz", "a", True, None, False)]),
        ("one-asker", [("rus", "Пушкин", True, OK + EXACT + VAGUE + ODD, True), ("chi", "北京", True, ["value", "reject-null"], False)]),
    ]
    if c.thorough:
        models.append(("three-askers", [("jpn", "か", True, ["value", "reject-error", "sync"], True), ("chi", "北", True, ["value", "throw-error"], False), ("jpn", "き", False, ["value", "reject-string"], False), ("ita", "b", True, None, False)]))
    vals = {"jpn": "カキ ナー", "rus": "Достоевский", "chi": "běi jīng"}
    for name, calls in models:
        for x in mc(name, calls):
            for ticks in (True, False):
                steps, cs, regs = [], [], []
                for i, k in enumerate(calls):
                    cs.append({"lang": k[0], "word": k[1], "scheme": scheme.get(k[0], ""), "known": k[0] in P, "traced": k[2], "answer": None})
                for e in x["h"]:
                    if e[0] == "reg":
                        steps += [["tick"], ["reg", e[1]]]
                    elif e[0] == "call":
                        k = calls[e[1] - 1]
                        steps.append(["call", e[1], k[0], k[1], 1 if k[2] else 0])
                    else:
                        k = calls[e[1] - 1]
                        val = vals[k[0]] if e[2] in OK else "no %s today" % k[1]
                        cs[e[1] - 1]["answer"] = (e[2], val)
                        steps.append(["answer", k[1], e[2], val])
                    if ticks:
                        steps.append(["tick"])
                sessions.append({"steps": steps, "calls": cs, "fresh": True})
        c.cover["schedules_" + name] = len(sessions)
    full = len(sessions)
    # starting an instance costs far more than a session: the schedules are
    # played with the registrations made first, a part as they are
    keep = c.n(32, 800)
    some = set(r.sample(range(full), min(full, keep)))
    replay, seen = [], set()
    for i, s in enumerate(sessions):
        if i in some:
            replay.append(s)
        regs = [x for x in s["steps"] if x[0] == "reg"]
        order = [x for x in s["steps"] if x[0] != "reg"]
        key = json.dumps(order)
        if key in seen or any(k["scheme"] and not k["answer"] for k in s["calls"]):
            continue
        seen.add(key)
        replay.append({"steps": order, "calls": s["calls"], "fresh": False, "pre": True})
    # 2. sessions over all languages
    langs = sorted(P)
    for i in range(c.n(60, 1200)):
        cs, todo = [], []
        steps = []
        k = r.randint(3, 10)
        words = set()
        late = []
        for j in range(1, k + 1):
            l = r.choice(langs + [x for x in langs if scheme[x]] * 6 + ["", "xx", "__proto__", "ITA", "toString"])
            ws = [t[0] for t in P[l]["test"]] if l in P else []
            w = r.choice([lambda: r.choice(ws or ["a"]), lambda: r.choice(ws or ["b"]) + " " + r.choice(ws or ["c"]), lambda: "".join(r.choice("abcé,중\u0301😀ｱ\u0000 \t\"\\") for _ in range(r.randint(1, 6))), lambda: ""])()
            while w in words:
                w += r.choice("abc 가")
            words.add(w)
            sc = scheme.get(l, "")
            traced = r.choice([0, 1, 1, 1, 2, 3])
            a = None
            if sc:
                kind = r.choice(OK * 3 + EXACT + VAGUE + ODD)
                if kind in OK:
                    al = r.choice([x for x in langs if x == l])
                    a = (kind, r.choice([lambda: w, lambda: r.choice([t[0] for t in P[al]["test"]] or ["a"]), lambda: "", lambda: "カナ テスト", lambda: "ещё"])())
                else:
                    a = (kind, r.choice(["no", "실패: a", "", "a\nb"]))
                late.append(["answer", w, a[0], a[1]])
            cs.append({"lang": l, "word": w, "scheme": sc, "known": l in P, "traced": traced == 1, "answer": a})
            todo.append(["call", j, l, w, traced])
        # calls and answers in any order
        q = todo + late
        r.shuffle(q)
        for x in q:
            steps.append(x)
            if r.random() < 0.4:
                steps.append(["tick"])
        pre = r.random() < 0.8
        if not pre:
            for sc in r.sample(sorted({x for x in scheme.values() if x}), 3) * 2:
                at = r.randint(0, len(steps))
                steps[at:at] = [["tick"], ["reg", sc]]
        replay.append({"steps": steps, "calls": cs, "fresh": not pre, "pre": pre})
    # 3. many words of the bundled languages, traced
    for l in langs:
        if scheme[l]:
            continue
        ws = list(dict.fromkeys(t[0] for t in P[l]["test"]))
        ws = r.sample(ws, min(len(ws), c.n(6, 60)))
        cs = [{"lang": l, "word": w, "scheme": "", "known": True, "traced": True, "answer": None} for w in ws]
        replay.append({"steps": [["call", j + 1, l, w, 1] for j, w in enumerate(ws)], "calls": cs, "fresh": False, "pre": True})
    for i, s in enumerate(replay):
        s["id"] = i
        for k in s["calls"]:
            k["k0"] = N.need(k["lang"], k["word"], "", "-", "")
            if k["answer"]:
                k["k1"] = N.need(k["lang"], k["word"], k["scheme"], k["answer"][0], k["answer"][1])
    N.fetch()
    wasm = building.result()
    pres = [s for s in replay if not s["fresh"]]
    fresh = [s for s in replay if s["fresh"]]
    schemes = sorted({x for x in scheme.values() if x})
    first = {"id": -1, "steps": [["reg", x] for x in schemes], "fresh": True, "calls": []}
    jobs = [[dict(first, id=-1 - k)] + pres[k::4] for k in range(4)] + [fresh[k::4] for k in range(4)]
    seen_specs = []
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda j: play(wasm, [{k: v for k, v in s.items() if k in ("id", "steps", "fresh")} for s in j], seen_specs), jobs))
    logs = {}
    for x in res:
        logs.update(x)
    # what JavaScript sees of the specs
    specs = []
    js = seen_specs[0]
    for l in sorted(set(langs) | set(js)):
        nat = []
        if l in P:
            m = d.one(op="lang", lang=l, dump=True, words=[])["dump"]
            nat = [text(m[k]) for k in ("id", "code2", "code3", "english", "korean", "script")] + [[text(t) for t in m["translit"]], [text(t) for t in m["authors"]], text(m["stage"]),
                   [[text(t["key"]), text(t["vals"][0])] for t in m["test"]], text(m["source"])]
        specs.append({"lang": l, "js": js.get(l, []), "native": nat})
    firsts = [dict(first, id=-1 - k) for k in range(4)]
    judge(c, N, firsts + replay, logs, specs)
    c.cover["sessions"] = len(replay)
    c.cover["specs_compared"] = len(specs)
    for s in replay[:2]:
        c.sample(json.dumps(s["steps"], ensure_ascii=False))


# --- C30 ---------------------------------------------------------------------------------------

def C30(c):
    d = Driver()
    r = c.rng
    P = pipe.bundled()
    reqs = []

    def T(step, word, kind, why="why", frm="a", to="b"):
        return {"step": step, "word": cps(word), "why": why if kind in ("why", "both") else "", "from": cps(frm), "to": cps(to), "rule": kind in ("rule", "both")}
    # 1. every short list
    ws = ["", "a", "\u0301", "abcdefg", "가나다라", "가나다라마", "abcdefghijklmnop", "e\u0301\u200b😀x" + "y" * 12]
    one = [(s, w, k) for s in ("Rewrite", "Input") for w in ws for k in ("", "why", "rule")]
    for n in (0, 1, 2):
        for q in itertools.product(one, repeat=n):
            reqs.append([T(*x) for x in q])
    three = [(s, w, k) for s in ("A", "B") for w in ws[:c.n(5, 8)] for k in ("why",)]
    for q in itertools.product(three, repeat=3):
        reqs.append([T(*x) for x in q])
    # 2. longer lists, words of any width
    pool = "aé가中ア｡ｱ ~\u0301\u200b\u00ad😀👨\u200d👩{}.-%d\ufeff·"
    for _ in range(c.n(400, 8000)):
        ts = []
        w = ""
        for _ in range(r.randint(1, 14)):
            if r.random() < 0.7:
                w = "".join(r.choice(pool) for _ in range(r.choice([0, 1, 2, 4, 7, 8, 9, 15, 16, 17, 30, 60])))
                if r.random() < 0.1:
                    w += "%s %d"
            kind = r.choice(["", "why", "rule", "rule", "both"])
            ts.append(T(r.choice(["Input", "Transliterate", "Normalize", "Rewrite", "Rewrite", "Transcribe", "Syllabify", "x y", "단계"]), w, kind, r.choice(["why", "remove zero-width spaces", "a%sb", "(x)", "이유 ", "|"]), r.choice(["a", "{a|b}c", "^%s$", "가+", "<x>~", "\"", ""]), r.choice(["b", "", "-ㄴ", "%d", "{}", "<x>", " | "])))
        reqs.append(ts)
    out = d.run([{"id": str(i), "op": "tracefmt", "traces": ts} for i, ts in enumerate(reqs)])
    cases, what = [], {}
    for ts, m in zip(reqs, out):
        if crashed(m):
            c.violation("printing %s: %s" % (ts, crashed(m)), {"traces": ts})
            continue
        if m.get("perr"):
            continue
        cases.append((ts, m["widths"], text(m["text"])))
    # 3. what real runs say
    lreqs = []
    for l in sorted(P):
        t = [x[0] for x in P[l]["test"]]
        lreqs.append({"id": l, "op": "lang", "lang": l, "std": True, "events": True, "fmt": True, "words": [cps(w) for w in r.sample(t, min(len(t), c.n(2, 20)))]})
    wid = []
    for q, m in zip(lreqs, d.run(lreqs)):
        if crashed(m) or m["perr"]:
            raise HarnessError("no run of %s" % q["lang"])
        for x in m["res"]:
            if crashed(x):
                raise HarnessError("%s: %s" % (q["lang"], crashed(x)))
            ts = [{"step": e["step"] if isinstance(e["step"], str) else text(e["step"]), "word": e["word"], "why": e["why"] if isinstance(e["why"], str) else text(e["why"]), "rule": e["rule"] > 0, "from": e.get("from", []), "to": e.get("to", [])} for e in x["events"]]
            wid.append((ts, text(x["fmt"])))
    ms = d.run([{"id": str(i), "op": "tracefmt", "traces": [dict(t, rule=False) for t in ts]} for i, (ts, _) in enumerate(wid)])
    for (ts, t), m in zip(wid, ms):
        if crashed(m):
            c.violation("printing %s: %s" % (ts, crashed(m)), {"traces": ts})
        else:
            cases.append((ts, m["widths"], t))
    js = []
    for i, (ts, ws_, t) in enumerate(cases):
        c.traces += 1
        ls = t.split("\n")
        js.append({"id": i, "ended": ls[-1] == "", "lines": [cps(x) for x in (ls[:-1] if ls[-1] == "" else ls)],
                   "events": [{"step": cps(e["step"]), "word": e["word"], "width": w, "why": cps(e["why"]), "rule": e["rule"], "from": e["from"], "to": e["to"]} for e, w in zip(ts, ws_)]})
    n = 6
    outs = tlc_many([dict(module="Tracefmt", cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT Inv\nPROPERTY OnlyRight\n", name="listings", workers=1, heap="3g", data={"cases": js[k::n]}) for k in range(n)])
    right = {x["id"] for o, _ in outs for x in o}
    for i, (ts, ws_, t) in enumerate(cases):
        if i not in right:
            c.violation("the traces %s are printed as %r" % ([(e["step"], text(e["word"]), e["why"], e["rule"]) for e in ts], t), {"traces": ts, "printed": t, "widths": ws_})
    c.cover["listings"] = len(cases)
    c.sample(cases[-1][2])
