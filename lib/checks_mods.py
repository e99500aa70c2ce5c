"""C32 (Modules.tla): the transliterators as WebAssembly modules under node."""
import json, os, unicodedata
from concurrent.futures import ThreadPoolExecutor
import checks_tr, pipe
from vlib import *

MODS = ["cyrillic", "furigana", "pinyin"]
VERSION = "9.8.7-verif"
STRANGE = ["cyrillic", "cyrillic[fr]", "cyrillic[RU]", "", "pinyin", "furigana", "cyrillic[ru] ", "__proto__", "한글"]
COUNTRIES = ["bg", "mk", "ru", "ua"]


def node(paths, sessions, patience):
    d = tempfile.mkdtemp(dir=scratch())
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG")}
    try:
        p = subprocess.run(["node", os.path.join(VERIF, "driver", "modules.js"), os.path.join(GOROOT, "lib", "wasm", "wasm_exec.js"), json.dumps(paths)],
                           input=json.dumps(sessions).encode(), capture_output=True, timeout=patience, cwd=d, env=env)
    except subprocess.TimeoutExpired as e:
        out, err, rc = e.stdout or b"", b"timeout", -1
    else:
        out, err, rc = p.stdout, p.stderr, p.returncode
    recs = []
    for l in out.decode("utf-8", "replace").split("\n"):
        if l.strip():
            try:
                recs.append(json.loads(l))
            except ValueError:
                break
    return recs, rc, err.decode("utf-8", "replace")


def play(paths, sessions):
    """sessions -> logs; a session on which node ends or hangs is played again alone"""
    logs, rest, deaths = {}, list(sessions), 0
    while rest:
        recs, rc, err = node(paths, rest, 400 if not deaths else 120)
        if not recs:
            raise HarnessError("node did not start: " + err[-1500:])
        got = recs[1:]
        for x in got:
            logs[x["id"]] = x["log"]
        if len(got) == len(rest):
            break
        bad = rest[len(got)]
        recs, rc, err = node(paths, [bad], 90)
        if len(recs) == 2:
            logs[bad["id"]] = recs[1]["log"]
        elif rc in (-9, 137):
            raise HarnessError("node was killed")
        else:
            logs[bad["id"]] = [["no answer", 0, "", err[-300:]]]
        deaths += 1
        if deaths > 3:
            break
        rest = rest[len(got) + 1:]
    return logs


def C32(c):
    d = Driver()
    r = c.rng
    pool = ThreadPoolExecutor(max_workers=4)
    builds = {m: pool.submit(build, "./cmd/%s.translit.wasm" % m, m + ".wasm", ldflags="-X 'main.version=%s'" % VERSION, GOOS="js", GOARCH="wasm") for m in MODS}
    builds["lib"] = pool.submit(build, "./cmd/hangulize.wasm", "hv.wasm", ldflags="-X 'main.version=%s'" % VERSION, GOOS="js", GOARCH="wasm")
    tables = json.load(open(os.path.join(REPO, "translit/cyrillic/dict.json"), encoding="utf-8"))
    T = {k: sorted(x for x in tables[k]["tocyrillic"].items() if x[0]) for k in COUNTRIES}
    P = pipe.bundled()
    langs = {l: P[l]["schemes"][0] for l in P if P[l]["schemes"]}

    # --- words ---
    every = [x[0] for x in d.one(op="readings", chars=list(range(0x3400, 0xA000)))["res"]]
    W = {"pinyin": ["", "中国", "a中b", " ", "\uf900", "e\u0301中", "北京 2008", "\u200b"], "furigana": ["", "新海誠", "バナヽ", "東京へ行く", " "], "cyrillic": ["", "privet", "Shh", "y'", "中"]}
    for _ in range(c.n(150, 3000)):
        W["pinyin"].append("".join(chr(r.choice(every)) if r.random() < 0.5 else r.choice("ab 1,ー가é\n🙂\u200bＡ\x00") for _ in range(r.randint(0, 10))))
        W["furigana"].append(checks_tr.sentence(r))
        keys = [a for a, _ in T[r.choice(COUNTRIES)]]
        W["cyrillic"].append("".join(r.choice(keys) if r.random() < 0.8 else r.choice("xXwWqhHyYjJ' éäдЖ1,가\u0301žŽčš\x00🙂") for _ in range(r.randint(1, 9))))
    # words which are nearly the same, to be asked one after the other
    near = lambda w: [x for x in dict.fromkeys([w.swapcase(), w + " ", " " + w, w[:-1], w + w, w[::-1], unicodedata.normalize("NFD", w), w.replace("a", "á"), w.title(), w.replace(w[:1], "", 1)]) if x != w]
    close = {}
    for m in MODS:
        for w in r.sample(W[m], 40) + [x for x in ("abc中国de", "Abc猫DE", "privetShh") if (m == "cyrillic") == (x == "privetShh")]:
            close[(m, w)] = near(w)
            W[m] += [w] + close[(m, w)]
    odd = {ord(x) for x in "ー・゠ヿ゛゜ゟ\u3099\u309a"}
    mk = {ord(x) for x in checks_tr.MARKS}
    fn = d.one(op="nfc", words=[cps(w) for w in W["furigana"]])["res"]
    W["furigana"] = [w for w, n in zip(W["furigana"], fn) if not any(a in odd and b in mk for a, b in zip(n, n[1:]))]
    fn = d.one(op="nfc", words=[cps(w) for w in W["furigana"]])["res"]
    toks = d.one(op="tokens", words=checks_tr.resolve(d, fn))["res"]
    tokens = {w: [checks_tr.token(t) for t in ts] for w, ts in zip(W["furigana"], toks)}
    pn = dict(zip(W["pinyin"], d.one(op="nfc", words=[cps(w) for w in W["pinyin"]])["res"]))

    ok = {m: set(W[m]) for m in MODS}
    close = {k: [x for x in v if x in ok[k[0]]] for k, v in close.items() if k[1] in ok[k[0]]}
    pairs = {m: [(w, v) for (n, w), vs in close.items() if n == m for v in vs] for m in MODS}

    def ask(m, w=None):
        w = r.choice(W[m] if r.random() < 0.85 else W[m][:5]) if w is None else w
        if m == "cyrillic":
            s = r.choice(["cyrillic[%s]" % k for k in COUNTRIES] * 3 + STRANGE)
        else:
            s = r.choice([m, m, m, "", "x"])
        return ["ask", m, s, w]

    def call():
        l = r.choice(sorted(langs) * 2 + ["ita", "xx"])
        ws = [t[0] for t in P[l]["test"]] if l in P else ["a"]
        w = r.choice(ws) if r.random() < 0.6 or l not in langs else r.choice(W[langs[l].split("[")[0]])
        return ["call", "lib", l, w]

    # --- 1. every short sequence of questions and calls ---
    small = [["ask", "cyrillic", "cyrillic[ru]", "Yozh"], ["ask", "cyrillic", "cyrillic[bg]", "Yozh"], ["ask", "cyrillic", "cyrillic[fr]", "da"],
             ["ask", "pinyin", "pinyin", "中a国"], ["ask", "pinyin", "pinyin", ""], ["ask", "furigana", "furigana", "新海誠"], ["ask", "furigana", "furigana", "時々"]]
    calls = [["call", "lib", "jpn", "新海誠"], ["call", "lib", "rus", "Пушкин"], ["call", "lib", "chi", "北京"]]
    W["pinyin"] += ["中a国", "北京"]
    W["furigana"] += ["時々"]
    for w in ("中a国", "北京"):
        pn[w] = d.one(op="nfc", words=[cps(w)])["res"][0]
    tokens["時々"] = [checks_tr.token(t) for t in d.one(op="tokens", words=checks_tr.resolve(d, [cps("時々")]))["res"][0]]
    # --- 2. long sessions ---
    sessions = []
    for _ in range(c.n(60, 1200)):
        steps = []
        kinds = r.choice([[m] for m in MODS] + [MODS, MODS, MODS + ["lib"], ["lib"]])
        for _ in range(r.randint(2, 18)):
            k = r.choice(kinds)
            y = r.random()
            if k != "lib" and y < 0.35:
                a, b = r.choice(pairs[k])
                steps += [ask(k, x) for x in r.choice([(a, b), (b, a), (a, a), (a, b, a)])]
            else:
                steps.append(call() if k == "lib" else ask(k) if y < 0.95 else ["version", k])
            if r.random() < 0.25:
                steps.append(["tick"])
        sessions.append(steps)
    gives = {}

    def native(qs):
        by = {}
        for q in qs:
            if (q[2], q[3]) not in gives:
                by.setdefault(q[2], {})[q[3]] = None
        for l, ws in by.items():
            m = d.one(op="lang", lang=l, std=True, words=[cps(w) for w in ws])
            if crashed(m):
                raise HarnessError("the native library crashed: %s" % crashed(m))
            for i, w in enumerate(ws):
                x = {"err": m["perr"]} if m["perr"] else m["res"][i]
                if crashed(x):
                    raise HarnessError("the native library crashed on %r: %s" % (w, crashed(x)))
                gives[(l, w)] = ("error", []) if m["perr"] or x["err"] else ("text", x["out"])
    native(calls)
    native([x for s in sessions for x in s if x[0] == "call"])

    def step(x):
        if x[0] == "ask":
            s = x[2][9:-1] if x[1] == "cyrillic" and x[2] in ["cyrillic[%s]" % k for k in COUNTRIES] else "?" + x[2]
            return {"t": "ask", "m": x[1], "s": s if x[1] == "cyrillic" else "", "w": cps(x[3])}
        if x[0] == "version":
            return {"t": "ask", "m": "version", "s": "", "w": []}
        if x[0] == "call":
            return {"t": "call", "m": "", "s": x[2], "w": cps(x[3])}
        return {"t": "tick", "m": "", "s": "", "w": []}

    def base(steps):
        """the facts which these steps need"""
        ws = {}
        for x in steps:
            if x[0] == "ask" and x[1] != "cyrillic":
                ws.setdefault(x[3], {"word": cps(x[3]), "nfc": [], "tokens": []})
                ws[x[3]]["nfc" if x[1] == "pinyin" else "tokens"] = pn[x[3]] if x[1] == "pinyin" else tokens[x[3]]
        need = sorted({q for w in ws.values() for q in w["nfc"]})
        chars = [q for w in ws.values() for t in w["tokens"] for q in t["surf"] + t["pron"]]
        B = checks_tr.base(d, chars or [32])
        g = {(x[2], x[3]) for x in steps if x[0] == "call"}
        return {"readings": d.one(op="readings", chars=need)["res"] if need else [], "tables": {k: [[cps(a), cps(b)] for a, b in v] for k, v in T.items()},
                "kana": B["kana"], "space": B["space"], "words": list(ws.values()), "version": cps(VERSION), "alphabets": [], "cases": [],
                "gives": [{"lang": l, "word": cps(w), "kind": gives[(l, w)][0], "text": gives[(l, w)][1]} for l, w in sorted(g)]}
    B = base(small + calls)
    recs, _ = tlc("MCModules", cfgtext="SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT Steady\nPROPERTY Always\nPROPERTY Settled\n", name="every-sequence", workers=4,
                  data=dict(B, depth=c.n(3, 4), asks=[dict(step(x)) for x in small], calls=[dict(step(x), lang=x[2]) for x in calls]))
    hs = sorted({json.dumps(x["h"]) for x in recs})
    if len(hs) > c.n(500, 4000):
        hs = sorted(r.sample(hs, c.n(500, 4000)))
    for h in hs:
        q = []
        for t, j in json.loads(h):
            q.append((small if t == "ask" else calls)[j - 1])
        sessions.append(q)
    c.cover["sequences"] = len(hs)
    full = [{"id": i, "steps": s, "mods": MODS + ["lib"], "schemes": sorted(set(langs.values()))} for i, s in enumerate(sessions)]
    paths = {k: f.result() for k, f in builds.items()}
    n = 4
    with ThreadPoolExecutor(max_workers=n) as ex:
        logs = {}
        for x in ex.map(lambda k: play(paths, full[k::n]), range(n)):
            logs.update(x)
    # --- judged ---
    shards, asked = [], [s for s in full if s["id"] in logs]
    for k in range(6):
        part = asked[k::6]
        if not part:
            continue
        cases = [{"id": s["id"], "steps": [step(x) for x in s["steps"]],
                  "log": [{"t": e[0], "step": e[1], "kind": e[2], "text": cps(e[3]) if e[2] == "text" else []} for e in logs[s["id"]]]} for s in part]
        shards.append(dict(module="TraceModules", cfgtext="INIT Init\nNEXT Next\n", name="sessions", workers=1, heap="2500m",
                           data=dict(base([x for s in part for x in s["steps"]]), cases=cases)))
    recs = [x for o, _ in tlc_many(shards) for x in o]
    if len(recs) != len(asked):
        raise HarnessError("TraceModules judged %d of %d" % (len(recs), len(asked)))
    c.traces += len(recs)
    for x in sorted(recs, key=lambda x: x["id"]):
        if x["bad"]:
            s, l = full[x["id"]], logs[x["id"]]
            e = l[x["bad"] - 1]
            q = s["steps"][e[1] - 1] if e[1] else None
            c.violation("%s was answered by %s instead of %s" % (q, json.dumps(e, ensure_ascii=False)[:300], [(w[0], text(w[1])) for w in x["want"]]), {"session": s, "log": l[:x["bad"]]})
    c.cover["sessions"] = len(recs)
    for s in sessions[:3]:
        c.sample(json.dumps(s, ensure_ascii=False))
