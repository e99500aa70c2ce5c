"""C27 (Cli.tla), C28 (Cover.tla), C31 (Inventory.tla): the programs."""
import itertools, json, os, re
from concurrent.futures import ThreadPoolExecutor
import gen, pipe
from checks_hsl import Doc, quote, spec_doc, NAMES, SCRIPTS
from vlib import *


STUCK = []              # runs that did not end: the later ones get less time


def run_bin(path, args, stdin=b"", cwd=None, limit=60):
    e = dict(os.environ, GOMAXPROCS="2")
    if len(STUCK) >= 3:
        limit = min(limit, 5)
    try:
        p = subprocess.run([path] + [a if isinstance(a, bytes) else a.encode("utf-8", "surrogateescape") for a in args], input=stdin, capture_output=True, timeout=limit, env=e, cwd=cwd or scratch())
    except subprocess.TimeoutExpired:
        STUCK.append(args)
        return None
    return p


def lines_of(b):
    """the lines printed; None if the last one is not ended"""
    q = b.split(b"\n")
    return [cps(x) for x in q[:-1]] if q[-1] == b"" else [cps(x) for x in q[:-1]] + [cps(q[-1]) + [-8]]


SPEC = """lang:
  id = "x"
  codes = "xx", "xxx"
  english = "X"
  korean = "엑스"
  script = "Latn"
%s
rewrite:
  "b$" -> "c"
  "é" -> "e"
transcribe:
  "a" -> "ㅏ"
  "b" -> "ㅂ"
  "c" -> "-ㄱ"
  "e" -> "ㅔ"
test:
  "ab" -> "악"
"""


def judge_cli(c, d, cases, ctx, timeout=800):
    """cases of TraceCli; ctx(id) describes one"""
    chars = {x for k in cases for x in k["in"] + k.get("chars", [])} | {x for k in cases for r in k["results"] for x in r["w"]} | {x for k in cases for a in k["args"] for x in a}
    f = d.one(op="facts", chars=sorted(x for x in chars if x >= 0))
    n = min(8, max(1, len(cases) // 12))
    cases = sorted(cases, key=lambda k: -len(k["in"]))
    outs = tlc_many([dict(module="TraceCli", cfgtext="INIT Init\nNEXT Next\nINVARIANT Check\n", name="runs", workers=1, heap="2500m", timeout=timeout, data={"cases": cases[k::n], "space": f["space"]}) for k in range(n)])
    recs = [x for o, _ in outs for x in o]
    if len(recs) != len(cases):
        raise HarnessError("TraceCli judged %d of %d" % (len(recs), len(cases)))
    by = {k["id"]: k for k in cases}
    for x in sorted(recs, key=lambda x: x["id"]):
        if [-9] in x["want"]:
            raise HarnessError("a word without an answer: %s" % x)
        if not x["right"]:
            k = by[x["id"]]
            what, replay = ctx(x["id"])
            c.violation("%s: printed %s with exit status %d and %r; must print %s and %s" % (
                what, [text(l) for l in k["out"]], k["code"], text(k["err"])[:300], [text(l) for l in x["want"]], "succeed" if x["st"] == "ok" else "fail"), replay)


def answers(d, words, **how):
    """what the library says about the words"""
    words = list(dict.fromkeys(words))
    out = []
    for k in range(0, max(1, len(words)), 500):
        part = words[k:k + 500]
        m = d.one(words=[cps(w) for w in part], std=True, events=True, fmt=True, **how)
        if crashed(m) or m.get("perr"):
            return None
        for w, x in zip(part, m["res"]):
            if crashed(x):
                raise HarnessError("the library crashed on %r: %s" % (w, crashed(x)))
            out.append({"w": cps(w), "ok": not x["msg"], "text": x["out"], "trace": x["fmt"]})
    return out


def C27(c):
    d = Driver()
    r = c.rng
    hz = build("./cmd/hangulize", "hangulize")
    W = os.path.join(scratch(), "cli")
    os.makedirs(W, exist_ok=True)
    files = {"good.hsl": SPEC % "", "with space.hsl": SPEC % "", "fails.hsl": SPEC % '  translit = "nosuch"', "bad.hsl": "lang:\n  codes = \"a\"\n", "hanzi.hsl": (SPEC % '  translit = "pinyin"')}
    for f, t in files.items():
        with open(os.path.join(W, f), "w", encoding="utf-8") as h:
            h.write(t)
    os.makedirs(os.path.join(W, "dir.hsl"), exist_ok=True)
    pool = ThreadPoolExecutor(max_workers=8)

    # 1. every input
    for f, chars, depth in (("good.hsl", "ab \n", c.n(5, 7)), ("good.hsl", "a\n\r\té\u00a0", c.n(4, 5)), ("fails.hsl", "a \n", c.n(4, 6))):
        ws = {"".join(p) for n in range(1, depth + 1) for p in itertools.product(chars, repeat=n)}
        ws = {w.strip() for w in ws if "\n" not in w.strip()} - {""}
        data = {"id": "0", "known": True, "args": [], "in": [], "verbose": False, "results": answers(d, sorted(ws), op="spec", src=cps(files[f])), "out": [], "err": [], "code": 0, "every": True, "coarse": False, "chars": cps(chars), "depth": depth}
        fs = d.one(op="facts", chars=sorted({ord(x) for x in chars}))
        recs, _ = tlc("TraceCli", cfgtext="INIT Init\nNEXT Next\nINVARIANT Check\n", name="every-input", data={"cases": [data], "space": fs["space"]}, workers=4)
        ps = pool.map(lambda x: run_bin(hz, ["dev", f], text(x["in"]).encode(), cwd=W), recs)
        for x, p in zip(recs, ps):
            c.traces += 1
            t = "dev %s with the input %r" % (f, text(x["in"]))
            if p is None:
                c.violation("%s: no end" % t, {"input": text(x["in"])})
            elif lines_of(p.stdout) != x["want"] or (p.returncode == 0) != (x["st"] == "ok") or (p.returncode != 0 and not p.stderr):
                c.violation("%s: printed %r with exit status %d; must print %s and %s" % (t, p.stdout.decode("utf-8", "replace"), p.returncode, [text(l) for l in x["want"]], "succeed" if x["st"] == "ok" else "fail"), {"input": text(x["in"]), "file": files[f]})
        c.cover["enumerated_inputs"] = c.cover.get("enumerated_inputs", 0) + len(recs)

    # 2. languages, files, arguments, flags
    P = pipe.bundled()
    langs = sorted(P)
    some = r.sample(langs, c.n(8, len(langs)))
    for l in ("jpn", "chi", "rus"):
        if l in langs and l not in some:
            some.append(l)
    runs = []
    for i in range(c.n(180, 3000)):
        dev = r.random() < 0.4
        name = r.choice(list(files) + ["dir.hsl", "missing.hsl"]) if dev else (r.choice(some) if r.random() < 0.9 else r.choice(["xyz", "", "ITA", "ita ", "help2", "it", "../ita", "ita.hsl"]))
        ws = [w for w, _ in P[name]["test"]] if name in P else ["ab", "cab", "中国", "é"]
        pick = lambda: r.choice([lambda: r.choice(ws or ["a"]), lambda: r.choice(ws or ["a"]) + " " + r.choice(ws or ["a"]), lambda: "".join(r.choice("abcé 1,中가\u0301") for _ in range(r.randint(0, 5))), lambda: "", lambda: " x ", lambda: "-", lambda: "\u00a0"])()
        if dev or r.random() < 0.5:
            args = []
            n = r.randint(0, 5)
            ls = [r.choice(["", "", " ", "\t"]) + pick().replace("\n", " ") + r.choice(["", " ", "\r", "\u3000"]) for _ in range(n)]
            if r.random() < 0.6:
                ls = [x for x in ls if x.strip()] + ls[-1:]
            inp = "\n".join(ls) + r.choice(["", "\n", "\n\n", "\n \n", "\nzz"])
        else:
            args = [pick() for _ in range(r.randint(1, 4))]
            args = [a for a in args if not a.startswith("-") or r.random() < 0.5]
            inp = r.choice(["", "a\nb\n"])
            if not args:
                args = ["a"]
        if "\x00" in "".join(args):
            continue
        v = r.random() < 0.35
        argv = (["dev", name] if dev else [name]) + ([] if dev else args)
        if any(a.startswith("-") for a in argv):
            argv.insert(1 if not dev else 2, "--")
            if v:
                argv.insert(0, r.choice(["-v", "--verbose"]))
        elif v:
            argv.insert(r.randint(0, len(argv)), r.choice(["-v", "--verbose", "--verbose=true"]))
        runs.append({"dev": dev, "name": name, "args": args, "in": inp, "v": v, "argv": argv})
    # one big input
    big = "\n".join(r.choice(["ab", "cab", "é a"]) for _ in range(400))
    runs.append({"dev": True, "name": "good.hsl", "args": [], "in": big, "v": False, "argv": ["dev", "good.hsl"]})
    # lines longer than any buffer
    for n in c.n([4095, 4096, 4097, 9000, 65535, 65536, 70001, 140000], [4095, 4096, 4097, 9000, 65534, 65535, 65536, 65537, 70001, 131072, 140000, 300000]):
        x = "가" * (n // 3 - 1) + "ab"
        runs.append({"dev": True, "name": "good.hsl", "args": [], "in": "ab\n" + "y" * (n - len(x.encode())) + x + "\ncab\n", "v": False, "argv": ["dev", "good.hsl"]})
        runs.append({"dev": True, "name": "good.hsl", "args": [], "in": x + "z" * (n - len(x.encode())), "v": False, "argv": ["dev", "good.hsl"]})
    by = {}
    sp = lambda w: w.strip("".join(chr(x) for x in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, *range(0x2000, 0x200b), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000)))
    for k in runs:
        ws = [a for a in k["args"] if a] if k["args"] else [sp(x) for x in k["in"].split("\n")]
        by.setdefault((k["dev"], k["name"]), set()).update(w for w in ws if w)
    known = {}
    for (dev, name), ws in by.items():
        if dev:
            a = answers(d, sorted(ws), op="spec", src=cps(files[name])) if name in files else None
        else:
            a = answers(d, sorted(ws), op="lang", lang=name)
        known[dev, name] = None if a is None else {json.dumps(x["w"]): x for x in a}
    ps = list(pool.map(lambda k: run_bin(hz, k["argv"], k["in"].encode(), cwd=W), runs))
    cases = []
    for i, (k, p) in enumerate(zip(runs, ps)):
        c.traces += 1
        if p is None:
            c.violation("hangulize %s with the input %r: no end" % (k["argv"], k["in"]), k)
            continue
        a = known[k["dev"], k["name"]]
        ws = [x for x in k["args"] if x] if k["args"] else [sp(x) for x in k["in"].split("\n")]
        rs = [a[q] for q in dict.fromkeys(json.dumps(cps(w)) for w in ws if w)] if a is not None else []
        cases.append({"id": i, "known": a is not None, "args": [cps(x) for x in k["args"]], "in": cps(k["in"]), "verbose": k["v"], "results": rs,
                      "out": lines_of(p.stdout), "err": cps(p.stderr), "code": p.returncode, "every": False, "coarse": len(k["in"]) > 3000, "chars": [], "depth": 0})
    judge_cli(c, d, cases, lambda i: ("hangulize %s with the input %r" % (runs[i]["argv"], runs[i]["in"]), runs[i]))
    for k in runs[:3]:
        c.sample("hangulize %s < %r" % (k["argv"], k["in"]))


# --- C28 -------------------------------------------------------------------------------------

def spec_with_tests(r, D, G, long=False, even=0):
    """a spec of which some rules are hit by its examples; the expected
    results are filled in later: '@@0' and so on"""
    sp = G.make()
    if even:
        r.shuffle(sp["transcribe"])
        k = min(len(sp["rewrite"]), len(sp["transcribe"]))
        sp["rewrite"], sp["transcribe"] = sp["rewrite"][:k], sp["transcribe"][:k]
    secs, ws = spec_doc(r, D, sp, G)
    secs = [s for s in secs if s[0] != "test"]
    ws = [w for w in dict.fromkeys(ws) if w and "\n" not in w and "\r" not in w][:r.randint(0, 4)]
    if ws and r.random() < 0.3:     # a word several times
        ws += [r.choice(ws) for _ in range(r.choice([1, 2, 3]))]
        r.shuffle(ws)
    if r.random() < 0.15:
        secs = [s for s in secs if s[0] != r.choice(["rewrite", "transcribe"])]
    tests = ("test", "->", [(w, ["@@%d" % i] + (["x"] if r.random() < 0.05 else [])) for i, w in enumerate(ws)])
    if ws:
        secs.insert(r.randint(0, len(secs)), tests)
    if long:
        secs.append(("rewrite", "->", [("q" * 3, ["w"])]))
    # pairs that span lines have another line than their section
    t = D.render(secs)
    if r.random() < 0.2:
        t = t.replace("\n", "\r\n")
    return t, ws


def C28(c):
    d = Driver()
    r = c.rng
    D = Doc(r)
    hz = build("./cmd/hangulize", "hangulize")
    W = os.path.join(scratch(), "cover")
    os.makedirs(W, exist_ok=True)
    G = gen.SpecGen(r)
    # 1. files
    docs = {}
    names = ["a.hsl", "b c.hsl", "é.hsl", "d:1.hsl", "e", "sub/f.hsl", "g.hsl", "h.hsl"]
    os.makedirs(os.path.join(W, "sub"), exist_ok=True)
    nfiles = c.n(60, 600)
    for i in range(nfiles):
        n = "%d-%s" % (i, names[i % len(names)].replace("/", "_")) if i % len(names) != 5 else "sub/%d.hsl" % i
        t, ws = spec_with_tests(r, D, G)
        docs[n] = [t, ws]
    # standard transliterators and languages which fail
    docs["kanji.hsl"] = [SPEC.replace('test:\n  "ab" -> "악"\n', '') % '  translit = "pinyin"' + 'test:\n  "中b" -> "@@0"\n', ["中b"]]
    docs["kana.hsl"] = ['lang:\n codes = "a", "b"\n script = "Hrkt"\n translit = "furigana"\ntranscribe:\n "ナ" -> "ㄴㅏ"\n "イ" -> "ㅣ"\ntest:\n "ない" -> "@@0"\n', ["ない"]]
    docs["nosuch.hsl"] = [SPEC.replace('"악"', '"@@0"') % '  translit = "nosuch"', ["ab"]]
    docs["norules.hsl"] = ['lang:\n codes = "a", "b"\ntest:\n "x" -> "@@0"\n', ["x"]]
    for i in range(c.n(16, 80)):     # as many rules in one section as in the other
        n = r.randint(5, 14)
        t, ws = spec_with_tests(r, D, gen.SpecGen(r, rewrites=(n, n), transcribes=(n, n), norms=False), even=n)
        docs["even%d.hsl" % i] = [t, ws]
    for i in range(c.n(12, 60)):     # the same word several times, failing
        t, ws = spec_with_tests(r, D, G)
        k = len(ws)
        while k > 0 and len(set(ws)) == k:
            t, ws = spec_with_tests(r, D, G)
            k = len(ws)
        docs["dup%d.hsl" % i] = [t, ws]
    docs["empty.hsl"] = ["", []]
    docs["broken.hsl"] = ["rewrite:\n \"(\" -> \"a\"\n", []]
    docs["syntax.hsl"] = ["rewrite: -> \"", []]
    docs["long.hsl"] = ['rewrite:\n "a" -> "%s"\ntest:\n "b" -> "@@0"\n' % ("x" * (70000 if c.thorough else 4200)), ["b"]]
    # results by the library, rules hit
    info = {}
    order = list(docs)
    reqs = [{"id": n, "op": "spec", "src": cps(docs[n][0]), "words": [cps(w) for w in docs[n][1]], "events": True, "std": True, "dump": True} for n in order]
    for n, m in zip(order, d.run(reqs)):
        if crashed(m):
            raise HarnessError("the library crashed on %s: %s" % (n, crashed(m)))
        if m["perr"]:
            info[n] = None
            continue
        if any(crashed(x) for x in m["res"]):
            continue
        # what the example expects: what the library says, or something else
        t, ws = docs[n]
        res = {}
        fail = r.random() < 0.12 or n.startswith("dup")
        okay = True
        for i, (w, x) in enumerate(zip(ws, m["res"])):
            got = text(x["out"])
            if "\n" in got or "\r" in got:
                okay = False
            exp = got
            if x["msg"]:
                exp = r.choice(["", "a"])
            elif fail and r.random() < 0.7:
                exp = r.choice([got + "x", "", got[:-1], "가", got + " "])
            t = t.replace(quote("@@%d" % i), quote(exp))
            res[i] = (w, exp, not x["msg"], got, [[e["step"], e["rule"] - 1] for e in x["events"] if e["rule"] > 0])
        if okay and "@@" not in t:
            info[n] = (t, [res[i] for i in range(len(ws))])
    good = [n for n in order if n in info]
    for n in good:
        with open(os.path.join(W, n), "wb") as h:
            h.write((info[n][0] if info[n] else docs[n][0]).encode())
    # 2. runs
    runs = []
    clean_all = [n for n in good if info[n] and all(x[2] and x[1] == x[3] for x in info[n][1])]
    good_all = good
    for i in range(c.n(110, 1500)):
        # eight groups of files, so that each judge reads an eighth of them
        clean, good = clean_all[i % 8::8], good_all[i % 8::8]
        fs = [r.choice(clean if r.random() < 0.8 else good) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if i % 5:
            fs[0] = clean[i // 8 % len(clean)]
        bad = [n for n in good if info[n] and n not in clean]
        if i % 7 == 3 and bad:     # a failing one before others
            fs = [r.choice(clean) for _ in range(r.randint(0, 2))] + [r.choice(bad)] * r.choice([1, 1, 1, 2]) + [r.choice(clean) for _ in range(r.randint(1, 2))]
        if r.random() < 0.08:
            fs.insert(r.randint(0, len(fs)), "missing.hsl")
        if r.random() < 0.2:
            fs.insert(r.randint(0, len(fs)), r.choice(fs))
        if r.random() < 0.35:      # other spellings of the paths, one for each file
            sp = {n: r.choice(["%s", "./%s", "sub/../%s", ".//%s", W + "/%s", "../cover/%s"]) % n for n in sorted(set(fs))}
            for n, q in sp.items():
                if n in info:
                    info[q] = info[n]
            fs = [sp[n] for n in fs]
        mode = r.choice(["", "cover", "profile", "profile", "both"])
        argv = ["test"] + fs
        prof = os.path.join(W, "p%d.txt" % i)
        if mode in ("cover", "both"):
            argv.insert(r.randint(1, len(argv)), "--cover")
        if mode in ("profile", "both"):
            argv.insert(r.randint(1, len(argv)), "--coverprofile=" + prof)
            k = r.random()
            if k < 0.7:      # an earlier content, longer or shorter
                with open(prof, "w") as h:
                    h.write(r.choice(["x\n", "mode: count\n" + "old.hsl:1.1,1.2 1 1\n" * r.choice([1, 400])]))
        runs.append((argv, fs, mode, prof))
    pool = ThreadPoolExecutor(max_workers=8)
    ps = list(pool.map(lambda k: run_bin(hz, k[0], cwd=W, limit=120), runs))
    cases, line = [], re.compile(r'^(.*):(\d+)\.1,(\d+)\.(\d+) 1 (\d+)$', re.S)
    for i, ((argv, fs, mode, prof), p) in enumerate(zip(runs, ps)):
        c.traces += 1
        if p is None:
            c.violation("hangulize %s: no end" % argv, {"argv": argv})
            continue
        out = (p.stdout + p.stderr).decode("utf-8", "replace")
        # the reports: every example of the files is looked for
        files, seen = [], []
        for n in fs:
            x = info.get(n)
            files.append({"name": cps(n), "src": cps(x[0]) if x else [], "ok": x is not None,
                          "tests": [{"word": cps(w), "expected": cps(e), "ok": ok, "result": cps(got), "hits": h} for w, e, ok, got, h in x[1]] if x else []})
        for l in out.split("\n"):
            m = re.search(r'(%s): "(.*)" -> "(.*)", expected: "(.*)"$' % "|".join(re.escape(n) for n in sorted(set(fs), key=len, reverse=True)), l)
            if m:
                seen.append([cps(m.group(1)), cps(m.group(2)), cps(m.group(3)), cps(m.group(4))])
        pc = re.findall(r"coverage: (\d+)\.(\d)% of rules", out)
        rows, wrote, strange = [], False, 0
        if mode in ("profile", "both") and os.path.exists(prof):
            t = open(prof, "rb").read().decode("utf-8", "replace")
            ls = t.split("\n")
            wrote = ls[0] == "mode: count" and ls[-1] == ""
            for l in ls[1:-1]:
                m = line.match(l)
                if m and m.group(2) == m.group(3):
                    rows.append([cps(m.group(1)), int(m.group(2)), int(m.group(4)), int(m.group(5))])
                else:
                    strange += 1
            os.unlink(prof)
        cases.append({"id": i, "files": files, "cover": mode != "", "profile": mode in ("profile", "both"), "code": p.returncode, "reports": seen,
                      "percent10": int(pc[0][0]) * 10 + int(pc[0][1]) if len(pc) == 1 else -1, "lines": rows, "wrote": wrote and not strange, "text": out[:600]})
    f = d.one(op="facts", chars=sorted({x for k in cases for q in k["files"] for x in q["src"]} | {65533}))
    B = {"letter": f["letter"], "digit": f["digit"], "space": f["space"], "names": {n: cps(n) for n in NAMES}, "scripts": [cps(s) for s in SCRIPTS]}
    n = 8
    def shard(k):
        mine = [x for x in cases if x["id"] % 8 == k]
        fs, index = [], {}
        out = []
        for x in mine:
            ids = []
            for q in x["files"]:
                key = json.dumps(q["name"])
                if key not in index:
                    fs.append(q)
                    index[key] = len(fs)
                ids.append(index[key])
            out.append(dict({a: b for a, b in x.items() if a != "text"}, files=ids))
        return dict(B, cases=out, files=fs)
    outs = tlc_many([dict(module="TraceCover", cfgtext="INIT Init\nNEXT Next\n", name="runs", workers=1, heap="2500m", timeout=c.n(500, 3000),
                          data=shard(k)) for k in range(n)])
    recs = [x for o, _ in outs for x in o]
    if len(recs) != len(cases):
        raise HarnessError("TraceCover judged %d of %d" % (len(recs), len(cases)))
    byid = {k["id"]: k for k in cases}
    for x in sorted(recs, key=lambda x: x["id"]):
        c.cover["runs_" + x["st"]] = c.cover.get("runs_" + x["st"], 0) + 1
        if not x["right"]:
            k = byid[x["id"]]
            argv = runs[x["id"]][0]
            c.violation("hangulize %s: wrong %s exit status %d, output %r; reports must be %s, coverage %d of %d, profile %s but was %s" % (
                argv, x["why"], k["code"], k["text"], [[text(y) for y in z] for z in x["reports"]], x["hit"], x["total"],
                [[text(z[0])] + z[1:] for z in x["profile"]][:8], [[text(z[0])] + z[1:] for z in k["lines"]][:8]),
                {"argv": argv, "files": {text(q["name"]): text(q["src"]) for q in k["files"]}})
    c.cover["files"] = len(good)
    for k in runs[:3]:
        c.sample(str(k[0]))


# --- C31 -------------------------------------------------------------------------------------

def inv(ok=True, key="", sp=None, **kw):
    e = {"ok": ok, "key": cps(key), "id": [], "code2": [], "code3": [], "english": [], "korean": [], "script": [], "translit": [], "authors": [], "stage": [], "tests": []}
    e.update(kw)
    return e


def C31(c):
    d = Driver()
    r = c.rng
    D = Doc(r)
    hz = build("./cmd/hangulize", "hangulize")
    mf = build("./cmd/manifest.json", "manifest.bin", ldflags="-X main.version=v9.8.7")
    P = pipe.bundled()
    B = os.path.join(REPO, "specs")
    import hslpy
    world = []
    for l in sorted(P):
        secs = hslpy.parse(open(os.path.join(B, l + ".hsl"), encoding="utf-8").read())
        g = lambda s, k: [list(v) for a, v, *_ in secs.get(s, []) if a == k][:1]
        one = lambda s, k: cps((g(s, k) or [[""]])[0][0])
        many = lambda s, k: [cps(x) for x in (g(s, k) or [[]])[0]]
        codes = many("lang", "codes")
        world.append(inv(True, l, id=one("lang", "id"), code2=codes[0], code3=codes[1], english=one("lang", "english"), korean=one("lang", "korean"), script=one("lang", "script"),
                         translit=many("lang", "translit"), authors=many("config", "authors"), stage=one("config", "stage"),
                         tests=[[cps(a), cps(v[0])] for a, v, *_ in secs.get("test", [])]))
    cases, show = [], []
    # the manifest, in several processes
    for _ in range(c.n(3, 10)):
        p = run_bin(mf, [])
        c.traces += 1
        try:
            m = json.loads(p.stdout)
            es = [inv(True, k, id=cps(v["lang"]["id"]), code2=cps(v["lang"]["code2"]), code3=cps(v["lang"]["code3"]), english=cps(v["lang"]["english"]), korean=cps(v["lang"]["korean"]),
                      script=cps(v["lang"]["script"]), translit=[cps(x) for x in v["lang"]["translit"] or []], authors=[cps(x) for x in v["config"]["authors"] or []], stage=cps(v["config"]["stage"]),
                      tests=[[cps(x["word"]), cps(x["result"])] for x in v["test"] or []]) for k, v in m["specs"].items()]
            cases.append({"id": len(cases), "kind": "manifest", "specs": world, "entries": es, "schemes": [cps(x) for x in m["translits"] or []], "rows": []})
            show.append("the manifest")
            if p.returncode != 0 or m.get("version") != "v9.8.7":
                c.violation("the manifest program: exit status %d, version %r" % (p.returncode, m.get("version")), {})
        except (ValueError, KeyError, TypeError, AttributeError) as e:
            c.violation("the manifest is not what it was described to be: %r (exit status %s): %r" % (e, p and p.returncode, p and p.stdout[:200]), {})
    # ls
    def ls(argv, specs):
        p = run_bin(hz, ["ls"] + argv, cwd=W)
        c.traces += 1
        if p is None or p.returncode != 0:
            c.violation("hangulize ls %s: %s" % (argv, "no end" if p is None else "exit status %d: %r" % (p.returncode, p.stderr[-300:])), {"argv": argv})
            return
        rows = lines_of(p.stdout or p.stderr)
        cases.append({"id": len(cases), "kind": "ls", "specs": specs, "entries": [], "schemes": [], "rows": rows[1:]})
        show.append("hangulize ls %s" % argv)
    W = os.path.join(scratch(), "ls")
    os.makedirs(os.path.join(W, "dir"), exist_ok=True)
    ls([], world)
    files = {}
    V = ["", "a", "ita", "A B", "이탈리아어", "long name of a language with many words", "é", "x" * 30, "-", "%s", "a\tb"]
    for i in range(c.n(60, 400)):
        n = "%d.hsl" % i
        k = r.random()
        if k < 0.25:
            t = r.choice(["lang:\n codes = a\n", "x = y", '"', "lang:\n script = \"Xxxx\"\n", "rewrite:\n \"(\" -> a\n", "test:\n a ->\n", "lang:\n a -> b\n"])
            e = inv(False)
        elif k < 0.3:
            t, e = "", inv(True)
        else:
            f = {x: r.choice(V) for x in ("id", "english", "korean", "stage")}
            t = D.render([("lang", "=", [("id", [f["id"]]), ("codes", ["a", "b"]), ("english", [f["english"]]), ("korean", [f["korean"]])]), ("config", "=", [("stage", [f["stage"]])])])
            e = inv(True, **{x: cps(v) for x, v in f.items()})
        with open(os.path.join(W, n), "w", encoding="utf-8", newline="") as h:
            h.write(t)
        files[n] = e
    files.update({"missing.hsl": inv(False), "dir": inv(False)})
    order = list(files)
    # files loads as generated?
    for i in range(c.n(40, 400)):
        fs = [r.choice(order) for _ in range(r.randint(1, 8))]
        ls(fs, [files[x] for x in fs])
    ls(order, [files[x] for x in order])
    recs, _ = tlc("Inventory", cfgtext="INIT Init\nNEXT Next\n", name="inventories", workers=8, heap="6g", long=True, data={"cases": cases})
    if len(recs) != len(cases):
        raise HarnessError("Inventory judged %d of %d" % (len(recs), len(cases)))
    for x in sorted(recs, key=lambda x: x["id"]):
        if not x["right"]:
            k = cases[x["id"]]
            c.violation("%s: wrong: %s%s" % (show[x["id"]], [[y[0]] + [text(z) for z in y[1:]] for y in x["wrong"]][:6],
                                             "" if k["kind"] == "manifest" else "; rows %s instead of %s" % ([text(y) for y in k["rows"]][:9], [text(y) for y in x["rows"]][:9])), {"argv": show[x["id"]]})
    c.cover["languages"] = len(world)
    c.sample(show[-1][:300])
