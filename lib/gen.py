"""Generators of specs, patterns, words. All randomness comes from the given
random.Random. What is generated stays inside the notation which Hre.tla
models (see DESIGN.md)."""

LATN = list("abcdeno") + ["é", "ñ", "ž"]
CYRL = list("абвгдея")
GREK = list("αβγδεω")
GEOR = list("აბგდე")
KANA = list("あかがきしャュんアカガキシツー")
ALPHA = {"Latn": LATN, "Cyrl": CYRL, "Grek": GREK, "Geor": GEOR, "Hrkt": list("アカガキシツーャュン"), "": LATN}
PUNCT = ["'", ",", "-", ";", "’", ":", "·", "!"]


class Pat:
    """a random HRE pattern over the letters of `al`"""
    def __init__(self, rng, al, puncts=(), vars=(), macros=(), depth=2):
        self.r, self.al, self.p, self.vars, self.macros, self.depth = rng, al, list(puncts), list(vars), list(macros), depth
        self.caps = 0
        self.capvars = []      # names of the variables which are capturing, in order of the groups (None for a group)

    def ch(self):
        if self.p and self.r.random() < 0.25:
            return self.r.choice(self.p)
        return self.r.choice(self.al)

    def cls(self):
        n = self.r.randint(1, 3)
        return "[" + "".join(self.r.sample(self.al, min(n, len(self.al)))) + "]"

    def atom(self, d, cap, wild=True):
        x = self.r.random()
        if x < 0.52:
            return self.ch()
        if x < 0.62:
            return self.cls()
        if x < 0.68 and wild:
            return "."
        if x < 0.80 and self.vars:
            v = self.r.choice(self.vars)
            if cap:
                self.capvars.append(v)
            return "<" + v + ">"
        if x < 0.84 and self.macros:
            return self.r.choice(self.macros)
        if d > 0:
            if self.r.random() < 0.6:
                if cap:
                    self.capvars.append(None)
                return "(" + self.alt(d - 1, cap) + ")"
            return "(?:" + self.alt(d - 1, cap) + ")"
        return self.ch()

    def rep(self, d, cap, must):
        save = len(self.capvars)
        a = self.atom(d, cap)
        x = self.r.random()
        if not must and x < 0.10:
            return a + "?" + ("?" if self.r.random() < 0.2 else "")
        if len(a) == 1 or a[0] == "[":
            if not must and x < 0.16 and a not in ("$", "^"):
                return a + "*"
            if x < 0.22:
                return a + "+"
        return a

    def seq(self, d, cap, n):
        m = self.r.randrange(n)     # one part is mandatory
        return "".join(self.rep(d, cap, i == m) for i in range(n))

    def alt(self, d, cap):
        n = self.r.choice([1, 2, 2, 2, 3])
        return "|".join(self.seq(d, cap, self.r.choice([1, 1, 2])) for _ in range(n))

    def look(self):
        n = self.r.choice([1, 1, 2, 2, 3])
        return "|".join(self.seq(1, False, self.r.choice([1, 1, 1, 2])) for _ in range(n))

    def neglook(self, bounded=True):
        parts = []
        for _ in range(self.r.choice([1, 1, 2, 3])):
            s = ""
            for i in range(self.r.choice([1, 1, 2, 3])):
                x = self.r.random()
                a = self.ch() if x < 0.6 else self.cls() if x < 0.8 else ("<" + self.r.choice(self.vars) + ">" if self.vars and x < 0.9 else self.ch())
                if self.r.random() < 0.12:
                    a = self.r.choice(["(", "(?:"]) + self.ch() + self.r.choice(["", "|"]) + self.ch() + self.r.choice(["", self.ch()]) + ")" + self.r.choice(["", "?", "?"])
                    if not i and a[-1] == "?":
                        a += self.ch()
                elif i and self.r.random() < 0.2:
                    a = a + "?"
                elif not bounded and self.r.random() < 0.5:
                    a = a + self.r.choice("*+")
                s += a
            parts.append(s)
        return "|".join(parts)

    def make(self, neg=0.12, pos=0.22, edge=0.22, topalt=0.04, both=0.03, core=None):
        r = self.r
        lpre = lpost = ""
        x = r.random()
        if x < edge:
            lpre = r.choice(["^", "^", "^", "^^"])
        elif x < edge + pos:
            lpre = "{" + self.look() + "}"
        elif x < edge + pos + neg:
            lpre = "{~" + self.neglook() + "}"
        elif x < edge + pos + neg + both:
            lpre = r.choice(["^", "^^"]) + "{" + r.choice(["", "~"]) + self.ch() + "}"
        if core is None:
            core = self.seq(self.depth, True, r.choice([1, 1, 2, 2, 3]))
            if r.random() < topalt:
                core = core + "|" + self.seq(1, True, 1)
        x = r.random()
        if x < edge:
            lpost = r.choice(["$", "$", "$", "$$"])
        elif x < edge + pos:
            lpost = "{" + self.look() + "}"
        elif x < edge + pos + neg:
            lpost = "{~" + self.neglook() + "}"
        elif x < edge + pos + neg + both:
            lpost = "{" + r.choice(["", "~"]) + self.ch() + "}" + r.choice(["$", "$$"])
        return lpre + core + lpost


def word(rng, al, extra=(), lo=1, hi=8, space=0.08):
    n = rng.randint(lo, hi)
    out = []
    for _ in range(n):
        x = rng.random()
        if x < space:
            out.append(" ")
        elif extra and x < space + 0.15:
            out.append(rng.choice(extra))
        else:
            out.append(rng.choice(al))
    return "".join(out)


# --- whole specs --------------------------------------------------------------

UP = {"Latn": "ABCDEFGHIJKLMNOPQRSTUVWXYZ"}
OUTSIDE = {"Latn": list("яж漢7"), "Cyrl": list("bz漢7"), "Grek": list("bя漢7"), "Geor": list("bя漢7"), "Hrkt": list("bя漢7"), "": list("яж漢7")}
JAMO_C = "ㄱㄴㄷㄹㅁㅂㅅㅇㅈㅎㄲㅃ"
JAMO_T = "ㄱㄴㄹㅁㅇㅂㅅ"
JAMO_V = "ㅏㅓㅗㅜㅡㅣㅔㅘ"
# characters which no pipeline step treats specially: what a letter became is visible in the result
TOKENS = "①②③④⑤⑥⑦⑧⑨⑩⑪⑫⑬⑭⑮⑯⑰⑱⑲⑳㉑㉒㉓㉔㉕"


def jamo(r):
    x = r.random()
    if x < 0.5:
        return r.choice(JAMO_C) + r.choice(JAMO_V) + ("-" + r.choice(JAMO_T) if r.random() < 0.3 else "")
    if x < 0.65:
        return r.choice(JAMO_C)
    if x < 0.8:
        return r.choice(JAMO_V)
    if x < 0.95:
        return "-" + r.choice(JAMO_T)
    return r.choice("가낢힣")


class SpecGen:
    """random specs. focus switches features on and off."""
    def __init__(self, rng, script=None, vars=True, macros=True, norms=True, puncts=True,
                 rewrites=(1, 5), transcribes=(2, 6), tokens=False, marker=True, blank_rules=True, depth=1, look=True):
        self.r = rng
        self.script = rng.choice(["Latn", "Latn", "", "Cyrl", "Grek", "Geor", "Hrkt"]) if script is None else script
        self.al = list(ALPHA[self.script])
        rng.shuffle(self.al)
        self.al = self.al[:5]
        self.f = dict(vars=vars, macros=macros, norms=norms, puncts=puncts, marker=marker, blank=blank_rules)
        self.rewrites, self.transcribes, self.tokens, self.depth, self.look = rewrites, transcribes, tokens, depth, look

    def make(self):
        r, al = self.r, self.al
        sp = {"id": "x", "script": self.script, "schemes": [], "macros": [], "vars": [], "norms": [], "rewrite": [], "transcribe": []}
        if self.f["vars"]:
            for n in ["v", "w", "long"][:r.randint(1, 3)]:
                m = r.randint(2, 4)
                vals = []
                while len(vals) < m:
                    x = "".join(r.choice(al) for _ in range(r.choice([1, 1, 1, 2])))
                    if x not in vals:
                        vals.append(x)
                sp["vars"].append((n, vals))
        vs = [v for v, _ in sp["vars"]]
        if self.f["macros"]:
            for n in r.sample(["@", "@@", "%", "%A", "A%"], r.randint(0, 3)):
                y = r.random()
                sp["macros"].append((n, "<%s>" % r.choice(vs) if vs and y < 0.5 else
                                     "(?:%s|%s)" % (r.choice(al), r.choice(al)) if y < 0.8 else r.choice(al)))
        ms = [m for m, _ in sp["macros"]]
        if self.f["norms"] and r.random() < 0.8:
            used = set()
            for t in r.sample(al, r.randint(1, 2)):
                fr = []
                for _ in range(r.randint(1, 3)):
                    x = "".join(r.choice(al + list("ÀÖ’ǅ")) for _ in range(r.choice([1, 2, 2, 3])))
                    if x not in used and x != t:
                        used.add(x)
                        fr.append(x)
                if fr:
                    sp["norms"].append((t if r.random() < 0.7 else t.upper() if r.random() < 0.5 else t + r.choice(al), fr))
            seen = set()
            sp["norms"] = [n for n in sp["norms"] if not (n[0] in seen or seen.add(n[0]))]
        pu = r.sample(PUNCT, r.randint(1, 3)) if self.f["puncts"] and r.random() < 0.7 else []
        for _ in range(r.randint(*self.rewrites)):
            sp["rewrite"].append(self.rule(vs, ms, pu, False))
        for _ in range(r.randint(*self.transcribes)):
            sp["transcribe"].append(self.rule(vs, ms, pu, True))
        tok = list(TOKENS)
        for i, c in enumerate(al):
            if r.random() < 0.75:
                sp["transcribe"].append((c, tok[i] if self.tokens else jamo(r)))
        if r.random() < 0.12:       # rules about spaces themselves
            sp["rewrite"].insert(r.randint(0, len(sp["rewrite"])), (r.choice([" ", "\u00a0", "\u3000", "\t", r.choice(al) + " ", " " + r.choice(al)]), r.choice(al)))
        for p in pu:
            if r.random() < 0.3:
                sp["transcribe"].append((p, r.choice([p, "", "·"])))
        if r.random() < 0.12:       # rules about characters which are not of the script
            o = r.choice(OUTSIDE[self.script])
            sp["rewrite"].insert(r.randint(0, len(sp["rewrite"])), (r.choice([o, o, o + r.choice(al), r.choice(al) + o, o + "+", "%s{%s}" % (o, r.choice(al))]), r.choice(al)))
            if r.random() < 0.5:
                sp["transcribe"].insert(r.randint(0, len(sp["transcribe"])), (o, r.choice(TOKENS) if self.tokens else jamo(r)))
        return sp

    def rule(self, vs, ms, pu, tr):
        r = self.r
        P = Pat(r, self.al, puncts=pu, vars=vs, macros=ms, depth=self.depth)
        k = {} if self.look else dict(neg=0, pos=0, edge=0, both=0)
        if tr:
            # "." could stand for text that is already transcribed; only plain cores use it here
            for _ in range(50):
                P.capvars = []
                e = P.make(**k)
                if "." not in e:
                    break
            else:
                e, P.capvars = r.choice(self.al), []
        else:
            e = P.make(**k)
        x = r.random()
        cv = [v for v in P.capvars if v]
        if cv and len(P.capvars) == len(cv) and x < 0.35 and "|" not in e:
            rx = "".join("<%s>" % r.choice([v, v, r.choice(vs)]) for v in cv[:r.randint(1, len(cv))])
            if r.random() < 0.4:
                rx += r.choice(self.al)
        elif tr:
            rx = "" if x > 0.92 else r.choice(TOKENS) if self.tokens else jamo(r)
            if x < 0.4 and ms:
                rx = rx
        elif x < 0.6:
            rx = "".join(r.choice(self.al) for _ in range(r.randint(1, 2)))
        elif x < 0.68:
            rx = ""
        elif x < 0.78 and self.f["marker"]:
            rx = r.choice(self.al) + "{}"
        elif x < 0.84 and self.f["marker"]:
            rx = "{}" + r.choice(self.al)
        elif x < 0.89 and self.f["blank"]:
            rx = r.choice(self.al) + " "
        elif x < 0.95 and pu:
            rx = r.choice(pu)
        else:
            rx = r.choice(OUTSIDE[self.script])
        return e, rx

    def word(self, sp, lo=1, hi=9, space=0.08):
        r = self.r
        extra = OUTSIDE[self.script] + PUNCT + [c.upper() for c in self.al[:3]] + list("Àǅ!?。、「」\u200b\u00a0\u3000\t\n\u0488\u0903")
        if r.random() < 0.05:
            return "".join(r.choice(OUTSIDE[self.script][:2] + [" "]) if r.random() < 0.8 else r.choice(OUTSIDE[self.script]) for _ in range(r.randint(1, 5)))
        froms = [x for _, f in sp["norms"] for x in f]
        if froms and r.random() < 0.4:
            w = word(r, self.al, extra, lo, max(lo, hi // 2), space)
            i = r.randint(0, len(w))
            return w[:i] + r.choice(froms) + w[i:]
        return word(r, self.al, extra, lo, hi, space)

    def long(self, lo=66, hi=150, breaks=True):
        """a long word of few letters: many matches of the same rule"""
        r = self.r
        al = r.sample(self.al, min(len(self.al), r.choice([1, 2, 3])))
        return "".join(r.choice(al) if r.random() > 0.04 else r.choice(" -'" + OUTSIDE[self.script][0] if breaks else " ") for _ in range(r.choice([lo, lo, hi, 2 * hi])))


def instance(r, expr, sp):
    """a text which the rule could meet, its neighbours included; None when the notation is too odd"""
    import re
    try:
        import re._parser as sp_
    except ImportError:
        import sre_parse as sp_
    ms = sorted((m for m, _ in sp["macros"]), key=len, reverse=True)
    d = dict(sp["macros"])
    if ms:
        expr = re.sub("|".join(map(re.escape, ms)), lambda m: d[m.group(0)], expr)
    vs = {a: b for a, b in sp["vars"]}
    expr = re.sub(r"<(.+?)>", lambda m: "(?:%s)" % "|".join(map(re.escape, vs.get(m.group(1), []))), expr)
    expr = re.sub(r"\{~[^{}]*\}", "", expr).replace("{", "(?:").replace("}", ")").replace("^", "").replace("$", "")
    if "[" in expr and "[]" in expr:
        return None

    def walk(ts):
        o = ""
        for op, a in ts:
            op = str(op)
            if op == "LITERAL":
                o += chr(a)
            elif op in ("ANY", "NOT_LITERAL"):
                o += "a"
            elif op == "IN":
                k, x = r.choice(a)
                o += chr(x) if str(k) == "LITERAL" else chr(r.randint(*x)) if str(k) == "RANGE" else "a"
            elif op in ("MAX_REPEAT", "MIN_REPEAT"):
                for _ in range(r.randint(a[0], min(a[1], max(a[0], 2)))):
                    o += walk(a[2])
            elif op == "SUBPATTERN":
                o += walk(a[3])
            elif op == "BRANCH":
                o += walk(r.choice(a[1]))
        return o
    try:
        return walk(sp_.parse(expr))
    except Exception:
        return None
