"""Shared machinery: building the code under test, running it, running TLC,
reporting. Verdicts are only ever taken from what the real code did, compared
with what the TLA+ specification allows."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
GOROOT = "/opt/veriftools/go1.27.3"
START = time.time()


class HarnessError(Exception):
    """The check could not decide: an error exit, never a violation."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def go_env(**kw):
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT=GOROOT, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    cache = "/root/.cache/go-build"
    try:
        os.makedirs(cache, exist_ok=True)
        if not os.access(cache, os.W_OK):
            raise OSError
    except OSError:
        cache = os.path.join(scratch(), "gocache")
    e["GOCACHE"] = cache
    e.pop("GOOS", None)
    e.pop("GOARCH", None)
    e.update(kw)
    return e


def go(args, **kw):
    env = go_env(**kw)
    p = subprocess.run(["go"] + args, cwd=REPO, env=env, capture_output=True, text=True)
    return p


def build(pkg, out, race=False, overlay=None, ldflags=None, **env):
    path = os.path.join(scratch(), out)
    if os.path.exists(path):
        return path
    # The build never writes in /repo: its own go.mod and go.sum are copies.
    mod = os.path.join(scratch(), "mod")
    if not os.path.isdir(mod):
        os.makedirs(mod)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), mod)
    args = ["build", "-modfile", os.path.join(mod, "go.mod"), "-buildvcs=false", "-o", path]
    if race:
        args.append("-race")
    if ldflags:
        args += ["-ldflags", ldflags]
    if overlay:
        ov = os.path.join(scratch(), out + ".overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": overlay}, f)
        args += ["-overlay", ov]
    p = go(args + [pkg], **env)
    if p.returncode != 0:
        raise HarnessError("go build %s failed:\n%s%s" % (pkg, p.stdout, p.stderr))
    return path


def driver_bin(race=False):
    return build("./internal/verifdriver", "driver.race" if race else "driver", race=race,
                 overlay={os.path.join(REPO, "internal/verifdriver/main.go"):
                          os.path.join(VERIF, "driver/main.go")})


def build_test(pkg, out, overlay, **env):
    """the test binary of a package with a file of ours mapped into it"""
    path = os.path.join(scratch(), out)
    mod = os.path.join(scratch(), "mod")
    if not os.path.isdir(mod):
        os.makedirs(mod)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), mod)
    ov = path + ".overlay.json"
    with open(ov, "w") as f:
        json.dump({"Replace": overlay}, f)
    p = go(["test", "-c", "-modfile", os.path.join(mod, "go.mod"), "-overlay", ov, "-o", path, pkg], **env)
    if p.returncode != 0:
        raise HarnessError("go test -c %s failed:\n%s%s" % (pkg, p.stdout, p.stderr))
    return path


# --- texts -----------------------------------------------------------------

def cps(s):
    """text -> code points; bytes -> code points with invalid bytes negative"""
    if isinstance(s, bytes):
        out, i = [], 0
        while i < len(s):
            for n in (1, 2, 3, 4):
                try:
                    c = s[i:i + n].decode("utf-8")
                    if len(c) == 1:
                        out.append(ord(c))
                        i += n
                        break
                except UnicodeDecodeError:
                    continue
            else:
                out.append(-2000 - s[i])
                i += 1
        return out
    return [ord(c) for c in s]


def text(a):
    """code points -> printable text"""
    return "".join(chr(c) if c >= 0 else "\\x%02x" % (-c - 2000) for c in a)


# --- the driver ---------------------------------------------------------------

class Driver:
    stuck = []      # calls on which the library died or hung twice: (what, request)
    hangs = 0

    def __init__(self, race=False, env=None, limit=60, procs=1):
        self.bin = driver_bin(race)
        self.env = dict(os.environ, **(env or {}))
        self.env["DRIVER_LIMIT_S"] = str(limit)
        self.env["GOMAXPROCS"] = self.env.get("GOMAXPROCS", "4")
        self.limit = limit
        self.runs = 0
        self.stderr = ""

    def _once(self, reqs):
        self.runs += 1
        data = "".join(json.dumps(r) + "\n" for r in reqs)
        p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=self.env, cwd=scratch())
        try:
            out, err = p.communicate(data.encode(), timeout=self.limit * 3 + 600)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        self.stderr = err.decode("utf-8", "replace")
        res = []
        for line in out.decode("utf-8", "replace").split("\n"):
            if line.strip():
                try:
                    res.append(json.loads(line))
                except ValueError:
                    break
        return res, p.returncode, self.stderr

    def run(self, reqs):
        """request list -> response list, in order. A request on which the
        process dies or hangs is run again alone; if it does so again its
        response is {"died": text} or {"hang": True}."""
        out = []
        rest = list(reqs)
        deaths = 0
        if Driver.hangs >= 2:
            raise HarnessError("the library hung too often")
        while rest:
            res, rc, err = self._once(rest)
            if rc == 3:
                raise HarnessError("driver rejected a request: " + err[:500])
            good = [r for r in res if not r.get("hang")]
            for r in good:
                if r.get("bad"):
                    raise HarnessError("driver: " + r["bad"])
            out += good
            if len(good) == len(rest):
                return out
            bad = rest[len(good)]
            if deaths >= 8 or sum(1 for r in out if r.get("hang")) >= 2 or any("DATA RACE" in r.get("died", "") for r in out):
                if any(r.get("died") or r.get("hang") for r in out):
                    # enough has been seen
                    return out + [{"id": r.get("id"), "notrun": True} for r in rest]
                raise HarnessError("the driver died too often: " + err[-1500:])
            deaths += 1
            if "DATA RACE" in err or "fatal error: concurrent map" in err:
                # seen is seen: the same schedule need not come again
                out.append({"id": bad["id"], "died": err[-4000:]})
                rest = rest[len(good) + 1:]
                continue
            res2, rc2, err2 = self._once([bad])
            if res2 and res2[0].get("hang"):
                out.append({"id": bad["id"], "hang": True})
                Driver.hangs += 1
                Driver.stuck.append(("no answer within %d s on %s" % (self.limit, json.dumps(bad)[:600]), bad))
            elif not res2:
                if rc2 == 0:
                    raise HarnessError("driver gave no answer: " + err2[-1500:])
                if rc2 == -9:
                    raise HarnessError("driver was killed (memory?) on %s" % bad["id"])
                out.append({"id": bad["id"], "died": err2[-4000:] or "exit %d" % rc2})
                Driver.stuck.append(("the process died on %s: %s" % (json.dumps(bad)[:600], err2[-600:]), bad))
            else:
                out.append(res2[0])     # not reproducible: take the clean answer
            rest = rest[len(good) + 1:]
        return out

    def one(self, **r):
        r.setdefault("id", "x")
        return self.run([r])[0]


def crashed(m, zerowidth=False):
    """a description of a crash in a response, or None. zerowidth: the engine's
    documented answer to a pattern which matches nothing is not one."""
    if not isinstance(m, dict):
        return None
    if m.get("hang"):
        return "no answer within the time limit"
    if m.get("notrun"):
        return "not run, because the process had died or hung too often before"
    if m.get("died"):
        return "process died: " + m["died"][-1500:]
    if m.get("panic") is not None:
        if zerowidth and m["panic"].startswith("zero-width match from "):
            return None
        return "panic: " + m["panic"]
    return None


# --- Unicode facts --------------------------------------------------------------

def facts(drv, chars):
    r = drv.one(op="facts", chars=sorted(c for c in set(chars) if c >= 0))
    return {k: r[k] for k in ("latn", "cyrl", "geor", "grek", "hira", "kata", "mark", "punct",
                              "space", "letter", "digit", "han", "lower", "base")}


# --- TLC --------------------------------------------------------------------------

class Tlc:
    """totals over all TLC runs of a check"""
    def __init__(self):
        self.states = 0        # distinct states
        self.generated = 0     # transitions (states generated)
        self.runs = []

TLCTOTAL = Tlc()


def tlc(module, cfg=None, data=None, constants=None, timeout=800, heap="6g", workers="auto", extra=(),
        simulate=None, must_pass=True, cfgtext=None, name=None, env=None,
        long=False):
    """Run TLC on spec/<module>.tla. Returns (records printed with @@, info)."""
    d = tempfile.mkdtemp(dir=scratch())
    e = dict(os.environ)
    if env:
        e.update(env)
    if data is not None:
        p = os.path.join(d, "data.json")
        with open(p, "w") as f:
            json.dump(data, f)
        e["VDATA"] = p
    if cfgtext is not None:
        cfg = os.path.join(d, "model.cfg")
        with open(cfg, "w") as f:
            f.write(cfgtext)
    else:
        cfg = os.path.join(SPEC, (cfg or module) + ".cfg")
    cmd = ["timeout", "-k", "5", str(int(timeout)), "java", "-Djava.io.tmpdir=" + scratch(), "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"] + (
           ["-XX:TieredStopAtLevel=1"] if workers == 1 and not long else []) + [
           "-Xmx" + heap, "-Xss512m",
           "-cp", "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA), "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-config", cfg,
           "-noGenerateSpecTE", "-deadlock"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=d, errors="replace")
    out = p.stdout
    recs = []
    for line in out.split("\n"):
        if line.startswith('"@@'):
            recs.append(json.loads(json.loads(line)[2:]))
    info = {"module": module, "cfg": name or os.path.basename(cfg), "wall_s": round(time.time() - t, 1),
            "rc": p.returncode}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    ms = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if ms:
        info["generated"], info["distinct"] = int(ms[-1][0]), int(ms[-1][1])
    else:
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            info["generated"] = info["distinct"] = int(m.group(1))
    ok = p.returncode == 0 and ("Model checking completed. No error has been found" in out or simulate)
    info["ok"] = bool(ok)
    out = "\n".join(l for l in out.split("\n") if not l.startswith(("Parsing file", "Linting of", "Comput", "Semantic proc", "Semantic processing", '"@@', "(Use the -nowarning", "Warning: Please run")))
    info["out"] = out if len(out) < 20000 else out[:6000] + "\n...\n" + out[-10000:]
    if must_pass and not ok:
        o = info["out"]
        o = o if len(o) < 5000 else o[:2500] + "\n...\n" + o[-2500:]
        raise HarnessError("TLC on %s ended with %d:\n%s\n%s" % (module, p.returncode, o, p.stderr[-2000:]))
    TLCTOTAL.states += info.get("distinct", 0)
    TLCTOTAL.generated += info.get("generated", 0)
    TLCTOTAL.runs.append({k: v for k, v in info.items() if k not in ("out",)})
    shutil.rmtree(d, True)
    return recs, info


def tlc_many(calls):
    """several TLC runs at the same time: list of keyword dicts -> list of (recs, info)"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=8) as ex:
        fs = [ex.submit(tlc, **c) for c in calls]
        return [f.result() for f in fs]


# --- a check ------------------------------------------------------------------------

class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.thorough = self.tier == "thorough"
        self.violations = []
        self.known = []
        self.traces = 0           # real executions validated against the specification
        self.samples = []
        self.cover = {}
        self.assumptions = []
        self.kf = load_known()

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, replay, key=None):
        """replay: a dict with everything needed to repeat it"""
        for k in self.kf:
            if k["property"] == self.id and k.get("key") and k["key"] == key:
                line = "KNOWN-FINDING: property=%s %s" % (self.id, k["what"])
                if line not in self.known:
                    self.known.append(line)
                return
        self.violations.append((what, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": TLCTOTAL.states, "transitions": TLCTOTAL.generated,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "tlc_runs": TLCTOTAL.runs}
        cov.update(self.cover)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - START, 1), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        for k in self.known:
            print(k)
        if self.violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.json" % (self.id, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:20]], f, indent=1)
            for w, _ in self.violations[:5]:
                print("%s: %s" % (self.id, w))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            return 1
        print("%s: held on everything explored (%d states, %d real executions, %.1f s)" %
              (self.id, TLCTOTAL.states, self.traces, time.time() - START))
        return 0


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out
