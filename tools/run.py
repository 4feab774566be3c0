#!/usr/bin/env python3
"""Driver of the checks.
   run.py check PROPERTY [--thorough]     exit 0 held, 1 VIOLATION printed, 2 the check itself failed
   run.py replay FILE                     re-run the session or case a violation names
   run.py setup                           build everything the checks need
"""
import concurrent.futures as cf, copy, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import models, show
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

class Broken(Exception):
    """The check could not be carried out."""

# ------------------------------------------------------------------ building
def build_env(feature):
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    for kv in out.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode(errors="replace").split("=", 1)
            env[k] = v
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, feature)
    env.pop("RUSTFLAGS", None)
    return env
def build(feature="default"):
    """The harness against /repo's current tree, with one feature set of the library."""
    d = os.path.join(VERIF, "harness")
    cmd = ["cargo", "build", "--release", "--offline", "--quiet"]
    if feature != "default":
        cmd += ["--no-default-features", "--features", "f_" + feature]
    for attempt in (1, 2):
        r = subprocess.run(cmd, cwd=d, env=build_env(feature), capture_output=True, text=True)
        if r.returncode == 0:
            return os.path.join(BUILD, feature, "release", "toonh")
    raise Broken("harness does not build:\n" + r.stderr[-3000:])

def build_tools(cli=True, wasm=True):
    """The command line tool and the native WebAssembly functions, for the harness to run."""
    def cargo(args, cwd):
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"] + args, cwd=cwd, env=build_env("tools"), capture_output=True, text=True)
        if r.returncode != 0: raise Broken("tools do not build:\n" + r.stderr[-3000:])
    d = os.path.join(BUILD, "tools", "release")
    if cli:
        cargo(["--manifest-path", "/repo/crates/toon-cli/Cargo.toml"], BUILD)
        os.environ["TOON_CLI"] = os.path.join(d, "toon-cli")
    if wasm:
        cargo([], os.path.join(VERIF, "harness-wasm"))
        os.environ["TOON_WASM"] = os.path.join(d, "toonw")

# ---------------------------------------------------------------------- TLC
def tlc(module, cfg_text, env, out, workers=CORES, timeout=3600):
    tmp = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), tmp)
        with open(os.path.join(tmp, "run.cfg"), "w") as f:
            f.write(cfg_text)
        e = dict(os.environ); e.update(env); e.pop("JAVA_TOOL_OPTIONS", None)
        with open(out, "w") as f:
            r = subprocess.run(["java", "-Djava.io.tmpdir=" + tmp, "-Xss64m", "-Xmx%dg" % (3 if workers < CORES else 8), "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
                                "-workers", str(workers), "-metadir", os.path.join(tmp, "states"), "-noGenerateSpecTE",
                                "-config", "run.cfg", module + ".tla"],
                               cwd=tmp, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
def stats(out):
    gen = dist = 0
    tail = []
    with open(out, errors="replace") as f:
        for l in f:
            m = re.match(r"(\d+) states generated, (\d+) distinct", l)
            if m: gen, dist = int(m[1]), int(m[2])
            if not l.startswith(('"@G', '<<"V"', "Linting", "Semantic", "Parsing")):
                tail.append(l)
    return gen, dist, "".join(tail[-40:])

# ------------------------------------------------------------ trace checking
TRACE_CFG = "INIT Init\nNEXT Next\nVIEW view\nCHECK_DEADLOCK FALSE\n"
def corrupt(s, k):
    """A session with one recorded fact falsified: (session, observation it must fail at) or None."""
    s = copy.deepcopy(s)
    for i in range(len(s["obs"]) - 1, -1, -1):
        ob = s["obs"][i]
        if ob["k"] in ("enc", "ser") and ob["res"] == "ok" and ob["lines"]:
            j = k % len(ob["lines"])
            ob["lines"][j] = ob["lines"][j] + [120]
            return s, i
        if ob["k"] in ("typed", "ident"):
            f = "x" if ob["k"] == "typed" else "back"
            if ob["res"] == "ok" and (ob["k"] == "ident" or ob["cres"] == "ok"):
                ob[f] = {"c": "tuple", "a": [{"c": "unit"}, {"c": "unit"}, {"c": "unit"}, {"c": "unit"}]}
                return s, i
            if ob["k"] == "typed" and ob["res"] == "err" and ob["jres"] == "err":
                ob["res"] = "ok"
                return s, i
        if ob["k"] == "kept":
            if ob["res"] != "ok" or not any(119 in l for l in ob["lines"]): continue
            ob["v"] = {"t": "str", "s": [1, 2, 3]}
            return s, i
        if ob["k"] == "dec":
            if ob["res"] == "ok":
                ob["v"] = {"t": "str", "s": [1, 2, 3]}
                return s, i
            if ob["res"] == "err":
                ob["res"] = "ok"; ob["v"] = {"t": "str", "s": [1, 2, 3]}
                return s, i
        if ob["k"] == "total":
            ob["el"] = 10**8; ob["res"] = "err"
            return s, i
        if ob["k"] == "rt" and s["obs"][ob["j"] - 1]["res"] == "ok":
            ob["v"] = {"t": "str", "s": [1, 2, 3]}
            return s, i
        if ob["k"] in ("same", "implies"):
            a, b = s["obs"][ob["a"] - 1], s["obs"][ob["b"] - 1]
            if a["res"] == "ok" and a["k"] == "seen":
                if a["is"] == "typed":
                    b["x"] = {"c": "tuple", "a": [{"c": "unit"}, {"c": "unit"}, {"c": "unit"}]}
                elif a["is"] in ("enc", "ser"):
                    b["lines"] = b["lines"] + [[120]]
                else:
                    b["res"] = "ok"; b["v"] = {"t": "str", "s": [1, 2, 3]}
                return s, i
        if ob["k"] == "tool":
            if ob["a"]["done"]: ob["a"]["out"] = ob["a"]["out"][:-1] + [120] + ob["a"]["out"][-1:]
            else: ob["a"]["done"] = True
            return s, i
        if ob["k"] == "limit":
            ob["res"] = "err" if ob["res"] == "ok" else "ok"
            return s, i
        if ob["k"] == "calls":
            out = ob["ev"][-1]["out"]
            out["res"] = "panic" if out["res"] != "panic" else "err"
            return s, i
        if ob["k"] == "burst":
            for x in ob["outs"]:
                if x: x[0]["res"] = "panic"; return s, i
        if ob["k"] in ("bulke", "bulkd"):
            ob["total" if ob["k"] == "bulke" else "same"] -= 1
            if ob["k"] == "bulkd" and ob["res"] == "err": ob["res"] = "ok"
            return s, i
        if ob["k"] == "big":
            ob["res"] = "panic"
            return s, i
        if ob["k"] == "io":
            if ob["res"] == "err": ob["res"] = "ok"; ob["v"] = {"t": "str", "s": [1, 2, 3]}
            elif ob["dir"] == "w": ob["ev"].append({"t": "take", "b": [120]})
            else: ob["v"] = {"t": "str", "s": [1, 2, 3]}
            return s, i
    return None

def gen_sessions(binary, profile, seed, start, count, path):
    """Record sessions of the real library.  A call that dies or hangs is a finding."""
    r = subprocess.run([binary, "gen", profile, str(seed), str(start), str(count), path], capture_output=True, text=True, timeout=3000)
    if r.returncode == 0:
        return None
    if r.returncode == 2:
        raise Broken("harness: " + r.stderr[-2000:])
    # find the first session that does not finish
    lo, hi, last = start, start + count, r
    while hi - lo > 1:
        mid = (lo + hi) // 2
        r = subprocess.run([binary, "gen", profile, str(seed), str(lo), str(mid - lo), path], capture_output=True, text=True)
        if r.returncode == 0: lo = mid
        else: hi, last = mid, r
    why = "does not terminate: " + last.stdout[-1500:] if last.returncode == 97 else "process ended with status %d: %s" % (last.returncode, last.stderr[-500:])
    return dict(session=lo, why=why)

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.t0 = pid, tier, seed, time.time()
        self.viol, self.known = [], []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.parts = []
        self.work = tempfile.mkdtemp(prefix="w%s_" % pid, dir=BUILD)
        self.findings = load_findings(pid)
    def violation(self, what, data):
        """One violation: listed in KNOWN_FINDINGS or reported."""
        key = data.get("key")
        for k in self.findings:
            if key and k["key"] == key:
                if k not in self.known: self.known.append(k)
                return
        d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol) + 1))
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, what=what, **data), f, indent=1, ensure_ascii=False)
        self.viol.append((what, p))

    # ---- code -> specification
    def trace(self, profile, count, feature="default", sample=True):
        binary = build(feature)
        per = 20000
        chunks = [(s, min(per, count - s)) for s in range(0, count, per)]
        conc = 1 if len(chunks) == 1 else 2
        tot = dict(part="trace", profile=profile, sessions=0, verdicts={}, corrupted_rejected=0, corrupted=0, feature=feature)
        def one(ch):
            start, n = ch
            path = os.path.join(self.work, "%s_%s_%d.ndjson" % (profile, feature, start))
            crash = gen_sessions(binary, profile, self.seed, start, n, path)
            if crash:
                return ch, crash, None, None
            res = self.judge_file(path, CORES // conc)
            return ch, None, path, res
        with cf.ThreadPoolExecutor(conc) as ex:
            for ch, crash, path, res in ex.map(one, chunks):
                if crash:
                    self.violation("%s session %d: %s" % (profile, crash["session"], crash["why"][:300]),
                                   dict(kind="session", profile=profile, seed=self.seed, feature=feature, **crash))
                    continue
                self.account(tot, res, path, dict(kind="session", profile=profile, seed=self.seed, feature=feature), sample)
                os.remove(path)
        self.parts.append(tot)
        return tot
    def judge_file(self, path, workers=CORES):
        """Append falsified copies, run TLC, return per-observation verdicts."""
        n = 0
        planted = {}
        with open(path) as f:
            head = []
            for l in f:
                n += 1
                if n <= 40: head.append(json.loads(l))
        with open(path, "a") as f:
            for k, s in enumerate(head):
                cc = corrupt(s, k)
                if cc:
                    cc[0]["id"] = 10**9 + s["id"] if s["id"] < 10**9 else s["id"]
                    planted[cc[0]["id"]] = (s["id"], cc[1] + 1)
                    f.write(json.dumps(cc[0]) + "\n")
                if len(planted) >= 8: break
        out = path + ".out"
        rc = tlc("TraceToon", TRACE_CFG, dict(TRACE=path), out, workers)
        gen, dist, tail = stats(out)
        if rc != 0 or "No error has been found" not in tail:
            raise Broken("TLC failed on %s (rc %d):\n%s" % (path, rc, tail[-2500:]))
        ver = {}
        with open(out) as f:
            for l in f:
                m = re.match(r'<<"V", (\d+), (\d+), "(\w+)", "(\w+)", (\d+)>>', l)
                if m: ver[(int(m[1]), int(m[2]))] = (m[3], m[4], int(m[5]))
        os.remove(out)
        return dict(n=n, gen=gen, dist=dist, ver=ver, planted=planted)
    def account(self, tot, res, path, base, sample=True):
        self.cov["states"] += res["dist"]; self.cov["transitions"] += res["gen"]
        ver, planted = res["ver"], res["planted"]
        bad = {}
        seen = {}
        with open(path) as f:
            for l in f:
                s = json.loads(l)
                if s["id"] in planted: continue
                fine = True
                for i in range(1, len(s["obs"]) + 1):
                    v = ver.get((s["id"], i))
                    if v is None:
                        raise Broken("no verdict for session %d observation %d" % (s["id"], i))
                    key = v[0] + ":" + v[1]
                    tot["verdicts"][key] = tot["verdicts"].get(key, 0) + 1
                    if v[1] == "bad":
                        fine = False
                        if s["id"] not in bad: bad[s["id"]] = (s, i, v)
                seen[s["id"]] = fine
                tot["sessions"] += 1
                if fine: self.cov["traces_validated_against_impl"] += 1
                if sample and fine and len(self.cov["samples"]) < 4 and s["id"] % 37 == 5:
                    self.cov["samples"].append(brief(s))
        for cid, (sid, i) in planted.items():
            tot["corrupted"] += 1
            v = ver.get((cid, i))
            if v and v[1] == "bad": tot["corrupted_rejected"] += 1
            elif v and v[1] == "ok" and seen.get(sid):
                raise Broken("a falsified copy of session %d was accepted" % sid)
        listed = [k["key"] for k in self.findings]
        for sid, (s, i, v) in [x for x in bad.items() if session_key(x[1][0], x[1][1]) in listed] + \
                [x for x in bad.items() if session_key(x[1][0], x[1][1]) not in listed][:10]:
            self.violation("%s session %d observation %d (%s) is not a behaviour of the specification" % (base.get("profile"), sid, i, v[0]),
                           dict(base, session=sid, observation=i, at=v[2], key=session_key(s, i), readable=readable(s)))
        extra = len(bad) - 10
        if extra > 0: tot["further_bad"] = extra

    # ---- specification -> code
    def model(self, module, kind, cfg, what, idx, features=("default",)):
        inv = {"MCLines": ["StrictOnlyRemoves", "Agrees", "FixPoint", "Outcomes", "Emit"],
               "MCValues": ["Lossless", "FoldExpand", "Tidy", "Emit"] if kind != "bump" else ["Counted", "EmitBumped"],
               "MCChars": {"str": ["StringsSurvive", "EmitStr"], "tok": ["TokenSame", "EmitTok"], "doc": ["DocModes", "EmitDoc"]}.get(kind),
               "MCSerde": ["Identity", "Same", "Emit"],
               "MCJson": ["PrintRead", "ThereAndBack", "Layouts", "Emit"],
               "MCNums": ["Canonical", "Back", "Emit"]}[module]
        cp = os.path.join(self.work, "mc%d.json" % idx)
        json.dump(cfg, open(cp, "w"))
        out = os.path.join(self.work, "mc%d.out" % idx)
        text = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in inv)
        rc = tlc(module, text, dict(MCCFG=cp), out)
        gen, dist, tail = stats(out)
        if rc != 0 or "No error has been found" not in tail:
            raise Broken("TLC: %s does not satisfy its own invariants (rc %d):\n%s" % (module, rc, tail[-3000:]))
        self.cov["states"] += dist; self.cov["transitions"] += gen
        for f in features: build(f)
        with cf.ThreadPoolExecutor(len(features)) as ex:
            list(ex.map(lambda f: self.replayed(module, kind, cfg, what, idx, f, cp, out, dist, gen, inv), features))
        os.remove(out)
    def replayed(self, module, kind, cfg, what, idx, feature, cp, out, dist, gen, inv):
        binary = os.path.join(BUILD, feature, "release", "toonh")
        rp = os.path.join(self.work, "mc%d_%s.res" % (idx, feature))
        r = subprocess.run([binary, "replay", kind, cp, out, what, rp], capture_output=True, text=True, timeout=3000)
        base = dict(kind="model", module=module, replay=kind, cfg=cfg, compare=what, feature=feature)
        if r.returncode == 97:
            self.violation("replaying %s: a call does not terminate: %s" % (module, r.stdout[-300:]), dict(base, why=r.stdout[-2000:]))
        elif r.returncode == 2:
            raise Broken("harness replay: " + r.stderr[-2000:])
        elif r.returncode != 0:
            self.violation("replaying %s: process ended with status %d" % (module, r.returncode), dict(base, why=r.stderr[-500:]))
        else:
            res = json.load(open(rp))
            if res["cases"] == 0: raise Broken("the model generated no case")
            part = dict(part="model", module=module, config=idx, feature=feature, states=dist, transitions=gen, invariants=inv, exhaustive=True,
                        **{k: res[k] for k in ("cases", "checks", "open", "nontrivial")})
            self.parts.append(part)
            self.cov["traces_validated_against_impl"] += res["cases"] - min(res["nbad"], res["cases"])
            if len(self.cov["samples"]) < 6: self.cov["samples"] += res["sample"][:1]
            for b in res["bad"][:5]:
                self.violation("%s: the library departs from the specification (%s): %s" % (module, b["what"], json.dumps(b["detail"], ensure_ascii=False)[:400]),
                               dict(base, case=b, key=case_key(b)))

    # ---- the specification against itself
    def meaning(self, module, cfg, inv):
        cp, out = os.path.join(self.work, module + ".json"), os.path.join(self.work, module + ".out")
        json.dump(cfg, open(cp, "w"))
        rc = tlc(module, "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in inv), dict(MCCFG=cp), out)
        gen, dist, tail = stats(out)
        if rc != 0 or "No error has been found" not in tail:
            raise Broken("TLC: %s does not satisfy its own invariants (rc %d):\n%s" % (module, rc, tail[-3000:]))
        self.cov["states"] += dist; self.cov["transitions"] += gen
        self.parts.append(dict(part="meaning", module=module, states=dist, transitions=gen, invariants=inv, exhaustive=True))
        os.remove(out)

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=dict(self.cov, parts=self.parts),
                  assumptions=ASSUME, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        for what, p in self.viol[:10]:
            print("  " + what)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        for p in self.parts:
            print("  " + json.dumps({k: v for k, v in p.items() if k != "invariants"}))
        print("%s %s: %d states, %d traces/cases validated, %d violations, %.0f s" % (self.pid, self.tier, self.cov["states"],
              self.cov["traces_validated_against_impl"], len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0

ASSUME = ["The specification in /verif/spec states the intended meaning of TOON; verdicts 'open' claim nothing beyond termination with a value or an error.",
          "Conversion of doubles to shortest decimals in the harness is the Rust standard library's.",
          "Sessions and models are bounded as listed under coverage.parts."]
def brief(s):
    out = []
    for o in s["obs"]:
        b = {"k": o["k"]}
        if "lines" in o: b["text"] = "\n".join(show.txt(l) for l in o["lines"])[:400]
        if "v" in o and isinstance(o["v"], dict) and "t" in o["v"]: b["value"] = show.val(o["v"])
        if "res" in o: b["res"] = o["res"]
        out.append(b)
    return dict(session=s["id"], obs=out[:4])
def readable(s):
    out = []
    for o in s["obs"]:
        b = {k: x for k, x in o.items() if k not in ("lines", "v")}
        if "lines" in o: b["text"] = "\n".join(show.txt(l) for l in o["lines"])
        if "v" in o and isinstance(o["v"], dict) and "t" in o["v"]: b["value"] = show.val(o["v"])
        out.append(b)
    return out
def session_key(s, i):
    """What identifies a failure independently of the run that met it: the input of the failing call."""
    o = s["obs"][i - 1]
    if o["k"] == "rt": o = s["obs"][o["j"] - 1]
    if o["k"] in ("same", "implies"): o = s["obs"][o["a"] - 1]
    if o.get("is") == "typed": return "typed:" + "\n".join(show.txt(l) for l in o["lines"]) + " " + json.dumps(o["ty"], separators=(",", ":"))
    if o.get("is") == "dec" and "lines" in o: return "dec:" + "\n".join(show.txt(l) for l in o["lines"])
    if "v" in o: return "enc:" + json.dumps(show.val(o["v"]), ensure_ascii=False)
    return None
def case_key(b):
    d = b["detail"]
    if b["what"] == "typed decode": return "typed:" + d["text"] + " " + json.dumps(d["type"])
    return "dec:" + d["text"] if b["what"] == "decode" else "enc:" + json.dumps(d.get("value"), ensure_ascii=False)
def load_findings(pid):
    """KNOWN_FINDINGS lines: 'finding: property=ID key=<json string> <text>' (others are history)."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) key=("(?:[^"\\]|\\.)*") (.*)', l)
            if m and m[1] == pid: out.append(dict(key=json.loads(m[2]), text=m[3]))
    return out

# ------------------------------------------------------------------ the checks
TRACES = {  # property -> (profile, quick sessions, thorough sessions)
    "C01": ("roundtrip", 4000, 120000), "C02": ("fold", 3000, 100000), "C03": ("layout", 6000, 200000),
    "C04": ("strings", 10000, 300000), "C05": ("numbers", 6000, 200000), "C06": ("tokens", 10000, 300000),
    "C07": ("counts", 10000, 300000), "C08": ("damage", 12000, 300000), "C09": ("total", 12000, 300000),
    "C13": ("serde", 8000, 200000), "C14": ("typed", 8000, 200000),
    "C10": ("modes", 12000, 300000), "C11": ("expand", 8000, 200000), "C12": ("foldlayout", 6000, 200000),
    "C16": ("io", 8000, 200000),
    "C17": ("cli", 4000, 60000), "C18": ("wasm", 6000, 200000),
    "C22": ("calls", 5000, 150000),
    "C19": ("delims", 6000, 200000), "C20": ("fixpoint", 6000, 200000), "C21": ("handwritten", 10000, 300000),
}
BULK = {    # documents of many parts: property -> [(profile, features, quick, thorough)]
    "C01": [("bulk", "default", 150, 3000), ("huge", "default", 16, 400)],
    "C03": [("bulkenc", "default", 150, 3000), ("huge", "default", 16, 400)],
    "C07": [("bulkcounts", "default", 300, 4000), ("huge", "default", 16, 400)],
    "C08": [("bulkdamage", "default", 500, 5000), ("kept", "default", 8000, 250000)],
    "C09": [("bulkdamage", "default", 80, 2000)],
    "C10": [("bulkdamage", "default", 120, 3000)],
    "C15": [("bulk", f, 40, 600) for f in ("perf", "alloc", "std", "all")],
    "C16": [("bulkio", "default", 120, 2000)],
    "C17": [("bulkcli", "default", 120, 2000)],
    "C18": [("bulkwasm", "default", 100, 2000)],
    "C20": [("bulk", "default", 80, 1000)],
}
def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    run = Run(pid, tier, seed)
    try:
        done = False
        if pid in ("C17", "C18"): build_tools(pid == "C17", pid == "C18")
        if pid in TRACES:
            prof, q, t = TRACES[pid]
            run.trace(prof, t if tier == "thorough" else q)
            done = True
        for i, (m, k, cfg, what) in enumerate(models.models(pid, tier == "thorough")):
            run.model(m, k, cfg, what, i, ("perf", "alloc", "std", "direct", "all") if pid == "C15" else ("default",))
            done = True
        if pid in EXTRA:
            EXTRA[pid](run, tier)
            done = True
        for prof, f, q, t in BULK.get(pid, []):
            run.trace(prof, t if tier == "thorough" else q, f, False)
        if pid in ("C01", "C03", "C07"):
            run.meaning("MCBulk", models.bulk_model(tier == "thorough" and pid == "C03"), ["Written", "Long", "Read", "Damaged", "Cell", "Parts", "Digits"])
        if not done: raise Broken("no check for " + pid)
        return run.finish()
    except Broken as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        if run.viol:      # a violation already shown stands
            return run.finish()
        return 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
# ------------------------------------------------------------ feature builds
DIRECT_KNOWN = 16
FEATURES = ["perf", "alloc", "std", "direct", "all"]
def features(run, tier):
    """The same calls in every build, matched up and judged: each build against the specification and against the default."""
    count = 60000 if tier == "thorough" else 5000
    binaries = {f: build(f) for f in ["default"] + FEATURES}
    tots = {f: dict(part="trace", profile="features", feature=f, sessions=0, verdicts={}, corrupted_rejected=0, corrupted=0) for f in FEATURES}
    for start in range(0, count, 10000):
        n = min(10000, count - start)
        paths = {}
        for f, b in binaries.items():
            paths[f] = os.path.join(run.work, "feat_%s.ndjson" % f)
            crash = gen_sessions(b, "features", run.seed, start, n, paths[f])
            if crash:
                run.violation("features session %d with build %s: %s" % (crash["session"], f, crash["why"][:300]),
                              dict(kind="session", profile="features", seed=run.seed, feature=f, **crash))
                return
        def one(f):
            merged = os.path.join(run.work, "merged_%s.ndjson" % f)
            with open(paths["default"]) as fa, open(paths[f]) as fb, open(merged, "w") as fo:
                for la, lb in zip(fa, fb):
                    fo.write(json.dumps(merge(json.loads(la), json.loads(lb))) + "\n")
            return f, merged, run.judge_file(merged, 2)
        with cf.ThreadPoolExecutor(4) as ex:
            for f, merged, res in ex.map(one, FEATURES):
                run.account(tots[f], res, merged, dict(kind="session", profile="features", seed=run.seed, feature=f), f == "perf")
                os.remove(merged)
    run.parts += tots.values()
    for f in ("direct", "all"):    # recorded departures of the direct deserializer
        paths = {}
        for x in ("default", f):
            paths[x] = os.path.join(run.work, "known_%s.ndjson" % x)
            crash = gen_sessions(binaries[x], "direct_known", run.seed, 0, DIRECT_KNOWN, paths[x])
            if crash:
                run.violation("direct_known session %d with build %s: %s" % (crash["session"], x, crash["why"][:300]),
                              dict(kind="session", profile="direct_known", seed=run.seed, feature=x, **crash))
                return
        merged = os.path.join(run.work, "known_merged.ndjson")
        with open(paths["default"]) as fa, open(paths[f]) as fb, open(merged, "w") as fo:
            for la, lb in zip(fa, fb):
                fo.write(json.dumps(merge(json.loads(la), json.loads(lb))) + "\n")
        tot = dict(part="trace", profile="direct_known", feature=f, sessions=0, verdicts={}, corrupted_rejected=0, corrupted=0)
        run.account(tot, run.judge_file(merged, 2), merged, dict(kind="session", profile="direct_known", seed=run.seed, feature=f), False)
        run.parts.append(tot)
def merge(a, b):
    """Session a of the default build and b of another: b's observations judged in full, then compared."""
    other = {o["slot"]: o for o in b["obs"]}
    obs = []
    for o in a["obs"]:
        p = other.get(o["slot"])
        if o["slot"] == "seen" or p is None: continue
        obs.append(dict(o, k="seen"))
        # the direct deserializer is compared with the default path only
        obs.append(p if o["slot"] != "direct" else dict(p, k="seen"))
        if o["k"] == "io": continue      # judged by the log
        obs.append(dict(k="same", a=len(obs) - 1, b=len(obs)))
    return dict(id=a["id"], obs=obs or [dict(k="seen")])
# ------------------------------------------------------------- I/O schedules
def io(run, tier):
    """TLC explores the environment's schedules; the library is run under each and its calls judged."""
    schedules(run, "MCIO", models.io_models(tier == "thorough"), ["Delivered", "Returned", "OkIffAll", "Whole", "Chunking", "Faulty", "Emit"])
def schedules(run, module, cfgs, inv):
    binary = build()
    for i, cfg in enumerate(cfgs):
        cp, out, path = (os.path.join(run.work, "io%d.%s" % (i, x)) for x in ("json", "out", "ndjson"))
        json.dump(cfg, open(cp, "w"))
        rc = tlc(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTY Ends\n" + "".join("INVARIANT %s\n" % x for x in inv), dict(MCCFG=cp), out)
        gen, dist, tail = stats(out)
        if rc != 0 or "No error has been found" not in tail:
            raise Broken("TLC: %s does not satisfy its own properties (rc %d):\n%s" % (module, rc, tail[-3000:]))
        run.cov["states"] += dist; run.cov["transitions"] += gen
        r = subprocess.run([binary, "sessions", cp, out, path], capture_output=True, text=True, timeout=3000)
        base = dict(kind="schedule", profile="%s %d" % (module, i), cfg=cfg)
        if r.returncode == 2: raise Broken("harness: " + r.stderr[-2000:])
        if r.returncode != 0:
            run.violation("schedule of %s %d: a call %s" % (module, i, "does not terminate" if r.returncode == 97 else "ends the process"), dict(base, why=r.stdout[-1500:] + r.stderr[-500:]))
            continue
        tot = dict(part="schedules", module=module, config=i, states=dist, transitions=gen, exhaustive=True, sessions=0, verdicts={}, corrupted_rejected=0, corrupted=0)
        run.account(tot, run.judge_file(path), path, base)
        run.parts.append(tot)
        os.remove(out); os.remove(path)
def calls(run, tier):
    """TLC explores the schedules of calls; the library's calls are made in each and judged."""
    t = tier == "thorough"
    for f, n in (("all", 400), ("alloc", 200)):
        run.trace("calls", n * 40 if t else n, f, False)
    schedules(run, "MCCalls", models.calls_models(t), ["Independent", "Balanced", "Emit"])
def limits(run, tier):
    run.trace("limits", 256 if tier == "thorough" else 64)
def deep(run, tier):
    run.trace("deep", 3000 if tier == "thorough" else 150)
    run.trace("deep", 600 if tier == "thorough" else 50, "direct", False)
EXTRA = {"C09": deep, "C18": limits, "C15": features, "C16": io, "C22": calls}

def replay(path):
    d = json.load(open(path))
    print(json.dumps(d, indent=1, ensure_ascii=False)[:6000])
    if d.get("kind") == "session":
        os.makedirs(BUILD, exist_ok=True)
        run = Run(d["property"], "quick", d["seed"])
        try:
            b = build(d.get("feature", "default"))
            p = os.path.join(run.work, "one.ndjson")
            crash = gen_sessions(b, d["profile"], d["seed"], d["session"], 1, p)
            if crash: print("still: " + crash["why"]); return 1
            res = run.judge_file(p, 2)
            vs = {i: v for (s, i), v in res["ver"].items() if s == d["session"]}
            print("verdicts now:", vs)
            return 1 if any(v[1] == "bad" for v in vs.values()) else 0
        finally:
            shutil.rmtree(run.work, ignore_errors=True)
    return 0

if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "check":
        tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        sys.exit(check(sys.argv[2], tier))
    elif cmd == "replay":
        sys.exit(replay(sys.argv[2]))
    elif cmd == "setup":
        os.makedirs(BUILD, exist_ok=True)
        for f in sys.argv[2:] or ["default"]:
            print(build(f))
