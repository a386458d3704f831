"""Common machinery: build drivers from /repo's working tree, run TLC, validate traces."""
import hashlib, json, os, re, subprocess, sys, time, glob, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CXX = "g++"
CXXFLAGS = ["-std=c++14", "-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fPIC", "-w"]
NPROC = max(2, min(8, os.cpu_count() or 2))

class Broken(Exception):
    """the machinery (not the code under test) failed"""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:24]

def _read(p):
    with open(p, "rb") as f: return f.read()

def build(drivers):
    """compile all of Merlin++ plus the named drivers; returns {driver: exe}"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    src = sorted(glob.glob(os.path.join(REPO, "Merlin++", "*.cpp")))
    hdr = sorted(glob.glob(os.path.join(REPO, "Merlin++", "*.h")))
    hk = _h(" ".join(CXXFLAGS), *[os.path.basename(h).encode() + b"\0" + _read(h) for h in hdr])
    jobs, objs = [], []
    for s in src:
        o = os.path.join(BUILD, "obj", _h(hk, os.path.basename(s), _read(s)) + ".o")
        objs.append(o)
        if not os.path.exists(o): jobs.append((s, o))
    def cc(j):
        s, o = j
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh([CXX] + CXXFLAGS + ["-I" + os.path.join(REPO, "Merlin++"), "-c", s, "-o", tmp])
        if r.returncode: return s + "\n" + r.stderr.decode(errors="replace")
        os.rename(tmp, o)
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(cc, jobs) if e]
    if errs: raise Broken("compile failed: " + errs[0][:3000])
    lk = _h(*[os.path.basename(o) for o in objs])
    lib = os.path.join(BUILD, "libm_%s.so" % lk)
    if not os.path.exists(lib):
        tmp = lib + ".%d.tmp" % os.getpid()
        r = sh([CXX, "-shared", "-o", tmp] + objs)
        if r.returncode: raise Broken("link failed: " + r.stderr.decode(errors="replace")[:3000])
        os.rename(tmp, lib)
    else: os.utime(lib)
    res = {}
    vhh = b"".join(_read(h) for h in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))))
    def bd(d):
        s = os.path.join(VERIF, "harness", d + ".cpp")
        exe = os.path.join(BUILD, "%s_%s" % (d, _h(lk, hk, vhh, _read(s))))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = sh([CXX] + CXXFLAGS + ["-I" + os.path.join(REPO, "Merlin++"), "-I" + os.path.join(VERIF, "harness"),
                    s, "-o", tmp, lib, "-Wl,-rpath," + BUILD])
            if r.returncode: raise Broken("driver build failed: " + r.stderr.decode(errors="replace")[:4000])
            os.rename(tmp, exe)
        else: os.utime(exe)
        return d, exe
    with ThreadPoolExecutor(NPROC) as ex:
        for d, exe in ex.map(bd, drivers): res[d] = exe
    _prune()
    return res

def _prune():
    now = time.time()
    for pat, keep in (("obj/*.o", 1500), ("libm_*", 8), ("d_*", 80)):
        fs = sorted(glob.glob(os.path.join(BUILD, pat)), key=lambda p: -os.path.getmtime(p))
        for f in fs[keep:]:
            if now - os.path.getmtime(f) > 600:
                try: os.unlink(f)
                except OSError: pass

ENV = dict(os.environ, MALLOC_PERTURB_="165", LC_ALL="C")

def run_driver(exe, scenarios, wd, name, timeout=120):
    """run scenarios (lists of op dicts, without the reset) through the driver.
    returns list of traces (list of event dicts), one per scenario."""
    script, trace = os.path.join(wd, name + ".script"), os.path.join(wd, name + ".trace")
    with open(script, "w") as f:
        for sc in scenarios:
            for i, e in enumerate(sc):
                assert (e["op"] == "reset") == (i == 0), e
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
    first = 0
    open(trace, "w").close()
    crashes = {}
    cwd = os.path.join(wd, name + ".cwd"); os.makedirs(cwd, exist_ok=True)
    while first < len(scenarios):
        try:
            r = subprocess.run([exe, script, trace] + ([str(first)]), env=ENV, cwd=cwd,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = -999, "timeout"
        if rc == 0: break
        if rc in (3, 4): raise Broken("driver usage: " + err[:2000])
        # crashed: find scenario reached
        done = sum(1 for l in open(trace, errors="replace") if l.startswith('{"op":"reset"'))
        with open(trace, "rb") as f: data = f.read()
        if data and not data.endswith(b"\n"): # partial line
            data = data[:data.rfind(b"\n") + 1]
            with open(trace, "wb") as f: f.write(data)
        if done == first: # crashed inside reset itself: write it
            with open(trace, "a") as f: f.write('{"op":"reset"}\n')
            done += 1
        with open(trace, "a") as f: f.write('{"op":"crash","rc":%d}\n' % rc)
        crashes[done - 1] = (rc, err[-300:])
        first = done
        if len(crashes) >= 5: break
    traces, cur = [], None
    with open(trace, errors="replace") as f:
        for l in f:
            if l.startswith('{"op":"reset"'):
                cur = []; traces.append(cur)
            cur.append(l.rstrip("\n"))
    return traces

JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx2500m", "-Xss64m"]

def tlc(module, cfg, wd, env=None, timeout=800, workers=1, extra=(), simulate=None):
    """run TLC in a private copy of the spec directory"""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=wd)
    cp = JAR + ":" + "/opt/veriftools/tla/CommunityModules-deps.jar" + ":" + ":".join(glob.glob("/opt/veriftools/tla/*.jar"))
    cmd = JAVA + ["-cp", cp, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-nowarning"]
    if simulate: cmd += simulate
    cmd += list(extra) + ["-config", cfg, module]
    e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None)
    if env: e.update(env)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC timeout on %s %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors="replace")

def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m: return int(m.group(1)), int(m.group(2))
    m = re.findall(r"Progress: (\d+) states checked", out) or re.findall(r"(\d+) states checked", out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)

def model_check(module, cfg, wd, timeout=800, workers=NPROC):
    rc, out = tlc(module, cfg, wd, timeout=timeout, workers=workers)
    if rc != 0 or "No error has been found" not in out:
        raise Broken("model checking %s/%s failed rc=%d\n%s" % (module, cfg, rc, out[-3000:]))
    gen = sorted(parse_prints(out), key=lambda x: json.dumps(x, sort_keys=True))
    return tlc_stats(out), gen

def parse_prints(out):
    """scripts printed by Gen modules as PrintT(<<"SCRIPT", json>>)"""
    res = []
    for m in re.finditer(r'^"SCRIPT(.*)"\s*$', out, re.M):
        s = re.sub(r"\\(.)", r"\1", m.group(1))
        res.append(json.loads(s))
    return res

def validate(module, traces, wd, name, timeout=800, cfg="Trace.cfg"):
    """check the concatenation of traces against the trace spec.
    returns (ok, lines, failing (scenario, line) or None, output)"""
    f = os.path.join(wd, name + ".ndjson")
    with open(f, "w") as o:
        for t in traces:
            for l in t: o.write(l + "\n")
    n = sum(len(t) for t in traces)
    rc, out = tlc(module, cfg, wd, env={"TRACE": f}, timeout=timeout, extra=["-deadlock"])
    m = re.search(r'"TRACEDEPTH", (\d+)', out)
    if not m:
        raise Broken("TLC gave no depth on %s (rc=%d)\n%s\n%s" % (module, rc, "\n".join(re.findall(r"Error: .*(?:\n.*){0,6}", out)[:2])[:1500], out[-1500:]))
    depth = int(m.group(1))
    if depth == n:
        if rc != 0: raise Broken("TLC rc=%d on accepted trace\n%s" % (rc, out[-3000:]))
        return True, n, None, out
    k = depth
    for si, t in enumerate(traces):
        if k < len(t): return False, n, (si, k), out
        k -= len(t)
    raise Broken("depth beyond trace " + out[-2000:])

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.wd = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.states = self.transitions = 0
        self.nscen = self.nlines = 0
        self.samples = []
        self.models = []
        self.opcount = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    def rng(self, salt=""):
        return random.Random("%s/%s/%d/%s" % (self.prop, salt, self.seed, self.tier))
    def left(self, budget): return budget - (time.time() - self.t0)

    def model(self, module, cfg, timeout=700):
        (g, d), gen = model_check(module, cfg, self.wd, timeout=timeout)
        self.states += d; self.transitions += g
        self.models.append("%s[%s]: %d distinct states" % (module, cfg, d))
        return gen

    def replay(self, driver, module, scenarios, label, chunk_lines=None, timeout=800):
        """drive all scenarios through the real code, validate against the trace spec"""
        if not scenarios: return
        exe = build([driver])[driver]
        total = sum(len(s) for s in scenarios)
        nch = max(1, min(NPROC, total // 200 + 1)) if chunk_lines is None else max(1, total // chunk_lines + 1)
        chunks = [scenarios[i::nch] for i in range(nch)]
        def one(i):
            ch = chunks[i]
            tr = run_driver(exe, ch, self.wd, "%s_%d" % (label, i))
            n = len(tr)
            ok, lines, fail, out = validate(module, tr, self.wd, "%s_%d" % (label, i), timeout=timeout)
            return i, ok, lines, fail, tr, out
        with ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(one, range(nch)))
        for i, ok, lines, fail, tr, out in results:
            self.nscen += len(tr); self.nlines += lines
            for t in tr:
                for l in t:
                    op = l.split('"', 4)[3]
                    self.opcount[op] = self.opcount.get(op, 0) + 1
            if i == 0 and len(self.samples) < 4 and tr:
                self.samples.append({"label": label, "trace": [json.loads(x) for x in tr[len(tr)//2][:6]]})
            if not ok: self._rejected(exe, driver, module, chunks[i], tr, fail, out, label)

    def _rejected(self, exe, driver, module, chunk, tr, fail, out, label):
        si, li = fail
        sc = chunk[si]
        # confirm in isolation, else by repeating the whole chunk
        mode = "isolated"
        t2 = run_driver(exe, [sc], self.wd, "confirm")
        ok, n, f2, out2 = validate(module, t2, self.wd, "confirm")
        if ok:
            mode = "chunk"
            t2 = run_driver(exe, chunk, self.wd, "confirm")
            ok, n, f2, out2 = validate(module, t2, self.wd, "confirm")
            if ok: raise Broken("rejection of %s did not repeat" % label)
            sc = chunk[f2[0]]
        t = t2[f2[0]]
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s_%s_%d.json" % (self.prop, label, len(self.violations)))
        mm = re.findall(r'.*"MISMATCH".*(?:\n .*)*', out2)
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "driver": driver, "spec": module, "mode": mode,
                       "scenario": sc if mode == "isolated" else None,
                       "chunk": None if mode == "isolated" else chunk,
                       "rejected_event": json.loads(t[f2[1]]), "event_index": f2[1],
                       "tlc": mm[-3:]}, f, indent=1)
        self.violations.append({"replay": rp, "event": json.loads(t[f2[1]]), "tlc": mm[-1:] })
        print("rejected event %d: %s" % (f2[1], t[f2[1]][:600]))
        for m in mm[-1:]: print("  " + m[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)

    def known_findings(self):
        """scenarios of recorded findings for this property"""
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p): return
        for k in json.load(open(p)).get("findings", []):
            if k["property"] != self.prop: continue
            exe = build([k["driver"]])[k["driver"]]
            tr = run_driver(exe, [k["scenario"]], self.wd, "kf_" + k["id"])
            ok, n, fail, out = validate(k["spec"], tr, self.wd, "kf_" + k["id"])
            if ok:
                self.known.append({"id": k["id"], "reproduced": False})
                continue
            if fail[1] != k["event_index"]:
                sc = [k["scenario"]]
                self._rejected(exe, k["driver"], k["spec"], sc, tr, fail, out, "kf_" + k["id"])
                continue
            self.known.append({"id": k["id"], "reproduced": True})
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k["id"], k["what"]), flush=True)

    def finish(self, level="model_checking", note=None):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.nscen,
                           "trace_events_validated": self.nlines,
                           "models": self.models,
                           "events_by_operation": self.opcount,
                           "known_findings": self.known,
                           "samples": self.samples},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.wd, ignore_errors=True)
        print("%s %s: %s  (%d scenarios, %d events, models %s, %.1fs)" % (self.prop, self.tier,
              "VIOLATED" if self.violations else "held", self.nscen, self.nlines, self.models, time.time() - self.t0))
        return 1 if self.violations else 0

def replay_file(path):
    """re-run a recorded violation"""
    v = json.load(open(path)); wd = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        exe = build([v["driver"]])[v["driver"]]
        ch = [v["scenario"]] if v["scenario"] else v["chunk"]
        tr = run_driver(exe, ch, wd, "r")
        ok, n, fail, out = validate(v["spec"], tr, wd, "r")
        if ok: print("accepted"); return 0
        print("rejected: " + tr[fail[0]][fail[1]])
        for m in re.findall(r'.*"MISMATCH".*(?:\n .*)*', out)[-1:]: print(m)
        return 1
    finally: shutil.rmtree(wd, ignore_errors=True)
