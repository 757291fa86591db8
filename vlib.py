"""Shared machinery of the checks: building harnesses from /repo's tree, running TLC, validating traces, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ESL_REPO", "/repo")
BUILD = os.path.join(V, "build")
SPECS = os.path.join(V, "specs")
JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m"]
TLACP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = ["g++", "-std=c++17", "-include", "cstdint", "-DWITH_PYTHON", "-I" + REPO, "-I/usr/include/python3.12", "-w"]
LIBS = ["-lboost_program_options", "-lboost_date_time", "-lboost_serialization", "-lboost_thread", "-lboost_system",
        "-lboost_python312", "-lpython3.12", "-lgsl", "-lgslcblas", "-lpthread"]
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


# ------------------------------------------------------------------------------------------------ building
_inc = re.compile(rb'^\s*#\s*include\s*[<"]([^">]+)[>"]', re.M)
_closure_cache = {}


def _resolve(inc, frm):
    for base in (REPO, os.path.dirname(frm), os.path.join(V, "harness")):
        p = os.path.normpath(os.path.join(base, inc))
        if os.path.isfile(p):
            return p
    return None


def closure(path):
    """All project files transitively included by `path` (textual, conditional includes counted)."""
    seen, todo = set(), [path]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if f not in _closure_cache:
            with open(f, "rb") as h:
                d = h.read()
            incs = [_resolve(i.decode("utf8", "replace"), f) for i in _inc.findall(d)]
            _closure_cache[f] = (hashlib.sha256(d).digest(), [i for i in incs if i])
        todo += _closure_cache[f][1]
    return seen


def _key(path, flags):
    h = hashlib.sha256(" ".join(flags).encode())
    for f in sorted(closure(path)):
        h.update(f.encode())
        h.update(_closure_cache[f][0])
    return h.hexdigest()[:24]


def compile_obj(src, flags, must=True):
    cmd = CXX + flags
    od = os.path.join(BUILD, "obj")
    os.makedirs(od, exist_ok=True)
    o = os.path.join(od, os.path.basename(src) + "-" + _key(src, cmd) + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if must:
                raise CheckError("compilation of %s failed:\n%s" % (src, r.stdout[-4000:]))
            return None
        os.rename(tmp, o)
    return o


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "esl")):
        for f in sorted(fs):
            if f.endswith(".cpp") and not f.startswith("python_module"):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def build(name, opt="-O0", flags=(), probe=False):
    """Builds harness/<name>.cpp.  harness/<name>.deps lists the esl sources tried first; if linking with them fails every
    source of the library that compiles is used."""
    dp = os.path.join(V, "harness", name + ".deps")
    lib = open(dp).read().split() if os.path.exists(dp) and not probe else []
    flags = [opt, "-g0", "-I" + os.path.join(V, "harness")] + list(flags)
    src = os.path.join(V, "harness", name + ".cpp")
    bd = os.path.join(BUILD, "bin")
    os.makedirs(bd, exist_ok=True)

    def link(objs):
        h = hashlib.sha256("".join(sorted(objs)).encode() + " ".join(flags).encode()).hexdigest()[:24]
        exe = os.path.join(bd, name + "-" + h)
        if os.path.exists(exe):
            return exe, ""
        ar = exe + ".%d.a" % os.getpid()
        tmp = exe + ".%d.tmp" % os.getpid()
        if os.path.exists(ar):
            os.remove(ar)
        extra = []
        if len(objs) > 1:
            subprocess.run(["ar", "cr", ar] + objs[1:], check=True)
            extra = [ar]
        r = subprocess.run(["g++"] + list(flags) + [objs[0]] + extra + ["-o", tmp] + LIBS + (["-Wl,-Map=" + exe + ".map"] if probe else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if probe and r.returncode == 0:
            used = set(re.findall(r"\(([\w.]+\.cpp)-[0-9a-f]+\.o\)", open(exe + ".map").read()))
            os.remove(exe + ".map")
            with open(dp, "w") as f:
                f.write("".join(x + "\n" for x in lib_sources() if os.path.basename(x) in used))
        if os.path.exists(ar):
            os.remove(ar)
        if r.returncode:
            return None, r.stdout
        os.rename(tmp, exe)
        return exe, ""

    with ThreadPoolExecutor(NCPU) as ex:
        main = ex.submit(compile_obj, src, flags)
        deps = [s for s in (lib or []) if os.path.exists(os.path.join(REPO, s))]
        objs = list(ex.map(lambda s: compile_obj(os.path.join(REPO, s), flags, False), deps))
        o = main.result()
        exe, err = link([o] + [x for x in objs if x])
        if exe is None:
            objs = list(ex.map(lambda s: compile_obj(os.path.join(REPO, s), flags, False), lib_sources()))
            exe, err = link([o] + [x for x in objs if x])
    if exe is None:
        raise CheckError("linking %s failed:\n%s" % (name, err[-4000:]))
    return exe


# ------------------------------------------------------------------------------------------------ TLC
def workdir(sub):
    d = os.path.join(BUILD, "work", "%s-%d" % (sub, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def write_cfg(path, text):
    with open(path, "w") as f:
        f.write(text)


def tlc(module, cfg, wd, workers=1, heap="3g", env=None, timeout=800, extra=(), jprops=()):
    """Runs TLC on specs/<module>.tla with configuration text `cfg`; returns (returncode, output)."""
    os.makedirs(wd, exist_ok=True)
    cp = os.path.join(wd, module + ".cfg")
    write_cfg(cp, cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = JAVA + ["-Xmx" + heap, "-Djava.io.tmpdir=" + wd] + list(jprops) + ["-DTLA-Library=" + SPECS, "-cp", TLACP, "tlc2.TLC", "-config", cp, "-workers", str(workers),
                                                   "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE", "-nowarning"] + list(extra) + [
        os.path.join(SPECS, module + ".tla")]
    outp = os.path.join(wd, "tlc.out")
    with open(outp, "w") as f:
        try:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=wd, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    with open(outp, errors="replace") as f:
        out = f.read()
    shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def model_check(module, cfg, wd, workers=None, heap="6g", timeout=800, extra=(), env=None):
    """Exhaustive check of a design spec: (distinct states, generated states, output). Any failure is an error of the check:
    the design spec does not depend on /repo."""
    rc, out = tlc(module, cfg, wd, workers or NCPU, heap, timeout=timeout, extra=extra, env=env)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("TLC on %s: rc=%s\n%s" % (module, rc, out[-3000:]))
    s, t = tlc_stats(out)
    return s, t, out


def printed(out, tag):
    """JSON payloads printed by a spec as <<"tag", "json">>."""
    pat = re.compile(r'<<"' + tag + r'", "(.*)">>')
    res = []
    for line in out.splitlines():
        m = pat.match(line)
        if m:
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return res


# ------------------------------------------------------------------------------------------------ harness runs
def run_harness(exe, tests, wd, tag, env=None, timeout=600, per=None):
    """tests: list of lists of text lines (first starts with 'T').  Returns list of traces (list of json lines as str), one
    per test.  A test during which the harness dies gets a final {"e":"crash"} event."""
    chunk = per or max(1, (len(tests) + NCPU - 1) // NCPU)
    jobs = [(i, tests[i:i + chunk]) for i in range(0, len(tests), chunk)]

    def go(job):
        i0, ts = job
        return _run_chunk(exe, ts, wd, "%s-%d" % (tag, i0), env, timeout)

    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(go, jobs))
    return [t for r in rs for t in r]


GARBLED = '{"e":"crash","rc":0}'      # stands for a record that cannot be read; no specification has such a step
EVALUATION = re.compile(r"The error occurred when TLC was evaluating|Attempted to |Overflow when computing")


def _run_chunk(exe, ts, wd, tag, env, timeout):
    out, start = [], 0
    end = time.time() + timeout
    crashes = hangs = 0
    while start < len(ts):
        ops = os.path.join(wd, tag + ".ops")
        tr = os.path.join(wd, tag + ".ndjson")
        with open(ops, "w") as f:
            for t in ts[start:]:
                f.write("\n".join(t) + "\n")
        e = dict(os.environ)
        e.update(env or {})
        with open(os.path.join(wd, tag + ".err"), "wb") as ef:
            try:
                rc = subprocess.run([exe, ops, tr], stdout=subprocess.DEVNULL, stderr=ef, env=e, cwd=wd,
                                    timeout=max(5, end - time.time())).returncode
            except subprocess.TimeoutExpired:
                rc = -99
        cur, n = None, 0
        got = []
        if os.path.exists(tr):
            with open(tr, errors="replace") as f:
                for line in f:
                    line = line.rstrip("\n")
                    if not line.endswith("}"):
                        continue
                    if line.startswith('{"e":"new"'):
                        cur = []
                        got.append(cur)
                    if cur is not None and not (cur and cur[-1] == GARBLED):
                        try:
                            json.loads(line)
                        except ValueError:      # the code under test corrupted the record (a data race, an overrun)
                            line = GARBLED
                        cur.append(line)
        if rc == 0:
            if len(got) < len(ts) - start and any(t and t[-1] == GARBLED for t in got):
                got += [['{"e":"new"}', GARBLED] for _ in range(len(ts) - start - len(got))]
            if len(got) != len(ts) - start:
                raise CheckError("harness produced %d traces for %d tests (%s)" % (len(got), len(ts) - start, tag))
            out += got
            break
        if rc == 70:
            raise CheckError("harness usage error: " + open(os.path.join(wd, tag + ".err"), errors="replace").read()[-1000:])
        if not got:
            got = [[]]
        last = got[-1]
        if not last or '"e":"crash"' not in last[-1] and '"e":"hang"' not in last[-1]:
            last.append('{"e":"%s","rc":%d}' % ("hang" if rc == -99 else "crash", rc))
        out += got
        start += len(got)
        crashes += 1
        hangs += '"e":"hang"' in last[-1]
        if crashes > 20 or hangs > 1:      # enough evidence; do not spend the budget on every crash
            out += [[] for _ in range(len(ts) - start)]
            break
    return out


# ------------------------------------------------------------------------------------------------ trace validation
def validate(module, cfg, traces, wd, tag, shards=None, timeout=800, heap="3g", branching=False):
    """Validates traces (lists of json strings, each beginning with a 'new' event) with specs/<module>.tla.
    Returns (events, states, [(trace index, failing event index)])."""
    idx = [i for i, t in enumerate(traces) if t]
    if not idx:
        return 0, 0, []
    total = sum(len(traces[i]) for i in idx)
    # TLC handles behaviours of at most 65535 states, and a specification may take a silent step per event
    shards = max(shards or max(1, min(NCPU, total // 4000 + 1)), total // 22000 + 1)
    groups = [[] for _ in range(shards)]
    load = [0] * shards
    for i in idx:
        k = load.index(min(load))
        groups[k].append(i)
        load[k] += len(traces[i])

    def go(k):
        g = groups[k]
        bad, states, pos = [], 0, 0
        while pos < len(g):
            d = os.path.join(wd, "%s-v%d" % (tag, k))
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "trace.ndjson")
            bounds = []
            with open(p, "w") as f:
                n = 0
                for i in g[pos:]:
                    f.write("\n".join(traces[i]) + "\n")
                    bounds.append((n, i))
                    n += len(traces[i])
            rc, out = tlc(module, cfg, d, 1, heap, {"TRACE": p}, timeout, extra=())
            states += tlc_stats(out)[0]
            m = re.findall(r'<<"REACHED", (\d+)>>', out)
            if rc == 0 and "No error has been found" in out and m and int(m[-1]) == n:
                break
            # otherwise the trace must have been rejected by the postcondition (or a named assertion of the trace spec)
            if not m and EVALUATION.search(out):
                # the recorded event lies outside the domain of the specification (e.g. a number beyond any it admits)
                m = [max(0, int(x) - 1) for x in re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)[-1:]] or [0]
            if not m or int(m[-1]) >= n:
                raise CheckError("TLC failed on trace %s: rc=%s\n%s" % (p, rc, out[-3000:]))
            at = int(m[-1])
            j = max(x for x in range(len(bounds)) if bounds[x][0] <= at)
            bad.append((bounds[j][1], at - bounds[j][0]))
            pos += j + 1
            if len(bad) >= 3:
                break
        return states, bad

    with ThreadPoolExecutor(min(shards, NCPU)) as ex:
        rs = list(ex.map(go, range(shards)))
    return total, sum(r[0] for r in rs), [b for r in rs for b in r[1]]


# ------------------------------------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.wd = workdir(pid)
        self.states = self.transitions = self.validated = self.events = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.viol = []
        self.rng = random.Random("%s-%d" % (pid, seed()))
        self.known = load_known(pid)
        self.known_seen = []

    def quick(self):
        return tier() != "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def design(self, module, cfg, label=None, **kw):
        s, t, out = model_check(module, cfg, os.path.join(self.wd, "mc-" + (label or module)), **kw)
        self.states += s
        self.transitions += t
        self.extra["design_" + (label or module)] = {"distinct_states": s, "generated": t, "seconds": round(self.elapsed(), 1)}
        return out

    def conform(self, exe, tests, module, cfg, tag, env=None, shards=None, confirm=True, timeout=600):
        """Runs tests on the real code and validates the recorded traces; confirmed rejections become violations."""
        if len(self.viol) >= 2:       # decided already
            return []
        traces = run_harness(exe, tests, self.wd, tag, env, timeout)
        ev, st, bad = validate(module, cfg, traces, self.wd, tag, shards)
        self.events += ev
        self.validated += sum(1 for t in traces if t)
        self.extra.setdefault("trace_events", 0)
        self.extra["trace_events"] += ev
        self.extra.setdefault("workloads", {})[tag] = {"tests": len(tests), "events": ev}
        if traces and len(self.samples) < 4:
            k = min(len(traces) - 1, max(0, len(traces) // 2))
            self.samples.append({"workload": tag, "ops": tests[k][:12], "trace_head": [json.loads(x) for x in traces[k][:6]]})
        for (i, at) in bad:
            ok = True
            if confirm:
                again = run_harness(exe, [tests[i]], self.wd, tag + "-re", env, timeout)
                _, _, b2 = validate(module, cfg, again, self.wd, tag + "-re", 1)
                ok = bool(b2)
                if ok:
                    traces[i], at = again[0], b2[0][1]
            if ok:
                self.violation(tag, tests[i], traces[i], at, module)
        return traces

    def build(self, name, less, module, **kw):
        """Builds a harness; when it compiles only without a part of the interface (with the flag `less`), that part
        cannot be used at all, which is a violation."""
        try:
            return build(name, **kw)
        except CheckError as e:
            if "compilation of" not in str(e):
                raise
            err = [x for x in str(e).split("\n") if "error" in x][:3]
            exe = build(name, **dict(kw, flags=tuple(kw.get("flags", ())) + (less,)))
            self.violation("compile", ["(compilation of the interface that " + less + " leaves out)"], err or ["error"], 0, module)
            return exe

    def violation(self, tag, ops, trace, at, module):
        ev = trace[at] if at < len(trace) else "(end)"
        k = match_known(self.known, tag, ops, ev)
        if k is not None:
            if k not in self.known_seen:
                self.known_seen.append(k)
            return
        d = os.path.join(BUILD, "replay", self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (tag, len(self.viol)))
        with open(p, "w") as f:
            f.write("property %s, specification %s, workload %s\nrejected event (index %d): %s\n\n--- operations\n%s\n\n--- trace\n%s\n" % (
                self.pid, module, tag, at, ev, "\n".join(ops), "\n".join(
                    ("=> " if i == at else "   ") + t for i, t in enumerate(trace))))
        self.viol.append(p)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples}
        cov.update(self.extra)
        if self.known_seen:
            cov["known_findings_seen"] = len(self.known_seen)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": tier() if tier() in ("quick", "thorough") else "quick", "seed": seed(),
                       "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(self.elapsed(), 2), "violations": len(self.viol)}, f, indent=1)
        shutil.rmtree(self.wd, ignore_errors=True)
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            for p in self.viol[:5]:
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            self.pid, self.states, self.transitions, self.validated, self.events, self.elapsed()))
        return 0


def load_known(pid):
    p = os.path.join(V, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out


def match_known(known, tag, ops, ev):
    for k in known:
        if k["workload"] == tag and k["ops"] == ops and ("event" not in k or (ev.startswith("{") and json.loads(ev) == k["event"])):
            return k
    return None
