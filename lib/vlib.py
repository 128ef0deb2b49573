"""Shared machinery of the checks: building drivers from /repo, running TLC, trace validation, evidence."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = min(8, os.cpu_count() or 4)
CHUNK = 6000  # events per TLC trace run


class ToolError(Exception):
    """The check itself could not run: neither a pass nor a violation."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------------------------------------------------------- build
def build(*targets):
    t0 = time.time()
    cmd = ["make", "-C", HARNESS, "-j", str(NCPU), "-s", "REPO=" + REPO, "BUILD=" + BUILD] + list(targets)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise ToolError("build of %s failed" % " ".join(targets))
    log("built %s in %.1f s" % (" ".join(targets), time.time() - t0))


def exe(name):
    return os.path.join(BUILD, "bin", name)


# ------------------------------------------------------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        m = re.findall(r"TRACE-DIAMETER\D+(\d+)", out)
        self.diameter = int(m[-1]) if m else None
        self.evalerror = bool(re.search(r"(Error: Evaluating|Attempted to|TLC threw an unexpected exception|"
                                        r"was not in the domain|The error occurred when TLC was evaluating|"
                                        r"evaluating the nested|Fcn|Overflow)", out))


def tlc(spec, cfg=None, workers=1, env=None, args=(), timeout=600, heap="3g", cwd=SPECS):
    meta = tempfile.mkdtemp(prefix="tlcmeta.")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["timeout", "-k", "5", str(timeout), "java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
           "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", (cfg or spec) + ".cfg"] + list(args) + [spec + ".tla"]
    t0 = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(p.returncode, p.stdout, time.time() - t0)


def _cache(spec, cfg, extra):
    """Development only (VERIF_CACHE): results of TLC runs that depend on the specifications alone."""
    d = os.environ.get("VERIF_CACHE")
    if not d:
        return None
    h = hashlib.sha1()
    for f in sorted(os.listdir(SPECS)):
        if f.endswith((".tla", ".cfg")):
            h.update(open(os.path.join(SPECS, f), "rb").read())
    h.update(repr((spec, cfg, extra)).encode())
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, h.hexdigest())


def tlc_cached(spec, cfg, workers, env, args, timeout, heap):
    c = _cache(spec, cfg, (args, env))
    if c and os.path.exists(c):
        import pickle
        return pickle.load(open(c, "rb"))
    r = tlc(spec, cfg, workers, env, args, timeout, heap)
    if c and r.rc == 0:
        import pickle
        pickle.dump(r, open(c + ".tmp%d" % os.getpid(), "wb"))
        os.rename(c + ".tmp%d" % os.getpid(), c)
    return r


def model_check(spec, cfg=None, workers=NCPU, timeout=800, args=(), env=None, heap="8g"):
    """Exhaustive check of the design. A failure here is an error of the model, never of the code."""
    r = tlc_cached(spec, cfg, workers, env, list(args), timeout, heap)
    if r.rc != 0:
        sys.stdout.write(r.out[-5000:])
        raise ToolError("model check of %s/%s failed (rc %d)" % (spec, cfg or spec, r.rc))
    log("model %s: %d states, %d distinct, depth %d, %.1f s" % (cfg or spec, r.generated, r.distinct, r.depth, r.wall))
    return r


def tlc_json(r, tag):
    """JSON values printed by PrintT(<<"tag", ToJson(..)>>)."""
    out = []
    pat = '<<"%s", "' % tag
    for line in r.out.splitlines():
        if line.startswith(pat) and line.endswith('">>'):
            body = line[len(pat):-3]
            try:
                out.append(json.loads(body.replace('\\"', '"').replace("\\\\", "\\")))
            except json.JSONDecodeError:
                continue  # two workers printed at once
    return out


def generate(spec, cfg, tag="SCN", num=None, depth=None, timeout=300, seed=None, workers=1, heap="4g", env=None):
    """Scenarios printed by TLC: exhaustive exploration (num None) or -simulate."""
    args = []
    if num is not None:
        args = ["-simulate", "num=%d" % num, "-depth", str(depth or 100), "-seed", str(seed if seed is not None else SEED)]
    r = tlc_cached(spec, cfg, workers, env, args, timeout, heap)
    if r.rc != 0:
        sys.stdout.write(r.out[-5000:])
        raise ToolError("scenario generation with %s/%s failed (rc %d)" % (spec, cfg, r.rc))
    scn = sorted(tlc_json(r, tag), key=lambda x: json.dumps(x, sort_keys=True))
    if not scn:
        sys.stdout.write(r.out[-3000:])
        raise ToolError("no scenario generated by %s/%s" % (spec, cfg))
    log("generated %d scenarios from %s (%d states, %.1f s)" % (len(scn), cfg, r.generated, r.wall))
    return scn, r


# ---------------------------------------------------------------------------------------------------------------- driver
def run_driver(cmd, scenario_file=None, out_file=None, timeout=300, env=None):
    """Runs a driver that writes NDJSON events to out_file. Returns (rc, tail of stderr)."""
    e = dict(os.environ)
    e.update(env or {})
    e["OMP_NUM_THREADS"] = e.get("OMP_NUM_THREADS", "2")
    try:
        p = subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                           text=True, errors="replace")
        return p.returncode, p.stdout[-3000:]
    except subprocess.TimeoutExpired as ex:
        return -1000, "driver did not finish within %d s\n" % timeout


def read_events(path):
    ev = []
    with open(path, errors="replace") as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            try:
                ev.append(json.loads(line))
            except json.JSONDecodeError:
                break  # a crashed driver may leave half a line
    return ev


def chunk_events(events, first, size=CHUNK):
    """Splits at events for which first(e) holds (start of a scenario)."""
    chunks, cur = [], []
    for e in events:
        if first(e) and len(cur) >= size:
            chunks.append(cur)
            cur = []
        cur.append(e)
    if cur:
        chunks.append(cur)
    return chunks


def _validate_one(spec, cfg, events, timeout, extra_env=None):
    d = tempfile.mkdtemp(prefix="trace.")
    path = os.path.join(d, "trace.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    env = {"TRACE": path}
    env.update(extra_env or {})
    r = tlc(spec, cfg, 1, env, [], timeout, "3g")
    shutil.rmtree(d, ignore_errors=True)
    if r.rc == 0 and r.diameter == len(events) + 1:
        return True, r, None
    if r.diameter is not None and r.diameter <= len(events):
        return False, r, r.diameter - 1  # index of the first event that is no step of the specification
    if r.evalerror:
        m = re.findall(r"\nState (\d+):", r.out)
        l = re.findall(r"/\\ l = (\d+)", r.out)
        idx = (int(l[-1]) - 1) if l else (int(m[-1]) - 1 if m else 0)
        return False, r, min(idx, len(events) - 1)
    sys.stdout.write(r.out[-4000:])
    raise ToolError("trace validation with %s could not run (rc %d)" % (spec, r.rc))


def validate(spec, events, first, cfg=None, timeout=600, size=CHUNK, extra_env=None):
    """Trace validation in parallel chunks. Returns (ok, stats, failure) with failure = dict(index, event, scenario)."""
    for e in events:
        _check_ints(e)
    chunks = chunk_events(events, first, size)
    t0 = time.time()
    stats = {"events": len(events), "chunks": len(chunks), "states": 0}
    failure = None
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(1, NCPU - 1)) as ex:
        futs = [ex.submit(_validate_one, spec, cfg, c, timeout, extra_env) for c in chunks]
        for c, f in zip(chunks, futs):
            ok, r, idx = f.result()
            stats["states"] += r.distinct
            if not ok and failure is None:
                start = idx
                while start > 0 and not first(c[start]):
                    start -= 1
                end = idx + 1
                failure = {"event": c[idx], "scenario": c[start:end], "tlc": _interesting(r.out)}
    stats["wall"] = time.time() - t0
    log("trace validation with %s: %d events in %d chunk(s), %d states, %.1f s: %s" %
        (spec, stats["events"], stats["chunks"], stats["states"], stats["wall"], "accepted" if failure is None else "REJECTED"))
    return failure is None, stats, failure


def _interesting(out):
    keep = [l for l in out.splitlines() if not re.match(r"(Parsing|Semantic|TLC2|Running|Computing|Progress|Linting|Warning|Finished|Starting|@)", l)]
    return "\n".join(keep[-40:])


def _check_ints(v):
    if isinstance(v, bool) or isinstance(v, str):
        return
    if isinstance(v, int):
        if not -2147483647 <= v <= 2147483647:
            raise ToolError("event carries an integer beyond 32 bits: %d" % v)
    elif isinstance(v, float):
        raise ToolError("event carries a float: %r" % v)
    elif isinstance(v, dict):
        for x in v.values():
            _check_ints(x)
    elif isinstance(v, list):
        for x in v:
            _check_ints(x)
    elif v is None:
        raise ToolError("event carries null")


# -------------------------------------------------------------------------------------------------------------- evidence
class Check:
    """Collects what one check run covered and how it ended."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.work = tempfile.mkdtemp(prefix="chk.%s." % prop)

    def path(self, name):
        return os.path.join(self.work, name)

    def model(self, r, name=None):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        if name:
            self.cov.setdefault("models", {})[name] = {"distinct_states": r.distinct, "states_generated": r.generated,
                                                        "depth": r.depth, "wall_s": round(r.wall, 1)}

    def traces(self, name, ntraces, stats, events):
        self.cov["traces_validated_against_impl"] += ntraces
        kinds = {}
        for e in events:
            k = str(e.get("e"))
            kinds[k] = kinds.get(k, 0) + 1
        self.cov.setdefault("conformance", {})[name] = {"traces": ntraces, "events": stats["events"],
                                                        "trace_states": stats["states"], "events_by_kind": kinds}

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, what, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1, default=str)
        self.violations.append((what, path))

    def finish(self):
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for what, path in self.violations[:5]:
                log("violation: " + what)
                log("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        log("OK property=%s wall=%.1fs" % (self.prop, time.time() - self.t0))
        return 0


def conform(chk, name, cmd, spec, first, cfg=None, scn_file=None, timeout=300, env=None, size=CHUNK, post=None,
            allow_empty=False, count=None, extra_env=None):
    """Runs the driver and validates its trace. The driver runs twice before a rejection counts."""
    out = chk.path(name + ".ndjson")

    def once():
        if os.path.exists(out):
            os.remove(out)
        rc, tail = run_driver(list(cmd) + [out], timeout=timeout, env=env)
        events = read_events(out) if os.path.exists(out) else []
        return rc, tail, events

    rc, tail, events = once()
    if rc == 3:
        sys.stdout.write(tail)
        raise ToolError("driver %s refused its input" % cmd[0])
    if post:
        events = post(events)
    if not events and rc == 0 and not allow_empty:
        raise ToolError("driver %s produced no event" % cmd[0])
    if rc != 0:
        rc2, tail2, events2 = once()
        if rc2 == 0:
            raise ToolError("driver %s ended with %d once and with 0 the second time" % (cmd[0], rc))
        start = len(events) - 1
        while start > 0 and not first(events[start]):
            start -= 1
        chk.violation("%s: the code under test ended the driver (exit %d) where the specification has a next step: %s"
                      % (name, rc, tail.strip()[-400:]),
                      {"rc": rc, "output": tail, "last_events": events[max(0, start):], "cmd": [str(c) for c in cmd]})
        return events
    ok, stats, failure = validate(spec, events, first, cfg, timeout=max(timeout, 600), size=size, extra_env=extra_env)
    if not ok:
        rc, tail, events2 = once()
        if post:
            events2 = post(events2)
        ok2, stats, failure2 = validate(spec, events2, first, cfg, timeout=max(timeout, 600), size=size, extra_env=extra_env)
        if ok2:
            raise ToolError("trace of %s rejected once and accepted the second time" % name)
        failure = failure2
        chk.violation("%s: event is no step of the specification %s: %s" % (name, spec, json.dumps(failure["event"])[:700]),
                      {"spec": spec, "failure": failure, "cmd": [str(c) for c in cmd]})
    n = count(events) if count else sum(1 for e in events if first(e))
    chk.traces(name, n, stats, events)
    return events


def known(chk, name, key, cmd, spec, first, strict_env, lax_env):
    """A committed known finding: the driver's input fails under strict_env. Under lax_env, which describes exactly how it fails, it has
    to be accepted, so another failure on the same input is still a violation."""
    conform(chk, name, cmd, spec, first, extra_env=lax_env, size=1 << 30)
    events = read_events(chk.path(name + ".ndjson"))
    ok, _, failure = validate(spec, events, first, size=1 << 30, extra_env=strict_env)
    if ok or chk.violations:
        return
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        listed = [l[len("known: "):].strip() for l in f if l.startswith("known: property=%s input=%s " % (chk.prop, key))]
    if listed:
        log("KNOWN-FINDING: property=%s %s" % (chk.prop, listed[0].split(" ", 2)[2]))
    else:
        chk.violation("%s: event is no step of the specification %s: %s" % (name, spec, json.dumps(failure["event"])[:700]),
                      {"spec": spec, "failure": failure, "cmd": [str(c) for c in cmd]})


def main(fn, prop):
    try:
        sys.exit(fn())
    except ToolError as e:
        log("ERROR of the check %s: %s" % (prop, e))
        sys.exit(2)
