"""Shared machinery of the checks: build harnesses from /repo, run TLC, validate traces, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not give an answer (exit status 2)."""


class Violation(Exception):
    def __init__(self, msg, data=None):
        super().__init__(msg)
        self.data = data or {}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "events_validated": 0, "model_runs": [], "actions": {}}
        self.assumptions = []
        self.known = []
        self.counter = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    def fresh(self, stem):
        self.counter += 1
        return self.path("%s_%d" % (stem, self.counter))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


# ----------------------------------------------------------------------------- building
def build_jobs(ctx, jobs):
    """jobs: list of (exe, source, extra flags). Compiled in parallel from the current tree."""
    procs = []
    for exe, src, flags in jobs:
        out = ctx.path(exe)
        cmd = ["g++", "-std=c++20", "-O1", "-g0", "-w", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS",
               "-fsanitize=address", "-fno-omit-frame-pointer",
               "-I", os.path.join(REPO, "include"), "-I", HARN,
               "-I", os.path.join(HARN, "stubs"),
               "-include", os.path.join(HARN, "prelude.hxx"),
               os.path.join(HARN, src), "-o", out] + list(flags) + ["-llapack", "-lblas"]
        procs.append((exe, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                                 stderr=subprocess.STDOUT, text=True)))
    for exe, cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            sys.stderr.write(out[:3000])
            first = re.search(r"^(\S+?):(\d+)(:\d+)?: error: .*", out, re.M)
            if first and os.path.realpath(first.group(1)).startswith(os.path.realpath(REPO) + os.sep):
                # The library's own public template cannot be instantiated: a user cannot, either.
                raise Violation("the library does not compile where %s uses it: %s" % (src, first.group(0)[:300]))
            raise CheckError("harness %s does not build against the current tree" % exe)
    return [ctx.path(j[0]) for j in jobs]


def build(ctx, exe, src, flags=()):
    return build_jobs(ctx, [(exe, src, flags)])[0]


# ----------------------------------------------------------------------------- running code
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:"
           "allocator_may_return_null=1:detect_odr_violation=0", LC_ALL="C.UTF-8")


def run_harness(exe, schedule, trace, timeout=240, cwd=None, args=()):
    """Runs the real code over a schedule.  Whatever was observed is in `trace`, one JSON per line;
    if the process dies in the middle, a CRASH event (no specification has an action for it)
    is appended."""
    if os.path.exists(trace):
        os.remove(trace)
    err = trace + ".err"
    try:
        with open(err, "w") as ef:
            p = subprocess.run([exe, schedule, trace] + list(args), stdout=subprocess.DEVNULL,
                               stderr=ef, env=ENV, timeout=timeout, cwd=cwd)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    events = read_trace(trace) if os.path.exists(trace) else []
    if rc == 3:  # the harness did not understand its schedule
        raise CheckError("harness rejected its schedule: " + open(err).read()[-500:])
    if rc != 0:
        tail = open(err, errors="replace").read()[-1500:]
        events.append({"op": "CRASH", "rc": str(rc)})
        write_trace(trace, events)
        return events, tail
    return events, ""


def read_trace(path):
    ev = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            try:
                ev.append(json.loads(line))
            except ValueError:
                break  # truncated last line of a process that died
    return ev


def write_trace(path, events):
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")


# ----------------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, args=(), timeout=600, workers="1", heap="3g", xss="16m"):
    meta = ctx.fresh("tlcmeta")
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + xss, "-cp", CP,
           "-Djava.io.tmpdir=" + meta, "tlc2.TLC", "-metadir", meta, "-nowarning", "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=e, timeout=timeout, cwd=SPEC, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout.decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        rc = "timeout"
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def model_check(ctx, module, cfg=None, workers=8, timeout=800, expect_actions=(), args=(), env=None, coverage=True):
    """Exhaustive exploration of the design; a failure here is a failure of the machinery."""
    cfg = cfg or module + ".cfg"
    rc, out = tlc(ctx, module + ".tla", cfg, workers=workers, timeout=timeout,
                  args=(["-coverage", "1"] if coverage else []) + list(args), env=env, heap="8g")
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
    if rc != 0 or not m:
        sys.stderr.write(out[-4000:])
        raise CheckError("model check of %s/%s failed (rc=%s)" % (module, cfg, rc))
    gen, dist = (int(x.replace(",", "")) for x in m.groups())
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    acts = {}
    for a in re.finditer(r"^<(\w+) line [^>]*>: ([\d,]+):([\d,]+)", out, re.M):
        acts[a.group(1)] = acts.get(a.group(1), 0) + int(a.group(3).replace(",", ""))
    for a in expect_actions if coverage else ():
        if not acts.get(a):
            raise CheckError("vacuous model: action %s of %s is never taken" % (a, module))
    ctx.cov["model_runs"].append({"module": module, "cfg": cfg, "distinct_states": dist,
                                  "generated": gen, "actions": acts})
    return acts


def simulate(ctx, module, cfg, num, depth, seed, timeout=300, env=None):
    """Behaviours of the specification.  The module prints each finished behaviour as one line
    `BEHAVIOUR <json>`; returned as a list of parsed objects."""
    rc, out = tlc(ctx, module + ".tla", cfg, timeout=timeout,
                  args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], env=env)
    res = []
    for m in re.finditer(r'^"?BEHAVIOUR (.*?)"?$', out, re.M):
        s = m.group(1).replace('\\"', '"')
        try:
            res.append(json.loads(s))
        except ValueError:
            raise CheckError("unreadable behaviour: " + s[:200])
    if rc != 0 or not res:
        sys.stderr.write(out[-4000:])
        raise CheckError("simulation of %s failed (rc=%s)" % (module, rc))
    return res


def validate(ctx, module, trace, cfg=None, timeout=600, env=None):
    """Is the recorded trace a behaviour of the specification?  Returns (accepted, first rejected
    line number, message)."""
    cfg = cfg or module + ".cfg"
    n = len(read_trace(trace))
    e = {"TRACE": trace}
    e.update(env or {})
    rc, out = tlc(ctx, module + ".tla", cfg, env=e, timeout=timeout)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    d = re.search(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        ctx.cov["states"] += int(m.group(2).replace(",", ""))
        ctx.cov["transitions"] += int(m.group(1).replace(",", ""))
    if rc == 0 and d and int(d.group(1)) - 1 == n:
        return True, None, ""
    reject = re.search(r"Postcondition|POSTCONDITION|violated|Invariant", out)
    if d and int(d.group(1)) - 1 < n and reject and "evaluating" not in out.lower():
        return False, int(d.group(1)), out[-2500:]
    # The recorded data do not even have the shape the specification asks for (a sequence that is too
    # short, a number beyond 32 bits, a missing field): no step of the specification, either.
    if re.search(r"Overflow when computing|[Aa]ttempted to|out(side)? of domain|not in the domain|"
                 r"outside its domain|nonexistent field|does not exist", out) and \
            re.search(r"Error: (TLC threw|Evaluating|The behavior|Attempted|In computing|Overflow)", out):
        st = [int(x) for x in re.findall(r"^State (\d+):", out, re.M)]
        return False, (max(st) if st else 1), out[-2500:]
    sys.stderr.write(out[-5000:])
    raise CheckError("trace validation of %s with %s gave no answer (rc=%s)" % (trace, module, rc))


def validate_many(ctx, module, traces, cfg=None, par=6):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda t: validate(ctx, module, t, cfg), traces))


# ----------------------------------------------------------------------------- conformance
def save_replay(ctx, name, files, note):
    d = os.path.join(EVID, "replay", ctx.pid)
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s_seed%s" % (name, ctx.seed))
    out = base + ".json"
    body = {"property": ctx.pid, "note": note}
    for k, p in files.items():
        if isinstance(p, str) and os.path.exists(p):
            body[k] = open(p, errors="replace").read().splitlines()[:4000]
        else:
            body[k] = p
    with open(out, "w") as f:
        json.dump(body, f, indent=1)
    return out


def conform(ctx, module, jobs, cfg=None, par=6, timeout=240, env=None):
    """jobs: list of (name, producer) where producer(trace_path) drives the real code and returns
    (events, stderr tail).  Every recorded trace has to be a behaviour of `module`.  A rejection is
    believed only if another, independent run of the same job is rejected, too."""
    from concurrent.futures import ThreadPoolExecutor

    def one(job):
        name, producer = job
        tr = ctx.path("trace_%s_%s.ndjson" % (module, name))
        events, tail = producer(tr)
        if not events:
            raise CheckError("job %s recorded nothing" % name)
        ok, at, msg = validate(ctx, module, tr, cfg, env=env)
        if ok:
            return name, tr, len(events), None
        for again in range(3):
            tr2 = ctx.path("trace_%s_%s_again%d.ndjson" % (module, name, again))
            producer(tr2)
            if not validate(ctx, module, tr2, cfg, env=env)[0]:
                break
        else:
            raise CheckError("rejection of %s is not reproducible" % name)
        return name, tr, len(events), (at, events, tail, msg)

    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(one, jobs))
    bad = None
    for name, tr, n, rej in results:
        ctx.cov["traces_validated_against_impl"] += 1
        ctx.cov["events_validated"] += n
        for e in read_trace(tr):
            ctx.cov["actions"][e["op"]] = ctx.cov["actions"].get(e["op"], 0) + 1
        if len(ctx.cov["samples"]) < 3:
            ctx.cov["samples"].append({"trace": name, "events": n,
                                       "first": str(read_trace(tr)[:2])[:300]})
        if rej and bad is None:
            bad = (name, tr, rej)
    if bad:
        name, tr, (at, events, tail, msg) = bad
        line = events[at - 1] if at - 1 < len(events) else None
        rp = save_replay(ctx, "%s_%s" % (module, name), {"trace": tr},
                         {"module": module, "rejected_event_number": at, "rejected_event": line,
                          "stderr": tail})
        raise Violation("%s: event %d is no step of the specification: %s" %
                        (name, at, json.dumps(line)[:600]), {"replay": rp})


# ----------------------------------------------------------------------------- entry point
def main(pid, fn, level):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a, _ = ap.parse_known_args(sys.argv[2:])
    ctx = Ctx(pid, a.tier, int(a.seed))
    os.makedirs(EVID, exist_ok=True)
    rc, violations = 0, 0
    try:
        fn(ctx)
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("OK property=%s tier=%s wall=%.1fs events=%d" %
              (pid, ctx.tier, time.time() - ctx.t0, ctx.cov["events_validated"]))
    except Violation as v:
        rp = v.data.get("replay") or save_replay(ctx, "violation", {}, str(v))
        print(str(v))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc, violations = 1, 1
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e), file=sys.stderr)
        rc = 2
    finally:
        ctx.close()
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": ctx.cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": violations}
    if rc in (0, 1):
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    sys.exit(rc)
