"""Machinery shared by every check: running TLC, running the real code on
scenarios, validating what it did against the specification, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("GSP_REPO", "/repo")
PY = os.environ.get("GSP_PY", "/opt/venv/bin/python")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NPROC = min(8, os.cpu_count() or 1)
SCRATCH = None


class Machinery(Exception):
    """A failure of the machinery itself (never of the code under test)"""


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="gspverif.")
    return SCRATCH


def cleanup():
    if SCRATCH and os.path.isdir(SCRATCH):
        shutil.rmtree(SCRATCH, ignore_errors=True)


def code_env():
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + os.pathsep + VERIF, MPLBACKEND="Agg",
               MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", LANG="C.UTF-8",
               # never read a stale .pyc left in the tree
               PYTHONPYCACHEPREFIX=os.path.join(scratch(), "pyc"))
    return env


# ---------------------------------------------------------------- TLC -----
_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, spec, *, invariants=(), properties=(), action_constraint=None,
        view=None, constants="", env=None, workers=1, timeout=800, extra=(),
        constraint=None, heap="3g"):
    """Run TLC on `module` with a generated configuration; return
    (exit code, stdout, states generated, distinct states)"""
    d = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    cfg = os.path.join(d, "M.cfg")
    with open(cfg, "w") as f:
        f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
        for i in invariants:
            f.write(f"INVARIANT {i}\n")
        for i in properties:
            f.write(f"PROPERTY {i}\n")
        if action_constraint:
            f.write(f"ACTION_CONSTRAINT {action_constraint}\n")
        if constraint:
            f.write(f"CONSTRAINT {constraint}\n")
        if view:
            f.write(f"VIEW {view}\n")
        if constants:
            f.write(constants + "\n")
    e = dict(os.environ)
    e.update({"TRACE": "", "DEPTH": "0", "SIM": "0", "PROFILE": ""})
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss64m",
           f"-DTLA-Library={SPEC}",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", d,
           "-noGenerateSpecTE", "-fpmem", "0.1", "-config", cfg, *extra,
           os.path.join(SPEC, module + ".tla")]
    out = os.path.join(d, "out")
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e,
                               timeout=timeout, cwd=d)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -9
    text = open(out, errors="replace").read()
    shutil.rmtree(d, ignore_errors=True)
    m = _STATS.findall(text)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, text, gen, dist


def unquote(line):
    """TLC prints a string value with TLA+ escapes"""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def explore(module, *, depth, invariants=("Inv",), constants="", timeout=600,
            spec="GenSpec", simulate=None, env=None, properties=()):
    """Explore the model exhaustively up to `depth` (or at random when
    `simulate` is a number of behaviours), check the invariants and return
    the behaviours (sequences of events) with the numbers of states."""
    extra = ()
    if simulate:
        extra = ("-simulate", f"num={simulate}", "-depth", str(depth + 1),
                 "-seed", str(SEED))
    e = {"DEPTH": depth, "SIM": "1" if simulate else "0"}
    e.update(env or {})
    rc, text, gen, dist = tlc(module, spec, invariants=invariants, properties=properties,
                              action_constraint="Emit", view=None if simulate else "View",
                              constants=constants, env=e, timeout=timeout, extra=extra)
    if rc != 0:
        tail = "\n".join(l for l in text.splitlines() if "PATH " not in l)[-3000:]
        raise Machinery(f"TLC rejects the model {module} (rc={rc}):\n{tail}")
    paths = []
    for line in text.splitlines():
        line = unquote(line)
        if line.startswith("PATH "):
            paths.append(json.loads(line[5:]))
    if simulate:
        m = re.findall(r"The number of states generated: (\d+)", text)
        gen = int(m[-1]) if m else gen
    # a behaviour that is a prefix of another one adds nothing
    keyed = {json.dumps(p, sort_keys=True): p for p in paths}
    prefixes = set()
    for p in keyed.values():
        for n in range(1, len(p)):
            prefixes.add(json.dumps(p[:n], sort_keys=True))
    behaviours = [p for k, p in keyed.items() if k not in prefixes]
    return dict(behaviours=behaviours, transitions=len(paths), states=dist or gen,
                generated=gen)


# ----------------------------------------------------------- real code ----
def execute(driver, scenarios, shards=None, timeout=420):
    """Run the scenarios in the real code; returns the list of traces (lists
    of events carrying their observation `o`) in the order of scenarios."""
    if not scenarios:
        return []
    shards = shards or min(NPROC, max(1, len(scenarios) // 20))
    d = tempfile.mkdtemp(prefix="exec.", dir=scratch())
    procs = []
    for k in range(shards):
        src, dst = os.path.join(d, f"in{k}"), os.path.join(d, f"out{k}")
        with open(src, "w") as f:
            for i in range(k, len(scenarios), shards):
                f.write(json.dumps({"tid": i, "events": scenarios[i]}) + "\n")
        log = open(os.path.join(d, f"log{k}"), "w")
        procs.append((k, dst, log.name, subprocess.Popen(
            [PY, "-m", "harness.run", driver, src, dst], stdout=log,
            stderr=subprocess.STDOUT, env=code_env(), cwd=d)))
    end = time.time() + timeout
    traces = [None] * len(scenarios)
    for k, dst, log, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -9
        if os.path.exists(dst):
            for line in open(dst):
                if line.endswith("\n"):
                    t = json.loads(line)
                    traces[t["tid"]] = t["events"]
        if rc != 0:
            text = open(log).read()[-3000:]
            missing = [i for i in range(k, len(scenarios), shards) if traces[i] is None]
            # The driver catches whatever the code under test raises: it only
            # ends this way when the code cannot even be imported or hangs.
            for i in missing:
                traces[i] = [dict(e, tid=i, o={"err": "Crash", "log": text[-800:]})
                             for e in scenarios[i][:1]]
    shutil.rmtree(d, ignore_errors=True)
    return traces


def foreign(x):
    """Whether an observation holds something TLC cannot read (numbers are 32
    bits): no behaviour of the specification shows it."""
    if isinstance(x, bool): return False
    if isinstance(x, int): return not -2**31 < x < 2**31
    if isinstance(x, dict): return any(foreign(v) for v in x.values())
    if isinstance(x, (list, tuple)): return any(foreign(v) for v in x)
    return isinstance(x, float)


# ---------------------------------------------------------- validation ----
def validate(module, traces, constants="", shards=None, timeout=700, env=None):
    """Validate recorded traces against the specification.  Returns the list
    of rejections {tid, n, ev, clauses, expected} and counters."""
    rejects = []
    lines = 0
    todo = []
    for tid, t in enumerate(traces):
        good = []
        for n, e in enumerate(t):
            if e.get("o", {}).get("err") in ("Crash", "Hang"):
                rejects.append(dict(tid=tid, n=n, ev=e.get("ev"), clauses=["crash"],
                                    expected=None, log=e["o"].get("log", "")))
                break
            if foreign(e.get("o")):
                rejects.append(dict(tid=tid, n=n, ev=e.get("ev"), clauses=["shape"], expected=None))
                break
            good.append(e)
        if good:
            todo.append((tid, good))
    if not todo:
        return rejects, 0, 0
    total = sum(len(g) for _, g in todo)
    shards = shards or max(1, min(NPROC, total // 400))
    d = tempfile.mkdtemp(prefix="val.", dir=scratch())

    def one(k):
        path = os.path.join(d, f"t{k}.ndjson")
        count = 0
        with open(path, "w") as f:
            for tid, events in todo[k::shards]:
                f.write(json.dumps({"ev": "begin", "tid": tid}) + "\n")
                count += 1
                for n, e in enumerate(events):
                    f.write(json.dumps(dict(e, tid=tid, nn=n + 1)) + "\n")
                    count += 1
        e = dict(env or {})
        e["TRACE"] = path
        rc, text, gen, dist = tlc(module, "TraceSpec", env=e, constants=constants,
                                  timeout=timeout, invariants=("TraceInv",))
        return k, rc, text, dist, count
    with cf.ThreadPoolExecutor(shards) as pool:
        results = list(pool.map(one, range(shards)))
    for k, rc, text, dist, count in results:
        for line in text.splitlines():
            line = unquote(line)
            if line.startswith("REJECT "):
                r = json.loads(line[7:])
                r["n"] = r["n"] - 1
                rejects.append(r)
        if rc == 12 and "TraceInv is violated" in text:
            m = re.findall(r"/\\ tid = (\d+)", text)
            rejects.append(dict(tid=int(m[-1]) if m else todo[k][0], n=0, ev="?",
                                clauses=["invariant"], expected=text[-1500:]))
        elif rc != 0:
            m = re.findall(r"/\\ tid = (\d+)", text)
            tail = "\n".join(l for l in text.splitlines() if "REJECT" not in l)[-2500:]
            if rc == -9 or dist == 0 or not m:
                raise Machinery(f"TLC failed on {module} traces (rc={rc}):\n{tail}")
            # The trace contains an observation the specification has no
            # meaning for (wrong type or shape): it is not a behaviour.
            rejects.append(dict(tid=int(m[-1]), n=0, ev="?", clauses=["shape"],
                                expected=tail[-1500:]))
        elif dist != count + 1:
            raise Machinery(f"{module}: {dist} states for {count} lines")
        lines += count
    return rejects, lines, len(todo)


# --------------------------------------------------------------- check ----
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        events_validated=0, samples=[], parts=[])
        self.violations = []
        self.assumptions = []

    def part(self, name, module, driver, clauses, *, depth=None, constants="",
             simulate=None, sim_depth=12, scenarios=(), invariants=("Inv",),
             shards=None, gen_timeout=600, gen_env=None, spec="GenSpec", limit=None,
             sim_constants=None, trace_constants=None, properties=(), prepare=None):
        """Exhaustive + simulated + given scenarios of one module."""
        todo = []
        info = dict(part=name, module=module)
        if depth is not None:
            g = explore(module, depth=depth, constants=constants, invariants=invariants,
                        timeout=gen_timeout, env=gen_env, spec=spec, properties=properties)
            info.update(exhaustive_depth=depth, states=g["states"],
                        transitions=g["transitions"], behaviours=len(g["behaviours"]))
            self.cov["states"] += g["states"]
            self.cov["transitions"] += g["transitions"]
            b = g["behaviours"]
            if limit and len(b) > limit:
                import random
                random.Random(SEED).shuffle(b)
                b = b[:limit]
                info["behaviours_executed"] = limit
            todo += b
        if simulate:
            g = explore(module, depth=sim_depth, constants=sim_constants or constants,
                        invariants=invariants, simulate=simulate, env=gen_env,
                        timeout=gen_timeout, spec=spec)
            info.update(simulated=len(g["behaviours"]), simulated_states=g["generated"])
            self.cov["transitions"] += g["transitions"]
            todo += g["behaviours"]
        todo += list(scenarios)
        if scenarios:
            info["driver_scenarios"] = len(scenarios)
        if prepare:
            todo = [prepare(t) for t in todo]
        traces = execute(driver, todo, shards=shards)
        rejects, lines, n = validate(module, traces, env=gen_env,
                                     constants=trace_constants if trace_constants is not None
                                     else constants)
        info.update(traces=n, lines=lines)
        self.cov["traces_validated_against_impl"] += n
        self.cov["events_validated"] += lines
        self.cov["parts"].append(info)
        if todo:
            k = (SEED * 7919) % len(todo)
            self.cov["samples"].append(dict(part=name, scenario=traces[k][:6]))
        foreign = 0
        for r in rejects:
            mine = [c for c in r["clauses"]
                    if c in clauses or c in ("crash", "shape", "invariant")]
            if not mine:
                foreign += 1
                continue
            self.violations.append(dict(part=name, module=module, driver=driver,
                                        clauses=mine, event=r["n"], expected=r.get("expected"),
                                        log=r.get("log", ""), scenario=todo[r["tid"]],
                                        observed=traces[r["tid"]][:r["n"] + 1]))
        info["rejected"] = len(rejects)
        info["rejected_for_other_properties"] = foreign
        return info

    def finish(self):
        known = load_known()
        fresh, seen = [], {}
        for v in self.violations:
            k = match_known(known, self.pid, v)
            if k:
                seen.setdefault(k["what"], 0)
                seen[k["what"]] += 1
            else:
                fresh.append(v)
        for what in seen:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        self.cov["known_findings_seen"] = seen
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        replays = []
        fresh.sort(key=lambda v: len(v["scenario"]))
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(VERIF, "evidence", "replays", f"{self.pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            replays.append(path)
            print(f"  {v['part']}: event {v['event']} breaks {','.join(v['clauses'])}"
                  f" {v['log'][-300:]}")
        self.cov["traces_validated_against_impl"] = int(self.cov["traces_validated_against_impl"])
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(fresh))
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if fresh:
            print(f"VIOLATION property={self.pid} replay={replays[0]}")
            return 1
        print(f"OK property={self.pid} states={self.cov['states']} "
              f"transitions={self.cov['transitions']} "
              f"traces={self.cov['traces_validated_against_impl']} "
              f"events={self.cov['events_validated']} wall={ev['wall_s']}s")
        return 0


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def match_known(known, pid, v):
    """A listed finding is identified by the exact history that fails"""
    hist = json.dumps(v["scenario"][:v["event"] + 1], sort_keys=True)
    for k in known:
        if k["property"] == pid and json.dumps(k["history"], sort_keys=True) == hist \
                and set(v["clauses"]) <= set(k["clauses"]):
            return k
    return None
