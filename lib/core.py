"""Machinery shared by the checks: build the driver, run scenarios, run TLC, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """the machinery failed: no verdict"""


_work = None


def work():
    """scratch directory of this run, removed at exit"""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="truverif.")
        atexit.register(shutil.rmtree, _work, ignore_errors=True)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *a: sys.exit(3))
    return _work


def goenv():
    e = dict(os.environ)
    e.update(GOWORK="off", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    return e


def build(pkg=".", name="driver", race=False, perturb=False):
    """compile the driver against /repo's working tree with the hooks on"""
    out = os.path.join(work(), name)
    h = os.path.join(work(), "h_" + name)
    shutil.copytree(os.path.join(VERIF, "harness"), h)
    if REPO != "/repo":
        p = os.path.join(h, "go.mod")
        s = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(s)
    cmd = ["go", "test", "-c", "-vet=off", "-tags", "verif", "-o", out] + (["-race"] if race else []) + [pkg]
    if perturb:  # goroutines linger at locks
        od = os.path.join(work(), "o_" + name)
        os.makedirs(od)
        p = subprocess.run(["go", "run", ".", REPO, od], cwd=os.path.join(VERIF, "tools", "perturb"), env=goenv(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("perturb: " + p.stdout + p.stderr)
        cmd[cmd.index("verif")] = "verif,perturb"
        cmd[3:3] = ["-overlay", os.path.join(od, "overlay.json")]
    p = subprocess.run(cmd, cwd=h, env=goenv(), capture_output=True, text=True)
    shutil.rmtree(h, ignore_errors=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise CheckError("driver does not build:\n" + p.stdout + p.stderr)
    return out


# ---------------------------------------------------------------- scenarios


class Run:
    """one executed scenario"""

    def __init__(self, sc, events, crash=None):
        self.sc, self.events, self.crash = sc, events, crash


def _frames(stderr):
    """what the goroutine that crashed was executing: (function, ...) innermost first"""
    m = re.search(r"^goroutine \d+ .*?\[running.*?\]:\n(.*?)(?:\n\n|\Z)", stderr, re.S | re.M)
    if not m:
        return []
    return [x for x in m.group(1).split("\n") if x and not x.startswith("\t")]


def _race_in_code(report):
    """is one of the two accesses made by the code under test (and not both by the driver, which also puts another os.Stdout in place)?"""
    if re.search(r"^  verif/harness\.\(\*drv\)\.(un)?watch", "\n".join(report.split("\n\n")[:2]), re.M):
        return False
    for part in report.split("\n\n")[:2]:
        for f in re.findall(r"^  (\S+)\(\)$", part, re.M):
            if f.startswith("github.com/teonet-go/tru"):
                return True
            if f.startswith("verif/harness"):
                break
    return False


def _classify(rc, stderr):
    """crash of the code under test, or of the driver itself (None)"""
    if rc == 4:
        return "hang"
    if "WARNING: DATA RACE" in stderr:
        return "data race" if _race_in_code(stderr.split("WARNING: DATA RACE", 1)[1]) else None
    if "panic:" in stderr or "fatal error:" in stderr:
        if re.search(r"fatal error: (out of memory|runtime: out of memory)", stderr) or "signal: killed" in stderr:
            return None
        first = next((x for x in stderr.split("\n") if "panic:" in x or "fatal error:" in x), "")
        if "fatal error: concurrent map" in stderr or "fatal error: sync:" in stderr:
            return first
        for f in _frames(stderr):
            if f.startswith("github.com/teonet-go/tru"):
                return first
            if f.startswith("verif/harness"):
                return None
        if "github.com/teonet-go/tru." in stderr.split("goroutine ", 2)[-1][:20000]:
            return first
    return None


_stop = False  # a crash was seen: no need to run more scenarios


def _batch(binary, scs, tag, hang, limit, env=None, runpat="^TestDrive$", again=False):
    global _stop
    runs = []
    todo = list(scs)
    part = 0
    while todo:
        if _stop and not again:
            break
        part += 1
        fin = os.path.join(work(), f"{tag}.{part}.in")
        fout = os.path.join(work(), f"{tag}.{part}.out")
        json.dump(todo, open(fin, "w"))
        e = dict(os.environ)
        e.update(DRV_IN=fin, DRV_OUT=fout, DRV_HANG=hang, GOTRACEBACK="all", GOMAXPROCS="4", GOGC="400")
        e.update(env or {})
        errf = os.path.join(work(), f"{tag}.{part}.err")
        with open(errf, "wb") as ef:
            try:
                rc = subprocess.run([binary, "-test.run", runpat, "-test.timeout", "0"], env=e, cwd=work(),
                                    stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, timeout=limit).returncode
            except subprocess.TimeoutExpired:
                rc = -99
        stderr = open(errf, errors="replace").read()
        evs, done = [], []
        if os.path.exists(fout):
            for line in open(fout, errors="replace"):
                try:
                    x = json.loads(line)
                except ValueError:
                    continue
                if x["e"] == "scn":
                    evs = []
                    done.append(evs)
                if not (evs and evs[-1]["e"] == "end"):  # what other goroutines still log does not count
                    evs.append(x)
        for i, e2 in enumerate(done):
            if e2 and e2[-1]["e"] == "end":
                runs.append(Run(todo[i], e2))
        k = len(runs) and sum(1 for e2 in done if e2 and e2[-1]["e"] == "end")
        k = k or 0
        for f in (fin, fout, errf):
            if os.path.exists(f):
                os.remove(f)
        if rc == 0 and k == len(todo):
            break
        # the process ended early: in scenario k, or (k complete) while ending endpoints
        kind = _classify(rc, stderr)
        if kind is None and rc == 66 and "WARNING: DATA RACE" in stderr:
            print(f"note: the driver raced with itself in {todo[min(k, len(todo) - 1)]['id']}, left out", file=sys.stderr)
            if os.environ.get("VERIF_DEBUG"):
                print(stderr[:3000], file=sys.stderr)
            todo = todo[k + 1:] if k < len(done) or not k else todo[k:]
            continue
        if kind is None:
            raise CheckError(f"driver ended with {rc} in scenario {todo[min(k, len(todo)-1)]['id']}:\n{stderr[-4000:]}")
        _stop = True
        if k < len(done):
            runs.append(Run(todo[k], done[k], {"kind": kind, "stderr": stderr[:12000]}))
            todo = todo[k + 1:]
        else:
            # between scenarios: count it for the one just finished
            if runs:
                runs[-1].crash = {"kind": kind, "stderr": stderr[:12000]}
            todo = todo[k:] if k else todo[1:]
    return runs


def drive(binary, scs, hang="20s", limit=600, batch=None, env=None, runpat="^TestDrive$", workers=None):
    """execute the scenarios, several processes at a time; the result has the order of scs"""
    n = len(scs)
    if n == 0:
        return []
    w = workers or CPUS
    size = batch or max(1, min(25, (n + w * 3 - 1) // (w * 3)))
    parts = [scs[i:i + size] for i in range(0, n, size)]
    with ThreadPoolExecutor(w) as ex:
        res = list(ex.map(lambda a: _batch(binary, a[1], f"b{a[0]}", hang, limit, env, runpat), enumerate(parts)))
    runs = [r for p in res for r in p]
    return runs


def confirm_crash(binary, run, check, times=3):
    """a hang counts only if it happens again"""
    for i in range(times):
        try:
            again = _batch(binary, [run.sc], f"again{i}", "30s", 600, check.env(), check.runpat, again=True)
        except CheckError:
            continue
        if any(r.crash for r in again):
            return True
    return False


# ---------------------------------------------------------------- TLC


class TlcResult:
    pass


def tlc(module, cfg, env=None, workers="1", args=(), limit=600, xmx="3g"):
    meta = tempfile.mkdtemp(prefix="meta", dir=work())
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=%s" % ("1" if workers == "1" else "4"),
           "-Xss16m", "-Xmx" + xmx, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC {module} {cfg}: time limit {limit}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.rc, r.out = p.returncode, p.stdout + p.stderr
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", r.out)
    r.states = int(m[-1][1]) if m else 0
    r.generated = int(m[-1][0]) if m else 0
    return r


def model_check(module, cfg, workers="auto", limit=600, args=(), xmx="8g"):
    """the design must satisfy its properties; otherwise the machinery is broken"""
    r = tlc(module, cfg, workers=str(CPUS) if workers == "auto" else workers, limit=limit, args=args, xmx=xmx)
    if "Model checking completed. No error has been found" not in r.out:
        raise CheckError(f"design model {module} {cfg} fails:\n{r.out[-6000:]}")
    return {"module": module, "cfg": os.path.basename(cfg), "states": r.states, "transitions": r.generated}


def behaviours(module, cfg, num, depth, seed, limit=120):
    """behaviours of a design as scripts: TLC simulates, the module prints them"""
    r = tlc(module + ".tla", os.path.join("cfg", cfg + ".cfg"), args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), "-aril", "0"], limit=limit)
    out = []
    for m in re.finditer(r'^"SCRIPT (.*)"$', r.out, re.M):
        out.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    if not out:
        raise CheckError(f"{module} {cfg}: no behaviours\n{r.out[-3000:]}")
    return out


def validate(module, cfg, traces, limit=600, consts=None, shards=None):
    """Decide which recorded traces are behaviours of the trace specification.

    traces: list of {"id": str, "ev": [event, ...]}.  Returns ({index: number of
    events matched} for the rejected ones, states, transitions)."""
    if not traces:
        return {}, 0, 0
    sizes = [len(t["ev"]) + 3 for t in traces]
    total = sum(sizes)
    k = shards or max(1, min(CPUS, total // 4000 + 1))
    order = sorted(range(len(traces)), key=lambda i: -sizes[i])
    groups = [[] for _ in range(k)]
    load = [0] * k
    for i in order:
        j = load.index(min(load))
        groups[j].append(i)
        load[j] += sizes[i]
    groups = [sorted(g) for g in groups if g]

    def one(a):
        j, g = a
        f = os.path.join(work(), f"{module}.{os.path.basename(cfg)}.{j}.{os.getpid()}.json")
        json.dump([traces[i] for i in g], open(f, "w"))
        try:
            r = tlc(module + ".tla", cfg, env={"TRACES": f}, limit=limit)
        finally:
            os.remove(f)
        fin = re.search(r'<<\s*"CHECKED",\s*(\d+)\s*>>', r.out)
        if not fin or int(fin.group(1)) != len(g):
            raise CheckError(f"trace check {module} {cfg}:\n{r.out[-6000:]}")
        bad = {}
        for x in re.finditer(r'<<\s*"REJECTED",\s*(\d+),\s*(\d+)\s*>>', r.out):
            bad[g[int(x.group(1)) - 1]] = int(x.group(2))
        return bad, r.states, r.generated

    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, enumerate(groups)))
    bad, st, gen = {}, 0, 0
    for b, s, g in res:
        bad.update(b)
        st += s
        gen += g
    return bad, st, gen


# ---------------------------------------------------------------- known findings


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out
