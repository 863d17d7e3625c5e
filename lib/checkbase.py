import json, os, random, threading, time
from concurrent.futures import ThreadPoolExecutor
import core


class Check:
    """One property: design models, scenarios, and what decides their traces."""
    prop = ""
    models = []            # (module, cfg) checked exhaustively on every run
    models_thorough = []   # additionally in the thorough tier
    assumptions = []
    technique = "TLA+ specification checked with TLC; trace validation of the real code against it"
    note = ("The design specification is checked exhaustively within its constants; every recorded execution of the real code "
            "(scripted and randomised fault schedules on a simulated packet network in virtual time) is decided by TLC against the "
            "trace specification. Trusted: the recorder, the projection of events, testing/synctest. Explored, not proved, on the code side.")
    pkg, binname, runpat = ".", "driver", "^TestDrive$"
    hang = "25s"
    stuck_ok = False       # a call that never returns is not judged by this property
    only = None
    batch = None
    race = False

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{self.prop}/{seed}/{tier}")

    def scenarios(self):
        raise NotImplementedError

    def traces(self, run):
        """-> list of (module, cfg, trace)"""
        raise NotImplementedError

    def direct(self, run):
        """violations that need no specification: -> list of text"""
        out = []
        if not self.stuck_ok:
            for e in run.events:
                if e["e"] == "stuck":
                    out.append(f"call {e['c']} did not return within 30 s")
        return out

    def drive(self, binary, scs):
        return core.drive(binary, scs, hang=self.hang, batch=self.batch, runpat=self.runpat, env=self.env())

    def env(self):
        return None

    def extra(self, scs_runs):
        """further traces computed from all runs"""
        return []

    def key(self, run, what):
        return None

    def run(self):
        models = []
        err = []

        def mc():
            try:
                for mod, cfg in self.models + (self.models_thorough if self.thorough else []):
                    models.append(core.model_check(mod + ".tla", os.path.join("cfg", cfg + ".cfg"), workers="3" if not self.thorough else "6",
                                                   limit=600 if not self.thorough else 800))
            except BaseException as e:
                err.append(e)
        th = threading.Thread(target=mc)
        binary = core.build(self.pkg, self.binname, self.race)
        if self.only is None:
            th.start()
        scs = self.only if self.only is not None else self.scenarios()
        runs = self.drive(binary, scs)
        viol = []

        def violation(run, what, trace=None, pos=None):
            viol.append(dict(property=self.prop, seed=self.seed, what=what, scenario=run.sc, key=self.key(run, what),
                             trace=trace, position=pos, events=run.events[-400:]))

        groups = {}
        nev = 0
        crashes = dict(yes=0, no=0)
        for r in runs:
            nev += len(r.events)
            if r.crash:
                # one confirmed crash decides; trying every one again would only take time
                if crashes["yes"] or crashes["no"] >= 3:
                    continue
                # (a hang may come from a loaded machine: it must repeat; a panic of the code under test is evidence by itself)
                if r.crash["kind"] != "hang" or core.confirm_crash(binary, r, self):
                    crashes["yes"] += 1
                    violation(r, f"scenario {r.sc['id']}: the process crashed or hung: {r.crash['kind']}\n{r.crash['stderr'][:1500]}")
                    continue
                crashes["no"] += 1
                if not any(v for v in viol):
                    err.append(core.CheckError(f"scenario {r.sc['id']} crashed once and not again: {r.crash['kind']}\n{r.crash['stderr'][:3000]}"))
                continue
            for d in self.direct(r):
                violation(r, f"scenario {r.sc['id']}: {d}")
            for mod, cfg, t in self.traces(r):
                groups.setdefault((mod, cfg), []).append((r, t))
        for mod, cfg, r, t in self.extra(runs):
            groups.setdefault((mod, cfg), []).append((r, t))
        st = gen = ntr = nval = 0
        kinds = {}
        samples = []
        for (mod, cfg), lst in groups.items():
            bad, s, g = core.validate(mod, os.path.join("cfg", cfg + ".cfg"), [t for _, t in lst])
            st += s
            gen += g
            ntr += len(lst)
            for _, t in lst:
                nval += len(t["ev"])
                for x in t["ev"]:
                    kinds[x["e"]] = kinds.get(x["e"], 0) + 1
            for i, pos in sorted(bad.items()):
                r, t = lst[i]
                nxt = t["ev"][pos - 1] if pos <= len(t["ev"]) else None
                violation(r, f"scenario {r.sc['id']}: the recorded execution is not a behaviour of {mod} ({cfg}): event {pos} of {len(t['ev'])} "
                             f"is not allowed: {json.dumps(nxt)}\nbefore it: " +
                          " ".join(json.dumps(x) for x in t["ev"][max(0, pos - 7):pos - 1]), t, pos)
            if lst:
                r, t = lst[len(lst) // 2]
                samples.append(dict(spec=mod, scenario=r.sc["id"], script=json.dumps(r.sc["ops"])[:700],
                                    trace=[json.dumps(x) for x in t["ev"][:6]] + ["..."], trace_length=len(t["ev"])))
        if self.only is None:
            th.join()
        if err and not viol:
            raise err[0] if isinstance(err[0], core.CheckError) else core.CheckError(repr(err[0]))
        for m in models:
            st += m["states"]
            gen += m["transitions"]
        if self.only is None and not viol and ntr == 0:
            raise core.CheckError("nothing was checked")
        return dict(violations=viol, states=st, transitions=gen, traces=ntr, scenarios=len(runs), events=nev, models=models,
                    samples=samples[:6], validated=nval, kinds=kinds)
