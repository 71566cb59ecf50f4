"""Drives one property check: seeded runs, gating, minimisation, replay, evidence."""
import os, sys, json, time, subprocess, collections
from vlib import *

Result = collections.namedtuple("Result", "cls detail hash")   # cls None = held


class Sim:
    prop = None
    level = "exploration"
    rule = ""
    real = []        # components that ran real code
    stub = []        # components that ran a stub or a simulator
    assumptions = []
    counts = {"quick": 1000, "thorough": 20000}
    seconds = {"quick": 240, "thorough": 3000}
    nontrivial_key = "nontrivial"      # name of the Stats set counted as distinct_nontrivial
    interleaving_measure = ""
    workers = None
    recheck_every = 25

    def prepare(self, work, tier): raise NotImplementedError
    def scenario(self, ctx, rng, i): raise NotImplementedError
    def execute(self, ctx, scen, st=None): raise NotImplementedError
    def shrink(self, ctx, scen, test): return scen
    def describe(self, ctx, scen, res): return res.detail
    def pre_checks(self, ctx, st): return []         # list of (scen, Result) found outside the seeded runs
    def post_checks(self, ctx, st): return []
    def finding_key(self, scen, res): return res.cls


def _run_range(args, first, step, count, deadline):
    """Runs first, first+step, ...; returns the statistics, the violations and the errors of the machinery.
    An error does not hide a violation that other runs find: it is raised at the end, and only when there is none."""
    sim, ctx, seed = args
    st = Stats()
    bad, errs = [], []
    i = first
    while i < count and time.time() < deadline:
        scen = sim.scenario(ctx, rng_for(seed, sim.prop, i), i)
        try:
            r = sim.execute(ctx, scen, st)
            st.add("runs")
            if r.cls is None and i % sim.recheck_every == first % sim.recheck_every:
                r2 = sim.execute(ctx, scen, None)
                st.add("determinism_reruns")
                if r2.hash != r.hash:
                    errs.append("run %d of %s is not deterministic: %s / %s\n%s" % (i, sim.prop, r, r2, json.dumps(scen)[:4000]))
            if r.cls is not None:
                bad.append((i, scen, tuple(r)))
        except (CheckError, OSError) as e:
            errs.append("run %d of %s: %s" % (i, sim.prop, e))
        if len(bad) >= 3 or len(errs) >= 3:
            break
        i += step
    return st, bad, errs


def main(sim, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    count = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--count":
            count = int(a.pop(0))
        elif x == "--determinism":
            return determinism(sim, tier, seed, int(a.pop(0)))
    t0 = time.time()
    with Scratch(sim.prop) as work:
        ctx = sim.prepare(work, tier)
        t_build = time.time() - t0
        if replay:
            d = json.load(open(replay))
            r = sim.execute(ctx, d["scenario"], Stats())
            if r.cls is not None:
                print("REPLAYED class=%s hash=%s %s" % (r.cls, r.hash, r.detail))
                print("VIOLATION property=%s replay=%s" % (sim.prop, os.path.abspath(replay)))
                return 1
            print("REPLAYED no violation hash=%s" % r.hash)
            return 0
        n = count or sim.counts[tier]
        st = Stats()
        found = []
        for scen, r in sim.pre_checks(ctx, st):
            found.append((-1, scen, tuple(r)))
        errs = []
        for s2, bad, e in parallel(_run_range, (sim, ctx, seed), n, sim.seconds[tier], sim.workers):
            st.merge(s2)
            found += bad
            errs += e
        for scen, r in sim.post_checks(ctx, st):
            found.append((-1, scen, tuple(r)))
        t_run = time.time() - t0 - t_build
        known = known_findings()
        found.sort(key=lambda f: f[0])
        reported, seen, knownhit, loose = [], set(), set(), []
        for i, scen, r in found:
            r = Result(*r)
            key = sim.finding_key(scen, r)
            if (sim.prop, key) in known:
                knownhit.add(key)
                continue
            if r.cls in seen or len(reported) >= 3:
                continue
            try:
                reported.append(report(sim, ctx, seed, i, scen, r))
                seen.add(r.cls)
            except CheckError as e:
                errs.append(str(e))
                loose.append((i, scen, r))
        for i, scen, r in loose[:6]:
            # the code under test itself is not deterministic (it reads an undefined value, say): then the
            # same violation has to show up every time, though the rest of the execution differs
            if not reported:
                try:
                    reported.append(report(sim, ctx, seed, i, scen, r, exact=False))
                except CheckError as e:
                    errs.append(str(e))
        if errs and not reported:
            raise CheckError("\n".join(errs[:3]))
        wall = time.time() - t0
        runs = st.c.get("runs", 0)
        cov = {
            "evaluations": runs + st.c.get("extra_evaluations", 0),
            "distinct_nontrivial": len(st.sets.get(sim.nontrivial_key, ())),
            "rule": sim.rule,
            "samples": st.samples[:6] or ["no sample"],
            "simulated_runs": runs,
            "runs_per_hour": int(runs / max(t_run, 1e-3) * 3600),
            "seeds_per_hour": int(runs / max(t_run, 1e-3) * 3600),
            "planned_runs": n,
            "determinism_reruns": st.c.get("determinism_reruns", 0),
            "faults_injected": {k[6:]: v for k, v in sorted(st.c.items()) if k.startswith("fault:")},
            "probes": {k[6:]: v for k, v in sorted(st.c.items()) if k.startswith("probe:")},
            "simulated_time": {k[5:]: v for k, v in sorted(st.c.items()) if k.startswith("time:")},
            "distinct": {k: len(v) for k, v in sorted(st.sets.items())},
            "interleaving_measure": sim.interleaving_measure,
            "real_components": sim.real,
            "stub_components": sim.stub,
            "build_s": round(t_build, 2),
        }
        write_evidence(sim.prop, tier, seed, sim.level, cov, wall, len(reported), sim.assumptions)
        for k in sorted(knownhit):
            print("KNOWN-FINDING: property=%s %s" % (sim.prop, known[(sim.prop, k)]))
        print("%s: %d runs in %.1f s (build %.1f s), %d violations, faults %s" % (sim.prop, runs, t_run, t_build, len(reported), cov["faults_injected"]))
        return 1 if reported else 0


def report(sim, ctx, seed, i, scen, r, exact=True):
    # gate: the same scenario twice in this process
    r1 = sim.execute(ctx, scen, None)
    r2 = sim.execute(ctx, scen, None)
    if r1.cls != r.cls or r2.cls != r.cls or exact and r1.hash != r2.hash:
        raise CheckError("violation does not reproduce in process: %s / %s / %s\n%s" % (r, r1, r2, json.dumps(scen)[:4000]))

    def test(s):
        try:
            return sim.execute(ctx, s, None).cls == r.cls
        except CheckError:
            return False
    small = scen
    try:
        small = sim.shrink(ctx, scen, test) if exact else scen
        if not test(small):
            small = scen
    except CheckError as e:
        log("minimisation stopped:", e)
        small = scen
    rs = sim.execute(ctx, small, None)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (sim.prop, h12(json.dumps(small, sort_keys=True), r.cls)))
    with open(path, "w") as f:
        json.dump({"property": sim.prop, "seed": seed, "run": i, "class": rs.cls, "detail": rs.detail, "hash": rs.hash,
                   "scenario": small, "exact": exact, "trace": sim.describe(ctx, small, rs)}, f, indent=1)
    # gate: fresh process
    p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), sim.prop, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    out = p.stdout.decode("utf8", "replace")
    want = "REPLAYED class=%s hash=%s " % (rs.cls, rs.hash) if exact else "REPLAYED class=%s " % rs.cls
    if p.returncode != 1 or want not in out:
        raise CheckError("violation does not replay in a fresh process (exit %d, expected %r):\n%s" % (p.returncode, want, out[-3000:]))
    print("violated: %s (seed %d, run %d): %s" % (rs.cls, seed, i, rs.detail))
    print("VIOLATION property=%s replay=%s" % (sim.prop, path), flush=True)
    return path


def _det_range(args, first, step, count, deadline):
    sim, ctx, seed = args
    out = []
    for i in range(first, count, step):
        scen = sim.scenario(ctx, rng_for(seed, sim.prop, i), i)
        r = sim.execute(ctx, scen, Stats())
        out.append((i, r.cls, r.hash))
    return out


def determinism(sim, tier, seed, n):
    """Every run twice, at two worker counts; prints the number of differences."""
    logs = []
    for nw in (8, 3):
        with Scratch(sim.prop) as work:
            ctx = sim.prepare(work, tier)
            r = sorted(x for l in parallel(_det_range, (sim, ctx, seed), n, 3000, nw) for x in l)
            logs.append(r)
    diff = [(a, b) for a, b in zip(*logs) if a != b]
    print("%s determinism: %d runs twice (8 and 3 workers), %d differ" % (sim.prop, n, len(diff)))
    for d in diff[:5]:
        print("  ", d)
    return 1 if diff else 0
