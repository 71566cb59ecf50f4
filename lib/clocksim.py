"""C12: simulation of the speed programs on a simulated time-stamp counter (clocksim/)."""
import os, re, json, subprocess, copy, resource
from vlib import *
from runner import Sim, Result

PROGS = ["speed_mul1024", "speed_mul1024_naive", "speed_mul1024_red", "speed_mul1024_red_asm"]
KIND = {0: "constant", 1: "uniform", 2: "increasing", 3: "decreasing", 4: "organ pipe", 5: "valley", 6: "sawtooth", 7: "few values", 8: "stalls", 9: "backward jumps",
        10: "hardly moving", 11: "arbitrary", 12: "alternating", 13: "one outlier", 14: "step up", 15: "step down"}
for k in range(8):
    KIND[20 + k] = "killer for pivot %d%s" % (k & 3, " descending" if k & 4 else "")
CALL = "leaq -128(%rsp),%rsp; call clk_read; leaq 128(%rsp),%rsp"
_srv = {}


def build(work):
    src = os.path.join(work, "src")
    shutil.copytree(os.path.join(REPO, "src"), src, ignore=shutil.ignore_patterns("*.o"))
    sh(["make", "-C", src, "clean"], ok=None)
    env = {"CC": "gcc"}
    gens = ["ntt1024_tables.c", "ntt1024_tables.h", "ntt_red1024_tables.c", "ntt_red1024_tables.h"]
    sh(["make", "-C", src, "-j1", "make_tables", "make_red_tables", "make_bitrev_table"], env=env)
    old = ["-o", "make_tables", "-o", "make_red_tables", "-o", "make_bitrev_table"]
    sh(["make", "-C", src, "-j1"] + old + gens, env=env)
    lib = os.path.join(work, "clk")
    os.makedirs(lib)
    link, others, seams = [], set(), 0
    for p in PROGS:
        out = sh(["make", "-C", src, "-B", "-n"] + old + sum((["-o", g] for g in gens), []) + [p], env=env).stdout.decode().replace("\\\n", " ")
        l = [x for x in out.split("\n") if re.search(r"-o\s+%s(\s|$)" % p, x)]
        if not l:
            raise CheckError("no link line for " + p)
        for o in re.findall(r"[\w./-]+\.o\b", l[-1]):
            o = os.path.basename(o)
            if o != p + ".o" and not re.match(r"(naive_)?ntt", o):
                others.add(o)
        cl = [x for x in out.split("\n") if re.search(r"-o\s+%s\.o(\s|$)" % p, x) or re.search(r"-c\s.*\b%s\.c" % p, x)]
        cmd = cl[-1] if cl else "gcc -DNDEBUG -D_DEFAULT_SOURCE -Wall -std=c99 -O3 -c -o %s.o %s.c" % (p, p)
        s = os.path.join(lib, p + ".s")
        cmd = re.sub(r"\s-o\s+\S+", " ", cmd)
        cmd = re.sub(r"\s-c(\s|$)", r" -S -o %s " % s, cmd, 1)
        sh(cmd, cwd=src)
        t = open(s).read()
        # the seam: every reading of the counter becomes a call into the simulator
        t, n1 = re.subn(r"\.byte\s+(?:15|0x0?[fF])\s*(?:;\s*\.byte\s+|,\s*|\n\s*\.byte\s+)(?:49|0x31)\b", CALL, t)
        t, n2 = re.subn(r"\brdtsc\b", CALL, t)
        seams += n1 + n2
        open(s, "w").write(t)
        o = os.path.join(lib, p + ".o")
        sh(["gcc", "-c", "-o", o, s])
        sh(["objcopy", "--redefine-sym", "main=prog_" + p, o])
        link.append(o)
    sh(["make", "-C", src, "-j8"] + old + sum((["-o", g] for g in gens), []) + sorted(others), env=env)
    link += [os.path.join(src, o) for o in sorted(others)]
    exe = os.path.join(work, "clocksim")
    sh(["g++", "-O2", "-g", "-w", "-no-pie", "-DPROGRAMS=" + " ".join("X(%s)" % p for p in PROGS), "-o", exe, os.path.join(VERIF, "clocksim", "clocksim.cpp")] + link)
    return {"exe": exe, "seams": seams, "objs": sorted(others)}


def _limits():
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


class C12(Sim):
    prop = "C12"
    level = "exploration"
    rule = "a run counts by its distinct hash of all measured differences and the printed report"
    counts = {"quick": 1600, "thorough": 60000}
    seconds = {"quick": 60, "thorough": 2400}
    recheck_every = 40
    real = ["src/speed_mul1024.c, _naive.c, _red.c, _red_asm.c (main, measurement loops, reports)", "src/sort.c"]
    stub = ["time-stamp counter: simulated (every reading in the compiled programs calls the simulator; other readings trap)",
            "the product routines: stubs that consume simulated time", "stdout, stderr: memory files"]
    assumptions = ["the default 8 MB stack", "for an even number of measurements any value between the two middle ones is a median"]
    interleaving_measure = "distinct hashes of the complete sequence of measured differences"
    nontrivial_key = "histories"

    def prepare(self, work, tier):
        return build(work)

    def scenario(self, ctx, rng, i):
        M = 1 << 64
        start = rng.choice([0, rng.randrange(1 << 40), (1 << 32) - rng.randrange(1, 1 << 20), M - rng.randrange(1, 1 << 32), rng.randrange(M), M - 1])
        pats = []
        for k in range(5):
            kind = rng.choice([0, 1, 1, 2, 3, 6, 7, 8, 9, 9, 10, 11, 12, 13, 13, 14, 15])
            base = rng.choice([0, 1, 30, rng.randrange(1, 100000), rng.randrange(1, 1 << 33)])
            span = rng.choice([1, 2, rng.randrange(1, 1000), rng.randrange(1, 1 << 20), 1 << rng.randrange(20, 44), 1 << rng.randrange(44, 63)])
            pats.append([k, kind, rng.randrange(1, 1 << 40), base, span])
        # histories on which a quicksort with a fixed pivot needs quadratic time and linear depth
        if i < 10:
            pats[rng.randrange(5)][1] = [20, 24, 4, 5, 21, 22, 23, 25, 26, 27][i]
        elif rng.random() < 0.008:
            pats[rng.randrange(5)][1] = rng.choice([4, 5, 20, 21, 22, 23, 24, 25, 26, 27])
        return {"prog": i % 4, "start": start, "readcost": rng.choice([0, 0, 1, 24, rng.randrange(100)]), "n": 102400, "limit": 60, "pats": pats}

    def pre_checks(self, ctx, st):
        return []

    def server(self, ctx):
        k = (os.getpid(), ctx["exe"])
        if k not in _srv:
            _srv[k] = subprocess.Popen([ctx["exe"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=_limits)
        return _srv[k]

    def execute(self, ctx, s, st=None):
        p = self.server(ctx)
        t = ["begin %d %d %d %d %d" % (s["prog"], s["start"], s["readcost"], s["n"], s["limit"])] + ["pat %d %d %d %d %d" % tuple(x) for x in s["pats"]] + ["end", ""]
        p.stdin.write("\n".join(t).encode())
        p.stdin.flush()
        l = p.stdout.readline().decode("utf8", "replace").rstrip("\n")
        if not l:
            raise CheckError("the clock simulator ended (%s)" % p.poll())
        cls, det, h, stats = l.split("\t")
        d = {k: int(v) for k, v in (x.split("=") for x in stats.split())}
        if st is not None:
            st.seen("histories", h)
            st.add("time:counter readings", d["reads"])
            st.add("time:measured differences", d["measured"])
            st.add("fault:backward_jump", d["backward"])
            st.add("fault:counter_did_not_advance", d["zero"])
            st.add("fault:stall_above_2^40", d["huge"])
            st.add("fault:counter_wrapped", d["wraps"])
            st.add("probe:reports checked", d["reports"])
            st.add("probe:readings by trap", d["traps"])
            for x in s["pats"]:
                st.add("probe:history " + KIND[x[1]])
            st.sample("%s from %d: %s" % (PROGS[s["prog"]], s["start"], ", ".join(KIND[x[1]] for x in s["pats"])))
        if cls == "-" and not d["reads"]:
            raise CheckError("the program %s reads no simulated counter" % PROGS[s["prog"]])
        return Result(None if cls == "-" else cls, det, h)

    def describe(self, ctx, s, res):
        return {"program": PROGS[s["prog"]], "counter starts at": s["start"], "cost of a reading": s["readcost"],
                "durations of the calls": ["routine %d: %s (base %d, span %d, seed %d)" % (x[0] + 1, KIND[x[1]], x[3], x[4], x[2]) for x in s["pats"]], "result": res.detail}

    def shrink(self, ctx, s, test):
        cur = copy.deepcopy(s)
        for f, v in (("readcost", 0), ("start", 0)):
            c = dict(cur, **{f: v})
            if c != cur and test(c):
                cur = c
        for k in range(5):
            for p in ([k, 0, 1, 1, 1], [k, cur["pats"][k][1], cur["pats"][k][2], 1, cur["pats"][k][4]], [k, cur["pats"][k][1], 1, 1, 1]):
                c = copy.deepcopy(cur)
                c["pats"][k] = p
                if c != cur and test(c):
                    cur = c
                    break
        return cur


SIMS = {"C12": C12}
