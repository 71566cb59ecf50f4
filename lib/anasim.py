"""C10, C11: simulation of the interval analysis (anasim/)."""
import os, re, json, subprocess, glob, copy
from vlib import *
from runner import Sim, Result

RENAME = ["malloc", "calloc", "realloc", "free", "reallocarray", "aligned_alloc", "posix_memalign"]
KINDS = ["ntt_red_ct_rev2std", "mulntt_red_ct_rev2std", "ntt_red_ct_std2rev", "mulntt_red_ct_std2rev",
         "ntt_red_gs_rev2std", "nttmul_red_gs_rev2std", "ntt_red_gs_std2rev", "nttmul_red_gs_std2rev"]
_srv = {}


def build(work):
    src = os.path.join(work, "src")
    shutil.copytree(os.path.join(REPO, "src"), src, ignore=shutil.ignore_patterns("*.o"))
    sh(["make", "-C", src, "clean"], ok=None)
    env = {"CC": "gcc"}
    sh(["make", "-C", src, "-j1", "make_red_tables"], env=env)
    sh(["make", "-C", src, "-j1", "-o", "make_red_tables", "ntt_red1024_tables.c", "ntt_red1024_tables.h"], env=env)
    db = sh(["make", "-C", src, "-pn", "paper_tests"], env=env, ok=None).stdout.decode("utf8", "replace")
    m = re.search(r"^obj\s*:?=\s*(.*)$", db, re.M)
    objs = m.group(1).split() if m else ["intervals.o", "red_bounds.o", "ntt_red_interval.o", "ntt_red1024_tables.o"]
    objs = [os.path.basename(o) for o in objs]
    sh(["make", "-C", src, "-j8", "-o", "make_red_tables", "-o", "ntt_red1024_tables.c", "-o", "ntt_red1024_tables.h"] + objs + ["ntt_red.o"], env=env)
    lib = os.path.join(work, "ana")
    os.makedirs(lib)
    link = []
    for o in objs:
        d = os.path.join(lib, o)
        sh(["objcopy"] + sum((["--redefine-sym", "%s=ana_%s" % (x, x)] for x in RENAME), []) + [os.path.join(src, o), d])
        link.append(d)
    defs = [l.split()[-1] for l in sh(["nm", "--defined-only", "-g", os.path.join(src, "ntt_red.o")]).stdout.decode().split("\n") if l.strip()]
    d = os.path.join(lib, "real_ntt_red.o")
    sh(["objcopy"] + sum((["--redefine-sym", "%s=real_%s" % (x, x)] for x in defs), []) + [os.path.join(src, "ntt_red.o"), d])
    link.append(d)
    progs = []
    for c in sorted(glob.glob(os.path.join(src, "tests_in_paper", "*.c"))):
        n = os.path.basename(c)[:-2]
        o = os.path.join(lib, n + ".o")
        sh(["gcc", "-Wall", "-I" + src, "-c", "-o", o, c], cwd=os.path.dirname(c))
        sh(["objcopy", "--redefine-sym", "main=prog_" + n] + sum((["--redefine-sym", "%s=ana_%s" % (x, x)] for x in RENAME), []) + [o])
        link.append(o)
        progs.append(n)
    exe = os.path.join(work, "anasim")
    sh(["g++", "-O2", "-g", "-w", "-I" + src, "-I" + os.path.join(VERIF, "anasim"), "-DPROGRAMS=" + " ".join("X(%s)" % p for p in progs), "-o", exe,
        os.path.join(VERIF, "anasim", "anasim.cpp"), os.path.join(VERIF, "anasim", "alloc.cpp")] + link)
    return {"exe": exe, "progs": progs, "objs": objs}


class Server:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, text):
        self.p.stdin.write(text.encode())
        self.p.stdin.flush()
        l = self.p.stdout.readline().decode("utf8", "replace").rstrip("\n")
        if not l:
            raise CheckError("the analysis simulator ended (%s) on\n%s" % (self.p.poll(), text[:2000]))
        return l.split("\t")


def encode(s):
    o = ["begin", "plan %d %d %d %d" % tuple(s["plan"])]
    for f in s.get("fails", []):
        o.append("fail %d %d" % tuple(f))
    if s.get("prog") is not None:
        o.append("prog %d" % s["prog"])
    if s.get("verify"):
        o.append("verify %d" % s["verify"])
    for op in s.get("ops", []):
        o.append("op " + " ".join(str(x) for x in op))
    return "\n".join(o + ["end", ""])


POLICY = ["never_reused", "last_freed_first", "first_freed_first", "seeded_reuse"]
FILL = ["zero", "garbage", "stale_content", "all_ones"]


def OP(k, a=0, b=0, c=0, n=0, w=0, seed=0, v=(0, 0, 0, 0)):
    return [k, a, b, c, n, w, seed] + list(v)


class Ana(Sim):
    real = ["src/intervals.c", "src/ntt_red_interval.c", "src/red_bounds.c", "src/ntt_red.c (concrete runs)", "src/tests_in_paper/*.c (whole programs)", "make_red_tables and ntt_red1024_tables"]
    stub = ["malloc, calloc, realloc, free, aligned_alloc, posix_memalign: simulated allocator", "stdout, stderr: memory files"]
    assumptions = ["allocations inside the C library (stdio buffers) are granted",
                   "inputs stay inside the ranges the headers document (|p| <= 6144, products inside 64 bits)"]
    interleaving_measure = "distinct hashes of (allocation and release history, returned bounds, printed text)"
    nontrivial_key = "histories"

    def prepare(self, work, tier):
        return build(work)

    def plan(self, rng):
        g = int(rng.random() < 0.15)
        return [0 if g else rng.choice([0, 1, 1, 2, 3]), g, rng.choice([0, 1, 1, 2, 3]), rng.randrange(1, 1 << 40)]

    def size(self, rng):
        return rng.choice([2, 2, 4, 4, 8, 16, 16, 32, 64, 128, 256]) if rng.random() < 0.97 else rng.choice([1, 512, 1024])

    def history(self, rng, length):
        ops, n = [], self.size(rng)
        live = {}
        S = lambda: rng.randrange(1, 1 << 31)
        for _ in range(length):
            r = rng.random()
            free = [i for i in range(4) if i not in live]
            if not live or (free and r < 0.12):
                a = rng.choice(free)
                m = n if rng.random() < 0.85 else self.size(rng)
                ops.append(OP("new", a, n=m, w=rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11, 11, 12]), seed=S()))
                live[a] = m
                continue
            a = rng.choice(sorted(live))
            if r < 0.16 and len(live) > 1:
                ops.append(OP("del", a, seed=S()))
                del live[a]
            elif r < 0.40:
                ops.append(OP("x1", a, b=rng.choice([0, 1, 1, 2, 3]), w=rng.randrange(8), seed=S()))
            elif r < 0.48:
                if free:
                    p = rng.choice(free)
                    ops.append(OP("new", p, n=live[a], w=rng.choice([8, 8, 9, 1]), seed=S()))
                    ops.append(OP("x2", a, b=p, w=rng.randrange(8), seed=S()))
                    live[p] = live[a]
            elif r < 0.54 and len(live) >= 2 and free:
                b = rng.choice(sorted(live))
                c = rng.choice(free)
                ops.append(OP("mulred", a, b, c, seed=S()))
                if live[a] == live[b]:
                    live[c] = live[a]
            elif r < 0.60 and len(live) >= 2:
                ops.append(OP("bin", a, b=rng.choice([x for x in sorted(live) if x != a]), w=rng.randrange(3), seed=S()))
            elif r < 0.64:
                ops.append(self.big(rng))
            elif r < 0.68:
                ops.append(self.bounds(rng))
            else:
                k = rng.choice(["norm", "norm", "inv3", "shift", "red", "red", "red2", "correct", "mul16", "scalar"])
                ops.append(OP(k, a, b=rng.randrange(4), seed=S(), v=(self.factor(rng), 0, 0, 0)))
        return ops

    def factor(self, rng):
        r = rng.random()
        if r < 0.3:                     # multiples of powers of two: the remainders modulo 4096 are few
            return rng.choice([-1, 1]) * rng.choice([1, 1, 1, 3, 5, 7]) << rng.randrange(0, 17)
        if r < 0.5:
            return rng.choice([0, 1, -1, 3, 8193, 4096, -6144, 6144, -4096, 4095, 4097, -8192])
        return rng.randrange(-6144, 6145) if r < 0.8 else rng.randrange(-100000, 100001)

    def big(self, rng):
        M = (1 << 63) - 1

        def one():
            x = rng.choice([M, -M - 1, M - rng.randrange(20), -M + rng.randrange(20), M // 2 + rng.randrange(5), -M // 2 - rng.randrange(5), rng.randrange(-30, 30), 0, rng.randrange(-M, M)])
            return max(-M - 1, min(M, x))
        a, b, c, d = one(), one(), one(), one()
        if rng.random() < 0.4:
            b, d = a, c
        w = rng.choice([0, 0, 1, 1, 2, 3, 3, 4])
        if w == 3:                              # correct() on slots around its domain
            a, b = (rng.choice([-12289, -12290, -12288, 0, 24577, 24578, 24579, 12289, rng.randrange(-36000, 48000)]) for _ in "ab")
            return OP("big", a=rng.randrange(1, 9), w=3, seed=rng.randrange(1, 1 << 31), v=(min(a, b), max(a, b), 0, 0))
        if w == 4:
            a, b = min(a, b), max(a, b)
            return OP("big", w=4, v=(b, a, 0, 0) if rng.random() < 0.7 else (a, b, 0, 0))
        if w < 2 and rng.random() < 0.5:        # results exactly at the limits
            t = rng.choice([M, -M - 1]) + rng.randrange(-2, 3)
            c = t - a if w == 0 else a - t
            c = max(-M - 1, min(M, c))
            b, d = a, c
            if rng.random() < 0.5:
                b, d = max(-M - 1, min(M, b + rng.randrange(-3, 4))), max(-M - 1, min(M, d + rng.randrange(-3, 4)))
        return OP("big", w=w, v=(min(a, b), max(a, b), min(c, d), max(c, d)))

    def bounds(self, rng):
        w = rng.choice([0, 1, 1, 2, 3, 4, 5, 5, 6, 6, 7, 8])
        r = rng.random()
        lim = 1 << (rng.randrange(1, 40) if w < 2 else rng.randrange(1, 25))
        a, b = rng.randrange(-lim, lim + 1), rng.randrange(-lim, lim + 1)
        if r < 0.3:
            a = rng.choice([0, -6144, -21499, -12289, 4096, -4096, -1])
        if r > 0.6:
            b = a + rng.randrange(0, 9000)
        if rng.random() < 0.3:
            b = rng.choice([0, 1, 4095, 4096, 6144, 12288, 21499, 24577])
        a, b = min(a, b), max(a, b)
        if w >= 3:
            b = abs(b)
        lo = self.factor(rng)
        lo = max(-12288, min(12288, lo))
        if w >= 2 and rng.random() < 0.3:
            lo = rng.choice([0, 0, -1, 1, -3])
        hi = lo + rng.choice([0, 0, 1, 2, -lo if lo < 0 else 3, 1 - lo if lo < 0 else 1, -1 - lo if lo < 0 else 0, rng.randrange(0, 40), rng.randrange(0, 40)])
        if w >= 7:
            b = rng.choice([0, 1, 6144, 12288, 21499, 24577, rng.randrange(0, 1 << 18)])
        return OP("bounds", b=rng.randrange(4), n=rng.choice([1, 2, 4, 8, 16, 32, 64, 128]), w=w, seed=rng.randrange(1, 1 << 31), v=(a, b, lo, hi))

    def server(self, ctx):
        k = (os.getpid(), ctx["exe"])
        if k not in _srv:
            _srv[k] = Server(ctx["exe"])
        return _srv[k]

    def execute(self, ctx, s, st=None):
        r = self.server(ctx).ask(encode(s))
        cls, det, h, stats = r[0], r[1], r[2], dict(x.split("=") for x in r[3].split())
        if st is not None:
            self.account(s, h, {k: int(v) for k, v in stats.items()}, st)
        return Result(None if cls == "-" else cls, det, h)

    def account(self, s, h, d, st):
        st.seen("histories", h)
        st.add("time:allocations", d["allocs"])
        st.add("time:operations", d["ran"])
        st.add("probe:skipped operations", d["skipped"])
        st.add("probe:enclosure checks", d["checks"])
        st.add("probe:concrete runs of the library", d["real"])
        st.add("probe:slots outside 32 bits (report required)", d["outside32"])
        st.add("probe:64-bit overflows (stop required)", d["stops"])
        st.add("probe:operations repeated in a fresh process", d["verified"])
        st.add("fault:failing_allocation", d["fired"])
        st.add("fault:block_reused", d["reused"])
        if s["plan"][1]:
            st.add("fault:page_per_block_and_unmapped_on_free")
        st.add("fault:new_blocks_filled_with_" + FILL[s["plan"][2]])
        st.add("probe:policy " + POLICY[s["plan"][0]])
        if s.get("prog") is not None:
            st.add("probe:whole programs")
        for o in s.get("ops", []):
            st.seen("operations", (o[0], o[5] if o[0] in ("x1", "x2", "big", "bounds") else 0))
        st.sample("allocator %s, new blocks %s%s; %s; failing allocations %s" % (
            POLICY[s["plan"][0]], FILL[s["plan"][2]], ", guarded" if s["plan"][1] else "",
            "program %d" % s["prog"] if s.get("prog") is not None else " ".join(o[0] for o in s["ops"]), s.get("fails", [])))

    def describe(self, ctx, s, res):
        return {"allocator": {"reuse": POLICY[s["plan"][0]], "guarded": bool(s["plan"][1]), "new_blocks": FILL[s["plan"][2]]},
                "failing_allocations (position modulo the total, length; length 0 = all later ones)": s.get("fails", []),
                "program": ctx["progs"][s["prog"]] if s.get("prog") is not None else None,
                "operations": [o[0] + (" " + KINDS[o[5] & 7] if o[0] in ("x1", "x2") else "") for o in s.get("ops", [])], "result": res.detail}

    def shrink(self, ctx, s, test):
        budget = [120]
        cur = copy.deepcopy(s)
        if cur.get("ops"):
            cur["ops"] = ddmin_list(cur["ops"], lambda l: test(dict(cur, ops=l)), budget)
        if len(cur.get("fails", [])) > 1:
            cur["fails"] = ddmin_list(cur["fails"], lambda l: bool(l) and test(dict(cur, fails=l)), budget)
        for p in ([0, 0, 0, 1], [0, 0, 1, cur["plan"][3]], [1, 0, 1, cur["plan"][3]]):
            if p != cur["plan"] and test(dict(cur, plan=p)):
                cur["plan"] = p
                break
        for k, o in enumerate(cur.get("ops", [])):
            if o[0] == "new":
                for n in (1, 2, 4, 8, 16, 32):
                    if n >= o[4]:
                        break
                    c = copy.deepcopy(cur)
                    for q in c["ops"]:
                        if q[0] == "new" and q[4] == o[4]:
                            q[4] = n
                    if test(c):
                        cur = c
                        break
        if cur.get("fails"):
            for i, f in enumerate(cur["fails"]):
                for v in ([0, 1], [1, 1], [f[0], 1]):
                    c = copy.deepcopy(cur)
                    c["fails"][i] = v
                    if v != f and test(c):
                        cur = c
                        break
        return cur


class C10(Ana):
    prop = "C10"
    level = "fault_enumeration"
    rule = "a run counts by its distinct hash of allocation history, printed text and exit status"
    counts = {"quick": 24000, "thorough": 1200000}
    seconds = {"quick": 60, "thorough": 2400}

    def scenario(self, ctx, rng, i):
        s = {"plan": self.plan(rng)}
        if rng.random() < 0.06:
            s["prog"] = rng.randrange(len(ctx["progs"]))
        else:
            s["ops"] = [o for o in self.history(rng, rng.randrange(2, 9)) if o[0] not in ("big", "bounds")]
        r = rng.random()
        pos = lambda: rng.choice([0, 1, 2, rng.randrange(1 << 30), rng.randrange(1 << 30), rng.randrange(1 << 30)])
        if r < 0.5:
            s["fails"] = [[pos(), 1]]
        elif r < 0.7:
            s["fails"] = [[pos(), 0]]
        elif r < 0.85:
            s["fails"] = [[pos(), rng.randrange(2, 6)]]
        else:
            s["fails"] = [[pos(), 1] for _ in range(rng.randrange(2, 7))]
        return s


class C11(Ana):
    prop = "C11"
    level = "exploration"
    rule = "a run counts by its distinct hash of allocation history, bounds and printed text"
    counts = {"quick": 16000, "thorough": 800000}
    seconds = {"quick": 60, "thorough": 2400}

    def scenario(self, ctx, rng, i):
        s = {"plan": self.plan(rng)}
        if rng.random() < 0.01:
            s["prog"] = rng.randrange(len(ctx["progs"]))
        else:
            s["ops"] = self.history(rng, rng.randrange(2, 14))
            s["verify"] = rng.choice([1, 2, 4])
        return s


SIMS = {"C10": C10, "C11": C11}
