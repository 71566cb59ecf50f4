"""C05-C09: instruction-level simulation of the library (stepsim/stepsim.cpp)."""
import os, re, json, math, subprocess, copy
from vlib import *
from runner import Sim, Result

Q = 12289
G = 11                                  # primitive root modulo Q
SIZES = (16, 256, 512, 1024)
K = dict(PROD=1, XF=2, WRAP=3, EW1=4, MUL16=5, MUL32=6, SCAL=7, SHUF=8, WSHUF=9)
E = dict(shift=1, red=2, red2=3, corr=4, norm=5, norm3=6, bitrev=7)
NTT, NAIVE, RED, ASM = 0, 1, 2, 3
RO = dict(TAB_U=1, TAB_S=2, PSI=3, MUL_U=4, MUL_S=5, I32_Q=6, I32_R=7, PAIRS=8)
FAULT_NAMES = {1: "thread_switch", 2: "nested_call_in_handler", 3: "abandoned_by_longjmp", 4: "abandoned_thread_exit", 5: "abandoned_thread_never_resumed"}


class Fn:
    def __init__(self, name, kind, fam, n=0, inrev=0, outrev=0, comb=0, tabrev=0, inv=0, ew=0, psi=0, v1=0, group=None):
        self.__dict__.update(locals())

    def row(self):
        return '{"%s", (void *)%s, %d, %d, %d, %d, %d, %d, %d, %d, %d, %d},' % (
            self.name, self.name, self.kind, self.fam, self.n, self.inrev, self.outrev, self.comb, self.tabrev, self.inv, self.ew, self.psi)


def xf(name, fam, alg, order, comb, kind=K["XF"], **kw):
    inrev = order == "rev2std"
    # ct_rev2std and gs_std2rev read powers in standard order, the others bit-reversed
    tabrev = (alg, order) in (("ct", "std2rev"), ("gs", "rev2std"))
    return Fn(name, kind, fam, inrev=int(inrev), outrev=int(not inrev), comb=comb, tabrev=int(tabrev), **kw)


def base_functions():
    F = []
    for n in SIZES:
        for v in range(1, 6):
            F.append(Fn("ntt%d_product%d" % (n, v), K["PROD"], NTT, n=n))
            F.append(Fn("naive_ntt%d_product%d" % (n, v), K["PROD"], NAIVE, n=n))
            F.append(Fn("ntt_red%d_product%d" % (n, v), K["PROD"], RED, n=n))
            F.append(Fn("ntt_red%d_product%d_asm" % (n, v), K["PROD"], ASM, n=n))
    for alg in ("ct", "gs"):
        for order in ("rev2std", "std2rev"):
            c = ("mulntt", 1) if alg == "ct" else ("nttmul", 2)
            for pre, comb in (("ntt", 0), c):
                F.append(xf("%s_%s_%s" % (pre, alg, order), NTT, alg, order, comb))
                F.append(xf("%s_%s_%s_naive" % (pre, alg, order), NAIVE, alg, order, comb))
                F.append(xf("%s_red_%s_%s" % (pre, alg, order), RED, alg, order, comb))
                F.append(xf("%s_red_%s_%s_asm" % (pre, alg, order), ASM, alg, order, comb))
    F.append(xf("ntt_ct_rev2std_v1", NTT, "ct", "rev2std", 0, v1=1))
    F += [Fn("bitrev_shuffle", K["EW1"], NTT, ew=E["bitrev"]), Fn("nv_bitrev_shuffle", K["EW1"], NAIVE, ew=E["bitrev"]),
          Fn("shuffle_with_table", K["SHUF"], NTT), Fn("nv_shuffle_with_table", K["SHUF"], NAIVE),
          Fn("mul_array16", K["MUL16"], NTT), Fn("mul_array", K["MUL32"], NTT), Fn("scalar_mul_array", K["SCAL"], NTT),
          Fn("mul_array16_naive", K["MUL16"], NAIVE), Fn("mul_array_naive", K["MUL32"], NAIVE), Fn("scalar_mul_array_naive", K["SCAL"], NAIVE),
          Fn("normalize", K["EW1"], RED, ew=E["norm"]), Fn("normalize_inv3", K["EW1"], RED, ew=E["norm3"]),
          Fn("shift_array", K["EW1"], RED, ew=E["shift"]), Fn("shift_array_asm", K["EW1"], ASM, ew=E["shift"]),
          Fn("reduce_array", K["EW1"], RED, ew=E["red"]), Fn("reduce_array_twice", K["EW1"], RED, ew=E["red2"]), Fn("correct", K["EW1"], RED, ew=E["corr"]),
          Fn("mul_reduce_array16", K["MUL16"], RED), Fn("mul_reduce_array", K["MUL32"], RED), Fn("scalar_mul_reduce_array", K["SCAL"], RED)]
    for s in ("", "2"):
        F += [Fn("reduce_array_asm" + s, K["EW1"], ASM, ew=E["red"]), Fn("reduce_array_twice_asm" + s, K["EW1"], ASM, ew=E["red2"]), Fn("mul_reduce_array16_asm" + s, K["MUL16"], ASM)]
    F += [Fn("correct_asm", K["EW1"], ASM, ew=E["corr"]), Fn("mul_reduce_array_asm", K["MUL32"], ASM), Fn("scalar_mul_reduce_array_asm", K["SCAL"], ASM)]
    return F


# ---------------------------------------------------------------- build
CFL = ["-DNDEBUG", "-D_DEFAULT_SOURCE", "-Wall", "-std=c99", "-O3"]


def build_src(work):
    """The library as the repository builds it, in a private copy of src/."""
    src = os.path.join(work, "src")
    shutil.copytree(os.path.join(REPO, "src"), src, ignore=shutil.ignore_patterns("*.o", "tests_in_paper"))
    sh(["make", "-C", src, "clean"], ok=None)
    gens = []
    for n in SIZES:
        for f in ("ntt%d_tables", "ntt_red%d_tables"):
            gens += [f % n + ".c", f % n + ".h"]
        gens += ["bitrev%d_table.c" % n, "bitrev%d_table.h" % n]
    env = {"CC": "gcc"}
    sh(["make", "-C", src, "-j1", "make_tables", "make_red_tables", "make_bitrev_table"], env=env)
    sh(["make", "-C", src, "-j1", "-o", "make_tables", "-o", "make_red_tables", "-o", "make_bitrev_table"] + gens, env=env)
    targets = ["test_ntt", "test_ntt_red", "test_ntt_avx", "test_avx"]
    for n in SIZES:
        targets += ["test_ntt%d" % n, "test_naive_ntt%d" % n, "test_ntt_red%d" % n, "test_ntt_red_asm%d" % n]
    out = sh(["make", "-C", src, "-B", "-n", "-o", "make_tables", "-o", "make_red_tables", "-o", "make_bitrev_table"] + targets, env=env).stdout.decode()
    objs, naive = {}, set()
    lines = out.replace("\\\n", " ").split("\n")
    for t in targets:
        cand = [l for l in lines if re.search(r"-o\s+%s\s*$" % re.escape(t), l.strip()) or re.search(r"-o\s+%s\s" % re.escape(t), l)]
        if not cand:
            raise CheckError("no link line for " + t)
        for o in re.findall(r"[\w./-]+\.o\b", cand[-1]):
            b = os.path.basename(o)
            if re.match(r"(test_|data_|kat_|speed_)", b):
                continue
            objs.setdefault(b, set()).add("naive" if "naive" in t else "std")
    sh(["make", "-C", src, "-j8", "-o", "make_tables", "-o", "make_red_tables", "-o", "make_bitrev_table"] + ["-o" + g for g in gens] + sorted(objs), env=env)
    return src, objs


def psi_of(src, n):
    t = open(os.path.join(src, "ntt%d_tables.h" % n)).read()
    m = re.search(r"ntt%d_psi\s*=\s*(\d+)" % n, t)
    return int(m.group(1)) if m else None


def wrapper_sources(src, work):
    """One translation unit per specialised header: an external function for each inline transform."""
    F, files = [], []
    for n in SIZES:
        psi = psi_of(src, n)
        if psi is None:
            continue
        for fam, hdr in ((NTT, "ntt%d.h"), (NAIVE, "naive_ntt%d.h"), (RED, "ntt_red%d.h"), (ASM, "ntt_red_asm%d.h")):
            h = hdr % n
            p = os.path.join(src, h)
            if not os.path.exists(p):
                continue
            body = ['#include "%s"' % h, '#include "bitrev%d_table.h"' % n]
            for name in re.findall(r"static\s+inline\s+void\s+(\w+)\s*\(\s*int32_t\s*\*\s*\w+\s*\)", open(p).read()):
                m = re.match(r"(naive_)?(ntt|intt|mulntt|inttmul)(_red)?%d_(ct|gs)_(rev2std|std2rev)(_asm)?$" % n, name)
                if not m:
                    continue
                w = "w%d_%s" % (fam, name)
                body.append("void %s(int32_t *a) { %s(a); }" % (w, name))
                F.append(xf(w, fam, m.group(4), m.group(5), {"ntt": 0, "intt": 0, "mulntt": 1, "inttmul": 2}[m.group(2)], kind=K["WRAP"], n=n, psi=psi, inv=int(m.group(2).startswith("intt"))))
            if fam in (NTT, NAIVE):
                w = "w%d_shuffle%d" % (fam, n)
                body.append("void %s(int32_t *a) { shuffle_with_table(a, bitrev%d, BITREV%d_NPAIRS); }" % (w, n, n))
                F.append(Fn(w, K["WSHUF"], fam, n=n))
            f = os.path.join(work, "wrap_%d_%d.c" % (fam, n))
            open(f, "w").write("\n".join(body) + "\n")
            files.append((f, fam == NAIVE))
    return F, files


def defined(path):
    return {l.split()[-1] for l in sh(["nm", "--defined-only", "-g", path]).stdout.decode().split("\n") if l.strip()}


def build(work):
    src, objs = build_src(work)
    wf, wfiles = wrapper_sources(src, work)
    lib = os.path.join(work, "lib")
    os.makedirs(lib)
    group = {"naive": [], "std": []}
    for o, users in sorted(objs.items()):
        p = os.path.join(src, o)
        if not os.path.exists(p):
            raise CheckError("object %s was not built" % o)
        d = os.path.join(lib, o)
        shutil.copy(p, d)
        group["naive" if users == {"naive"} else "std"].append(d)
    for f, nv in wfiles:
        o = os.path.join(lib, os.path.basename(f)[:-2] + ".o")
        sh(["gcc"] + CFL + ["-I", src, "-c", "-o", o, f])
        group["naive" if nv else "std"].append(o)
    std = set().union(*[defined(o) for o in group["std"]])
    clash = set().union(*[defined(o) for o in group["naive"]]) & std
    for o in group["naive"]:
        sh(["objcopy"] + ["--redefine-sym=%s=nv_%s" % (c, c) for c in sorted(clash)] + [o])
    allobj = group["std"] + group["naive"]
    for o in allobj:
        secs = set(re.findall(r"^\s*\d+\s+(\.text\S*)", sh(["objdump", "-h", o]).stdout.decode(), re.M))
        sh(["objcopy"] + ["--redefine-sym=%s=sim_%s" % x for x in (("gettid", "gettid"), ("pthread_self", "pthread_self"), ("thrd_current", "thrd_current"), ("sched_getcpu", "sched_getcpu"), ("syscall", "syscall"))] + ["--rename-section=%s=libtext,contents,alloc,load,readonly,code" % s for s in sorted(secs)] + [o])
    F = base_functions() + wf
    for x in F:
        if x.kind == K["PROD"]:
            x.psi = psi_of(src, x.n) or 0
    with open(os.path.join(work, "ops.inc"), "w") as f:
        f.write("#ifdef FN_DECL\n" + "".join('extern "C" void %s() __attribute__((weak));\n' % x.name for x in F) + "#else\n" + "\n".join(x.row() for x in F) + "\n#endif\n")
    exe = os.path.join(work, "stepsim")
    sh(["g++", "-std=c++17", "-O2", "-g0", "-fno-pie", "-no-pie", "-static", "-mavx2", "-Wno-frame-address", "-Wl,-Map," + exe + ".map", "-I", work, "-o", exe,
        os.path.join(VERIF, "stepsim", "stepsim.cpp")] + allobj + ["-lpthread"])
    dis = sh(["objdump", "-d", "-j", "libtext", "--no-show-raw-insn", exe]).stdout.decode()
    addrs = re.findall(r"^\s+([0-9a-f]+):\t(?!nop|xchg\s+%ax,%ax|cs nop|data16|int3|\(bad\))", dis, re.M)
    open(os.path.join(work, "addrs"), "w").write("\n".join(addrs) + "\n")
    syms = sorted((int(a, 16), s) for a, s in re.findall(r"^([0-9a-f]+) <(\S+)>:", dis, re.M))
    present = {}
    p = subprocess.run([exe, os.path.join(work, "addrs")], input=b"F\n", stdout=subprocess.PIPE, timeout=60)
    for l in p.stdout.decode().split("\n"):
        if l.strip():
            nm, ok = l.split()
            present[nm] = ok == "1"
    hot = suspects(dis, open(exe + ".map").read(), lib)
    return {"exe": exe, "hot": hot, "addrs": os.path.join(work, "addrs"), "F": F, "syms": syms, "live": [i for i, x in enumerate(F) if present.get(x.name)],
            "absent": [x.name for x in F if not present.get(x.name)], "ninsn": len(addrs)}


def suspects(dis, linkmap, lib):
    """Instructions of the library that refer to writable static or thread-local data or call something outside it, and
    their successors: where an interruption has the best chance to matter (there are none as long as it keeps no state)."""
    rng = [(int(a, 16), int(a, 16) + int(z, 16)) for a, z, o in re.findall(r"^ \.t?(?:data|bss)\S*\s+0x([0-9a-f]+)\s+0x([0-9a-f]+)\s+(\S+)", linkmap, re.M) if o.startswith(lib + "/") and int(z, 16)]
    text = [(int(a, 16), t) for a, t in re.findall(r"^\s+([0-9a-f]+):\t(.*)$", dis, re.M)]
    if not text:
        return []
    lo, hi = text[0][0], text[-1][0]
    refs, reads, writes, taken = [set() for _ in text], set(), set(), set()
    if rng:
        for k, (a, t) in enumerate(text):
            for m in re.finditer(r"(?<![\w.])(\$?)(?:0x)?([0-9a-f]{6,8})\b", t):
                x = int(m.group(2), 16)
                for r in rng:
                    if r[0] <= x < r[1]:
                        refs[k].add((x, r))
                        body = t.split("#")[0].rstrip().split("<")[0].rstrip()
                        last = body.rsplit(",", 1)[-1] if not body.endswith(")") else body[body.rindex("("):]
                        if m.group(1) or t.startswith("lea") or "(%r" in body and not body.endswith("(%rip)") and "(%rip)" not in body or "(," in body:
                            taken.add(r)
                        elif re.match(r"(cmp|test|bt|push|call|jmp|prefetch|ucomi|comi|vptest)", t) or re.fullmatch(r"%\w+", last.strip()):
                            reads.add(x)
                        else:
                            writes.add(x)
                            if not re.match(r"v?mov", t):
                                reads.add(x)
    # what is only read is a constant, what is only written is never used again
    state = {x for x in reads | writes if any(abs(x - y) < 64 for y in reads) and any(abs(x - y) < 64 for y in writes)}
    hot = set()
    for k, (a, t) in enumerate(text):
        bad = "%fs:" in t or any(x in state or r in taken for x, r in refs[k])
        m = re.match(r"(?:call|jmp)q?\s+([0-9a-f]+)\b", t)
        if m and not lo <= int(m.group(1), 16) <= hi:
            bad = True
        if bad:
            hot.add(a)
            if k + 1 < len(text):
                hot.add(text[k + 1][0])
    return sorted(hot)


# ---------------------------------------------------------------- talking to the simulator
class Server:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = subprocess.Popen([ctx["exe"], ctx["addrs"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.prof = {}

    def ask(self, line):
        self.p.stdin.write(line.encode() + b"\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline().decode()
        if not r:
            raise CheckError("the step simulator died on: " + line[:500])
        return r.rstrip("\n")


_servers = {}


def server(ctx):
    k = (os.getpid(), ctx["exe"])
    if k not in _servers:
        _servers[k] = Server(ctx)
    return _servers[k]


def enc_op(op):
    o = [op["f"], op["n"]] + op["slot"] + op["place"] + [op["pat"], op["seed"], op["ro"], op["ro2"], op["scalar"]]
    for f in op["fill"]:
        o += [1] + enc_ro(f) if f else [0]
    o.append(len(op["ev"]))
    for e in op["ev"]:
        o += [e["addr"], e["hit"], e["steps"], e["act"], e["arg"], len(e["nested"])]
        for x in e["nested"]:
            o += enc_op(x)
    return o


def enc_ro(r):
    return [r["kind"], r["n"], r["psi"], r["tabrev"], r["comb"], r["pat"], r["seed"], r["place"]]


def encode(s):
    o = [s["mode"], s["pages"], s["evict"], s["eseed"], s["nslots"], len(s["ros"]), len(s["threads"])]
    for r in s["ros"]:
        o += enc_ro(r)
    o += [s["first"]] + s["order"]
    for t in s["threads"]:
        o.append(len(t))
        for op in t:
            o += enc_op(op)
    return "R " + " ".join(map(str, o))


def profile(ctx, fi, n):
    """libtext addresses one undisturbed call executes, in order of first execution"""
    sv = server(ctx)
    key = (fi, n)
    if key not in sv.prof:
        g = Gen(ctx, rng_for("profile", fi, n), 5, noevents=True)
        op = g.op(fi, [0, 1, 2], n=n)
        o = [3, len(g.ros)]
        for r in g.ros:
            o += enc_ro(r)
        r = sv.ask("P " + " ".join(map(str, o + enc_op(op))))
        if "|" in r:
            sv.prof[key] = []          # the call fails on its own: the runs will report it
        else:
            sv.prof[key] = sorted(set(int(x, 16) for x in r.split()))
    return sv.prof[key]


def hot_functions(ctx):
    if "hotfuncs" not in ctx:
        hot, out = set(ctx["hot"]), []
        if hot:
            for fi in ctx["live"]:
                f = ctx["F"][fi]
                n = f.n or (16 if f.kind in (K["XF"], K["SHUF"]) or f.fam == ASM or f.ew == E["bitrev"] else 32)
                if hot.intersection(profile(ctx, fi, n)):
                    out.append(fi)
        ctx["hotfuncs"] = out
    return ctx["hotfuncs"]


# ---------------------------------------------------------------- scenario generation
# shapes of operands, see pattern() and spectral()
SHAPES = (0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)


class Gen:
    def __init__(self, ctx, rng, mode, noevents=False):
        self.ctx, self.rng, self.mode, self.noevents = ctx, rng, mode, noevents
        self.ros = []
        self.private = {}              # (owner, k) -> ro area rewritten before each of the owner's calls
        self.owner = None
        self.large = False

    def ro(self, kind, n, psi=0, tabrev=0, comb=0, k=0):
        """index of a read-only operand, and its new contents if it is rewritten for this call"""
        rng = self.rng
        if self.owner is not None and rng.random() < 0.35:
            key = (self.owner, k)
            spec = {"kind": kind, "n": n, "psi": psi, "tabrev": tabrev, "comb": comb, "pat": rng.choice(SHAPES), "seed": rng.randrange(1 << 30), "place": self.place(2)}
            if key not in self.private and len(self.ros) < 20:
                self.ros.append(spec)
                self.private[key] = len(self.ros) - 1
            if key in self.private:
                if rng.random() < 0.7:
                    spec = dict(spec, place=self.ros[self.private[key]]["place"])
                return self.private[key], spec
        return self.shared(kind, n, psi, tabrev, comb), None

    def shared(self, kind, n, psi, tabrev, comb):
        rng = self.rng
        priv = set(self.private.values())
        same = [i for i, r in enumerate(self.ros) if i not in priv and r["kind"] == kind and r["n"] == n and (r["tabrev"], r["comb"]) == (tabrev, comb)]
        if same and (rng.random() < 0.75 or len(self.ros) >= 22):
            return rng.choice(same)
        if len(self.ros) >= 24:
            return None
        self.ros.append({"kind": kind, "n": n, "psi": psi, "tabrev": tabrev, "comb": comb, "pat": rng.choice(SHAPES), "seed": rng.randrange(1 << 30), "place": self.place(2)})
        return len(self.ros) - 1

    def place(self, elt):
        rng = self.rng
        if self.mode == 8:
            r = rng.random()
            slack = 0 if r < 0.6 else rng.randrange(1, 17)
            return 2 * slack + rng.randrange(2)
        return 2 * rng.randrange(40, 400)

    def psi(self, n):
        return pow(G, (12288 // (2 * n)) * (2 * self.rng.randrange(n) + 1), Q)

    def size(self, f):
        rng = self.rng
        if f.n:
            return f.n
        if self.large and f.kind != K["XF"]:
            if f.kind == K["SHUF"] or f.ew == E["bitrev"]:
                return 1 << rng.randint(12, 16)
            n = rng.choice((4096, 8192, 16384, 32768, 65536, 65536, rng.randint(4000, 69000), rng.randint(65536, 69000)))
            return n & ~15 if f.fam == ASM else n
        if f.kind in (K["XF"], K["SHUF"]) or f.ew == E["bitrev"]:
            # the Gentleman-Sande bounds leave 32 bits beyond 1024, the Cooley-Tukey ones do not
            top = 11 if "_ct_" in f.name else 10
            if f.fam == ASM:
                lo, hi = 4, top
            elif f.fam == RED:
                lo, hi = 1, top
            else:
                lo, hi = 1, 11
            k = rng.randint(lo, hi)
            if k > 8 and rng.random() < 0.5:
                k = rng.randint(lo, 8)
            return 1 << k
        if f.fam == ASM:
            return 16 * (rng.randint(1, 8) if rng.random() < 0.7 else rng.randint(1, 128))
        r = rng.random()
        return rng.randint(1, 40) if r < 0.5 else rng.choice((16, 32, 64, 128, 256, 512, 1024)) if r < 0.75 else rng.randint(1, 1500)

    def op(self, fi, slots, n=None, ev=None):
        rng, f = self.rng, self.ctx["F"][fi]
        n = n or self.size(f)
        ns = 3 if f.kind == K["PROD"] else 1
        sl = rng.sample(slots, ns) + [-1] * (3 - ns)
        op = {"f": fi, "n": n, "slot": sl, "place": [self.place(4) for _ in range(3)], "pat": rng.choice(SHAPES) + 100 * rng.choice(SHAPES),
              "seed": rng.randrange(1 << 40), "ro": -1, "ro2": -1, "scalar": 0, "fill": [None, None], "ev": []}
        fill = op["fill"]
        red = f.fam in (RED, ASM)
        if f.kind == K["XF"]:
            if f.v1:
                op["ro"], fill[0] = self.ro(RO["PSI"], n, self.psi(n))
            else:
                op["ro"], fill[0] = self.ro(RO["TAB_S" if red else "TAB_U"], n, self.psi(n), f.tabrev, int(f.comb > 0))
        elif f.kind == K["MUL16"]:
            op["ro"], fill[0] = self.ro(RO["MUL_S" if red else "MUL_U"], n)
        elif f.kind == K["MUL32"]:
            b = rng.randint(12, 31) if red and rng.random() < 0.3 else 0     # operands of b and 43 - b bits
            op["ro"], fill[0] = self.ro(RO["I32_R" if red else "I32_Q"], n, comb=b)
            op["ro2"], fill[1] = self.ro(RO["I32_R" if red else "I32_Q"], n, comb=-b, k=1)
        elif f.kind == K["SHUF"]:
            op["ro"], fill[0] = self.ro(RO["PAIRS"], n)
        elif f.kind == K["SCAL"]:
            op["scalar"] = rng.choice((0, 1, Q - 1, rng.randrange(Q), rng.randrange(Q)))
            if red and rng.random() < 0.25:
                op["scalar"] = rng.randrange(1 << rng.randint(14, 31))
            if red and rng.random() < 0.4:
                op["scalar"] = -op["scalar"]
        if op["ro"] is None or op["ro2"] is None:
            return None
        return op

    def again(self, prev, slots=None):
        """the previous call once more: same routine and arrays, inputs that differ in an element or two"""
        rng = self.rng
        op = copy.deepcopy(prev)
        op["ev"] = []
        op["pat"] = op["pat"] % 10000 + 10000 * rng.randrange(0, 200000)
        for f in op["fill"]:
            if f and f["kind"] in (RO["MUL_U"], RO["MUL_S"], RO["I32_Q"], RO["I32_R"]):
                f["pat"] = f["pat"] % 100 + 100 * rng.randrange(0, 200000)
        return op

    def event(self, op, act, arg=0, nested=()):
        rng = self.rng
        pr = profile(self.ctx, op["f"], op["n"])
        if not pr:
            return None
        if self.ctx["hot"]:
            hot = self.ctx.setdefault("hotset", set(self.ctx["hot"]))
            hp = [a for a in pr if a in hot]
            if hp and rng.random() < 0.6:
                return {"addr": rng.choice(hp), "hit": 1 if rng.random() < 0.7 else rng.randint(2, 40), "steps": 0 if rng.random() < 0.8 else rng.randint(1, 6), "act": act, "arg": arg, "nested": list(nested)}
        hit = 1 if rng.random() < 0.5 else int(2 ** rng.uniform(0, min(10.5, 1 + math.log2(op["n"]))))
        r = rng.random()
        steps = 0 if r < 0.7 else rng.randint(1, 30) if r < 0.92 else rng.randint(1, 300)
        return {"addr": rng.choice(pr), "hit": hit, "steps": steps, "act": act, "arg": arg, "nested": list(nested)}

    def turn(self, k):
        """the k-th routine, in turn; every other time one that executes suspicious instructions, if there are any"""
        live = self.ctx["live"]
        hf = hot_functions(self.ctx)
        if hf and k % 2:
            return hf[k // 2 % len(hf)]
        return live[(k // 2 if hf else k) % len(live)]

    def focus(self, k, small=0.6):
        """functions this run concentrates on"""
        rng, ctx = self.rng, self.ctx
        live = ctx["live"]
        hf = hot_functions(ctx)
        if hf and rng.random() < 0.5:
            return [rng.choice(hf) for _ in range(k)]
        byk = ctx.setdefault("bykind", None)
        if byk is None:
            byk = {}
            for i in live:
                f = ctx["F"][i]
                byk.setdefault((f.kind, f.fam == ASM), []).append(i)
            ctx["bykind"] = byk
        out = []
        keys = sorted(byk)
        for _ in range(k):
            fi = rng.choice(byk[rng.choice(keys)])
            if self.ctx["F"][fi].n >= 512 and rng.random() < 0.5:
                fi = rng.choice(byk[rng.choice(keys)])
            out.append(fi)
        return out


def scen(mode, g, threads, nslots, first=0, order=None, evict=0, pages=4):
    n = len(threads)
    return {"mode": mode, "pages": pages, "evict": evict, "eseed": g.rng.randrange(1 << 30), "nslots": nslots, "ros": g.ros, "threads": threads, "first": first,
            "order": order if order is not None else list(range(n))}


class StepSim(Sim):
    mode = 0
    interleaving_measure = "distinct interruption sites (instruction addresses at which a fault fired) and distinct run hashes (sequence of sites, actions, threads and results)"
    stub = ["who runs when: baton scheduler instead of the kernel's", "array and table inputs: generated"]
    real = ["all library objects of src/ (C and assembly) as the repository's Makefile compiles them", "generated tables", "threads, signals, page protection of the running kernel"]
    assumptions = ["threads interleave at instruction boundaries (x86 total store order effects between cores are not modelled)",
                   "interruption points are drawn from the instructions an undisturbed call executes, plus up to 300 following single steps",
                   "the reference results are computed by definition (schoolbook negacyclic product, defining sum of the transform, element formulas of the headers)"]

    def prepare(self, work, tier):
        ctx = build(work)
        ctx["work"] = work
        return ctx

    def symbol(self, ctx, a):
        import bisect
        i = bisect.bisect_right(ctx["syms"], (a, "~")) - 1
        return "%s+0x%x" % (ctx["syms"][i][1], a - ctx["syms"][i][0]) if i >= 0 else hex(a)

    def execute(self, ctx, s, st=None):
        r = server(ctx).ask(encode(s)).split("|")
        if r[0] == "ERROR":
            raise CheckError("step simulator: %s on %s" % (r[1], encode(s)[:3000]))
        cls, detail, h, stats, sites = (r + [""] * 5)[:5]
        if st is not None:
            d = dict(x.split("=") for x in stats.split())
            d = {k: int(v) for k, v in d.items()}
            self.account(ctx, s, d, sites.split(), h, st)
        return Result(None if cls == "-" else cls, detail, h)

    def account(self, ctx, s, d, sites, h, st):
        st.add("time:library_calls", d.get("ops", 0))
        st.add("time:trapped_instructions", d.get("st", 0))
        st.add("probe:calls_skipped_busy_array", d.get("sk", 0))
        st.add("probe:faults_not_reached", d.get("un", 0))
        for k, nm in (("sw", "thread_switch_inside_call"), ("ne", "signal_handler_calling_library"), ("ab", "call_abandoned"), ("pf", "page_fault_on_array"), ("ev", "page_evicted")):
            if d.get(k):
                st.add("fault:" + nm, d[k])
        if d.get("dp", 0) > 1:
            st.add("probe:nested_depth_%d" % d["dp"])
        for x in sites:
            st.seen("interruption_sites", x)
            a = int(x, 16)
            if not (ctx["syms"][0][0] <= a <= ctx["syms"][-1][0] + 100000):
                st.add("probe:interrupted_outside_library_code")
        for t in s["threads"]:
            for op in t:
                st.seen("functions_called", ctx["F"][op["f"]].name)
        st.seen("run_hashes", h)
        if sites or d.get("pf"):
            st.seen("nontrivial", h)
            st.sample(self.story(ctx, s, sites))

    def story(self, ctx, s, sites):
        t = "; ".join("thread %d: %s" % (i, ", ".join("%s(n=%d)%s" % (ctx["F"][op["f"]].name, op["n"], "".join(
            " [%s at %s hit %d +%d]" % (FAULT_NAMES.get(e["act"], "?"), self.symbol(ctx, e["addr"]), e["hit"], e["steps"]) for e in op["ev"])) for op in ops)) for i, ops in enumerate(s["threads"]))
        if sites:
            t += " -- interrupted at " + ", ".join(self.symbol(ctx, int(x, 16)) for x in sites[:6])
        return t[:900]

    def describe(self, ctx, s, res):
        return [res.detail, self.story(ctx, s, []), "addresses are those of the simulator binary built from the tree that was checked"]

    # ---- minimisation
    def shrink(self, ctx, s, test):
        budget = [250]
        cur = copy.deepcopy(s)

        def attempt(c):
            nonlocal cur
            if budget[0] <= 0:
                return False
            budget[0] -= 1
            if test(c):
                cur = c
                return True
            return False

        def each_list():
            """paths of all lists of ops / events, deepest last"""
            out = []

            def walk(path, ops):
                out.append(path)
                for i, op in enumerate(ops):
                    if op["ev"]:
                        out.append(path + [i, "ev"])
                    for j, e in enumerate(op["ev"]):
                        if e["nested"]:
                            walk(path + [i, "ev", j, "nested"], e["nested"])
            for t, ops in enumerate(cur["threads"]):
                walk(["threads", t], ops)
            return out

        def at(c, path):
            for p in path:
                c = c[p]
            return c
        changed = True
        while changed and budget[0] > 0:
            changed = False
            for path in each_list():
                try:
                    n = len(at(cur, path))
                except (KeyError, IndexError):
                    continue
                for i in range(n - 1, -1, -1):
                    c = copy.deepcopy(cur)
                    del at(c, path)[i]
                    if attempt(c):
                        changed = True
        # simpler parameters
        for path in each_list():
            try:
                items = at(cur, path)
            except (KeyError, IndexError):
                continue
            for i in range(len(items)):
                for k, v in (("steps", 0), ("hit", 1), ("pat", 0)):
                    if k in items[i] and items[i][k] != v:
                        c = copy.deepcopy(cur)
                        at(c, path)[i][k] = v
                        attempt(c)
        for k in ("evict",):
            if cur[k]:
                c = copy.deepcopy(cur)
                c[k] = 0
                attempt(c)
        return cur


class C05(StepSim):
    prop = "C05"
    mode = 5
    counts = {"quick": 24000, "thorough": 1500000}
    seconds = {"quick": 120, "thorough": 3000}
    rule = "a run counts when at least one thread was switched out inside a library call"

    def scenario(self, ctx, rng, i):
        g = Gen(ctx, rng, 5)
        if i % 8 == 3:
            # a history: each routine takes its turn, called again and again on the
            # same arrays with nearly the same inputs, next to a second thread that does the same
            fi = g.turn(i // 8)
            n = None
            threads = []
            for t in range(rng.choice((1, 1, 2))):
                g.owner, ops = t, []
                for k in range(rng.randint(3, 5)):
                    op = g.again(ops[-1]) if ops and rng.random() < 0.75 else g.op(fi, list(range(4 * t, 4 * t + 4)), n=n)
                    if op is None:
                        continue
                    n = op["n"]
                    if t and rng.random() < 0.5:
                        e = g.event(op, 1, 0)
                        if e:
                            op["ev"].append(e)
                    ops.append(op)
                threads.append(ops)
            order = list(range(len(threads)))
            return scen(5, g, threads, 4 * len(threads), rng.randrange(len(threads)), order)
        nt = rng.choice((2, 2, 2, 3, 3, 4))
        foc = g.focus(rng.choice((1, 1, 2, 3)))
        samesize = rng.random() < 0.5
        sizes = {}
        threads = []
        for t in range(nt):
            slots = list(range(4 * t, 4 * t + 4))
            g.owner = t
            ops = []
            for k in range(rng.choice((1, 1, 2, 3, 5))):
                fi = rng.choice(foc)
                if ops and rng.random() < 0.15:
                    op = g.again(ops[-1])
                else:
                    op = g.op(fi, slots, n=sizes.get(fi) if samesize else None)
                if op is None:
                    continue
                sizes[op["f"]] = op["n"]
                for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
                    e = g.event(op, 1, rng.randrange(nt))
                    if e:
                        op["ev"].append(e)
                ops.append(op)
            threads.append(ops)
        order = list(range(nt))
        rng.shuffle(order)
        return scen(5, g, threads, 4 * nt, rng.randrange(nt), order)


class C06(StepSim):
    prop = "C06"
    mode = 6
    counts = {"quick": 36000, "thorough": 1500000}
    seconds = {"quick": 120, "thorough": 3000}
    rule = "a run counts when at least one call was interrupted by a handler that called the library"

    def nest(self, g, foc, base, depth):
        rng = g.rng
        out = []
        for _ in range(rng.choice((1, 1, 2))):
            g.owner = depth
            fi = rng.choice(foc) if rng.random() < 0.7 else rng.choice(g.focus(1))
            op = g.op(fi, list(range(base, base + 3)))
            if op is None:
                continue
            if depth < 3 and rng.random() < 0.2:
                e = g.event(op, 2, 0, self.nest(g, foc, base + 3, depth + 1))
                if e:
                    op["ev"].append(e)
            out.append(op)
        return out

    def chain(self, g, fi, n, depth, levels):
        """a call interrupted by a handler that makes the same call, interrupted ... `levels` deep"""
        g.owner = depth
        op = g.op(fi, list(range(3 * depth, 3 * depth + 3)), n=n)
        if op is None:
            return []
        if depth < levels:
            e = g.event(op, 2, 0, self.chain(g, fi, op["n"], depth + 1, levels))
            if e:
                op["ev"].append(e)
        return [op]

    def scenario(self, ctx, rng, i):
        g = Gen(ctx, rng, 6)
        if i % 12 == 5:
            fi = g.turn(i // 12)
            return scen(6, g, [self.chain(g, fi, None, 0, rng.randint(3, 7))], 24)
        foc = g.focus(rng.choice((1, 1, 2)))
        ops = []
        for k in range(rng.choice((1, 1, 2, 3))):
            g.owner = 0
            op = g.again(ops[-1]) if ops and rng.random() < 0.15 else g.op(rng.choice(foc), [0, 1, 2])
            if op is None:
                continue
            for _ in range(rng.choice((1, 1, 2))):
                e = g.event(op, 2, 0, self.nest(g, foc, 3, 1))
                if e:
                    op["ev"].append(e)
            ops.append(op)
        return scen(6, g, [ops], 15)


class C07(StepSim):
    prop = "C07"
    mode = 7
    counts = {"quick": 36000, "thorough": 1500000}
    seconds = {"quick": 120, "thorough": 3000}
    rule = "a run counts when at least one call was abandoned part-way"

    def scenario(self, ctx, rng, i):
        g = Gen(ctx, rng, 7)
        if i % 10 == 3:
            # a series: one routine abandoned again and again by the same thread, then called in peace
            fi = g.turn(i // 10)
            ops, n, last = [], None, rng.choice((3, 6, 10, 18))
            if ctx["F"][fi].n >= 512:
                last = min(last, 10)
            for k in range(last + 2):
                g.owner = 0
                op = g.op(fi, list(range(4)), n=n)
                if op is None:
                    continue
                n = op["n"]
                e = g.event(op, 3) if k < last else None
                if e:
                    op["ev"].append(e)
                ops.append(op)
            return scen(7, g, [ops], 4)
        nt = rng.choice((1, 2, 2, 3))
        foc = g.focus(rng.choice((1, 1, 2)))
        threads = []
        for t in range(nt):
            own = list(range(4 * t, 4 * t + 4))
            g.owner = t
            ops = []
            for k in range(rng.choice((2, 2, 3, 4))):
                # later calls also take over the arrays of other threads when these are free
                slots = own if k == 0 or rng.random() < 0.5 else list(range(4 * nt))
                op = g.again(ops[-1]) if ops and rng.random() < 0.15 else g.op(rng.choice(foc), slots)
                if op is None:
                    continue
                r = rng.random()
                if r < 0.55 and not (k and r < 0.1):
                    if nt > 1 and rng.random() < 0.4:
                        e = g.event(op, 1, rng.randrange(nt))
                        if e:
                            op["ev"].append(e)
                    act = 3 if nt == 1 else rng.choice((3, 3, 4, 5))
                    e = g.event(op, act)
                    if e:
                        op["ev"].append(e)
                ops.append(op)
            threads.append(ops)
        if nt > 1:      # one thread that is never killed looks at the aftermath
            for op in threads[-1]:
                op["ev"] = [e for e in op["ev"] if e["act"] < 4]
        order = list(range(nt))
        rng.shuffle(order)
        return scen(7, g, threads, 4 * nt, rng.randrange(nt), order)


class C08(StepSim):
    prop = "C08"
    mode = 8
    counts = {"quick": 60000, "thorough": 4000000}
    seconds = {"quick": 120, "thorough": 3000}
    rule = "a run counts when the arrays were paged in by at least one fault"

    def scenario(self, ctx, rng, i):
        g = Gen(ctx, rng, 8)
        g.large = rng.random() < 0.02
        ops = []
        for k in range(rng.choice((1, 2, 3, 4))):
            fi = rng.choice(ctx["live"]) if rng.random() < 0.6 else g.focus(1)[0]
            if g.large:
                fi = rng.choice([j for j in ctx["live"] if not ctx["F"][j].n and ctx["F"][j].kind != K["XF"]])
            g.owner = 0
            op = g.op(fi, list(range(6)))
            if op:
                ops.append(op)
        return scen(8, g, [ops], 6, evict=rng.choice((0, 0, 30, 90)) if not g.large else rng.choice((0, 0, 2, 5)), pages=72 if g.large else 4)


class C09(Sim):
    prop = "C09"
    counts = {"quick": 30000, "thorough": 2000000}
    seconds = {"quick": 60, "thorough": 1500}
    rule = "a run counts by its distinct (max leaf class, OSXSAVE, AVX, AVX2, XCR0 low bits, instruction trail)"
    interleaving_measure = "distinct instruction trails and answers of the detection routine"
    real = ["avx2_supported in ntt_asm.S, every instruction of it executed under single-step"]
    stub = ["CPUID and XGETBV: emulated by the simulator for a seeded processor and operating system"]
    assumptions = ["CPUID for a leaf above the maximum basic leaf returns the data of the highest basic leaf (Intel) or zeros (AMD)", "XGETBV without OSXSAVE raises #UD"]

    def prepare(self, work, tier):
        return build(work)

    def scenario(self, ctx, rng, i):
        w = lambda: rng.getrandbits(32)
        style = rng.random()
        maxleaf = rng.choice((0, 1, 2, 4, 5, 6, 7, 7, 7, 7, 8, 0xa, 0xb, 0xd, 0xd, 0x14, 0x16, 0x20, w() >> rng.randrange(32)))
        l1, l7, top = [w() for _ in range(4)], [w() for _ in range(4)], [w() for _ in range(4)]

        def bit(v, b, p=0.7):
            return v | (1 << b) if rng.random() < p else v & ~(1 << b) & 0xffffffff
        l1[2] = bit(l1[2], 27)
        l1[2] = bit(l1[2], 28)
        l7[1] = bit(l7[1], 5)
        x = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 7, 0xe7, 0x207, 0x1f, 0xe3, 0xe5, 6, rng.getrandbits(64)))
        if style < 0.2:        # realistic neighbours: all features but one
            l1[2] |= 3 << 27
            l7[1] |= 32
            x |= 7
            maxleaf = max(maxleaf, 7) if maxleaf < 0x80000000 else 0xd
            k = rng.randrange(6)
            if k == 0:
                l1[2] &= ~(1 << 27)
            elif k == 1:
                l1[2] &= ~(1 << 28)
            elif k == 2:
                l7[1] &= ~32
            elif k == 3:
                x &= ~4
            elif k == 4:
                x &= ~2
            elif k == 5:
                maxleaf = rng.choice((1, 2, 4, 5, 6))
        if rng.random() < 0.3:
            top = [0, 0, 0, 0]
        if rng.random() < 0.5:
            top[1] |= 32
        if maxleaf == 0:
            l1 = list(top)
        vendor = rng.choice(([0x756e6547, 0x49656e69, 0x6c65746e], [0x68747541, 0x69746e65, 0x444d4163], [w(), w(), w()]))
        return {"cpu": [maxleaf & 0x7fffffff] + l1 + l7 + top + [w(), x if x < 1 << 63 else x - (1 << 64), rng.randrange(1 << 40)] + vendor}

    def execute(self, ctx, s, st=None):
        r = server(ctx).ask("C " + " ".join(map(str, s["cpu"]))).split("|")
        if r[0] == "ERROR":
            raise CheckError("step simulator: %s" % r[1])
        cls, detail, h, stats, _ = (r + [""] * 5)[:5]
        if st is not None:
            d = {k: int(v) for k, v in (x.split("=") for x in stats.split())}
            c = s["cpu"]
            st.add("time:instructions_stepped", d.get("ops", 0))
            st.add("fault:cpuid_emulated", d.get("sw", 0))
            st.add("fault:xgetbv_emulated", d.get("ne", 0))
            conf = (min(c[0], 8), c[3] >> 27 & 1, c[3] >> 28 & 1, c[6] >> 5 & 1, c[14] & 7)
            st.seen("configurations", conf)
            st.seen("nontrivial", (conf, h))
            st.add("probe:answer_%s" % detail[:12] if cls == "-" else "probe:violations")
            if c[0] < 7:
                st.add("fault:leaf7_absent")
            if not conf[1]:
                st.add("fault:osxsave_off")
            if (c[14] & 6) != 6:
                st.add("fault:os_state_disabled")
            st.sample("max leaf %d, OSXSAVE %d, AVX %d, AVX2 bit %d, XCR0 %x -> %s" % (c[0], conf[1], conf[2], conf[3], c[14] & 0xffffffff, detail))
        return Result(None if cls == "-" else cls, detail, h)

    def shrink(self, ctx, s, test):
        cur = list(s["cpu"])
        for i in list(range(1, 13)) + [13, 15, 14, 0]:
            for v in (0, cur[i] & ~0xffff, cur[i] & 0xffff):
                if cur[i] != v:
                    c = list(cur)
                    c[i] = v
                    if test({"cpu": c}):
                        cur = c
                        break
        return {"cpu": cur}


SIMS = {"C05": C05, "C06": C06, "C07": C07, "C08": C08, "C09": C09}
