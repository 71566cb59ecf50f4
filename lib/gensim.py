"""C01-C04: the table generators under simulated file system, faults, kills and schedules."""
import os, re, json, subprocess, errno, shutil, atexit
from vlib import *
from runner import Sim, Result

Q = 12289
TOOLS = {
    "src/make_tables": ("src", "make_tables", "ntt%d_tables"),
    "src/make_red_tables": ("src", "make_red_tables", "ntt_red%d_tables"),
    "src/make_bitrev_table": ("src", "make_bitrev_table", "bitrev%d_table"),
    "ver/make_tables": ("verifier/vstte20-benchmarks", "make_tables", "ntt%d_tables"),
    "ver/make_red_tables": ("verifier/vstte20-benchmarks", "make_red_tables", "ntt_red%d_tables"),
    "ver/make_bitrev_table": ("verifier/vstte20-benchmarks", "make_bitrev_table", "bitrev%d_table"),
}
SRC_TOOLS = [t for t in TOOLS if t.startswith("src/")]
E = {n: getattr(errno, n) for n in ("EACCES", "ENOSPC", "EMFILE", "ENFILE", "EINTR", "EROFS", "EIO", "EDQUOT", "EFBIG", "EAGAIN", "ENOMEM", "EPERM", "ENOENT")}
ENAME = {v: k for k, v in E.items()}


def rev(i, k):
    r = 0
    for _ in range(k):
        r = r * 2 + (i & 1)
        i >>= 1
    return r


def outputs(toolname, args):
    base = TOOLS[toolname][2] % int(args[0])
    return [base + ".h", base + ".c"]


# ------------------------------------------------------------ reference model
def reference(toolname, args):
    """(constants, tables, optional tables): what the two files must define."""
    n = int(args[0])
    k = n.bit_length() - 1
    kind = TOOLS[toolname][1]
    if kind == "make_bitrev_table":
        pairs = [(i, rev(i, k)) for i in range(n) if i < rev(i, k)]
        return {"BITREV%d_NPAIRS" % n: len(pairs)}, {"bitrev%d" % n: ("u", [x for p in pairs for x in p])}, {}
    psi = int(args[1])
    om = psi * psi % Q
    ipsi, iom, inv_n = pow(psi, -1, Q), pow(om, -1, Q), pow(n, -1, Q)

    def powers(x, y):
        a = []
        for _ in range(n):
            a.append(x)
            x = x * y % Q
        return a

    def tab(x, y, ik=1, r=False):
        a = [0] * n
        t, lg = 1, 0
        while t < n:
            b, c = pow(x, n // (2 * t), Q) * ik % Q, pow(y, n // (2 * t), Q)
            for j in range(t):
                a[t + (rev(j, lg) if r else j)] = b
                b = b * c % Q
            t, lg = 2 * t, lg + 1
        return a
    if kind == "make_tables":
        pre = "ntt%d_" % n
        const = {"psi": psi, "omega": om, "inv_psi": ipsi, "inv_omega": iom, "inv_n": inv_n}
        ik = 1
        T = {"psi_powers": powers(1, psi), "inv_psi_powers": powers(1, ipsi), "scaled_inv_psi_powers": powers(inv_n, ipsi)}
        O = {"inv_psi_powers_rev": tab(1, ipsi, 1, True)}
        sgn = "u"
    else:
        pre = "ntt_red%d_" % n
        ik = pow(3, -1, Q)
        r8, r6 = inv_n * pow(ik, 8, Q) % Q, inv_n * pow(ik, 6, Q) % Q
        const = {"psi": psi, "omega": om, "inv_psi": ipsi, "inv_omega": iom, "inv_n": inv_n, "inv_k": ik}
        T = {"psi_powers": powers(ik, psi), "inv_psi_powers": powers(ik, ipsi), "scaled_inv_psi_powers": powers(r8, ipsi)}
        O = {"psi_powers_rev": tab(1, psi, ik, True)}
        if toolname.startswith("src/"):
            const.update({"rescale8": r8, "rescale6": r6})
            T["scaled_inv_psi_powers_var"] = powers(r6, ipsi)
        else:
            const.update({"rescale": r8})
        sgn = "s"
    for nm, x, y in (("omega_powers", 1, om), ("inv_omega_powers", 1, iom), ("mixed_powers", psi, om), ("inv_mixed_powers", ipsi, iom)):
        T[nm] = tab(x, y, ik)
        T[nm + "_rev"] = tab(x, y, ik, True)
    if sgn == "s":
        f = lambda v: [x if x <= Q // 2 else x - Q for x in v]
        T = {k2: f(v) for k2, v in T.items()}
        O = {k2: f(v) for k2, v in O.items()}
    return {pre + a: b for a, b in const.items()}, {pre + a: (sgn, b) for a, b in T.items()}, {pre + a: (sgn, b) for a, b in O.items()}


def pack16(sg, v):
    return struct.pack("<%d%s" % (len(v), "H" if sg == "u" else "h"), *v)


def section(obj, name):
    d = subprocess.run(["objcopy", "-O", "binary", "--only-section=" + name, "--set-section-flags", name + "=alloc", obj, obj + ".bin"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        return b"\0" + open(obj + ".bin", "rb").read()
    except OSError:
        return b""


class Compiler:
    """Compiles generated files and reads what they define; memoised."""
    def __init__(self, work):
        self.dir = os.path.join(work, "cc%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.memo = {}
        self.runs = 0

    def _cc(self, name, text, files):
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        for f, c in files.items():
            open(os.path.join(self.dir, f), "wb").write(c)
        p = os.path.join(self.dir, name)
        open(p, "wb").write(text)
        self.runs += 1
        r = subprocess.run(["gcc", "-std=c99", "-w", "-O0", "-c", "-o", os.path.join(self.dir, "out.o"), name], cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode < 0:
            raise CheckError("compiler died: %s" % r.stdout[-500:])
        if r.returncode != 0:
            return None
        return elf_objects(os.path.join(self.dir, "out.o"))

    def header(self, hname, content, constants):
        """symbols of the header's constants, or None if it does not compile"""
        key = ("h", hname, h12(content))
        if key not in self.memo:
            macros = [c for c in constants if c.isupper() or c.startswith("BITREV")]
            t = "#include <stdint.h>\n#define static\n#include \"%s\"\n#undef static\n" % hname
            for m in macros:
                t += "#ifdef %s\nconst int32_t probe_%s = %s;\n#endif\n" % (m, m, m)
            self.memo[key] = self._cc("probe.c", t.encode(), {hname: content})
        return self.memo[key]

    def undeclared(self, hname, content, tabs):
        """tables the header does not declare with their size"""
        key = ("d", hname, h12(content))
        if key not in self.memo:
            def missing(names):
                t = "#include <stdint.h>\n#include \"%s\"\n" % hname + "".join("typedef char size_of_%s[sizeof(%s) == %d ? 1 : -1];\n" % (x, x, 2 * len(tabs[x][1])) for x in names)
                return self._cc("probe.c", t.encode(), {hname: content}) is None
            names = [x for x in tabs if tabs[x][1]]
            self.memo[key] = [x for x in names if missing([x])] if missing(names) else []
        return self.memo[key]

    def source(self, cname, content, hname, hcontent):
        key = ("c", cname, h12(content), h12(hcontent))
        if key not in self.memo:
            self.memo[key] = self._cc(cname, content, {hname: hcontent})
        return self.memo[key]


def compare_header(syms, const, partial):
    for c, v in const.items():
        s = syms.get(c, syms.get("probe_" + c))
        if s is None:
            if partial:
                continue
            return "constant %s is missing" % c
        got = int.from_bytes(s, "little", signed=True)
        if got != v:
            return "constant %s is %d, expected %d" % (c, got, v)
    return None


def compare_source(syms, tabs, opt, partial):
    for t, (sg, v) in tabs.items():
        if t not in syms:
            if partial or not v:
                continue
            return "table %s is missing" % t
        if syms[t] != pack16(sg, v):
            return "table %s has wrong entries (%s)" % (t, first_diff(syms[t], pack16(sg, v)))
    for t, (sg, v) in opt.items():
        if t in syms and syms[t] != pack16(sg, v):
            return "table %s has wrong entries (%s)" % (t, first_diff(syms[t], pack16(sg, v)))
    return None


def first_diff(a, b):
    if len(a) != len(b):
        return "%d bytes instead of %d" % (len(a), len(b))
    for i in range(0, len(a), 2):
        if a[i:i + 2] != b[i:i + 2]:
            return "entry %d is %d instead of %d" % (i // 2, int.from_bytes(a[i:i + 2], "little"), int.from_bytes(b[i:i + 2], "little"))
    return "equal"


NUM = re.compile(rb"(?<![\w])-?\d+(?![\w\]])")


def skeleton(content):
    """the text without its numbers (array sizes stay) and white space"""
    return h12(re.sub(rb"\s+", b"", NUM.sub(b"#", content)))


def plain(hc, cc, const, tabs, opt):
    """True if the files read as plain lists of the expected numbers. Used only on files that differ in nothing but
    numbers from files the compiler has accepted and that were found right; anything else goes to the compiler."""
    def ints(t):
        return [int(x) for x in NUM.findall(t)]
    hc, cc = (re.sub(rb"/\*.*?\*/", b" ", x, flags=re.S) for x in (hc, cc))
    for k, v in const.items():
        m = re.findall(rb"\b%s\s*=?\s*(-?\d+)\b" % k.encode(), hc)
        if [int(x) for x in m] != [v]:
            return False
    got = {m[0].decode(): m for m in re.findall(rb"(\w+)\s*\[(\w+)\](\[\d+\])?\s*=\s*\{(.*?)\};", cc, flags=re.S)}
    for t, (sg, v) in list(tabs.items()) + [x for x in opt.items() if x[0] in got]:
        if not v:
            return False
        if t not in got or ints(got[t][3]) != v:
            return False
    return True


# ------------------------------------------------------------ simulator client
hx = lambda s: (s.encode("latin1") if isinstance(s, str) else s).hex() or "-"
unhx = lambda s: b"" if s == "-" else bytes.fromhex(s)


class IoSim:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=1 << 16)

    def run(self, lines):
        self.p.stdin.write(("\n".join(lines) + "\n").encode())
        self.p.stdin.flush()
        out = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise CheckError("iosim died (%s)" % self.p.poll())
            l = l.decode().rstrip("\n")
            if l == "END":
                return out
            out.append(l.split(" "))

    def get(self, name):
        self.p.stdin.write(("GET %s\n" % hx(name)).encode())
        self.p.stdin.flush()
        return unhx(self.p.stdout.readline().decode().strip())


class Ctx:
    pass


def roots(n):
    return [x for x in range(2, Q) if pow(x, n, Q) == Q - 1]


class GenSim(Sim):
    real = ["make_tables, make_red_tables, make_bitrev_table (src/ and verifier/ copies) as compiled from /repo, glibc stdio and malloc"]
    stub = ["kernel file system, process table, clock and memory limits: in-memory simulator (iosim)"]
    assumptions = ["programs are linked statically (same sources and flags, plus -static) so that every system call passes the simulator",
                   "C start-up code before main runs without faults",
                   "writes to standard error do not fail"]
    tools = list(TOOLS)
    interleaving_measure = "hash of the complete sequence of simulated system calls, results, faults and final directory"

    def prepare(self, work, tier):
        c = Ctx()
        c.work = work
        c.iosim = tool("iosim", "iosim/iosim.cpp", ["-O2", "-std=c++17"])
        c.bin = {}
        for d in ("src", "verifier/vstte20-benchmarks"):
            dst = os.path.join(work, d.replace("/", "_"))
            os.makedirs(dst)
            for f in os.listdir(os.path.join(REPO, d)):
                if f.endswith((".c", ".h", ".S")) or f == "Makefile":
                    shutil.copy(os.path.join(REPO, d, f), dst)
        c.names = {}
        for t, (d, nm, _) in TOOLS.items():
            dst = os.path.join(work, d.replace("/", "_"))
            # whatever looks like the name of an environment variable in the program is one worth setting
            o = os.path.join(dst, "names.o")
            sh("gcc -w -O0 -c -o %s %s.c" % (o, nm), cwd=dst)
            c.names[t] = sorted(set(x.decode() for x in re.findall(rb"(?<=\0)[A-Za-z_][A-Za-z0-9_]{0,40}(?=\0)", section(o, ".rodata"))))
            if d == "src":
                sh(["make", "-C", dst, nm, "CC=gcc -static"])
            else:
                sh("gcc -static -Wall -g -o %s %s.c" % (nm, nm), cwd=dst)
            exe = os.path.join(dst, nm)
            m = [l.split() for l in sh(["nm", exe]).stdout.decode().splitlines()]
            mains = [l[0] for l in m if l[-1] == "main"]
            if not mains:
                raise CheckError("no main in " + exe)
            alloc = sorted(set(l[0] for l in m if l[-1] in ("malloc", "calloc", "realloc")))
            c.bin[t] = (exe, mains[0], alloc)
        c.roots = {n: roots(n) for n in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048)}
        c.local = {}
        c.seed = int(os.environ.get("VERIF_SEED", "1"))
        c.nroots = 12 if tier == "quick" else 64
        return c

    # per process state
    def loc(self, ctx):
        pid = os.getpid()
        if pid not in ctx.local:
            l = Ctx()
            l.io = IoSim(ctx.iosim)
            l.cc = Compiler(ctx.work)
            l.exact = {}
            l.checked = {}
            l.skeletons = {}
            l.blobs, l.blobbytes = {}, 0
            ctx.local = {pid: l}
        return ctx.local[pid]

    def round(self, ctx, files, rnd, trace=False, modes={}):
        l = self.loc(ctx)
        L = ["RUN"]
        for f, c in sorted(files.items()):
            L.append("file %s %s %o" % (hx(f), hx(c), modes.get(f, 0o644)))
        for d in rnd.get("dirs", []):
            L.append("dir " + hx(d))
        for i, p in enumerate(rnd["procs"]):
            exe, mainaddr, alloc = ctx.bin[p["tool"]]
            args = [p.get("argv0", "./" + TOOLS[p["tool"]][1])] + p["args"]
            L.append("proc %s %s %d %s" % (hx(exe), mainaddr, len(args), " ".join(hx(a) for a in args)))
            if alloc:
                L.append("alloc %d %s" % (i, " ".join(alloc)))
            for e in p.get("env", []):
                L.append("env %d %s" % (i, hx(e)))
            if p.get("mem"):
                L.append("mem %d %d" % (i, p["mem"]))
            for d in p.get("closed", []):
                L.append("closed %d %d" % (i, d))
            if p.get("world"):          # process number, umask, clock and its speed
                pid, um, sec, step = p["world"]
                L += ["pid %d %d" % (i, (pid & ~31) + i), "umask %d %d" % (i, um)] + (["clock %d %d" % (sec, step)] if i == 0 else [])
        if rnd.get("cap") is not None:
            L.append("cap %d" % rnd["cap"])
        for f in rnd.get("faults", []):
            L.append("fault %d %s %d %s %d" % tuple(f))
        s = rnd.get("sched", [])
        for i in range(0, len(s), 200):
            L.append("sched " + " ".join(map(str, s[i:i + 200])))
        if trace:
            L.append("trace")
        L.append("END")
        out = l.io.run(L)
        r = Ctx()
        r.procs, r.files, r.fired, r.counts, r.trace, r.dirs, r.made, r.modes = [], {}, [], {}, [], [], [], {}
        for w in out:
            if w[0] == "P":
                r.procs.append((w[2], int(w[3]), int(w[4]), unhx(w[5]), unhx(w[6])))
            elif w[0] == "F":
                r.files[unhx(w[1]).decode("latin1")] = (int(w[2]), w[3])
                if len(w) > 4:
                    r.modes[unhx(w[1]).decode("latin1")] = int(w[4], 8)
            elif w[0] == "D":
                r.dirs.append(unhx(w[1]).decode("latin1"))
            elif w[0] == "N":
                r.made.append(unhx(w[1]).decode("latin1"))
            elif w[0] == "X":
                r.fired.append(w[1:])
            elif w[0] == "C":
                r.counts.setdefault(int(w[1]), {})[w[2]] = int(w[3])
            elif w[0] == "T":
                r.trace.append(unhx(w[1]).decode("latin1"))
            elif w[0] == "H":
                r.hash = w[1]
            elif w[0] == "B":
                r.switches, r.steps = int(w[1]), int(w[2])
        for p in r.procs:
            if p[0] == "lost":
                raise CheckError("simulator lost a process: %s" % rnd)
        # contents are fetched now: the simulator only remembers its last run
        if l.blobbytes > 200 << 20:
            l.blobs, l.blobbytes = {}, 0
        data = {}
        for nm, (size, h) in r.files.items():
            if nm.startswith(("/", "../")):
                continue
            if h not in l.blobs:
                l.blobs[h] = l.io.get(nm)
                l.blobbytes += size
            data[nm] = l.blobs[h]
        r.content = lambda nm: data[nm]
        return r

    def exact(self, ctx, toolname, args):
        """fault-free output and call counts"""
        l = self.loc(ctx)
        k = (toolname, tuple(args))
        if k not in l.exact:
            r = self.round(ctx, {}, {"procs": [{"tool": toolname, "args": list(args)}]})
            e = Ctx()
            e.proc = r.procs[0]
            e.files = {f: r.content(f) for f in r.files}
            e.counts = r.counts.get(0, {})
            e.hash = r.hash
            e.made = r.made
            # names it uses besides its outputs, in an empty directory and when the outputs exist
            r = self.round(ctx, dict(e.files), {"procs": [{"tool": toolname, "args": list(args)}]})
            e.made = sorted(f for f in set(e.made + r.made) if f not in outputs(toolname, args))
            l.exact[k] = e
        return l.exact[k]

    def semantic(self, ctx, toolname, args):
        """None, or what is wrong with the fault-free output"""
        l = self.loc(ctx)
        k = (toolname, tuple(args))
        if k not in l.checked:
            l.checked[k] = self._semantic(ctx, toolname, args)
        return l.checked[k]

    def _semantic(self, ctx, toolname, args):
        l = self.loc(ctx)
        e = self.exact(ctx, toolname, args)
        if e.proc[:2] != ("exit", 0):
            return "%s %s fails without any fault: %s %s, stderr %r" % (toolname, args, e.proc[0], e.proc[1], e.proc[3][:200])
        h, c = outputs(toolname, args)
        for f in (h, c):
            if f not in e.files:
                return "%s %s does not write %s" % (toolname, args, f)
        const, tabs, opt = reference(toolname, args)
        sk = (skeleton(e.files[h]), skeleton(e.files[c]))
        if sk in l.skeletons.get((toolname, args[0]), ()) and plain(e.files[h], e.files[c], const, tabs, opt):
            return None
        bad = self._compiled(l, h, c, e, const, tabs, opt)
        if bad is None:
            l.skeletons.setdefault((toolname, args[0]), set()).add(sk)
        return bad

    def _compiled(self, l, h, c, e, const, tabs, opt):
        s = l.cc.header(h, e.files[h], const)
        if s is None:
            return "%s does not compile" % h
        d = compare_header(s, const, False) or "".join("table %s is not declared; " % x for x in l.cc.undeclared(h, e.files[h], tabs))
        if d:
            return "%s: %s" % (h, d)
        s = l.cc.source(c, e.files[c], h, e.files[h])
        if s is None:
            return "%s does not compile" % c
        d = compare_source(s, tabs, opt, False)
        return "%s: %s" % (c, d) if d else None

    # ---- scenario pieces
    def pick_root(self, ctx, rng, n, i=None):
        # a few roots per size for each residue of the run number, so that the
        # reference tables of one worker are used many times
        if i is None:
            return rng.choice(ctx.roots[n])
        return rng_for("root", ctx.seed, n, i % 8, rng.randrange(ctx.nroots)).choice(ctx.roots[n])

    def pick_args(self, ctx, rng, toolname, small=False, i=None):
        if toolname.endswith("bitrev_table"):
            k = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]) if not small else rng.randint(1, 11)
            if k > 12 and rng.random() < .7:
                k = rng.randint(4, 11)
            return [str(1 << k)]
        n = 1 << rng.randint(1, 11)
        if rng.random() < .4:
            n = rng.choice([16, 256, 512, 1024])
        known = {16: 1212, 256: 1002, 512: 1003, 1024: 1014}
        psi = known[n] if n in known and rng.random() < .5 else self.pick_root(ctx, rng, n, i)
        return [str(n), str(psi)]

    def pick_names(self, rng, names):
        up = [x for x in names if x.isupper()]
        return rng.sample(up, min(3, len(up))) + [rng.choice(names)]

    def pick_env(self, ctx, rng, p):
        if rng.random() < .5:
            p["mem"] = rng.getrandbits(40) + 1
        if rng.random() < .3:
            p["env"] = ["V%d=%s" % (i, "x" * rng.randint(0, 200)) for i in range(rng.randint(1, 4))]
        if rng.random() < .3:
            p.setdefault("env", []).append("GLIBC_TUNABLES=glibc.malloc.perturb=%d" % rng.randint(1, 255))
        if rng.random() < .4:
            p.setdefault("env", []).extend(rng.sample(["LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_ALL=C", "LC_NUMERIC=de_DE", "TZ=Pacific/Apia", "TMPDIR=/tmp", "TMPDIR=/nonexistent", "HOME=/", "USER=x", "PWD=/elsewhere",
                                                       "SOURCE_DATE_EPOCH=1", "DEBUG=1", "VERBOSE=1", "V=1", "MAKEFLAGS=-j8", "MAKELEVEL=2", "MALLOC_PERTURB_=85", "POSIXLY_CORRECT=1", "COLUMNS=20", "OUT=/tmp", "PREFIX=x", "Q=17"], 4))
        if ctx.names.get(p["tool"]) and rng.random() < .4:
            p.setdefault("env", []).extend("%s=%s" % (x, rng.choice(["", "0", "1", "2", "yes", "/tmp", "x", "-1", "16"])) for x in self.pick_names(rng, ctx.names[p["tool"]]))
        if rng.random() < .1:           # standard streams that are not open: the outputs get their numbers
            p["closed"] = rng.choice([[0], [1], [2], [0, 1], [1, 2], [0, 2], [0, 1, 2]])
        if rng.random() < .5:
            p["world"] = [rng.choice([32, 992, 32736, 4194000, rng.randrange(64, 4000000)]), rng.choice([0, 0o22, 0o27, 0o77, 0o177]),
                          rng.choice([0, 1, 1600000000, 2147483646, 4294967295, rng.randrange(1 << 33)]), rng.choice([0, 1, 1000003, 10 ** 9, 86400 * 10 ** 9, -10 ** 9])]
        return p

    def pick_fault(self, rng, counts, who=0, classes=("open", "write", "close", "mem", "meta")):
        avail = [c for c in classes if counts.get(c, 0) > 0] or ["write"]
        w = {"open": 2, "write": 6, "close": 3, "mem": 1.5, "meta": .7}
        c = rng.choices(avail, [w[x] for x in avail])[0]
        n = max(1, counts.get(c, 1))
        o = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n), rng.randrange(n)])
        if c == "open":
            e = rng.choice(["EACCES", "ENOSPC", "EMFILE", "ENFILE", "EINTR", "EROFS", "EIO", "EDQUOT", "ENOMEM"])
            return [who, c, o, ("e%d" if rng.random() < .7 else "stick%d") % E[e], 0]
        if c == "write":
            x = rng.random()
            if x < .25:
                return [who, c, o, "short", rng.choice([1, 2, 7, 100, 511, 512, 2048, 4095, rng.randint(1, 4095)])]
            e = rng.choice(["ENOSPC", "ENOSPC", "EIO", "EIO", "EDQUOT", "EFBIG", "EINTR", "EAGAIN"])
            return [who, c, o, ("e%d" if x < .7 else "stick%d") % E[e], 0]
        if c == "close":
            return [who, c, o, "e%d" % E[rng.choice(["EIO", "ENOSPC", "EDQUOT", "EINTR"])], 0]
        if c == "mem":
            return [who, c, o, ("stick%d" if rng.random() < .7 else "e%d") % E["ENOMEM"], 0]
        return [who, c, o, "e%d" % E[rng.choice(["EIO", "ENOMEM", "EACCES"])], 0]

    def count_faults(self, st, r):
        if st is None:
            return
        for w in r.fired:
            k = w[3]
            nm = k
            if k[0] == "e" and k[1:].isdigit():
                nm = ENAME.get(int(k[1:]), k)
            elif k.startswith("stick"):
                nm = ENAME.get(int(k[5:]), k) + "-persistent"
            elif k == "diskfull":
                nm = "disk-full"
            st.add("fault:%s %s" % (w[1] if w[1] != "any" else "process", nm))
        st.add("time:simulated_system_calls", r.steps)

    def build_init(self, ctx, scen):
        files = {}
        for d in scen.get("init", []):
            k = d["kind"]
            if k == "exact":
                e = self.exact(ctx, d["tool"], d["args"])
                for f in outputs(d["tool"], d["args"]):
                    if f in e.files and d.get("only") in (None, f[-1]):
                        files[f] = e.files[f]
            elif k == "prefix":
                e = self.exact(ctx, d["tool"], d["args"])
                for f in outputs(d["tool"], d["args"]):
                    if f in e.files:
                        files[f] = e.files[f][:int(len(e.files[f]) * d["frac"])]
            elif k == "corrupt":        # the right output (or that of another root), damaged in one place
                e = self.exact(ctx, d["tool"], d["args"])
                for f, g in zip(outputs(d["tool"], d["args"]), outputs(d["tool"], d.get("from", d["args"]))):
                    b = bytearray(self.exact(ctx, d["tool"], d.get("from", d["args"])).files.get(g, b""))
                    if not b:
                        continue
                    at = min(len(b) - 1, int(len(b) * d["frac"]))
                    how = d["how"]
                    if how == "digit":
                        while at and not 48 <= b[at] <= 57:
                            at -= 1
                        b[at] = 48 + (b[at] + 1) % 10
                    elif how == "byte":
                        b[at] ^= 1
                    elif how == "zeros":
                        b[at:] = bytes(len(b) - at)
                    elif how == "cut":
                        del b[at:]
                    elif how == "append":
                        b += b"#error leftover\n" * (1 + at % 7)
                    if how == "line":
                        ls = bytes(b).split(b"\n")
                        del ls[int(len(ls) * d["frac"]) % len(ls)]
                        b = b"\n".join(ls)
                    if d.get("only") in (None, f[-1]):
                        files[f] = bytes(b)
            elif k == "garbage":
                r = rng_for(d["seed"])
                files[d["name"]] = r.randbytes(d["len"])
            elif k == "syntax":
                files[d["name"]] = (b"} not C at all (\n" * (d["len"] // 17 + 1))[:max(2, d["len"])]
        return files

    def pick_corrupt(self, ctx, rng, t, a):
        d = {"kind": "corrupt", "tool": t, "args": list(a), "how": rng.choice(["digit", "digit", "byte", "zeros", "cut", "append", "line", "none"]),
             "frac": rng.choice([0, .5, .99, 1, rng.random(), rng.random()]), "only": rng.choice([None, None, "h", "c"])}
        if len(a) == 2 and rng.random() < .3:
            d["from"] = [a[0], str(rng.choice(ctx.roots[int(a[0])]))]
        return d

    # ---- shrinking common to all
    def shrink(self, ctx, scen, test):
        budget = [300]
        s = json.loads(json.dumps(scen))

        def attempt(mut):
            if budget[0] <= 0:
                return False
            t = json.loads(json.dumps(s))
            mut(t)
            budget[0] -= 1
            if t != s and test(t):
                s.clear()
                s.update(t)
                return True
            return False
        i = 0
        while i < len(s["rounds"]) and len(s["rounds"]) > 1:
            if not attempt(lambda t: t["rounds"].pop(i)):
                i += 1
        for j in range(len(s.get("init", [])) - 1, -1, -1):
            attempt(lambda t: t["init"].pop(j))
        for ri in range(len(s["rounds"])):
            for fi in range(len(s["rounds"][ri].get("faults", [])) - 1, -1, -1):
                attempt(lambda t: t["rounds"][ri]["faults"].pop(fi))
            attempt(lambda t: t["rounds"][ri].pop("cap", None))
            attempt(lambda t: t["rounds"][ri].pop("dirs", None))
            for pi in range(len(s["rounds"][ri]["procs"])):
                for k in ("env", "mem", "argv0", "world", "closed"):
                    attempt(lambda t: t["rounds"][ri]["procs"][pi].pop(k, None))
            sc = s["rounds"][ri].get("sched")
            if sc:
                nz = [i for i, v in enumerate(sc) if v]

                def with_nz(keep):
                    t = json.loads(json.dumps(s))
                    ks = set(keep)
                    q = [v if i in ks else 0 for i, v in enumerate(sc)]
                    while q and q[-1] == 0:
                        q.pop()
                    t["rounds"][ri]["sched"] = q
                    return t
                keep = ddmin_list(nz, lambda k: test(with_nz(k)), budget)
                t = with_nz(keep)
                if test(t):
                    s.clear()
                    s.update(t)
        return s

    def describe(self, ctx, scen, res):
        out = []
        files = self.build_init(ctx, scen)
        modes = {}
        for i, rnd in enumerate(scen["rounds"]):
            r = self.round(ctx, files, rnd, trace=True, modes=modes)
            modes = r.modes
            out.append("round %d: %s" % (i, json.dumps(rnd)[:500]))
            t = r.trace
            out += t if len(t) < 120 else t[:60] + ["... %d calls ..." % (len(t) - 120)] + t[-60:]
            out.append("ended: %s" % [p[:2] for p in r.procs])
            files = {f: r.content(f) for f in r.files if "/" not in f}
        return out

    def sig_of(self, p):
        if p[0] == "signal":
            return "hang" if p[1] == 24 else "signal-%d" % p[1]
        return p[0]


class C01(GenSim):
    prop = "C01"
    level = "fault_enumeration"
    counts = {"quick": 16000, "thorough": 400000}
    rule = ("a run is one generator execution with a seeded plan of failing, short and interrupted calls (or a disk capacity); "
            "non-trivial: at least one injected fault actually fired; distinct by the complete call log")

    def scenario(self, ctx, rng, i):
        t = rng.choices(list(TOOLS), [3, 3, 3, 1, 1, 1])[0]
        args = self.pick_args(ctx, rng, t, i=i)
        e = self.exact(ctx, t, args)
        p = self.pick_env(ctx, rng, {"tool": t, "args": args})
        rnd = {"procs": [p], "faults": []}
        x = rng.random()
        if rng.random() < .02:          # something else has the name of an output
            rnd["dirs"] = rng.choice([[f] for f in outputs(t, args)] + [list(outputs(t, args))])
        if x < .08:
            pass
        elif x < .25:
            total = sum(len(c) for c in e.files.values())
            rnd["cap"] = rng.choice([0, total - 1, rng.randrange(total + 1), rng.randrange(total + 1), max(0, total - rng.randrange(1, 4096))]) if total else 0
        else:
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])):
                rnd["faults"].append(self.pick_fault(rng, e.counts))
            if rng.random() < .3:       # a short write, then trouble right after it
                nw = max(1, e.counts.get("write", 1))
                o = rng.randrange(nw)
                rnd["faults"] += [[0, "write", o, "short", rng.randint(1, 4095)], [0, "write", o + 1, "e%d" % E[rng.choice(["ENOSPC", "EIO", "EINTR"])], 0]]
        return {"rounds": [rnd]}

    def execute(self, ctx, scen, st=None):
        rnd = scen["rounds"][0]
        p = rnd["procs"][0]
        t, args = p["tool"], p["args"]
        bad = self.semantic(ctx, t, args)
        if bad:
            return Result("wrong-tables", "without any fault, %s %s: %s" % (t, " ".join(args), bad), self.exact(ctx, t, args).hash)
        e = self.exact(ctx, t, args)
        files = self.build_init(ctx, scen)
        r = self.round(ctx, files, rnd)
        how, code, nops, err, out = r.procs[0]
        self.count_faults(st, r)
        if st:
            st.seen("argument_sets", (t, tuple(args)))
            st.seen("call_logs", r.hash)
            if r.fired:
                st.seen("nontrivial", r.hash)
            st.add("probe:exit %s" % (code if how == "exit" else how))
            if how == "exit" and code == 0 and r.fired:
                st.add("probe:success despite faults")
            if r.fired:
                st.sample({"tool": t, "args": args, "faults": rnd.get("faults"), "cap": rnd.get("cap"), "fired": [" ".join(w) for w in r.fired][:5], "exit": code, "stderr": err.decode("latin1")[:100]})
        desc = "%s %s with %s" % (t, " ".join(args), ["%s#%s %s" % (w[1], w[2], w[3]) for w in r.fired][:6])
        if how != "exit":
            return Result(self.sig_of(r.procs[0]), desc + " ended by %s %d" % (how, code), r.hash)
        if code == 0:
            for f in outputs(t, args):
                if f not in r.files:
                    return Result("success-without-file", desc + ": exit 0 but %s does not exist" % f, r.hash)
                c = r.content(f)
                if c != e.files[f]:
                    return Result("success-with-bad-file", desc + ": exit 0 but %s is not the complete table (%d bytes, expected %d)" % (f, len(c), len(e.files[f])), r.hash)
        else:
            if not r.fired and not rnd.get("dirs"):
                return Result("failure-without-fault", desc + ": exit %d although nothing failed, stderr %r" % (code, err[:200]), r.hash)
            if not err.strip() and 2 not in p.get("closed", []):
                return Result("silent-failure", desc + ": exit %d without any message" % code, r.hash)
        return Result(None, "", r.hash)


class C02(GenSim):
    prop = "C02"
    level = "fault_enumeration"
    counts = {"quick": 14000, "thorough": 300000}
    seconds = {"quick": 200, "thorough": 3000}
    rule = ("a run is one generator execution from a seeded previous state of its output files, killed before or after a chosen system call or hit by a failing call; "
            "non-trivial: the run was killed or failed; distinct by the complete call log including the final directory")

    def scenario(self, ctx, rng, i):
        t = rng.choices(list(TOOLS), [3, 3, 3, 1, 1, 1])[0]
        args = self.pick_args(ctx, rng, t, small=True)
        e = self.exact(ctx, t, args)
        init = []
        x = rng.random()
        old = None
        if x < .4:
            old = list(args)
            if len(args) == 2 and rng.random() < .6:
                old[1] = str(rng.choice(ctx.roots[int(args[0])]))
            init.append({"kind": "exact", "tool": t, "args": old, "only": rng.choice([None, None, None, "h", "c"])})
        elif x < .5:
            for f in outputs(t, args):
                init.append({"kind": "syntax", "name": f, "len": rng.choice([10, 3000, 30000])})
        elif x < .6:
            init.append({"kind": "prefix", "tool": t, "args": args, "frac": rng.random()})
        rnd = {"procs": [self.pick_env(ctx, rng, {"tool": t, "args": args})], "faults": []}
        nops = max(1, e.counts.get("any", 1))
        nw = max(1, e.counts.get("write", 1))
        x = rng.random()
        if x < .5:
            if rng.random() < .5:      # cut a write short just before the kill
                o = rng.randrange(nw)
                rnd["faults"].append([0, "write", o, "short", rng.randint(1, 4095)])
                rnd["faults"].append([0, "write", o + rng.randrange(2), rng.choice(["kill", "killafter"]), 0])
            else:
                rnd["faults"].append([0, "any", rng.randrange(nops), rng.choice(["kill", "killafter"]), 0])
        elif x < .65:
            total = sum(len(c) for c in e.files.values())
            # what the previous files occupy counts as well
            rnd["cap"] = rng.randrange(total * 2 + 1)
        else:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                rnd["faults"].append(self.pick_fault(rng, e.counts, classes=("open", "write", "close", "mem")))
        return {"init": init, "old": old, "rounds": [rnd]}

    def leftover(self, ctx, t, f, content, refs):
        """None if the leftover cannot be used silently wrong"""
        l = self.loc(ctx)
        h, c = outputs(t, refs[0])
        why = None
        for a in refs:
            const, tabs, opt = reference(t, a)
            if f == h:
                s = l.cc.header(h, content, const)
                d = None if s is None else compare_header(s, const, True)
            else:
                s = l.cc.source(c, content, h, self.exact(ctx, t, refs[0]).files.get(h, b""))
                d = None if s is None else compare_source(s, tabs, opt, True)
            if d is None:
                return None
            why = why or d
        return why

    def execute(self, ctx, scen, st=None):
        rnd = scen["rounds"][0]
        p = rnd["procs"][0]
        t, args = p["tool"], p["args"]
        files = self.build_init(ctx, scen)
        r = self.round(ctx, files, rnd)
        how, code, nops, err, out = r.procs[0]
        self.count_faults(st, r)
        if st:
            st.add("probe:ended %s" % (how if how != "exit" else "exit %d" % code))
            st.seen("call_logs", r.hash)
            if how == "killed" or (how == "exit" and code != 0):
                st.seen("nontrivial", r.hash)
                st.sample({"tool": t, "args": args, "faults": rnd.get("faults"), "cap": rnd.get("cap"), "init": [d["kind"] for d in scen["init"]], "ended": how, "left": {f: r.files[f][0] for f in r.files}})
        desc = "%s %s with %s" % (t, " ".join(args), ["%s#%s %s" % (w[1], w[2], w[3]) for w in r.fired][:6])
        if how not in ("exit", "killed"):
            return Result(self.sig_of(r.procs[0]), desc + " ended by %s %d" % (how, code), r.hash)
        if how == "exit" and code == 0 and not r.fired:
            return Result(None, "", r.hash)
        e = self.exact(ctx, t, args)
        refs = [args] + ([scen["old"]] if scen.get("old") else [])
        for f in outputs(t, args):
            if f not in r.files:
                if st:
                    st.add("probe:output absent")
                continue
            c = r.content(f)
            if c == e.files.get(f) or (f in files and c == files[f]):
                if st:
                    st.add("probe:output intact")
                continue
            if st:
                st.add("probe:output partial")
                st.seen("partial_outputs", h12(c))
            d = self.leftover(ctx, t, f, c, refs)
            if d:
                return Result("usable-wrong-leftover", desc + ": ended %s %s and left a %s of %d bytes (complete: %d) that compiles, but %s" % (how, code, f, len(c), len(e.files.get(f, b"")), d), r.hash)
        return Result(None, "", r.hash)


def pick_sched(rng, nproc, length):
    style = rng.randrange(5)
    if style == 0:
        return [rng.randrange(nproc) for _ in range(length)]
    if style == 1:      # bursts
        out = []
        while len(out) < length:
            out.append(rng.randrange(1, nproc) if nproc > 1 else 0)
            out += [0] * rng.choice([1, 2, 3, 5, 10, 40])
        return out[:length]
    if style == 2:      # a few switches only
        out = [0] * length
        for _ in range(rng.randint(1, 4)):
            out[rng.randrange(length)] = rng.randrange(1, nproc) if nproc > 1 else 0
        return out
    if style == 3:      # strict alternation
        return [1] * length
    # one process runs k calls and then stalls until the others finished
    k = rng.randrange(length)
    return [0] * min(k, length) + [1] + [0] * max(0, length - k - 1)


class C03(GenSim):
    prop = "C03"
    counts = {"quick": 8000, "thorough": 200000}
    rule = ("a run is 2-4 concurrent generator processes in one directory under a seeded schedule of their file operations, with stalls and partial writes; "
            "non-trivial: at least one switch between processes while both were in progress; distinct by the complete call log")

    def scenario(self, ctx, rng, i):
        np = rng.choice([2, 2, 2, 3, 3, 4])
        procs, owners = [], {}
        while len(procs) < np:
            if procs and rng.random() < .55:
                q = rng.choice(procs)
                t, args = q["tool"], list(q["args"])
            else:
                t = rng.choices(list(TOOLS), [3, 3, 3, 1, 1, 1])[0]
                args = self.pick_args(ctx, rng, t, small=True)
                if rng.random() < .5:
                    args = self.pick_args(ctx, rng, t, small=True)
                if procs and rng.random() < .4:   # same size, other generator
                    n = procs[0]["args"][0]
                    if int(n) <= 2048:
                        args = [n] if t.endswith("bitrev_table") else [n, str(rng.choice(ctx.roots[int(n)]))]
            o = outputs(t, args)[0]
            if owners.get(o, (t, args)) != (t, args):
                continue
            owners[o] = (t, args)
            procs.append(self.pick_env(ctx, rng, {"tool": t, "args": args}))
        init = []
        for (t, args) in owners.values():
            x = rng.random()
            if x < .25:
                init.append({"kind": "exact", "tool": t, "args": args})
            elif x < .35:
                init.append(self.pick_corrupt(ctx, rng, t, args))
            elif x < .45:
                for f in outputs(t, args):
                    init.append({"kind": "garbage", "name": f, "len": rng.choice([3, 5000, 60000]), "seed": rng.getrandbits(32)})
        if rng.random() < .3:
            init.append({"kind": "garbage", "name": rng.choice(["notes.txt", "ntt32_tables.h", "Makefile", "bitrev4_table.tmp"]), "len": 50, "seed": rng.getrandbits(32)})
        length = sum(self.exact(ctx, p["tool"], p["args"]).counts.get("any", 10) for p in procs) + 5
        rnd = {"procs": procs, "faults": [], "sched": pick_sched(rng, np, min(length, 2500))}
        for _ in range(rng.choice([0, 0, 1, 3])):
            w = rng.randrange(np)
            rnd["faults"].append([w, "write", rng.randrange(max(1, self.exact(ctx, procs[w]["tool"], procs[w]["args"]).counts.get("write", 1))), "short", rng.randint(1, 4095)])
        return {"init": init, "rounds": [rnd]}

    def execute(self, ctx, scen, st=None):
        rnd = scen["rounds"][0]
        files = self.build_init(ctx, scen)
        want = dict(files)
        for p in rnd["procs"]:
            e = self.exact(ctx, p["tool"], p["args"])
            if e.proc[:2] != ("exit", 0):
                return Result("fails-alone", "%s %s fails alone: %s" % (p["tool"], p["args"], e.proc[:4]), e.hash)
            want.update(e.files)
        r = self.round(ctx, files, rnd)
        self.count_faults(st, r)
        if st:
            st.add("fault:stall/switch", r.switches)
            st.seen("call_logs", r.hash)
            if r.switches:
                st.seen("nontrivial", r.hash)
                st.sample({"procs": [[p["tool"]] + p["args"] for p in rnd["procs"]], "switches": r.switches, "steps": r.steps, "faults": rnd["faults"]})
            outs = [outputs(p["tool"], p["args"])[0] for p in rnd["procs"]]
            if len(set(outs)) < len(outs):
                st.add("probe:same arguments concurrently")
        desc = " || ".join(" ".join([p["tool"]] + p["args"]) for p in rnd["procs"]) + " (%d switches)" % r.switches
        for i, (how, code, nops, err, out) in enumerate(r.procs):
            if (how, code) != ("exit", 0):
                return Result("run-disturbed", desc + ": process %d ended %s %d, stderr %r" % (i, how, code, err[:200]), r.hash)
        for f, c in sorted(want.items()):
            if f not in r.files:
                return Result("file-lost", desc + ": %s is missing at the end" % f, r.hash)
            got = r.content(f)
            if got != c:
                return Result("file-damaged", desc + ": %s is not exact at the end (%d bytes, expected %d)" % (f, len(got), len(c)), r.hash)
        extra = [f for f in r.files if f not in want] + r.dirs
        if extra:
            return Result("stray-file", desc + ": unexpected files %s" % extra[:5], r.hash)
        return Result(None, "", r.hash)


class C04(GenSim):
    prop = "C04"
    counts = {"quick": 5000, "thorough": 120000}
    rule = ("a run is a seeded history of 2-8 generator executions (valid, invalid, killed, failing) in one simulated directory compared after each with a model of the directory; "
            "non-trivial: the history contains at least two kinds of steps; distinct by the call logs")

    def invalid(self, ctx, rng, t):
        bit = t.endswith("bitrev_table")
        good = self.pick_args(ctx, rng, t, small=True)
        n = int(good[0])
        badn = rng.choice(["0", "1", "-1", "-16", "3", "6", "12", "15", "17", "24", "100", "255", "257", "768", "1000", "1023", "1025", "2047", "3072",
                           "65536" if bit else "131072", "65535" if bit else "100000", "131072", "262144", "1048576", "2147483648", "4294967296", "4294967312", "4294967298",
                           "8589935616", "-4294967280", "99999999999999999999", "abc", "", "x16", "-", "0x10", "--help", str(n + 1), str(-n), str(n * 3)])
        if bit:
            return rng.choice([[badn], [badn], [], [good[0], good[0]], [good[0], "1", "2"]])
        r = ctx.roots[n]
        other = rng.choice([m for m in ctx.roots if m != n])
        badpsi = rng.choice(["0", "1", "-1", "12288", "12289", "12290", "24578", str(Q + r[0]), str(r[0] - Q), str(4294967296 + r[0]), "-" + str(r[0]),
                             "abc", "", str(rng.choice(ctx.roots[other])), str(next(x for x in range(2, Q) if pow(x, n, Q) not in (1, Q - 1))),
                             str(rng.choice([x for x in range(2, 400) if pow(x, n, Q) != Q - 1]))])
        if n == 2 and badpsi == "12288":
            badpsi = "0"
        x = rng.random()
        if x < .35:
            return [badn, good[1]]
        if x < .8:
            return [good[0], badpsi]
        return rng.choice([[], [good[0]], good + ["1"], [badn, badpsi], good + [""]])

    def scenario(self, ctx, rng, i):
        universe = []
        for _ in range(rng.randint(1, 3)):
            t = rng.choices(list(TOOLS), [3, 3, 3, 1, 1, 1])[0]
            universe.append((t, self.pick_args(ctx, rng, t, small=True)))
        init = []
        for t, a in universe:
            x = rng.random()
            if x < .35:
                init.append(self.pick_corrupt(ctx, rng, t, a))
            elif x < .6:
                for f in outputs(t, a):
                    init.append({"kind": "garbage", "name": f, "len": rng.choice([0, 1, 100, 4096, 50000, 300000]), "seed": rng.getrandbits(32)})
        for t, a in universe:
            for f in self.exact(ctx, t, a).made:      # a file of somebody else under a name the generator uses on the way
                if "/" not in f and rng.random() < .3:
                    init.append({"kind": "garbage", "name": f, "len": rng.choice([0, 64, 100000]), "seed": rng.getrandbits(32)})
        for _ in range(rng.randrange(3)):
            init.append({"kind": "garbage", "name": rng.choice(["README", "ntt64_tables.h", "a.o", "tables.tmp", "ntt_red8_tables.c"]), "len": 64, "seed": rng.getrandbits(32)})
        rounds = []
        for _ in range(rng.randint(2, 8)):
            t, a = rng.choice(universe)
            if len(a) == 2 and rng.random() < .2:
                a = [a[0], str(rng.choice(ctx.roots[int(a[0])]))]
            x = rng.random()
            rnd = {"faults": []}
            if x < .45:
                rnd["kind"] = "valid"
                args = a
            elif x < .75:
                rnd["kind"] = "invalid"
                args = self.invalid(ctx, rng, t)
            else:
                rnd["kind"] = "crash"
                args = a
                e = self.exact(ctx, t, a)
                if rng.random() < .6:
                    rnd["faults"].append([0, "any", rng.randrange(max(1, e.counts.get("any", 1))), rng.choice(["kill", "killafter"]), 0])
                else:
                    rnd["faults"].append(self.pick_fault(rng, e.counts, classes=("open", "write", "close")))
            p = self.pick_env(ctx, rng, {"tool": t, "args": list(args)})
            if rng.random() < .2:
                p["argv0"] = rng.choice(["make_tables", "", "/a/very/long/" + "p" * 300, "./%s%n"])
            rnd["procs"] = [p]
            rounds.append(rnd)
        # end with a recovery run
        t, a = rng.choice(universe)
        rounds.append({"kind": "valid", "faults": [], "procs": [self.pick_env(ctx, rng, {"tool": t, "args": list(a)})]})
        return {"init": init, "rounds": rounds}

    def execute(self, ctx, scen, st=None):
        files = self.build_init(ctx, scen)
        hs, modes = [], {}
        kinds = set()
        for i, rnd in enumerate(scen["rounds"]):
            p = rnd["procs"][0]
            t, args = p["tool"], p["args"]
            if not p["args"] and False:
                continue
            r = self.round(ctx, files, rnd, modes=modes)
            hs.append(r.hash)
            self.count_faults(st, r)
            how, code, nops, err, out = r.procs[0]
            kinds.add(rnd["kind"])
            if st:
                st.add("probe:%s step" % rnd["kind"])
            new = {f: r.content(f) for f in r.files if not f.startswith(("/", "../"))}
            stray = [f for f in r.files if f.startswith(("/", "../"))] + r.dirs
            hh = h12(*hs)
            desc = "step %d: %s %s" % (i, t, " ".join(repr(a) if not a.isdigit() else a for a in args))
            changed = [f for f in sorted(set(new) | set(files)) if new.get(f) != files.get(f) or f in files and r.modes.get(f) != modes.get(f, 0o644)]
            modes = r.modes
            if rnd["kind"] == "invalid":
                if how != "exit":
                    return Result("invalid-" + self.sig_of(r.procs[0]), desc + " ended %s %d" % (how, code), hh)
                if code == 0:
                    return Result("invalid-accepted", desc + ": exit 0 for arguments that are not valid", hh)
                if not err.strip() and 2 not in p.get("closed", []):
                    return Result("invalid-silent", desc + ": rejected without a message", hh)
                if changed or stray:
                    return Result("invalid-changes-directory", desc + ": rejected, but changed %s" % (changed + stray)[:5], hh)
            elif rnd["kind"] == "valid":
                e = self.exact(ctx, t, args)
                if (how, code) != ("exit", 0):
                    return Result("valid-fails", desc + ": ended %s %d, stderr %r" % (how, code, err[:200]), hh)
                for f in outputs(t, args):
                    if f not in new or new[f] != e.files.get(f):
                        return Result("history-dependent-output", desc + ": %s differs from the output in an empty directory (%s bytes, expected %d)" % (f, len(new[f]) if f in new else "no", len(e.files.get(f, b""))), hh)
                other = [f for f in changed if f not in outputs(t, args)]
                if other or stray:
                    return Result("changes-other-file", desc + ": changed %s" % (other + stray)[:5], hh)
            else:
                # killed or failing: only its own outputs (and new private files) may differ
                other = [f for f in changed if f not in outputs(t, args) and f in files]
                if other:
                    return Result("crash-changes-other-file", desc + ": %s ended %s and changed %s" % (rnd["faults"], how, other[:5]), hh)
            files = new
        if st:
            st.seen("call_logs", h12(*hs))
            st.add("time:history_steps", len(scen["rounds"]))
            if len(kinds) > 1:
                st.seen("nontrivial", h12(*hs))
                st.sample({"history": [[r2["kind"], r2["procs"][0]["tool"]] + r2["procs"][0]["args"] + r2["faults"] for r2 in scen["rounds"]], "init": [d["name"] if "name" in d else d["kind"] for d in scen["init"]]})
        return Result(None, "", h12(*hs))


SIMS = {"C01": C01, "C02": C02, "C03": C03, "C04": C04}
