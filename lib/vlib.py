"""Shared parts of the checks: builds, workers, gating, evidence."""
import os, sys, json, time, shutil, subprocess, tempfile, hashlib, random, struct, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NTT_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself could not do its work (not a verdict on the code)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, cwd=None, env=None, timeout=300, ok=(0,)):
    e = dict(os.environ)
    for k in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "CC", "MFLAGS", "LDFLAGS"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    if env:
        e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if ok is not None and r.returncode not in ok:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, cmd, r.stdout.decode("utf8", "replace")[-3000:]))
    return r


def rng_for(seed, *parts):
    return random.Random(":".join(str(x) for x in (seed,) + parts))


class Scratch:
    """A private directory, removed at exit."""
    def __init__(self, tag):
        self.path = tempfile.mkdtemp(prefix="nttv-%s-" % tag)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def tool(name, src, flags, work=None, extra_deps=()):
    """Compile one of our simulators into VERIF/build (or the scratch dir if
    that is not writable); recompiled when its source changed."""
    h = hashlib.sha256()
    for f in [src] + list(extra_deps):
        h.update(open(os.path.join(VERIF, f), "rb").read())
    h.update(repr(flags).encode())
    out = os.path.join(VERIF, "build", "%s-%s" % (name, h.hexdigest()[:12]))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    sh(["g++"] + flags + ["-o", tmp, os.path.join(VERIF, src)])
    os.rename(tmp, out)
    return out


# ---------------------------------------------------------------- ELF reading
def elf_objects(path):
    """symbol name -> bytes for every defined data symbol of a relocatable."""
    d = open(path, "rb").read()
    assert d[:4] == b"\x7fELF"
    shoff = struct.unpack_from("<Q", d, 40)[0]
    shentsize, shnum, shstrndx = struct.unpack_from("<HHH", d, 58)
    S = [struct.unpack_from("<IIQQQQIIQQ", d, shoff + i * shentsize) for i in range(shnum)]
    out = {}
    for s in S:
        if s[1] != 2:
            continue
        strt = S[s[6]]
        st = d[strt[4]:strt[4] + strt[5]]
        for o in range(s[4], s[4] + s[5], 24):
            nm, info, other, shndx, val, size = struct.unpack_from("<IBBHQQ", d, o)
            if (info & 15) != 1 or shndx == 0 or shndx >= 0xff00:
                continue
            name = st[nm:st.index(b"\0", nm)].decode()
            sec = S[shndx]
            out[name] = b"\0" * size if sec[1] == 8 else d[sec[4] + val:sec[4] + val + size]
    return out


# ---------------------------------------------------------------- worker pool
def _worker(fn, args, idx, nw, count, deadline, q):
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[idx % len(cpus)]})
        res = fn(args, idx, nw, count, deadline)
        q.put((idx, res, None))
    except BaseException:
        q.put((idx, None, traceback.format_exc()))


def parallel(fn, args, count, seconds, nw=None):
    """fn(args, first, step, count, deadline) -> result, in nw processes."""
    nw = nw or NCPU
    q = mp.Queue()
    deadline = time.time() + seconds
    ps = [mp.Process(target=_worker, args=(fn, args, i, nw, count, deadline, q)) for i in range(nw)]
    for p in ps:
        p.start()
    out = {}
    err = None
    while len(out) < nw and err is None:
        try:
            i, r, e = q.get(timeout=5)
            out[i] = r
            if e:
                err = e
        except Exception:
            dead = [i for i, p in enumerate(ps) if not p.is_alive() and i not in out]
            if dead:
                try:
                    i, r, e = q.get(timeout=3)
                    out[i] = r
                    if e:
                        err = e
                    continue
                except Exception:
                    err = "worker %s died with exit code %s" % (dead, [ps[i].exitcode for i in dead])
    if err:
        for p in ps:
            p.kill()
        raise CheckError(err)
    for p in ps:
        p.join()
    return [out[i] for i in range(nw)]


class Stats:
    """Counters that add up over workers."""
    def __init__(self):
        self.c = {}
        self.sets = {}
        self.samples = []

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def seen(self, k, v):
        self.sets.setdefault(k, set()).add(v)

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def merge(self, o):
        for k, v in o.c.items():
            self.add(k, v)
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.samples += o.samples[:max(0, 6 - len(self.samples))]


def h12(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:12]


# ---------------------------------------------------------------- evidence
def write_evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    os.rename(p + ".tmp", p)


def known_findings():
    """lines 'finding: property=<id> key=<key> <text>' of the committed file"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                w = l.split()
                d = dict(x.split("=", 1) for x in w[1:3])
                out[(d["property"], d["key"])] = " ".join(w[3:])
    return out


# ---------------------------------------------------------------- minimising
def ddmin_list(items, test, budget):
    """Smallest sublist (by delta debugging) for which test(sublist) is true."""
    n = 2
    items = list(items)
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        some = False
        i = 0
        while i < len(items) and budget[0] > 0:
            cand = items[:i] + items[i + size:]
            budget[0] -= 1
            if test(cand):
                items = cand
                some = True
            else:
                i += size
        if not some:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items
