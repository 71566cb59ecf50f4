#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] FILE:CHECK[,CHECK...] ...   (development tool, not a check)

Makes N random one-token changes to each source file (under src/) in a scratch copy of
/repo and runs the given checks on it; prints what survives all of them, to be looked at by hand."""
import os, sys, re, random, shutil, subprocess, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("<", "<="), (">", ">=")]


def strip(line):
    return re.sub(r"//.*", "", line)


def cands_c(text):
    out, depth = [], 0
    inc = False
    for no, l in enumerate(text.split("\n")):
        s = l.strip()
        if s.startswith("/*"):
            inc = "*/" not in s
            continue
        if inc:
            inc = "*/" not in s
            continue
        if not s or s.startswith(("#", "//", "*", "assert", "extern", "typedef")):
            continue
        c = strip(l)
        for m in re.finditer(r"(?<![<>=!+\-*/|&])(<=|>=|==|!=|<|>)(?![<>=])", c):
            if "#include" in c:
                continue
            for a, b in REL:
                if m.group(1) == a:
                    out.append((no, m.start(), a, b))
        for m in re.finditer(r"(?<=[\w\)\] ])([+\-])(?=[ \w\(])", c):
            if c[m.start() - 1:m.start() + 2] in ("++", "--") or '"' in c[:m.start()]:
                continue
            out.append((no, m.start(), m.group(1), "-" if m.group(1) == "+" else "+"))
        for m in re.finditer(r"(?<![\w.%])(\d+)(?![\w.])", c):
            if '"' in c[:m.start()] and '"' in c[m.end():]:
                continue
            v = int(m.group(1))
            for d in (1, -1):
                if v + d >= 0:
                    out.append((no, m.start(), m.group(1), str(v + d)))
        for a, b in (("<<", ">>"), (">>", "<<"), (" & ", " | "), (" | ", " & "), ("&&", "||"), ("||", "&&"), (" * ", " + "), (" % ", " / ")):
            for m in re.finditer(re.escape(a), c):
                out.append((no, m.start(), a, b))
        if re.match(r"\s+[\w\[\]\+\-\* .>&]+(=|\+=|-=|\()[^;]*;\s*$", c) and not re.match(r"\s*(return|u?int\d+_t|interval_t|FILE|char|bool|long)\b", c):
            out.append((no, -1, "", ""))
        m = re.match(r"(\s*return )(.*);", c)
        if m and re.search(r"[a-z]", m.group(2)) and "(" not in m.group(2):
            pass
    return out


def cands_s(text):
    out = []
    inc = False
    for no, l in enumerate(text.split("\n")):
        s = strip(l).strip()
        if s.startswith("/*"):
            inc = "*/" not in s
            continue
        if inc:
            inc = "*/" not in s
            continue
        if not s or s.startswith((".", "#", "*")) or s.endswith(":") and not s.startswith("v"):
            if s.startswith(".long"):
                for m in re.finditer(r"\d+", l):
                    out.append((no, m.start(), m.group(0), str(int(m.group(0), 0) + 1)))
            continue
        out.append((no, -1, "", ""))
        c = strip(l)
        for m in re.finditer(r"(?<![\w])(\d+)(?!\w)", c):
            out.append((no, m.start(), m.group(1), str(int(m.group(1)) + random.choice([1, -1, 4, 8]))))
        for m in re.finditer(r"\b([yx]mm)(\d+)\b", c):
            out.append((no, m.start(), m.group(0), m.group(1) + str((int(m.group(2)) + random.choice([1, 2, 5])) % 16)))
        for a, b in (("vpaddd", "vpsubd"), ("vpsubd", "vpaddd"), ("vmovdqu", "vmovdqa"), ("jb", "jbe"), ("jne", "je"), ("jl", "jle"), ("vpsrad", "vpsrld"), ("vpsrlq", "vpsrld"), ("vpmovsxwd", "vpmovzxwd"), ("vpmovsxwq", "vpmovzxwq")):
            for m in re.finditer(r"\b%s\b" % a, c):
                out.append((no, m.start(), a, b))
    return out


def apply(text, m):
    ls = text.split("\n")
    no, col, a, b = m
    ls[no] = "" if col < 0 else ls[no][:col] + b + ls[no][col + len(a):]
    return "\n".join(ls)


def main():
    n, seed, tgt = 20, 1, []
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "--n":
            n = int(a.pop(0))
        elif x == "--seed":
            seed = int(a.pop(0))
        else:
            tgt.append(x)
    random.seed(seed)
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        r = os.path.join(w, "repo")
        os.mkdir(r)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + r, shell=True, check=True)
        for t in tgt:
            f, cs = t.split(":")
            p = os.path.join(r, "src", f)
            orig = open(p).read()
            c = cands_s(orig) if f.endswith(".S") else cands_c(orig)
            random.shuffle(c)
            kill = {}
            for m in c[:n]:
                open(p, "w").write(apply(orig, m))
                res, t0 = None, time.time()
                for ck in cs.split(","):
                    try:
                        q = subprocess.run([sys.executable, "check.py", ck, "quick"], cwd=V, env=dict(os.environ, NTT_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                        rc = q.returncode
                        if rc == 3 and b"rror:" in q.stdout and b"simulator" not in q.stdout:
                            res = "build"
                            break
                        if rc:
                            res = "%s:%d" % (ck, rc)
                            if rc == 1:
                                break
                    except subprocess.TimeoutExpired:
                        res = ck + ":timeout"
                kill[res] = kill.get(res, 0) + 1
                if res is None or not res.endswith(":1") and res != "build":
                    print("%-9s %s:%d  %s -> %s   | %s  (%.0f s)" % (res or "SURVIVED", f, m[0] + 1, m[2] or "delete", m[3], orig.split("\n")[m[0]].strip(), time.time() - t0), flush=True)
            open(p, "w").write(orig)
            print("%s: %s" % (f, kill), flush=True)
    finally:
        shutil.rmtree(w)


main()
