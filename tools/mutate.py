#!/usr/bin/env python3
"""Developer tool: random one-line mutants of /repo (no check uses it).

  mutate.py gen N SEED OUT.json   mutants that build, pass the stable tests and
                                  change the object code
  mutate.py run IN.json OUT.json  which checks catch them (first catch ends it)
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
import threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
SKIP = {"cryptokitBignumOld.ml", "poly1305-donna-32.h"}


def sh(c, **k):
    return subprocess.run(c, shell=True, executable="/bin/bash", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def mutations(line, ml):
    out = []
    def sub(pat, rep, count=None):
        for m in re.finditer(pat, line):
            out.append(line[:m.start()] + m.expand(rep) + line[m.end():])
    sub(r"(?<![<>=\-])<(?![<>=\-])", "<=")
    sub(r"<=", "<")
    sub(r"(?<![<>=\-])>(?![<>=])", ">=")
    sub(r">=", ">")
    if ml:
        sub(r"<>", "="); sub(r" = (?=[^\n]* then)", " <> ")
        sub(r"&&", "||"); sub(r"\|\|", "&&")
        sub(r"\blxor\b", "lor"); sub(r"\bland\b", "lor"); sub(r"\blor\b", "lxor")
        sub(r"\blsl\b", "lsr"); sub(r"\bmin\b", "max"); sub(r"\bmax\b", "min")
        sub(r" \+ 1\b", ""); sub(r" - 1\b", ""); sub(r" \+ ", " - "); sub(r" - ", " + ")
        if line.rstrip().endswith(";"):
            out.append(re.sub(r"\S.*\S", "();", line, count=1))
        sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    else:
        sub(r"==", "!="); sub(r"!=", "=="); sub(r"&&", "||"); sub(r"\|\|", "&&")
        sub(r"(?<!&)&(?!&)(?= )", "|"); sub(r"(?<!\|)\|(?!\|)(?==| )", "^"); sub(r"\^(?==| )", "|")
        sub(r"<<", ">>"); sub(r">>", "<<"); sub(r"\+\+", "--"); sub(r" \+ ", " - "); sub(r" - ", " + ")
        sub(r"\+=", "="); sub(r"\^=", "=")
        if re.match(r"^\s+[^#/].*;\s*$", line) and not re.match(r"^\s*(return|break|const|static|uint|u32|u64|int|unsigned|value|size_t|struct)\b", line):
            out.append(re.match(r"^\s*", line).group(0) + ";\n")
        sub(r"\b(uint64_t|u64|size_t)\b", "uint32_t"); sub(r"\buint32_t\b", "uint16_t"); sub(r"\bunsigned char\b", "signed char")
    for m in re.finditer(r"(?<![\w.])(\d{1,3})(?![\w.])", line):
        v = int(m.group(1))
        for w in (v + 1, v - 1, v * 2):
            if w >= 0 and w != v:
                out.append(line[:m.start()] + str(w) + line[m.end():])
    for m in re.finditer(r"0x[0-9a-fA-F]{2,16}", line):
        h = m.group(0); k = random.randrange(2, len(h))
        d = "%x" % (int(h[k], 16) ^ (1 << random.randrange(4)))
        out.append(line[:m.start()] + h[:k] + d + h[k + 1:] + line[m.end():])
    return [o for o in set(out) if o != line]


def objhash(copy):
    h = hashlib.sha256()
    d = os.path.join(copy, "_build/default/src")
    r = sh("cd %s && ar p libcryptokit_stubs.a 2>/dev/null | sha256sum; ar p cryptokit.a | sha256sum" % d)
    return r.stdout


def testset(copy):
    r = sh(". /opt/vp/env.sh; cd %s/_build/default/test && timeout 60 ./test.exe > %s/_build/log 2>&1 < /dev/null; python3 /opt/vp/parse.py %s/_build/log $?" % (copy, copy, copy))
    return r.stdout


def gen(n, seed, out):
    random.seed(seed)
    files = [f for f in sorted(os.listdir("/repo/src")) if f.endswith((".c", ".h", ".ml")) and f not in SKIP]
    cand = []
    for f in files:
        L = open("/repo/src/" + f, errors="replace").read().split("\n")
        incomment = False
        for i, l in enumerate(L):
            s = l.strip()
            if f.endswith(".ml"):
                if s.startswith("(*"):
                    continue
            else:
                if incomment:
                    if "*/" in s: incomment = False
                    continue
                if s.startswith("/*"):
                    if "*/" not in s: incomment = True
                    continue
                if s.startswith(("#include", "#if", "#e", "//", "*")):
                    continue
            ms = mutations(l + "\n", f.endswith(".ml"))
            if ms:
                cand.append((f, i, [m.rstrip("\n") for m in ms]))
    by = {}
    for c in cand:
        by.setdefault(c[0], []).append(c)
    picks, seen = [], set()
    names = sorted(by)
    wt = [len(by[f]) ** 0.6 for f in names]
    while len(picks) < n:
        f = random.choices(names, wt)[0]
        c = random.choice(by[f]); m = random.choice(c[2])
        if (c[0], c[1], m) in seen: continue
        seen.add((c[0], c[1], m)); picks.append((c[0], c[1], m))
    q = queue.Queue()
    for p in picks: q.put(p)
    res, lock = [], threading.Lock()
    stat = {"build": 0, "tests": 0, "equiv": 0, "live": 0}

    def worker(k):
        w = "/tmp/mut/w%d" % k
        shutil.rmtree(w, ignore_errors=True)
        sh("mkdir -p /tmp/mut; cp -a /repo %s; rm -rf %s/.git %s/_build" % (w, w, w))
        b = ". /opt/vp/env.sh; dune build --root %s --profile release @@default 2>&1" % w
        sh(b); base, bt = objhash(w), testset(w)
        while True:
            try: f, i, m = q.get_nowait()
            except queue.Empty: break
            p = "%s/src/%s" % (w, f)
            orig = open(p, errors="surrogateescape").read()
            L = orig.split("\n"); old = L[i]; L[i] = m
            open(p, "w", errors="surrogateescape").write("\n".join(L))
            try:
                r = sh(b, timeout=120)
                if r.returncode: kind = "build"
                elif objhash(w) == base: kind = "equiv"
                elif testset(w) != bt: kind = "tests"
                else: kind = "live"
            except subprocess.TimeoutExpired:
                kind = "tests"
            open(p, "w", errors="surrogateescape").write(orig)
            with lock:
                stat[kind] += 1
                if kind == "live":
                    res.append({"file": f, "line": i + 1, "old": old, "new": m})
        shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(worker, range(8)))
    json.dump({"stat": stat, "mutants": sorted(res, key=lambda r: (r["file"], r["line"]))}, open(out, "w"), indent=1)
    print(stat)


ORDER = [(r"aes|rijndael|ghash|pclmul", "C14 C03 C01 C16 C09 C13 C12 C11"), (r"rng", "C06 C16 C11 C12"), (r"zlib", "C19 C15 C05 C11 C12 C09 C13"),
         (r"sha|md5|ripemd|keccak|blake|siphash", "C02 C13 C12 C11 C09"), (r"chacha|poly1305", "C01 C03 C02 C16 C13 C09"),
         (r"Bignum", "C08 C07"), (r"\.c$|\.h$", "C01 C02 C13 C09 C12 C11"),
         (r"cryptokit.ml", "C01 C02 C03 C18 C15 C19 C16 C05 C08 C07 C13 C04 C17 C06 C10 C09 C11 C12")]


def run(inp, out):
    d = json.load(open(inp))
    done = json.load(open(out)) if os.path.exists(out) else []
    key = lambda m: (m["file"], m["line"], m["new"])
    have = {key(m) for m in done}
    for m in d["mutants"]:
        if key(m) in have: continue
        w = tempfile.mkdtemp(prefix="mutrun.")
        try:
            sh("cp -a /repo %s/repo" % w)
            p = "%s/repo/src/%s" % (w, m["file"])
            L = open(p, errors="surrogateescape").read().split("\n"); L[m["line"] - 1] = m["new"]
            open(p, "w", errors="surrogateescape").write("\n".join(L))
            props = next(o for r, o in ORDER if re.search(r, m["file"])).split()
            m["caught"] = None; m["odd"] = []
            for pr in props:
                r = sh("cd %s && VERIF_MIN_BUDGET=0 VERIF_REPO=%s/repo timeout 880 python3 check.py %s" % (VERIF, w, pr))
                if r.returncode == 1: m["caught"] = pr; break
                if r.returncode != 0: m["odd"].append([pr, r.returncode, r.stdout[-300:]])
        finally:
            shutil.rmtree(w)
        done.append(m); json.dump(done, open(out, "w"), indent=1)
        print(m["caught"], m["file"], m["line"], m["new"].strip()[:90], m["odd"], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen": gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else: run(sys.argv[2], sys.argv[3])
