#!/usr/bin/env python3
"""Developer tool: confirm the planted bugs in /verif/seeded (no check uses it).

  seedtool.py make DEFS.py    write seeded/<id>/ from a table of definitions
  seedtool.py try ID...       in a scratch copy of /repo: apply the patch, build,
                              run the stable tests, the demo (with and without),
                              and the check of the property
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
# C sources in seeded/, OCaml sources in seeded-ocaml/
ROOTS = [os.path.join(VERIF, "seeded"), os.path.join(VERIF, "seeded-ocaml")]


def where(i):
    for r in ROOTS:
        if os.path.isdir(os.path.join(r, i)):
            return os.path.join(r, i)
    raise SystemExit("no planted bug " + i)


DEMO = """#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cp "$D"/demo.ml "$W"/ || exit 2
B=$R/_build/default/src
cd "$W" || exit 2
ocamlfind ocamlopt -thread -package zarith,unix,threads.posix -linkpkg \\
  -I $B/.cryptokit.objs/byte -I $B/.cryptokit.objs/native -I $B \\
  -ccopt -L$B $B/cryptokit.cmxa demo.ml -o demo > log 2>&1 || { cat log; exit 2; }
%RUN%
"""
SHIM = """cp "$D"/shim.c . && gcc -O1 -shared -fPIC shim.c -o shim.so -ldl || exit 2
LD_PRELOAD=$W/shim.so timeout 250 ./demo
"""
# The software implementations: the same sources built for a CPU without AES or PCLMUL
SOFT = """#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cp "$R"/src/*.c "$R"/src/*.h "$R"/src/cryptokit.ml* "$R"/src/cryptokitBignum.ml* "$D"/demo.ml "$W"/ || exit 2
cd "$W" || exit 2
for f in stubs-*.c; do
  gcc -O2 -fPIC -DEXPORT=static -DHAVE_ZLIB -DHAVE_GETENTROPY -DBLAKE3_NO_SSE2 -DBLAKE3_NO_SSE41 -DBLAKE3_NO_AVX2 -DBLAKE3_NO_AVX512 \\
    -I "$(ocamlfind ocamlopt -where)" -c $f >> log 2>&1 || { cat log; exit 2; }
done
ocamlfind ocamlopt -thread -package zarith,unix,threads.posix -linkpkg \\
  cryptokitBignum.mli cryptokitBignum.ml cryptokit.mli cryptokit.ml demo.ml stubs-*.o -cclib -lz -o demo > log 2>&1 || { cat log; exit 2; }
timeout 250 ./demo
"""
# A bytecode program
BYTE = DEMO.replace("ocamlopt -thread", "ocamlc -thread -custom").replace("cryptokit.cmxa", "cryptokit.cma").replace("%RUN%\n", "timeout 250 ./demo\n")
PRELUDE = """(* Prints what differs and exits 1 when the promise is broken *)
open Cryptokit
let hex s = transform_string (Hexa.encode()) s
let unhex s = transform_string (Hexa.decode()) s
let check what ok = if not ok then (print_endline ("BROKEN: " ^ what); exit 1)
"""

def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          executable="/bin/bash")

def make(defs):
    for d in defs:
        out = os.path.join(ROOTS[any(f.endswith(".ml") for f, _, _ in d["edits"])], d["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        w = tempfile.mkdtemp()
        try:
            sh("git -C /repo archive HEAD src | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w))
            for f, old, new in d["edits"]:
                p = os.path.join(w, f)
                s = open(p).read()
                n = s.count(old)
                k = d.get("nth", {}).get(f, None)
                if k is None:
                    assert n == 1, (d["id"], f, n)
                    s = s.replace(old, new)
                else:
                    parts = s.split(old)
                    s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                open(p, "w").write(s)
            r = sh("git diff", cwd=w)
            open(os.path.join(out, "patch.diff"), "w").write(r.stdout)
        finally:
            shutil.rmtree(w)
        open(os.path.join(out, "demo.ml"), "w").write(PRELUDE + d["demo"])
        run = "timeout 250 ./demo\n"
        if "shim" in d:
            open(os.path.join(out, "shim.c"), "w").write(d["shim"])
            run = SHIM
        open(os.path.join(out, "demo.sh"), "w").write(
            SOFT if d.get("soft") else BYTE if d.get("byte") else DEMO.replace("%RUN%\n", run))
        json.dump({"property": d["prop"], "needs": d["needs"],
                   "what_it_breaks": d["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)

def build(copy):
    return sh(". /opt/vp/env.sh; dune build --root %s --profile release @@default 2>&1" % copy)

def tests(copy):
    r = sh(". /opt/vp/env.sh; cd %s/_build/default/test && timeout 600 ./test.exe > %s/_build/log 2>&1 < /dev/null; python3 /opt/vp/parse.py %s/_build/log $?" % (copy, copy, copy))
    return r.stdout

def attempt(i, check=True, others=()):
    d = where(i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed.")
    copy = os.path.join(w, "repo")
    res = {"id": i, "property": meta["property"]}
    try:
        sh("cp -a /repo %s" % copy)
        if build(copy).returncode: res["build0"] = "FAILED"; return res
        base = tests(copy)
        r = sh("bash %s/demo.sh" % d, cwd=copy)
        res["demo_clean"] = r.returncode
        if r.returncode: res["demo_clean_out"] = r.stdout[-600:]
        r = sh("git apply %s/patch.diff" % d, cwd=copy)
        if r.returncode: res["apply"] = r.stdout; return res
        r = build(copy)
        if r.returncode: res["build"] = r.stdout[-800:]; return res
        res["tests_same"] = tests(copy) == base
        r = sh("bash %s/demo.sh" % d, cwd=copy)
        res["demo_bug"] = r.returncode
        res["demo_out"] = r.stdout[-200:]
        res["ok"] = res["tests_same"] and res["demo_clean"] == 0 and res["demo_bug"] != 0
        if check:
            for p in [meta["property"]] + list(others):
                t = time.time()
                env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
                r = sh("python3 %s/check.py %s" % (VERIF, p), cwd=VERIF, env=env)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
                res["check_" + p] = (r.returncode, bool(v), round(time.time() - t, 1))
                if r.returncode not in (0, 1): res["check_out"] = r.stdout[-600:]
    finally:
        shutil.rmtree(w)
    return res

if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        sel = sys.argv[3:]
        make([d for d in ns["DEFS"] if not sel or d["id"] in sel])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(sum((os.listdir(r) for r in ROOTS), []))
        for i in ids:
            print(json.dumps(attempt(i, "--nocheck" not in sys.argv)), flush=True)
