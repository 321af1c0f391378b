#!/usr/bin/env python3
"""Build the simulator against the current working tree of /repo.

Everything is compiled in a fresh scratch directory from /repo/src; nothing
is written in /repo.  Three executables come out: sim (getentropy build, as the
library is built here) and sim_nosys (the same tree as it builds on a system
without getentropy and zlib, used for the entropy fallback chain), and sim_min,
a portable build (no AES or carry-less multiply instructions, no 128-bit integers)."""
import os, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = "/opt/cryptokit-deps"
ZDIR = DEPS + "/usr/lib/ocaml/zarith"
WRAPS = ["caml_alloc_string", "caml_alloc_custom", "caml_alloc_custom_mem", "caml_alloc_small",
         "caml_alloc", "caml_copy_string", "caml_record_signal", "deflateInit2_", "inflateInit2_", "getentropy", "getrandom",
         "caml_read_fd", "caml_write_fd", "unix_read", "caml_enter_blocking_section", "caml_leave_blocking_section",
         "open", "open64", "read", "__read_chk", "write", "close", "lseek", "lseek64"]


def two_conventions(src, mods, lc):
    """Primitives with more than five arguments have two C entry points: the
    native one and the one bytecode programs use.  In the scratch copy, the
    OCaml side calls a trampoline that takes either, as the simulator says."""
    found = []
    for m in mods:
        f = os.path.join(src, lc(m) + ".ml")
        if not os.path.exists(f):
            continue
        t = open(f, errors="surrogateescape").read()

        def sub(x):
            n = x.group(2).count("->")
            if n < 1 or "(" in x.group(2):
                return x.group(0)
            found.append((x.group(3), x.group(4), n))
            return '%s:%s= "%s" "sim_bc_%d"' % (x.group(1), x.group(2), x.group(3), len(found) - 1)
        t2 = re.sub(r'(\bexternal\s+\w+\s*):([^="]*)=\s*"(\w+)"\s+"(\w+)"', sub, t)
        if t2 != t:
            open(f, "w", errors="surrogateescape").write(t2)
    with open(os.path.join(src, "sim_bc.c"), "w") as o:
        o.write("#include <caml/mlvalues.h>\n#include <caml/memory.h>\nint sim_bytecode = 0; long sim_bytecode_calls = 0;\n")
        for i, (b, nat, n) in enumerate(found):
            a = ["a%d" % k for k in range(n)]
            o.write("extern value %s(%s);\nextern value %s(value *, int) __attribute__((weak));\n" % (nat, ", ".join(["value"] * n), b))
            o.write("value sim_bc_%d(%s)\n{\n  if (!sim_bytecode || !%s) return %s(%s);\n  sim_bytecode_calls++;\n" %
                    (i, ", ".join("value " + x for x in a), b, nat, ", ".join(a)))
            o.write("  {\n    CAMLparam0();\n    CAMLlocalN(v, %d);\n    CAMLlocal1(r);\n    %s\n    r = %s(v, %d);\n    CAMLreturn(r);\n  }\n}\n" %
                    (n, " ".join("v[%d] = %s;" % (k, a[k]) for k in range(n)), b, n))


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "%s/usr/bin:/usr/local/bin:/usr/bin:/bin" % DEPS
    e["LC_ALL"] = "C.UTF-8"
    for k in ("OCAMLPARAM", "OCAMLRUNPARAM", "OCAMLPATH"):
        e.pop(k, None)
    return e


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def sexp_list(text, key):
    m = re.search(r"\(\s*%s\s+([^()]*)\)" % key, text)
    return m.group(1).split() if m else []


def build(out, asan=True, fast=False):
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree(os.path.join(REPO, "src"), src)
    dune = open(os.path.join(src, "dune")).read()
    stubs = [s for s in sexp_list(dune, "names") if os.path.exists(os.path.join(src, s + ".c"))]
    if not stubs:
        stubs = sorted(os.path.basename(p)[:-2] for p in glob.glob(src + "/stubs-*.c"))
    mods = sexp_list(dune, "modules") or ["CryptokitBignum", "Cryptokit"]
    two_conventions(src, mods, lc)
    fl = re.search(r"\(flags\s+(-D.*?)\(:include", dune, re.S)
    dflags = fl.group(1).split() if fl else ["-DCAML_NAME_SPACE", "-DEXPORT=static"]
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []
    cflags = ["-O2", "-g1", "-fno-strict-aliasing", "-fwrapv", "-fPIC", "-w", "-I/usr/lib/ocaml",
              "-DCRYPTOKIT_SIM", "-I", os.path.join(HERE, "sim", "shim"),
              "-include", os.path.join(HERE, "sim", "shim", "sim_prefix.h"),
              "-DHAVE_ZLIB", "-maes", "-mpclmul"] + dflags + san
    jobs = []
    for s in stubs:
        jobs.append(["gcc", "-c", *cflags, "-DHAVE_GETENTROPY", s + ".c", "-o", os.path.join(out, s + ".o")])
    jobs.append(["gcc", "-c", *cflags, "stubs-rng.c", "-o", os.path.join(out, "stubs-rng-nosys.o")])
    # a platform without zlib; a portable build: no optional instructions, no 128-bit integers
    if "stubs-zlib" in stubs:
        jobs.append(["gcc", "-c", *[f for f in cflags if f != "-DHAVE_ZLIB"], "stubs-zlib.c", "-o", os.path.join(out, "stubs-zlib-nosys.o")])
    portable = [s for s in ("stubs-aes", "stubs-ghash", "stubs-poly1305") if s in stubs]
    for s in portable:
        jobs.append(["gcc", "-c", *[f for f in cflags if f not in ("-maes", "-mpclmul")], "-U__SIZEOF_INT128__", s + ".c", "-o", os.path.join(out, s + "-min.o")])
    jobs.append(["gcc", "-c", "-O2", "-g1", "-w", "-fPIC", "-I/usr/lib/ocaml", *san,
                 os.path.join(HERE, "sim", "seam.c"), "-o", os.path.join(out, "seam.o")])
    jobs.append(["gcc", "-c", "-O2", "-g1", "-w", "-fPIC", "-I/usr/lib/ocaml", "sim_bc.c", "-o", os.path.join(out, "sim_bc.o")])

    if fast:
        # the same tree without AddressSanitizer, for the long histories
        nf = [f for f in cflags if f not in san]
        os.makedirs(os.path.join(out, "fast"), exist_ok=True)
        for s in stubs:
            jobs.append(["gcc", "-c", *nf, "-DHAVE_GETENTROPY", s + ".c", "-o", os.path.join(out, "fast", s + ".o")])
        jobs.append(["gcc", "-c", "-O2", "-g1", "-w", "-fPIC", "-I/usr/lib/ocaml",
                     os.path.join(HERE, "sim", "seam.c"), "-o", os.path.join(out, "fast", "seam.o")])

    def ocaml():
        base = ["ocamlfind", "ocamlopt", "-w", "-a", "-g", "-inline", "200", "-I", ZDIR, "-I", "/usr/lib/ocaml/threads", "-I", src]
        # dependency order of the library's modules
        order = run(["ocamlfind", "ocamldep", "-sort"] + [f for m in mods for f in
                    (lc(m) + ".mli", lc(m) + ".ml") if os.path.exists(os.path.join(src, f))], src).split()
        for f in order:
            run(base + ["-safe-string", "-c", f], src)
        hs = os.path.join(out, "h")
        if os.path.isdir(hs):
            shutil.rmtree(hs)
        os.makedirs(hs)
        for f in glob.glob(os.path.join(HERE, "sim", "*.ml")):
            shutil.copy(f, hs)
        files = run(["ocamlfind", "ocamldep", "-sort"] + sorted(os.path.basename(f) for f in glob.glob(hs + "/*.ml")), hs).split()
        for f in files:
            run(base + ["-c", f], hs)
        return ([os.path.join(src, f[:-3] + ".cmx") for f in order if f.endswith(".ml")] +
                [os.path.join(hs, f[:-3] + ".cmx") for f in files])

    with ThreadPoolExecutor(8) as ex:
        fo = ex.submit(ocaml)
        fs = [ex.submit(run, j, src) for j in jobs]
        for f in fs:
            f.result()
        # the library's own static variables, apart from everything else (C13 compares them)
        for o in [os.path.join(d, x + ".o") for d in (out, os.path.join(out, "fast")) for x in stubs + ["stubs-rng-nosys", "stubs-zlib-nosys"] + [q + "-min" for q in portable]]:
            if os.path.exists(o):
                run(["objcopy", "--rename-section", ".bss=ck_bss", "--rename-section", ".data=ck_data", o], out)
        cmx = fo.result()

    def link(name, suffix="", only=(), asan=asan, sub=""):
        objs = [os.path.join(out, sub, s + (suffix if s in only else "") + ".o") for s in stubs] + [os.path.join(out, sub, "seam.o"), os.path.join(out, "sim_bc.o")]
        cc = "gcc -no-pie " + ("-fsanitize=address " if asan else "") + " ".join("-Wl,--wrap=" + w for w in WRAPS)
        run(["ocamlfind", "ocamlopt", "-g", "-cc", cc, "-I", ZDIR, "-I", "/usr/lib/ocaml/threads", "unix.cmxa", "threads.cmxa",
             "zarith.cmxa", *cmx, *objs, "-ccopt", "-L" + ZDIR, "-cclib", "-lunix", "-cclib", "-lz", "-cclib", "-ldl",
             "-o", os.path.join(out, name)], src)
        # where the optional instructions are: a simulated processor without them must not meet one
        with open(os.path.join(out, name + ".insns"), "w") as f:
            for l in run(["objdump", "-d", "--no-show-raw-insn", os.path.join(out, name)], src).splitlines():
                m = re.match(r"\s*([0-9a-f]+):\s+v?(aes(?:enc|dec|imc|keygen)|pclmul)", l)
                if m:
                    f.write("%s %s\n" % ("A" if m.group(2)[0] == "a" else "P", m.group(1)))

    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(link, "sim"), ex.submit(link, "sim_nosys", "-nosys", ("stubs-rng", "stubs-zlib")), ex.submit(link, "sim_min", "-min", portable)]
        if fast:
            fs.append(ex.submit(link, "sim_fast", "", (), False, "fast"))
        for f in fs:
            f.result()


def lc(m):
    return m[0].lower() + m[1:]


if __name__ == "__main__":
    try:
        build(sys.argv[1])
    except BuildError as e:
        print("build failed:", e)
        sys.exit(2)
