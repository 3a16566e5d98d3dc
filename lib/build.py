"""Build the extractor, enumerate the translation units of the product and extract each of them.

Nothing of the analysed program is ever executed: every TU is parsed by clang's front end (through
extract/extract.cpp) with the flags of the real build and dumped as a resolved AST in JSON.
"""
import os, re, sys, json, hashlib, subprocess, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CXY_REPO", "/repo")
BUILD = os.environ.get("CXY_VERIF_BUILD", os.path.join(VERIF, "build"))
EXTRACT = os.path.join(BUILD, "cxy-extract")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, TU that does not parse, ...)."""


def build_extractor():
    src = os.path.join(VERIF, "extract", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = EXTRACT + ".sha"
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h:
        return EXTRACT
    os.makedirs(BUILD, exist_ok=True)
    tmp = EXTRACT + ".%d.tmp" % os.getpid()
    cmd = ["clang++-18", "-std=c++17", "-O0", "-fno-rtti", "-fno-exceptions",
           "-I%s/include" % LLVM, "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "%s/lib/libclang-cpp.so.18.1" % LLVM, "-L%s/lib" % LLVM, "-lLLVM-18",
           "-Wl,-rpath,%s/lib" % LLVM]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout)
    os.replace(tmp, EXTRACT)
    with open(stamp, "w") as f:
        f.write(h)
    return EXTRACT


def gen_includes():
    """Generated headers: the real build's if it exists, else committed copies."""
    g = os.path.join(REPO, "_build")
    if os.path.exists(os.path.join(g, "generated/src/builtins.h")) and \
       os.path.exists(os.path.join(g, "src/3rdParty/libyaml/include/config.h")):
        return g
    return os.path.join(VERIF, "extract", "gen")


def flags(src):
    g = gen_includes()
    t = REPO + "/src/3rdParty"
    f = ["-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
         "-D__STDC_LIMIT_MACROS", "-DCXY_VERSION=\"0.1.0\"", "-DYAML_DECLARE_STATIC",
         "-I%s/include" % LLVM, "-I%s/src/cxy" % REPO, "-I" + t, "-I%s/generated" % g,
         "-I%s/msgpack/include" % t, "-I%s/src/3rdParty/msgpack/include" % g,
         "-I%s/src/3rdParty/msgpack/include/msgpack" % g, "-I%s/libyaml/include" % t,
         "-I%s/src/3rdParty/libyaml/include" % g, "-w", "-resource-dir", LLVM + "/lib/clang/18"]
    if src.endswith(".cpp"):
        f += ["-std=gnu++20", "-fno-rtti"]
    else:
        f += ["-std=gnu11"]
    if "/stdlib/native/" in src:
        f += ["-I" + os.path.dirname(src), "-I%s/src/cxy/stdlib" % REPO,
              "-I%s/src/cxy/stdlib/native" % REPO]
    return f


NATIVE = ["src/cxy/stdlib/native/evloop/ae.c", "src/cxy/stdlib/native/http/http.c",
          "src/cxy/stdlib/native/memtrace.c", "src/cxy/stdlib/native/nos.c",
          "src/cxy/stdlib/native/thread/tinythread.c"]


def compiler_tus():
    """TUs of the `cxy` executable, from CMakeLists.txt (LLVM backend is not part of the build)."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    out = []
    for m in re.finditer(r"src/cxy/[\w./-]+\.(?:c|cpp)\b", txt):
        p = m.group(0)
        if "/backend/llvm/" in p or "/stdlib/native/" in p or p in out:
            continue
        if os.path.exists(os.path.join(REPO, p)):
            out.append(p)
    if len(out) < 80:
        raise AnalysisBroken("only %d compiler TUs found in CMakeLists.txt" % len(out))
    return out


def native_tus():
    return [p for p in NATIVE if os.path.exists(os.path.join(REPO, p))]


_tree = None


def tree_hash():
    """hash of every first-party C/C++ source & header (the cache key of an extraction)"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(os.path.join(REPO, "src/cxy")):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    h.update(open(p, "rb").read())
        h.update(open(os.path.join(VERIF, "extract", "extract.cpp"), "rb").read())
        _tree = h.hexdigest()
    return _tree


def extract_one(rel):
    src = os.path.join(REPO, rel)
    key = hashlib.sha256((tree_hash() + rel + str(gen_includes().startswith(VERIF))).encode() + open(src, "rb").read()).hexdigest()[:32]
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, key + ".json")
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = subprocess.run([EXTRACT, tmp, src, REPO + "/", "--"] + flags(src),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(tmp):
            raise AnalysisBroken("extraction of %s failed:\n%s" % (rel, r.stdout[-3000:]))
        # paths relative to the tree, so that the same sources elsewhere give the same result
        with open(tmp) as f:
            txt = f.read().replace('"%s/' % REPO, '"')
        with open(tmp, "w") as f:
            f.write(txt)
        os.replace(tmp, out)
    with open(out) as f:
        d = json.load(f)
    if d.get("errors"):
        os.unlink(out)
        raise AnalysisBroken("%s does not parse: %s" % (rel, d["errors"]))
    return d


def extract(tus):
    build_extractor()
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(zip(tus, ex.map(extract_one, tus)))
