"""Regenerates every generated source of bic from /repo's working tree into a
scratch directory and runs the clang extractor over every C translation unit."""
import os, subprocess, sys, shutil, json, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(VERIF, "tool")
BUILD = os.path.join(VERIF, ".build")
REPO = os.environ.get("BIC_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"


class GenError(Exception):
    pass


def run(cmd, cwd=None, env=None, stdout=None, ok=(0,)):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=stdout or subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode not in ok:
        raise GenError("command failed (%d): %s\n%s" % (
            p.returncode, " ".join(cmd), (p.stderr or b"").decode(errors="replace")[-3000:]))
    return p


def extractor():
    src = os.path.join(TOOL, "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    run(["g++", "-O1", "-w", "-std=c++17", "-fno-rtti", "-I%s/include" % LLVM, src,
         "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", "-Wl,-rpath," + LLVM + "/lib",
         LLVM + "/lib/libLLVM.so.1" if os.path.exists(LLVM + "/lib/libLLVM.so.1")
         else LLVM + "/lib/libLLVM-18.so"])
    os.rename(tmp, exe)
    return exe


GENS = {  # generator program -> generated file
    "gentypes": "tree.def", "genctypes": "ctypes.def", "gentree": "tree-base.h",
    "genaccess": "tree-access.h", "gengc": "gc-internal.c", "gendump": "tree-dump.c",
    "gendot": "tree-dump-dot.c", "genffitypes": "ffi-types.c",
    "genspecresolver": "spec-resolver.c",
}


def generate(out):
    """Everything the build generates, into `out`."""
    S = REPO + "/src"
    os.makedirs(out, exist_ok=True)
    shutil.copy(TOOL + "/config.h", os.path.dirname(out) + "/config.h")
    shutil.copy(TOOL + "/config.h", out + "/config.h")
    env = dict(os.environ, M4PATH=S)
    run(["flex", "-o", out + "/lang_lexer.cpp", "--header-file=" + out + "/lang_lexer.h",
         S + "/lang_lexer.lpp"])
    cxx = ["g++", "-O0", "-w", "-std=c++11", "-I" + out, "-I" + S, "-DHAVE_CONFIG_H", "-c"]

    def cc(name):
        src = out + "/lang_lexer.cpp" if name == "lang_lexer" else S + "/" + name + ".cpp"
        run(cxx + [src, "-o", out + "/" + name + ".o"])
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(cc, n) for n in ["lang", "lang_lexer"] + list(GENS)]

        def yac(t):
            with open(out + "/%sparser.y" % t, "wb") as f:
                run(["m4", "-DTARGET=" + t, S + "/parser.m4"], cwd=S, env=env, stdout=f)
            with open(out + "/%slex.l" % t, "wb") as f:
                run(["m4", "-DTARGET=" + t, S + "/lex.m4"], cwd=S, env=env, stdout=f)
            run(["bison", "-d", "--warnings=no-yacc", "-Wno-other", "--xml=" + out + "/%sparser.xml" % t,
                 "-o", out + "/%sparser.c" % t, out + "/%sparser.y" % t])
            run(["flex", "-o", out + "/%slex.c" % t, "--header-file=" + out + "/%slex.h" % t,
                 out + "/%slex.l" % t], cwd=out)
        fs += [ex.submit(yac, t) for t in ("cscript", "repl")]
        for f in fs:
            f.result()

        def gen(g):
            run(["g++", "-o", out + "/" + g, out + "/" + g + ".o", out + "/lang.o",
                 out + "/lang_lexer.o"])
            run([out + "/" + g, S + "/c.lang"], cwd=out)
            if not os.path.exists(out + "/" + GENS[g]):
                raise GenError("%s wrote no %s" % (g, GENS[g]))
        for f in [ex.submit(gen, g) for g in GENS]:
            f.result()


GENERATED_C = ["gc-internal.c", "tree-dump.c", "tree-dump-dot.c", "ffi-types.c",
               "spec-resolver.c", "cscriptparser.c", "replparser.c", "cscriptlex.c",
               "repllex.c"]


def extract(out):
    exe = extractor()
    S = REPO + "/src"
    srcs = sorted(S + "/" + f for f in os.listdir(S) if f.endswith(".c"))
    srcs += [out + "/" + f for f in GENERATED_C]
    flags = ["-I" + out, "-I" + S, "-DHAVE_CONFIG_H", "-w", "-std=gnu17",
             "-resource-dir", LLVM + "/lib/clang/18"]

    def one(s):
        o = out + "/" + os.path.basename(s) + ".json"
        run([exe, o, s, "--"] + flags)
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


if __name__ == "__main__":
    d = sys.argv[1] + "/src"
    generate(d)
    print(len(extract(d)), "units")
