import sys, os, re, subprocess, itertools, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree
from concurrent.futures import ThreadPoolExecutor
D = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "witness"))
OPTS = ["FASTGLTF_USE_CUSTOM_SMALLVECTOR", "FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL", "FASTGLTF_USE_64BIT_FLOAT"]
EXTS = [("0", "0"), ("1", "0"), ("1", "1")]
CXX = ["-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu"]
TARGETS = {
    "x86-64": [], "x86-32": ["-m32", "-isystem", D + "/stub32"] + CXX,
    "aarch64": ["--target=aarch64-linux-gnu", "-isystem", D + "/stub64"] + CXX,
    "aarch64-crc": ["--target=aarch64-linux-gnu", "-march=armv8-a+crc", "-DFASTGLTF_ENABLE_ARMV8_CRC=1", "-isystem", D + "/stub64"] + CXX,
    "android-x86-64": ["-D__ANDROID__=24", "-isystem", D + "/stub_android"],
}
def cfg(bits, ext, std, ndebug):
    return ["-std=" + std] + (["-DNDEBUG"] if ndebug else []) + ["-D%s=%s" % (o, b) for o, b in zip(OPTS, bits)] + ["-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=" + ext[0], "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=" + ext[1]]
def label(bits, ext, std, ndebug):
    n = [s for s, b in zip(("smallvector", "nopool", "float64"), bits) if b == "1"] + [s for s, b in zip(("shapes", "physics"), ext) if b == "1"]
    return "%s %s %s" % (std, "+".join(n) or "defaults", "release" if ndebug else "debug")

def jobs(thorough):
    units = [os.path.join(tree.REPO, "src", s) for s in ("fastgltf.cpp", "io.cpp", "base64.cpp")] + [os.path.join(D, "use.cpp")]
    allbits = [tuple(b) for b in itertools.product("01", repeat=3)]
    out = []
    for i, (bits, ext, std) in enumerate(itertools.product(allbits, EXTS, ("c++17", "c++20"))):
        # quick: a set of configurations in which every pair of option values occurs, alternating between the compilers
        k = allbits.index(bits)
        first = (k, EXTS.index(ext), std) in QUICK
        for cc in ("clang++-18", "g++"):
            for u in units:
                b = os.path.basename(u)
                if thorough or (first and (cc == "g++") == (k % 2 == 1) and (b != "base64.cpp")):
                    out.append((cc, "x86-64", label(bits, ext, std, (k + EXTS.index(ext)) % 2 == 0), cfg(bits, ext, std, (k + EXTS.index(ext)) % 2 == 0), u))
    for t in TARGETS:
        if t == "x86-64": continue
        for u in units:
            if u.endswith("use.cpp") and not thorough: continue
            if t == "aarch64-crc" and not u.endswith("fastgltf.cpp"): continue
            if t == "android-x86-64" and not u.endswith(("io.cpp", "fastgltf.cpp")): continue
            if t == "x86-32" and u.endswith("base64.cpp") and not thorough: continue
            out.append(("clang++-18", t, label("000", EXTS[2], "c++17", True), cfg("000", EXTS[2], "c++17", True), u))
    for h in ("base64", "core", "math", "tools", "types", "util", "glm_element_traits"):   # each header on its own
        out.append(("clang++-18", "x86-64", "header alone", ["-std=c++17", "-x", "c++"], os.path.join(tree.REPO, "include", "fastgltf", h + ".hpp")))
    out.append(("clang++-18", "x86-64", "module", ["-std=c++20", "--precompile", "-x", "c++-module", "-o", os.devnull], os.path.join(tree.REPO, "src", "fastgltf.ixx")))
    return out
QUICK = {(0, 0, "c++17"), (1, 1, "c++20"), (2, 2, "c++17"), (3, 0, "c++20"), (4, 1, "c++17"), (4, 2, "c++20"), (5, 2, "c++17"), (6, 0, "c++20"), (7, 2, "c++20")}
def run(ctx):
    js = jobs(ctx.thorough)
    js.sort(key=lambda j: -("fastgltf.cpp" in j[4]) - 2 * ("ixx" in j[4]))
    def go(j):
        cc, t, lab, fl, u = j
        mode = [] if "--precompile" in fl else ["-fsyntax-only"]
        return subprocess.run([cc, "-w"] + mode + fl + TARGETS[t] + ["-I" + os.path.join(tree.REPO, "include"), u], capture_output=True, text=True)
    with ThreadPoolExecutor(8) as P: res = list(P.map(go, js))
    for (cc, t, lab, fl, u), r in zip(js, res):
        m = re.search(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)
        what = "%s [%s, %s, %s]" % (os.path.basename(u), cc, t, lab)
        if r.returncode and m is None: raise tree.AnalysisError("%s: %s" % (what, r.stderr[-300:]))
        if m and re.search(r"file not found|No such file", m.group(3)) and not m.group(1).startswith(tree.REPO): raise tree.AnalysisError("%s: %s" % (what, m.group(0)))
        ctx.ob("compiles", what, r.returncode == 0, m.group(3) if m else "", "%s:%s" % (m.group(1), m.group(2)) if m else None)
    ctx.need(len(js), "compilations", 40)
    ctx.analysed = {"translation_units": sorted({os.path.basename(j[4]) for j in js}), "configurations": sorted({(j[1] + " " + j[2]) for j in js}), "compilers": ["clang 18", "gcc 13"]}
framework.main("C25", run, explain="type-checking (-fsyntax-only, no code is generated or run) of every translation unit, every header on its own, the C++ module and a file that instantiates the public templates, over the supported build options, language versions, compilers and target architectures")
