"""tools/mkbug.py [ID...]: (re)generates seeded/<id>/ from tools/bugs/<id>.py, which defines
prop, needs, breaks, edits=[(file, old, new)], main (C++ source of the demonstration)."""
import sys, os, json, subprocess, shutil
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
S = "/tmp/mkbug"
DEMO = '''#!/bin/bash
# Builds and runs the demonstration (run in the repository after its build): exit 0 if the property holds.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -g -w %s-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1 -DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1 -I"$PWD/include" "$D/main.cpp" %s -o "$T/demo"
cd "$T"
timeout 60 ./demo
'''
PRE = '''#include <fastgltf/core.hpp>
#include <fastgltf/types.hpp>
#include <fastgltf/tools.hpp>
#include <cstdio>
#include <string>
#include <string_view>
#include <variant>
#include <fstream>
using namespace fastgltf;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)
[[maybe_unused]] static Expected<Asset> load(std::string_view json, Extensions ext = Extensions::None, Options opt = Options::None, Category cat = Category::All, std::filesystem::path dir = {}) {
    static Parser* p = nullptr; p = new Parser(ext);
    auto d = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
    return p->loadGltf(d.get(), dir, opt, cat);
}
'''
os.makedirs(S, exist_ok=True)
ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V + "/tools/bugs") if f.endswith(".py"))
if not os.path.isdir(S + "/.git"): subprocess.check_call(["git", "clone", "-q", "/repo", S])
subprocess.check_call("git fetch -q origin HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- .", shell=True, cwd=S)
for i in ids:
    b = {}; exec(open("%s/tools/bugs/%s.py" % (V, i)).read(), b)
    for f, o, n in b["edits"]:
        t = open(S + "/" + f).read()
        if t.count(o) != 1: print(i, "edit matches", t.count(o), "times:", o[:60].strip()); break
        open(S + "/" + f, "w").write(t.replace(o, n))
    else:
        d = V + "/seeded/" + i; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=S, text=True))
        open(d + "/main.cpp", "w").write(PRE + b["main"])
        open(d + "/demo.sh", "w").write(DEMO % (b.get("flags", "") + " " if b.get("flags") else "", b.get("link", "_build/libfastgltf.a -lsimdjson")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=S)
