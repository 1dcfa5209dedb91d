"""Loading the resolved syntax trees that extractor/extract.cpp writes."""
import json, os, subprocess, sys, hashlib, tempfile, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = ["-std=gnu++17", "-DNDEBUG", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=0", "-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1",
        "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1", "-DFASTGLTF_USE_64BIT_FLOAT=0",
        "-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=0", "-DSIMDJSON_THREADS_ENABLED=1", "-I%s/include" % REPO]

class AnalysisError(Exception):
    """The analysis could not be carried out (a vanished anchor, a source that does not parse): neither pass nor violation."""

def ensure_extractor():
    p = os.path.join(VERIF, ".build", "extract")
    r = subprocess.run(["bash", os.path.join(VERIF, "extractor", "build.sh")], capture_output=True, text=True)
    if r.returncode or not os.path.exists(p):
        raise AnalysisError("extractor does not build: " + r.stderr[-2000:])
    return p

class Program:
    def __init__(self, data):
        self.functions = data["functions"]
        self.records = {}
        for r in data["records"]:
            self.records.setdefault(r["q"], r)
            self.records.setdefault(r["t"], r)
        self.enums = {e["q"]: {x["n"]: int(x["v"]) for x in e["e"]} for e in data["enums"]}
        self.enum_names = {q: {v: n for n, v in reversed(list(e.items()))} for q, e in self.enums.items()}
        self.globals = {g["id"]: g for g in data["globals"]}
        self.by_id = {f["id"]: f for f in self.functions}
        self.by_q = {}
        for f in self.functions:
            self.by_q.setdefault(f["q"], []).append(f)
        self.fields = {}
        for r in data["records"]:
            for f in r["fields"]:
                self.fields[f["id"]] = f
    def fn(self, q, pred=None):
        l = [f for f in self.by_q.get(q, []) if f.get("body") and (pred is None or pred(f))]
        if not l:
            raise AnalysisError("function %s not found" % q)
        return l[0]
    def fns(self, q):
        return [f for f in self.by_q.get(q, []) if f.get("body")]

def extract(src, flags=None, extra_root=None, cwd=None):
    ex = ensure_extractor()
    with tempfile.TemporaryDirectory(prefix="vx") as d:
        out = os.path.join(d, "o.json")
        cmd = [ex, "--root=" + REPO, "--out=" + out]
        if extra_root: cmd.append("--extra-root=" + extra_root)
        cmd += [src, "--"] + (flags if flags is not None else BASE)
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd or d)
        if r.returncode or not os.path.exists(out):
            raise AnalysisError("source does not parse: %s\n%s" % (src, r.stderr[-3000:]))
        with open(out) as f:
            return json.load(f)

_cache = {}
def load(src, flags=None, extra_root=None):
    """src relative to the repository, or absolute."""
    p = src if os.path.isabs(src) else os.path.join(REPO, src)
    k = (p, tuple(flags or BASE))
    if k not in _cache:
        if not os.path.exists(p): raise AnalysisError("no such file " + p)
        _cache[k] = Program(extract(p, flags, extra_root))
    return _cache[k]

def walk(n):
    """All nodes of a tree, parents first."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x: yield x
            vals = [v for k, v in x.items() if isinstance(v, (dict, list))]
            st.extend(reversed(vals))
        elif isinstance(x, list):
            st.extend(reversed(x))

def show(n, d=0, depth=99):
    if n is None: return "  " * d + "null"
    s = "  " * d + n["k"] + " " + " ".join("%s=%s" % (k, v) for k, v in n.items() if k not in ("k", "c") and not isinstance(v, (dict, list)))
    out = [s]
    if d < depth:
        for k, v in n.items():
            if k == "c": out += [show(x, d + 1, depth) for x in v]
            elif isinstance(v, dict): out.append("  " * d + " ." + k); out.append(show(v, d + 1, depth))
            elif isinstance(v, list) and v and isinstance(v[0], dict) and "k" in v[0]:
                out.append("  " * d + " ." + k); out += [show(x, d + 1, depth) for x in v]
            elif isinstance(v, list): out.append("  " * d + " .%s=%s" % (k, v))
    return "\n".join(out)

if __name__ == "__main__":
    p = Program(json.load(open(sys.argv[1])))
    for f in p.by_q.get(sys.argv[2], []):
        print("==", f["id"], f["q"], f["l"], f["ret"], f["params"], {k: v for k, v in f.items() if k not in ("body", "inits", "params")})
        for i in f.get("inits", []): print(" init", i["n"] if "n" in i else i, show(i["e"], 2) if i.get("e") else None)
        print(show(f["body"]) if f.get("body") else "no body")
