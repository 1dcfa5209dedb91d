import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree
from loading import *
from hostio import *
from hostio import items, has

FILEOPS = ("open", "fs ", "op ", "mmap")
def touched(cl): return sorted(k for k in cl.events if k[0].startswith(FILEOPS))

class Client16(HostClient):
    def __init__(self, *a, **k):
        HostClient.__init__(self, *a, **k); self.kinds = {}
    def on_deliver(self, I, name, sub, path, st, line, what):
        self.kinds.setdefault(name, []).append((sub.get(('uri',), frozenset()), line))

# operations that keep a part of a path or of a URI only
LOSSY = set("filename stem extension parent_path relative_path root_path root_name root_directory replace_extension replace_filename remove_filename scheme userinfo host port query fragment".split())
def atoms_of(a):
    if isinstance(a, tuple):
        if a and isinstance(a[0], str): yield a
        for x in a:
            if isinstance(x, (tuple, frozenset)): yield from atoms_of(x)
    elif isinstance(a, frozenset):
        for x in a: yield from atoms_of(x)

def check(ctx):
    M = model()
    opts = M.p.enums["fastgltf::Options"]
    for coll, opt in COLLECTIONS:
        if opt not in opts: raise tree.AnalysisError("option %s not found" % opt)
        bit = opts[opt]
        others = sum({v for k, v in opts.items() if v and not v & (v - 1) and v != bit})
        base = run(M, coll, Client16, force=dict(isDataUri=0))
        n = len(touched(base))
        ctx.need(n, "operations on files reachable from $.%s[].uri" % coll, 1)
        # 1. never without the option, whatever the other options are; 2. never for a URI that is not a local path; 3. never for an invalid URI
        for what, o, force in (("the option %s is not set" % opt, ('bits', 0, bit), {}), ("the option %s is not set, all others are" % opt, ('bits', others, bit), dict(isDataUri=0, isLocalPath=1, valid=1)),
                               ("the URI is not a local path", None, dict(isLocalPath=0)), ("the URI is not valid", None, dict(valid=0))):
            cl = run(M, coll, Client16, option=o, force=force)
            t = touched(cl)
            ctx.ob("no-file", "%s: %s" % (coll, what), not t, "a file named by $.%s[].uri is touched although %s: %s" % (coll, what, ", ".join("%s (line %d)" % x for x in t[:4])), "line %d" % t[0][1] if t else None)
            if not t and force.get('valid') != 0:
                f = dict(force); f['isDataUri'] = 0
                c2 = run(M, coll, Client16, option=o, force=f)
                ok = bool(c2.successes)
                ctx.ob("kept", "%s: %s: the load goes on" % (coll, what), ok, "a URI that is not loaded does not leave the asset intact: no successful path")
                bad = [k for k in c2.kinds if k != "URI"]
                ctx.ob("kept", "%s: %s: data source" % (coll, what), not bad, "the asset holds %s instead of the URI" % bad)
                uris = set().union(*[a for a, _ in c2.kinds.get("URI", [])]) if c2.kinds.get("URI") else set()
                wrong = [a for a in uris if not (a[0] == 'v' and norm(a[1]) == "$.%s[].uri" % coll)]
                ctx.ob("kept", "%s: %s: URI untouched" % (coll, what), bool(uris) and not wrong, "the URI stored is not the one of the document: %s" % (list(map(str, wrong))[:2] or "none stored"))
        # 4. where the file is looked up
        on = run(M, coll, Client16, option=('bits', bit, 0), force=dict(isDataUri=0, isLocalPath=1, valid=1))
        ctx.ob("loaded", coll, any(k in on.kinds for k in ("Array", "Vector", "CustomBuffer")) and "URI" not in on.kinds, "with %s set the data of a local URI is not loaded: the asset holds %s" % (opt, sorted(on.kinds)))
        d = on.paths.get("dir")
        for (fn, line), vs in on.openpaths.items():
            for atoms, st in vs:
                for a in atoms:
                    anchored = has(a, lambda t: t[:1] == ('m',) and len(t) == 3 and t[1] == ("this",) and t[2] == d)
                    named = has(a, lambda t: t[:1] == ('v',) and len(t) == 3 and norm(t[1]) == "$.%s[].uri" % coll)
                    unknown = has(a, lambda t: t[:1] == ('top',))
                    ctx.ob("directory", "%s: file opened in %s" % (coll, fn), anchored or unknown, "the file is not looked up in the directory given to the load (%s)" % (a,), "line %d" % line)
                    lossy = sorted({t[1].split("::")[-1] for t in atoms_of(a) if t[0] in ('call', 'mcall') and isinstance(t[1], str) and t[1].split("::")[-1] in LOSSY})
                    ctx.ob("directory", "%s: whole name of the file opened in %s" % (coll, fn), not lossy, "only a part of the URI's path names the file: %s()" % ", ".join(lossy), "line %d" % line)
                    ctx.ob("directory", "%s: name of the file opened in %s" % (coll, fn), named or unknown, "the name of the file is not the URI of the document (%s)" % (a,), "line %d" % line)
    # 5. every entry point stores the directory and the options it was given before it reads the document
    for name in ("loadGltfJson", "loadGltfBinary", "loadGltf"):
        cl = entry(M, name, glb.GlbClient)
        f = M.p.fn("fastgltf::Parser::" + name)
        pn = {bare(p["t"]): p["n"] for p in f["params"]}
        ctx.need(len(cl.parsed), "calls of Parser::parse from " + name, 1)
        for (fn, line), sts in cl.parsed.items():
            for s in sts:
                for key, t in (("dir", "std::filesystem::path"), ("options", "fastgltf::Options")):
                    at = s.store.get((("this",), cl.paths[key]), frozenset())
                    ctx.ob("arguments", "%s: %s" % (name, key), at == frozenset([('m', ('arg', pn.get(t)), ())]), "the %s of this load is not the one given by the caller when the document is read" % ("directory" if key == "dir" else "option set"), "%s line %d" % (fn, line))
    # 6. who may write files
    writers = {}
    calls = {}
    for f in M.p.functions:
        if not f.get("body"): continue
        s = calls.setdefault(f["id"], set())
        for n in tree.walk(f["body"]):
            q = n.get("q", "")
            if n["k"].startswith("CXX") and "Construct" in n["k"] or n["k"] == "CXXTemporaryObjectExpr":
                if "basic_ofstream" in q or "basic_fstream" in q: writers.setdefault(f["id"], (f["q"], q, n.get("l")))
            if n["k"] in ("CallExpr", "CXXMemberCallExpr"):
                if q in ("fopen", "std::fopen", "creat", "fwrite", "rename", "unlink", "remove") or q.startswith("std::filesystem::") and q.split("::")[-1] in ("create_directory", "create_directories", "remove", "remove_all", "rename", "copy", "copy_file", "resize_file"):
                    writers.setdefault(f["id"], (f["q"], q, n.get("l")))
            if "id" in n and n["id"] in M.p.by_id: s.add(n["id"])
    callers = {}
    for a, bs in calls.items():
        for b in bs: callers.setdefault(b, set()).add(a)
    ctx.need(len(writers), "functions that write files", 1)
    for w, (fq, q, line) in writers.items():
        seen, todo = set(), [w]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            g = M.p.by_id[x]
            if g.get("rec") == "fastgltf::FileExporter" : continue
            todo += callers.get(x, ())
        bad = sorted({M.p.by_id[x]["q"] for x in seen if M.p.by_id[x].get("rec") in ("fastgltf::Parser", "fastgltf::Exporter")})
        ctx.ob("writers", "%s in %s" % (q.split("::")[-1], fq), not bad, "files are written by %s, which is not the file exporter" % bad, "line %s" % line)
    ctx.analysed["functions"] = len(M.p.functions)

if __name__ == "__main__":
    framework.main("C16", check, explain=__doc__ or "Abstract execution of the units that read $.buffers and $.images and of the load entry points, with known bits of the options and forced answers of the URI predicates: file operations reached, data sources stored, terms of the file names; call graph for file output.")
