import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree
from loading import *
from hostio import *
from hostio import items

EXPLAIN = ("Abstract execution of the export entry points with validation and JSON writing splitting into success and failure, of the buffer and image writers with a balance of elements visited and paths recorded (element position and data alternative known), "
           "and of the file writers with typestate of every stream: a failure of any operation must not reach a successful exit, every element with a path is written to that path, completely, and to no other.")
EMBED = ("Array", "Vector", "ByteView")
COLLS = ("buffers", "images")
EXP = "fastgltf::Exporter"

class EntryClient(HostClient):
    """validate() and writeJson() succeed or fail."""
    def __init__(self, M, errfield, **kw):
        HostClient.__init__(self, fail=False, **kw)
        self.validate = {g["id"] for g in M.p.functions if g["q"] == "fastgltf::validate"}
        self.json = {g["id"] for g in M.p.functions if g["q"] == EXP + "::writeJson"}
        self.errfield = errfield
        self.config = []
    def on_call(self, I, n, q, st):
        i = n.get("id")
        if i in self.validate:
            out = []
            for _, s in I.args(n["c"], st):
                a = s.copy(); put(a, ('validated',)); b = s.copy(); self.flag(b, I, n, "validation")
                out += [(C(0), a), (C(9), b)]
            return out
        if i in self.json:
            out = []
            for l, s0 in I.lval(n["c"][0], st) if not n["c"][0]["k"] == "CXXThisExpr" else [((("this",), ()), st)]:
                for _, s in I.args(n["c"][1:], s0):
                    for bad in (False, True):
                        s2 = s.copy(); put(s2, ('json',))
                        for e in self.errfield: s2.store[(("this",), e)] = frozenset([('c', 5 if bad else 0)])
                        for c in COLLS:
                            for f in self.fields[c]: s2.store[(("this",), f)] = frozenset([('paths', c)])
                        if bad: self.flag(s2, I, n, "JSON export")
                        self.config.append({k[1]: v for k, v in s.store.items() if k[0] == ("this",)})
                        out.append((V([('jsontext',)]), s2))
            return out
        return HostClient.on_call(self, I, n, q, st)

class PathClient(HostClient):
    def __init__(self, coll, field, **kw):
        HostClient.__init__(self, fail=False, **kw)
        self.coll, self.field = coll, field
        self.pushed = []         # (alternatives, position, null, atoms, line)
        self.steps = 0
    def balance(self, st):
        for i in items(st):
            if i[0] == 'bal': return i[1]
        return 0
    def setbal(self, st, k):
        drop(st, lambda i: i[0] == 'bal'); put(st, ('bal', max(-2, min(2, k))))
    def on_store(self, I, loc, v, st, node):
        if loc[0] == ("this",) and loc[1] in self.errfield and any(a[0] != 'c' or a[1] != 0 for a in v.a): put(st, ('err',))
        HostClient.on_store(self, I, loc, v, st, node)
    def on_step(self, I, p, st):
        if p[1] != ('asset',) or p[2] != (self.coll,): return
        self.steps += 1
        b = self.balance(st) - 1
        self.setbal(st, b)
        drop(st, lambda i: i[0] == 'uri')
        if b != 0 and ('err',) not in items(st):
            self.err("count", "%s path entries" % ("missing" if b < 0 else "extra"), "an element of $.%s gets %s without an error being set" % (self.coll, "no path entry" if b < 0 else "more than one path entry"), self.line)
            self.setbal(st, 0)
    def on_call(self, I, n, q, st):
        kids = n.get("c", [])
        if q and q.startswith("std::vector<") and q.split("::")[-1] in ("emplace_back", "push_back") and n["k"] == "CXXMemberCallExpr":
            out = []
            for l, s in I.lval(kids[0], st):
                if (l[0], l[1]) != (("this",), self.field):
                    return HostClient.on_call(self, I, n, q, st)
                for vs, s2 in I.args(kids[1:], s):
                    s2 = s2.copy()
                    t = bare(etype(kids[1])) if len(kids) > 1 else "std::nullopt_t"
                    null = "nullopt" in t or not vs or vs[0].a <= {('uninit',), ('empty',), NULL}
                    self.record(I, n, null, vs[0].a if vs else frozenset(), s2)
                    self.setbal(s2, self.balance(s2) + 1)
                    out.append((VTOP, s2))
            return out
        if q and q.startswith("std::basic_string<") and q.split("::")[-1] in ("operator+=", "append", "push_back", "back") and kids and not n.get("arrow"):
            ls = I.lval(kids[0], st)
            if all(l == (self.text, ()) for l, _ in ls):
                # the text of the document is not followed
                return [(VTOP, s2) for _, s in ls for _, s2 in I.args(kids[1:], s)]
        if q == "fastgltf::normalizeAndFormatPath":
            out = []
            for vs, s in I.args(kids, st):
                s = s.copy(); drop(s, lambda i: i[0] == 'uri'); put(s, ('uri', vs[0].a)); out.append((V([('uri', vs[0].one())]), s))
            return out
        if q and q.startswith("fastgltf::") and n["k"] == "CallExpr" and bare(n.get("t", "")).startswith(("std::string", "std::basic_string")) and kids and all("string" in etype(k) for k in kids):
            return [(V([('call', q, tuple(v.one() or TOP for v in vs), n["l"])]), s) for vs, s in I.args(kids, st)]
        return HostClient.on_call(self, I, n, q, st)
    def record(self, I, n, null, atoms, s):
        tags = [(k, v) for k, v in s.facts.items() if k[0] == 'altf' and k[1] == ('asset',) and len(k[2]) == 3 and k[2][0] == self.coll and k[2][2] == 'data']
        alts = None
        for k, v in tags:
            if v[0] == 'in': alts = {str(a).split("::")[-1] for a in v[1]}
        pos = {list(v)[0][3] for k, v in s.store.items() if len(v) == 1 and list(v)[0][0] == 'pos' and list(v)[0][1:3] == (('asset',), (self.coll,))}
        uri = [i[1] for i in items(s) if i[0] == 'uri']
        self.pushed.append((alts, pos, null, atoms, uri, n["l"]))

class FileClient(HostClient):
    def __init__(self, M, base, **kw):
        HostClient.__init__(self, **kw)
        self.base = {g["id"] for g in M.p.functions if g["q"] == EXP + "::" + base}
        self.indices = []
    def on_call(self, I, n, q, st):
        if n.get("id") in self.base:
            out = []
            for vs, s in I.args(n["c"][1:], st):
                a = s.copy(); b = s.copy(); self.flag(b, I, n, "export")
                put(a, ('options', vs[1].one() if len(vs) > 1 else None))
                sub = {('.err',): frozenset([('c', 0)]), ('.val',): frozenset([('obj', 'fastgltf::ExportResult')]), ('.val', 'output'): frozenset([('OUT',)])}
                for c in COLLS: sub[('.val', c[:-1] + "Paths")] = frozenset([('paths', c)])
                out += [(V([('obj', 'fastgltf::Expected')], sub), a), (V([('obj', 'fastgltf::Expected')], {('.err',): frozenset([('c', 5)]), ('.val',): frozenset([('empty',)])}), b)]
            return out
        return HostClient.on_call(self, I, n, q, st)
    def on_index(self, I, loc, idx, st, n):
        a = idx.one()
        p = list(I.read(loc, st))
        if len(p) == 1 and p[0][0] == 'paths' and a is not None and a[0] == 'pos': self.indices.append((p[0][1], a[2], n["l"]))
        if loc[0] == ('asset',) and len(loc[1]) == 1 and loc[1][0] in COLLS and a is not None and a[0] == 'pos': self.indices.append((loc[1][0], a[2], n["l"]))
    def opened(self, I, n, path, st, cls, site):
        out = HostClient.opened(self, I, n, path, st, cls, site)
        for _, s in out:
            drop(s, lambda i: i[0] == 'path' and i[1] == site)
            put(s, ('path', site, path.a if path is not None else frozenset()))
        return out
    def stream_op(self, I, n, m, v, vs, s):
        if m in ("write", "operator<<") and vs:
            s = s.copy()
            i, status, dirty = self.status(s, v)
            path = [t[2] for t in items(s) if t[0] == 'path' and t[1] == i]
            path = path[0] if path else frozenset()
            own = {c for a in path for c in COLLS if has(a, lambda t: t == ('paths', c))}
            a = vs[0].one(); size = vs[1].one() if len(vs) > 1 else None
            if a == ('OUT',): put(s, ('main', bool(path) and all(has(x, lambda t: t == ('m', ('arg', 'target'), ()) or (t and t[0] == 'm' and t[1] == ('arg', self.target))) for x in path) and not own))
            elif a is not None and a[0] == 'ptr' and a[1] == ('asset',) and a[2][0] in COLLS:
                c = a[2][0]
                self.ev("data written", n)
                if own != {c}: self.err("target", "data of $.%s in %s" % (c, self.where(I)), "the data of an element of $.%s is written to a file other than its own" % c, n["l"])
                body = a[2][:-1] if a[2][-1] == ('[]', 'data') else a[2]
                if size is not None and strip(size) != ('sz', ('asset',), body, 0): self.err("complete", "data of $.%s in %s" % (c, self.where(I)), "not exactly the bytes of the element's data are written (%s)" % (show(size),), n["l"])
                put(s, ('done', c))
            elif a is not None and a[0] == 'ptr' and a[2] and a[2][-1] == ('[]', 'data') and ('OUT',) in I.read((a[1], a[2][:-1]), s):
                if size is not None and strip(size) != ('sz', a[1], a[2][:-1], 0): self.err("complete", "main file in " + self.where(I), "not exactly the bytes of the export are written (%s)" % (show(size),), n["l"])
                put(s, ('main', bool(path) and not own))
        return HostClient.stream_op(self, I, n, m, v, vs, s)
    def on_step(self, I, p, st):
        if p[1] != ('asset',) or len(p[2]) != 1 or p[2][0] not in COLLS: return
        c = p[2][0]
        el = [v for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == 'el' and k[1] == ('paths', c)]
        null = any(v[0] == 'in' and v[1] == frozenset([None]) for v in el)
        self.ev("element of $.%s" % c, dict(l=0))
        if not null and ('done', c) not in items(st): put(st, ('skipped', c))       # an error if the export then succeeds
        if null and ('done', c) in items(st): self.err("unwritten", "element of $.%s without path" % c, "an element of $.%s that has no path of its own is written" % c, 0)
        drop(st, lambda i: i == ('done', c))
        for k in [k for k in st.facts if isinstance(k, tuple) and has(k, lambda t: t == ('paths', c))]: del st.facts[k]

def members(M, rec):
    r = M.p.records.get(rec)
    return {f["n"]: f["t"] for f in r["fields"]} if r else {}
def setter(M, name):
    f = M.p.fn(EXP + "::" + name)
    cl = setup(HostClient(), M)
    out = set()
    for _, s in M.run_fn(f, '$', cl, ext=None):
        for k, a in s.store.items():
            if k[0] == ("this",) and any(x[0] == 'm' and x[1] == ('arg', f["params"][0]["n"]) for x in a): out.add(k[1])
    return out

def check(ctx):
    M = model()
    p = M.p
    mem = members(M, EXP)
    errfield = [(n,) for n, t in mem.items() if bare(t) == "fastgltf::Error"]
    pathfields = [n for n, t in mem.items() if t.startswith("std::vector<std::optional<std::filesystem::path")]
    fields = {c: [(n,) for n in pathfields if n.lower().startswith(c[:-1])] for c in COLLS}
    for c in COLLS: ctx.need(len(fields[c]), "members with the paths of $." + c, 1)
    # ---- entry points
    configs = {}
    VAL = p.enums["fastgltf::ExportOptions"]["ValidateAsset"]
    for name in ("writeGltfJson", "writeGltfBinary"):
        f = p.fn(EXP + "::" + name)
        cl = setup(EntryClient(M, errfield), M); cl.fields = fields
        opt = [x for x in f["params"] if "ExportOptions" in x["t"]]
        def pre(I, st):
            for x in opt: st.store[(x["id"], ())] = frozenset([('bits', VAL, 0)])
            for e in errfield: st.store[(("this",), e)] = frozenset([('c', 5)])
        ex = M.run_fn(f, '$', cl, ext=None, pre=pre)
        succ = M.successes(ex)
        ctx.ob("entry", name + ": success", bool(succ), "no path of the export succeeds")
        ctx.need(len(cl.config), "states in which %s writes the JSON" % name, 1)
        configs[name] = cl.config[0]
        for r, pre_, s in succ:
            for i in items(s):
                if i[0] == 'F': ctx.fail("reported", "%s: %s" % (name, i[1]), "a failed %s does not make the export fail" % i[1], "line %d" % i[3])
            ctx.ob("validated", name, ('validated',) in items(s), "an export with ExportOptions::ValidateAsset succeeds without the asset having been validated", "line %d" % f["l"])
            for c in COLLS:
                want = [k for k, a in s.store.items() if k[0] == r and k[1][:len(pre_)] == pre_ and a == frozenset([('paths', c)])]
                key = c[:-1] + "Paths"
                ctx.ob("result", "%s: %s" % (name, key), any(k[1][len(pre_):] == (key,) for k in want), "the paths of $.%s are not part of the result" % c, "line %d" % f["l"])
    # ---- nothing forgets the error
    for f in p.functions:
        if f.get("rec") != EXP or not f.get("body") or f["q"].split("::")[-1] in ("writeGltfJson", "writeGltfBinary"): continue
        for x in tree.walk(f["body"]):
            if x["k"] in ("BinaryOperator",) and x.get("op") == "=" and len(x.get("c", [])) == 2:
                l = x["c"][0]
                if l["k"] == "MemberExpr" and (l.get("n"),) in errfield:
                    none = any(y["k"] == "DeclRefExpr" and y.get("n") == "None" for y in tree.walk(x["c"][1]))
                    ctx.ob("kept", f["q"].split("::")[-1], not none, "the error of the export is reset while the JSON is written", "line %d" % x["l"])
    # ---- the paths of the elements
    for c, fn, setname in (("buffers", "writeBuffers", "setBufferPath"), ("images", "writeImages", "setImagePath")):
        f = p.fn(EXP + "::" + fn)
        folder = setter(M, setname)
        for name in ("writeGltfJson", "writeGltfBinary"):
            cl = setup(PathClient(c, fields[c][0]), M); cl.errfield = errfield; cl.line = f["l"]
            binary = name == "writeGltfBinary"
            def pre(I, st):
                cl.text = next((x["id"] for x in f["params"] if "string" in x["t"]), None)
                for k, v in configs[name].items(): st.store[(("this",), k)] = v
                for e in errfield: st.store[(("this",), e)] = frozenset([('c', 0)])
            ex = M.run_fn(f, '$', cl, ext=None, positions=True, pre=pre)
            what = "%s of %s" % (fn, "GLB" if binary else "glTF")
            ctx.ob("count", what, cl.steps > 0 and bool(cl.pushed), "the elements are not visited one by one", "line %d" % f["l"])
            for (rule, k), (msg, line) in cl.bad.items():
                if rule == "count": ctx.fail("count", "%s: %s" % (what, k), msg, "line %d" % line)
            seen = set()
            for alts, pos, null, atoms, uri, line in cl.pushed:
                for a in alts or ():
                    seen.add(a)
                    first = pos == {'0'}
                    want = a not in EMBED or (binary and first and c == "buffers")
                    ctx.ob("entry of " + c, "%s: %s%s" % (what, a, ", first" if first else ""), null == want, "%s gets %s although its data is%s stored in a file of its own" % (a, "no path" if null else "a path", "" if null else " not"), "line %d" % line)
                if null: continue
                for a in atoms:
                    el = has(a, lambda t: bool(t) and t[0] == 'm' and len(t) > 2 and t[1] == ('asset',) and t[2][:1] == (c,) and any(isinstance(x, tuple) for x in t[2])) or has(a, lambda t: bool(t) and t[0] == 'pos' and len(t) > 2 and t[1:3] == (('asset',), (c,)))
                    known = not has(a, lambda t: bool(t) and t[0] in ('top', 'any', 'uninit'))
                    if known: ctx.ob("own path", what, el, "the path of an element does not depend on the element (%s)" % show(a), "line %d" % line)
                    if known and folder: ctx.ob("folder", what, any(has(a, lambda t: bool(t) and t[0] == 'm' and len(t) > 2 and t[1] == ("this",) and t[2] == m) for m in folder), "the path is not in the folder set with %s" % setname, "line %d" % line)
                for u in uri: ctx.ob("uri", what, u == atoms, "the URI in the document is not the path of the file that is written", "line %d" % line)
            for a in EMBED if c == "buffers" else EMBED[:2]: ctx.ob("entry of " + c, "%s: %s recorded" % (what, a), a in seen, "data in a %s never gets a path entry" % a, "line %d" % f["l"])
    # ---- files
    for name in ("writeGltfJson", "writeGltfBinary"):
        f = p.fn("fastgltf::FileExporter::" + name)
        cl = setup(FileClient(M, name), M)
        cl.target = [x["n"] for x in f["params"] if "path" in x["t"]][0]
        ex = M.run_fn(f, '$', cl, ext=None, positions=True)
        what = "FileExporter::" + name
        succ = M.successes(ex)
        ctx.ob("files", what + ": success", bool(succ), "no path of the export succeeds")
        n = {}
        for _, _, s in succ:
            for i in items(s):
                if i[0] == 'F': ctx.fail("reported", "%s: %s in %s" % (what, i[1], i[2].split("(")[0]), "a failed %s does not make the export fail" % i[1], "line %d" % i[3])
                if i[0] == 's' and i[3]: ctx.fail("flushed", "%s: stream opened at line %s" % (what, i[1][1]), "data may still be buffered in the stream when the export reports success, so a failure to write it is not reported", "line %s" % i[1][1])
                if i[0] == 'skipped': ctx.fail("unwritten", "%s: element of $.%s" % (what, i[1]), "the export succeeds without an element of $.%s that has a path of its own having been written" % i[1], "line %d" % f["l"])
                if i[0] == 'D': ctx.fail("flushed", "%s: stream destroyed in %s" % (what, i[1].split("(")[0]), "data may still be buffered in the stream when it is destroyed", "line %s" % i[2])
            ctx.ob("main file", what, ('main', True) in items(s) and ('main', False) not in items(s), "the export succeeds without the main file having been written to the target", "line %d" % f["l"])
            o = [i[1] for i in items(s) if i[0] == 'options']
            for x in o:
                if x is not None: ctx.ob("options", what, has(x, lambda t: bool(t) and t[0] == 'm' and t[1][0] == 'arg'), "the options given are not the ones used for the export", "line %d" % f["l"])
        for c in COLLS: ctx.ob("elements", "%s: %s" % (what, c), any(k[0] == "element of $.%s" % c for k in cl.events), "the elements of $.%s are not visited" % c, "line %d" % f["l"])
        for coll, ipath, line in cl.indices: ctx.ob("paired", "%s: %s" % (what, coll), ipath == (coll,), "an entry of the paths of $.%s is chosen by an index into another collection" % coll, "line %d" % line)
        for k in cl.events: ctx.ob("operation", "%s: %s line %d" % (what, k[0], k[1]))
        for (rule, k), (msg, line) in cl.bad.items(): ctx.fail(rule, "%s: %s" % (what, k), msg, "line %d" % line)

if __name__ == "__main__":
    framework.main("C24", check, explain=EXPLAIN)
