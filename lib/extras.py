"""C10: the arguments of every extras callback, while loading and while exporting."""
import tree, interp, writer, parsemodel
from interp import *
from interp import V, State, Interp
from builtins_ import split, objs
from parsemodel import ParseClient, Model, same_path, norm

def setter_field(p, cls, name):
    """The member a setter stores its argument in."""
    f = next((f for f in p.functions if f["q"] == cls + "::" + name and f.get("body")), None)
    if f is None: raise tree.AnalysisError("%s::%s not found" % (cls, name))
    I = Interp(p, None)
    st = State()
    a = ('m', ('arg', 'x'), ())
    st.store[(f["params"][0]["id"], ())] = frozenset([a])
    ends = I.run(f, st, this=(("this",), ()))
    fields = None
    for v, s in ends:
        w = {k[1] for k, x in s.store.items() if k[0] == ("this",) and x == frozenset([a])}
        fields = w if fields is None else fields & w
    return f, fields or set()

class ExtrasClient(ParseClient):
    """st.x counts the elements this iteration has added to the unit's collection."""
    def __init__(self, unit, member, cb, **kw):
        ParseClient.__init__(self, **kw)
        self.unit, self.member, self.cb = unit, member, cb
        self.found, self.steps, self.relative = {}, {}, False
    def key(self, I, st): return st.x
    def join_x(self, a, b): return a if a == b else max(a or 0, b or 0)
    def on_json_iter(self, I, path, isobj, st):
        if norm(path) == self.unit:
            if st.x is not False: self.steps[st.x] = True
            st.x = 0
    def on_call(self, I, n, q, st):
        if q:
            m = split(q)[1]
            if m in ("push_back", "emplace_back", "emplace_back<>") or m.startswith("emplace_back"):
                k = n.get("c", [None])[0]
                if k is not None and n["k"] == "CXXMemberCallExpr" and not n.get("arrow"):
                    l = I.simple_loc(k, st)
                    if l == (('asset',), (self.member,)) and st.x is not False: st.x = min(3, (st.x or 0) + 1)
        return ParseClient.on_call(self, I, n, q, st)
    def indirect(self, I, n, st):
        if len(n.get("c", [])) != 4: return
        name = I.fname(n["fn"], VTOP)
        if name not in self.cb and 'Category' not in etype(n["c"][2]): return
        for vs, s in I.args(n["c"], st.copy()):
            o = set()
            for a in vs[0].a:
                if a[0] == 'ptr':
                    for x in I.read((a[1], a[2]), s): o.add(resolve(x[1], s) if x[0] == 'j' else x)
                else: o.add(resolve(a[1], s) if a[0] == 'j' else a)
            self.found.setdefault(n["l"], []).append((frozenset(o), vs[1].a, vs[2].a, vs[3].a, s.x))

def members(p): return {f["n"] for f in p.records["fastgltf::Asset"]["fields"]}
def category_of(p, coll):
    last = coll.rsplit(".", 1)[-1].replace("[]", "")
    for n, v in p.enums["fastgltf::Category"].items():
        if n.lower() == last.lower(): return n, v
    return None
def cats(p, a): return p.enum_names["fastgltf::Category"].get(a[1], str(a[1])) if a[0] == 'c' else None

def check(ctx):
    p = tree.load("src/fastgltf.cpp")
    # while loading
    fu, uf = setter_field(p, "fastgltf::Parser", "setUserPointer")
    ctx.ob("R4 setters", fu["q"], bool(uf), "the user pointer is not stored")
    fc, cf = setter_field(p, "fastgltf::Parser", "setExtrasParseCallback")
    ctx.ob("R4 setters", fc["q"], bool(cf), "the callback is not stored")
    M = Model(p)
    ms = members(p)
    n = 0
    for unit in sorted(M.units):
        member = next((m for m in ms if m.lower() == unit.rsplit(".", 1)[-1].lower()), None)
        cl = ExtrasClient(unit, member, {f[-1] for f in cf})
        M.run_unit(unit, cl)
        cat = category_of(p, unit)
        rel = False
        for l, calls in sorted(cl.found.items()):
            n += 1
            w = "src/fastgltf.cpp:%s" % l
            name = "%s[].extras (line %s)" % (unit, l)
            for o, idx, c, u, pushed in calls:
                for x in o:
                    if isinstance(x, str) and norm(x) != unit + "[].extras": ctx.fail("R1 object", name, "the callback is given the object %s" % x, w)
                for a in c:
                    if a[0] == 'c' and (cat is None or a[1] != cat[1]): ctx.fail("R2 category", name, "the callback for an element of %s is given Category::%s" % (unit, cats(p, a)), w)
                for a in u:
                    if a == ('null',) or a[0] == 'c' or (a[0] == 'm' and a[1] == ("this",) and a[2] not in uf): ctx.fail("R3 user pointer", name, "the callback is not given the pointer that was set", w)
                for a in idx:
                    msg = None
                    if a[0] == 'sz' and a[1] == ('asset',):
                        if a[2] != (member,): msg = "is the size of %s" % canon('', a[2]).lstrip('.')
                        else:
                            rel = True
                            if (pushed or 0) + a[3] != 0: msg = "is the number of earlier elements %+d" % ((pushed or 0) + a[3])
                    elif a[0] == 'c': msg = "is always %r" % (a[1],)
                    if msg: ctx.fail("R2 index", name, "the index given to the callback %s" % msg, w)
            for r in ("R1 object", "R2 category", "R2 index", "R3 user pointer"): ctx.ob(r, name)
        if rel: ctx.ob("R2 index", "%s: one element per iteration" % unit, not any(k != 1 for k in cl.steps), "an iteration adds %s elements to the collection whose size is used as the index" % sorted(cl.steps))
    ctx.need(n, "extras callbacks while loading", 5)
    # while exporting
    fu, uf = setter_field(p, "fastgltf::Exporter", "setUserPointer")
    ctx.ob("R4 setters", fu["q"], bool(uf), "the user pointer is not stored")
    fc, cf = setter_field(p, "fastgltf::Exporter", "setExtrasWriteCallback")
    ctx.ob("R4 setters", fc["q"], bool(cf), "the callback is not stored")
    E = writer.Export(p)
    cl = ExtrasWriter(p, E.units)
    I, ends = E.run_root(cl)
    n2 = 0
    for (path, l, coll) in sorted({(norm(k[0]), v, k[4]) for k, v in cl.extras.items()}, key=str):
        pass
    seen = {}
    for (path, i, c, u, inpos), l in cl.extras.items():
        unit = path[:path.rindex("[]")] if "[]" in path else path
        seen.setdefault((unit, l), []).append((i, c, u, inpos))
    for (unit, l), calls in sorted(seen.items()):
        n2 += 1
        w = "src/fastgltf.cpp:%s" % l
        name = "%s[].extras (line %s)" % (unit, l)
        cat = category_of(p, unit)
        member = next((m for m in ms if m.lower() == unit.rsplit(".", 1)[-1].lower()), None)
        for i, c, u, inpos in calls:
            if c[0] == 'c' and (cat is None or c[1] != cat[1]): ctx.fail("R2 category", name, "the callback for an element of %s is given Category::%s" % (unit, cats(p, c)), w)
            if u == ('null',) or u[0] == 'c' or (u[0] == 'm' and u[1] == 'this' and u[2] not in uf): ctx.fail("R3 user pointer", name, "the callback is not given the pointer that was set", w)
            msg = None
            if i[0] == 'pos' and i[1] == writer.ROOT:
                if i[2] != (member,): msg = "is a position in %s" % canon('', i[2]).lstrip('.')
                elif i[5] != 0: msg = "is the element's position %+d" % i[5]
            elif i[0] == 'sz': msg = "is a number of elements"
            elif i[0] == 'c' and inpos is not None and isinstance(i[1], int) and not inpos[0] <= i[1] <= inpos[1]: msg = "is %r for a later element" % i[1]
            if msg: ctx.fail("R2 index", name, "the index given to the callback %s" % msg, w)
        for r in ("R2 category", "R2 index", "R3 user pointer"): ctx.ob(r, name)
    for (path, call, l) in sorted(cl.written, key=str):
        src = {(k[0][:k[0].rindex("[]")] + "[]" if "[]" in k[0] else k[0]) for k, v in cl.extras.items() if v == call}
        ctx.ob("R1 object", "the text of the callback at line %s is written to %s" % (call, path), all(path == s + ".extras" for s in src), "the text returned for an element of %s is written to %s" % (", ".join(sorted(src)), path), "src/fastgltf.cpp:%s" % l)
    ctx.need(n2, "extras callbacks while exporting", 5)
    ctx.analysed = {"callbacks while loading": n, "callbacks while exporting": n2, "parse units": len(M.units), "write functions": len(E.units)}

class ExtrasWriter(writer.WriteClient):
    def __init__(self, *a):
        writer.WriteClient.__init__(self, *a)
        self.written = set()
    def extra_call(self, I, n, vs, st):
        p = writer.fpath(st.x[0][0])
        coll = p[:p.rindex("[]")].rsplit(".", 1)[-1].lower() if "[]" in p else ''
        pos = None
        for v in st.store.values():
            for a in v:
                if a[0] == 'pos' and a[1] == writer.ROOT and len(a[2]) == 1 and a[2][0].lower() == coll and a[5] == 0: pos = I.cls(a[3])
        for i in vs[0].a:
            for c in vs[1].a:
                for u in vs[2].a: self.extras.setdefault((p, i, c, u, pos), n["l"])
    def on_value(self, st, path, idx, kind, pieces, n, ctl):
        for a in pieces:
            for t in writer.subterms(a):
                if t[:2] == ('call', 'extrasWriteCallback'): self.written.add((path, t[3], n.get("l")))
        return ctl
