import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree
import uris, transfer
from uris import *
from uris import Run, members, label, prog

EXPLAIN = ("Abstract interpretation of every copy and move constructor and assignment of the library's classes, hand-written or generated: at every exit each member of the result must come from the source's "
           "member of the same name; URI and URIView are run in the linear text domain (offsets and lengths of every component compared with the source's, self-assignment included); the union in "
           "AccessorBoundsArray is run for every pair of active members.")

# what each load sets up anew (C11): not part of a parser's value
FRESH = {"fastgltf::Parser": None}
SKIP = ("fastgltf::SmallVector", "fastgltf::StaticVector", "fastgltf::URI", "fastgltf::URIView")

def configured(rec):
    """The members of a class that its constructors and setters write (the rest is set up by each use)."""
    p = prog(); out = set()
    for f in p.functions:
        if f.get("rec") != rec or not f.get("body"): continue
        if not (f.get("ctor") and not any(bare(a["t"]) == rec for a in f["params"]) or f["n"].startswith("set")): continue
        names = {x["n"] for x in p.records[rec]["fields"]}
        for y in tree.walk(f["body"]):
            if y["k"] == "MemberExpr" and y.get("n") in names: out.add(y["n"])
        out |= {i["n"] for i in f.get("inits", []) if i.get("n") and i.get("written")}
    return out

def special(rec):
    p = prog()
    return [f for f in p.functions if f.get("rec") == rec and f.get("body") is not None and len(f.get("params", [])) == 1 and bare(f["params"][0]["t"]) == rec
            and is_ref(f["params"][0]["t"]) and (f.get("ctor") or f["n"] == "operator=")]

def releases(rec):
    """Members the destructor hands to a call: the class owns what they name."""
    p = prog(); out = set()
    for f in p.functions:
        if f.get("rec") == rec and f["n"].startswith("~") and f.get("body"):
            for y in tree.walk(f["body"]):
                if y["k"] == "CallExpr" and not (y.get("q") or "").startswith("std::"):
                    for z in y.get("c", []):
                        for m in tree.walk(z):
                            if m["k"] == "MemberExpr" and m.get("dk") == "Field" and m.get("t", "").rstrip().endswith("*"): out.add(m["n"])
    return out

def generic(ctx, rec):
    p = prog()
    fields = p.records[rec]["fields"]
    value = configured(rec) if rec in FRESH else None
    own = releases(rec)
    for f in special(rec):
        ismove = f["params"][0]["t"].rstrip().endswith("&&")
        ex, cl = transfer.run(f)
        what = "%s %s of %s" % ("move" if ismove else "copy", "constructor" if f.get("ctor") else "assignment", rec.replace("fastgltf::", ""))
        ctx.need(len(ex), "exits of the " + what, 1)
        ctx.analysed[what] = {"exits": len(ex), "members": len(fields)}
        for x in fields:
            if not x["n"] or (value is not None and x["n"] not in value): continue
            for s in ex:
                w = transfer.comes_from(s, (x["n"],), x["t"])
                ctx.ob("transfer", "%s: %s" % (what, x["n"]), w is None, w or "")
                if ismove and x["n"] in own:
                    v = s.store.get((OTHER[0], (x["n"],)))
                    ctx.ob("owner", "%s: %s" % (what, x["n"]), v is not None and ('m', ('other',), (x["n"],)) not in v, "the source still owns what was moved")
        if rec == "fastgltf::Asset" and not f.get("ctor"):
            # what the members were allocated from is replaced after the members themselves
            pool = [x["n"] for x in fields if "memory_resource" in x["t"] or "buffer_resource" in x["t"]]
            for m in pool:
                at = [done for n, done in cl.order if n == m]
                rest = {x["n"] for x in fields} - {m}
                ctx.ob("pool", "%s: %s" % (what, m), bool(at) and rest <= at[-1], "the memory the object's members live in is given up before they are (%s)" % ", ".join(sorted(rest - (at[-1] if at else set()))[:4]))
    for m in [x["n"] for x in fields if "buffer_resource" in x["t"]] if rec == "fastgltf::Asset" else []:
        ctx.ob("pool", "order of members", fields[0]["n"] == m, "%s is not the first member, so it is destroyed before members that live in its memory" % m)

def bounds(ctx):
    rec = "fastgltf::AccessorBoundsArray"
    p = prog()
    r = p.records.get(rec)
    if r is None: return
    tag = next((x for x in r["fields"] if x["t"].endswith("BoundsType")), None)
    if tag is None or not any(not x["n"] for x in r["fields"]): return generic(ctx, rec)
    E = [int(v) for v in p.enums[tag["t"]].values()] if isinstance(p.enums[tag["t"]], dict) else [int(e["v"]) for e in p.enums[tag["t"]]["members"]]
    leaf = lambda l: l[1][-1] if l else None
    active = {}
    dtor = next((f for f in p.functions if f.get("rec") == rec and f["n"].startswith("~") and f.get("body")), None)
    ctx.need(1 if dtor else 0, "destructor of AccessorBoundsArray", 1)
    for e in E:
        ex, _ = transfer.run(dtor, old={tag["n"]: ('c', e)})
        for s in ex:
            d = [leaf(x[1]) for x in s.x if x[0] == 'destroy']
            ctx.ob("union", "destructor for type %d" % e, len(d) == 1, "destroys %s instead of the one active member" % (d or "nothing"))
            if d: active[e] = d[0]
    ctx.ob("union", "members", len(set(active.values())) == len(E), "two types share a member")
    for f in [f for f in p.functions if f.get("rec") == rec and f.get("body") and f.get("ctor") and len(f["params"]) == 2]:
        for e in E:
            ex, _ = transfer.run(f, seed={tag["t"]: ('c', e)})
            for s in ex:
                d = [leaf(x[1]) for x in s.x if x[0] == 'make']
                ctx.ob("union", "constructor for type %d" % e, d == [active.get(e)], "constructs %s instead of %s" % (d, active.get(e)))
    for f in special(rec):
        what = "%s of AccessorBoundsArray" % ("move constructor" if f.get("ctor") else "move assignment")
        for e in E:
            for o in (E if not f.get("ctor") else E[:1]):
                ex, _ = transfer.run(f, seed={tag["n"]: ('c', e)}, old={} if f.get("ctor") else {tag["n"]: ('c', o)})
                ctx.need(len(ex), "exits of the " + what, 1)
                for s in ex:
                    c = "%s (from type %d%s)" % (what, e, "" if f.get("ctor") else " over type %d" % o)
                    if not f.get("ctor"):
                        d = [leaf(x[1]) for x in s.x if x[0] == 'destroy']
                        ctx.ob("union", c + " destroys", d == [active.get(o)], "destroys %s, the active member is %s" % (d, active.get(o)))
                        kinds = [x[0] for x in s.x]
                        ctx.ob("union", c + " order", kinds == sorted(kinds), "constructs before it destroys")
                    m = [(leaf(x[1]), leaf(x[2]), x[2] and x[2][0]) for x in s.x if x[0] == 'make']
                    ctx.ob("union", c + " constructs", m == [(active.get(e), active.get(e), OTHER[0])], "constructs %s from %s" % (m[0][0] if m else "nothing", m[0][1] if m else "nothing"))
                    start = {(tag["n"],): frozenset([('c', e)])}
                    for x in r["fields"]:
                        if not x["n"]: continue
                        w = transfer.comes_from(s, (x["n"],), x["t"], start)
                        ctx.ob("transfer", "%s: %s" % (c, x["n"]), w is None, w or "")
                    n = s.store.get((OTHER[0], ("len",)))
                    if any(x["n"] == "len" for x in r["fields"]): ctx.ob("owner", c + ": len", n == frozenset([('c', 0)]), "the source still claims elements it no longer owns")

def same(ctx, r, s, what, base0, base1, T1=None):
    """Each component of the result is the source's, moved to the text of the result."""
    cl = r.cl
    W = r.whole()
    for n, t in r.views():
        a = r.before.store.get((base0[0], base0[1] + (n,)))
        a = next(iter(a)) if a else None
        b = r.value((base1[0], base1[1] + (n,)), s)
        if not t.startswith("std::basic_string_view"):
            ctx.ob("component", "%s: %s" % (what, n), a is not None and a == b, "is not the source's")
            continue
        if a is None or a[0] != 'sv': continue
        o, l = lin(a[2]), lin(a[3])
        ok = b is not None and b[0] == 'sv' and lin(b[3]) is not None and cl.eq(lin(b[3]), l, s)
        if ok and not cl.le(l, num(0), s):
            ok = lin(b[2]) is not None and cl.eq(lin(b[2]), o, s) and (b[1] == (T1 if T1 is not None else a[1]))
            why = "has the source's length but another place in the text"
        else: why = "does not have the length of the source's"
        ctx.ob("component", "%s: %s" % (what, n), ok, why)

def text_is(cl, T, S, s):
    if T == S: return True
    seen = 0
    while T in cl.origin and seen < 5:
        P, o = cl.origin[T]
        if not (cl.eq(o, num(0), s) and cl.eq(cl.length(T), cl.length(P), s)): return False
        if P == S: return True
        T = P; seen += 1
    return False

def uri_views(ctx):
    for f in members(VIEW):
        if len(f["params"]) != 1 or bare(f["params"][0]["t"]) != VIEW: continue
        for alias in (False, True):
            if alias and f.get("ctor"): continue
            r = Run(f)
            if not f.get("ctor"): r.old()
            r.bind(alias)
            ex = r.go()
            what = label(f) + (" with itself" if alias else "")
            ctx.need(len(ex), "exits of " + what, 1)
            ctx.analysed[what] = {"exits": len(ex)}
            for s in ex: same(ctx, r, s, what, THIS if alias else OTHER, THIS)

def uris_(ctx):
    for f in members(OWN):
        if len(f["params"]) != 1: continue
        t = bare(f["params"][0]["t"])
        vn = None
        for alias in (False, True):
            if alias and (f.get("ctor") or t not in (OWN, VIEW)): continue
            if alias and t == VIEW: continue          # C14 runs it
            r = Run(f)
            if not f.get("ctor"): r.old()
            r.bind(alias)
            ex = r.go()
            what = label(f) + (" with itself" if alias else "")
            ctx.need(len(ex), "exits of " + what, 1)
            ctx.analysed[what] = {"exits": len(ex)}
            un = next(n for n, x in r.own() if x.startswith("std::basic_string<")); vn = next(n for n, x in r.own() if x == VIEW)
            src = THIS if alias else OTHER
            for s in ex:
                u = r.value((THIS[0], (un,)), s)
                T = u[1] if u is not None and u[0] == 'str' else None
                if t == OWN:
                    b = r.before.store.get((src[0], src[1] + (un,)))
                    S = next(iter(b))[1] if b else None
                    ctx.ob("text", "%s: %s" % (what, un), T is not None and text_is(r.cl, T, S, s), "the text is not the source's")
                    same(ctx, r, s, what, (src[0], src[1] + (vn,)), (THIS[0], (vn,)), T)
                    if not alias: moved(ctx, r, s, what, un, vn)
                else:
                    v = r.value((THIS[0], (vn, "_valid")), s)
                    ctx.ob("component", what + ": _valid", v is None or not (v[0] == 'm' and v[1] == ("this",)), "keeps the validity of the earlier value")

def moved(ctx, r, s, what, un, vn):
    """The source's components refer to its own text, or to nothing."""
    cl = r.cl
    u = r.value((OTHER[0], (un,)), s)
    T = u[1] if u is not None and u[0] == 'str' else None
    for n, t in r.views():
        if not t.startswith("std::basic_string_view"): continue
        v = r.value((OTHER[0], (vn, n)), s)
        ok = v is not None and v[0] == 'sv' and lin(v[3]) is not None
        if ok and not cl.le(lin(v[3]), num(0), s): ok = v[1] == T and cl.le(add(lin(v[2]), lin(v[3])), cl.length(T), s)
        ctx.ob("moved-from", "%s: %s" % (what, n), ok, "the source is left with a component in a text that it no longer owns")

def check(ctx):
    p = prog()
    uri_views(ctx); uris_(ctx)
    bounds(ctx)
    n = 0
    for rec in sorted(p.records):
        if not rec.startswith("fastgltf::") or rec.startswith(SKIP) or "(anonymous" in rec or "(lambda" in rec or rec == "fastgltf::AccessorBoundsArray" or "<" in rec: continue
        if special(rec): n += 1; generic(ctx, rec)
    ctx.need(n, "classes with copy or move members", 20)
    ctx.analysed["classes"] = n

if __name__ == "__main__":
    framework.main("C15", check, explain=EXPLAIN)
