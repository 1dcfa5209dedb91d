import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree
from loading import *
from owners import *
from owners import show
from hostio import items

EXPLAIN = ("Abstract execution (typestate of descriptors, streams, mappings and allocations; linear domain over file and buffer sizes) of every member function of every class that derives from GltfDataGetter, "
           "with every operation of the operating system splitting into success and failure, and of the loaders of external buffers and images.")
GETTER = "fastgltf::GltfDataGetter"

def nonnull(I, a, s): return I.decide("!=", simple(a), NULL, s)
def errors(src, s, field):
    """None / not None / unknown of the error member."""
    a = {x[1] if x[0] == 'c' else None for x in src.member(s, field)}
    return a

def construction(ctx, M, rec, state):
    p = M.p
    short = rec.split("::")[-1]
    ctors = [f for f in methods(p, rec) if f["q"] == rec + "::" + short and f["params"] and bare(f["params"][0]["t"]) != rec]
    dtor = [f for f in methods(p, rec) if f["q"] == rec + "::~" + short]
    errf = [n for n, t in {f["n"]: f["t"] for f in p.records[rec]["fields"]}.items() if bare(t) == "fastgltf::Error"]
    for f in ctors:
        cl = setup(OwnerClient(), M)
        src = Source(M, rec, cl)
        what = "%s(%s)" % (short, ", ".join(x["n"] for x in f["params"]))
        frompath = "path" in f["params"][0]["t"]
        size = ('T',) if frompath else next((('n', a["n"]) for a in f["params"] if "*" not in a["t"]), None)
        exits = src.ctor(f, src.start())
        for s in exits:
            F = [i for i in items(s) if i[0] == 'F']
            for i in items(s):
                if i[0] == 'fd': ctx.fail("descriptor", "%s: opened in %s" % (what, cl_where(f)), "the descriptor opened at line %d is still open when the constructor ends%s" % (i[1], (" after a failed " + F[0][1]) if F else ""), "line %d" % i[1])
            if errf:
                e = errors(src, s, errf[0])
                if F and (0 in e or None in e): ctx.fail("error", "%s: %s" % (what, F[0][1]), "a failed %s is not reported in the error member" % F[0][1], "line %d" % F[0][3])
                if not F and e != {0}: ctx.fail("error", "%s: success" % what, "the constructor reports an error although nothing failed", "line %d" % f["l"])
            if F: continue
            success(ctx, src, s, f, what, size, frompath, state.setdefault(rec, {}))
        for k in cl.events: ctx.ob("operation", "%s: %s line %d" % (what, k[0], k[1]))
        ctx.ob("paths", "%s: %d paths" % (what, len(exits)), any(not any(i[0] == 'F' for i in items(s)) for s in exits), "no path of the constructor succeeds")
        # the destructor on every exit
        if dtor:
            for s in exits:
                s = s.copy()
                for _, s2 in src.call(dtor[0], s): leaks(ctx, s2, what + ", destroyed")
        else:
            for s in exits: leaks(ctx, s, what)
        for (rule, c), (msg, line) in cl.bad.items(): ctx.fail(rule, "%s: %s" % (what, c), msg, "line %d" % line)
def cl_where(f): return f["q"].split("::")[-1]
def leaks(ctx, s, what):
    for i in items(s):
        if i[0] == 'map': ctx.fail("mapping", "%s: leaked" % what, "the mapping created at line %s is never released%s" % (i[1], "".join(" (path with a failed %s)" % j[1] for j in items(s) if j[0] == 'F')), "line %s" % i[1])
def success(ctx, src, s, f, what, size, frompath, st):
    I, cl = src.I, src.cl
    base = [(n, src.one(s, n)) for n in src.fields if src.one(s, n) is not None and src.one(s, n)[0] in ('p', 'map') and src.one(s, n) in [i[1] if i[0] == 'alloc' else ('map', i[1]) for i in items(s) if i[0] in ('alloc', 'map')]]
    sizes = [n for n in src.fields if src.one(s, n) == size]
    stream = [n for n in src.fields if any(a[0] == 'stream' for a in src.member(s, n))]
    ctx.ob("size", what, bool(sizes), "no member holds the size of the data (%s)" % show(size), "line %d" % f["l"])
    if sizes: st.setdefault("size", set()).update(sizes); st["size"] &= set(sizes)
    if stream and not base: st["stream"] = stream[0]; return
    ctx.ob("base", what, bool(base), "no member holds the memory with the data", "line %d" % f["l"])
    if not base: return
    n, a = base[0]
    st["base"] = n
    if a[0] == 'map':
        have = cl.maplen(s, a[1])
        if have is not None and sizes:
            d = add(have, lin(size), -1)
            if not d[0]: st["maplen"] = d[1]
        file = [lin(i[2]) for i in items(s) if i[0] == 'file' and i[1] == a[1]]
        ctx.ob("filled", what, bool(file) and file[0] is not None and cl.le(lin(size), file[0], s), "the mapping does not cover the whole file", "line %d" % a[1])
    else:
        have = [lin(i[2]) for i in items(s) if i[0] == 'alloc' and i[1] == a]
        have = have[0] if have else None
        src_ = None if frompath else ('p', [x["n"] for x in f["params"] if "*" in x["t"]][0])
        good = [i for i in items(s) if i[0] == 'copy' and i[1] == ("read" if frompath else "memcpy") and i[2] == a and i[4] == size and (frompath or i[3] == src_)]
        ctx.ob("filled", what, bool(good), "the memory is not filled with the %s bytes of the data" % show(size), "line %d" % f["l"])
        for i in items(s):
            if i[0] == 'copy' and i not in good and i[2] is not None and lin(i[2]) is not None and dict(lin(i[2])[0]).get(a) == 1:
                off = add(lin(i[2]), ({a: 1}, 0), -1)
                ctx.ob("filled", what + ": kept", cl.le(lin(size), off, s), "a part of the data is overwritten after it was read", "line %d" % f["l"])
    ctx.ob("padding", what, have is not None and cl.le(add(lin(size), ({}, PADDING)), have, s), "the memory behind the data is not as long as the padding simdjson reads (%d bytes)" % PADDING, "line %d" % f["l"])

def reading(ctx, M, rec, st):
    p = M.p
    short = rec.split("::")[-1]
    ms = {}
    for f in methods(p, rec): ms.setdefault(f["q"].split("::")[-1], []).append(f)
    cl = setup(OwnerClient(), M); cl.failing = False
    src = Source(M, rec, cl)
    seed = src.seed()
    size = sorted(st.get("size", ()))
    def runs(f, s): return [((v.one() and simple(v.one())) if isinstance(v, V) else None, v, x) for v, x in src.call(f, s)]
    for f in ms.get("totalSize", []):
        for r, v, s in runs(f, src.start(seed)): ctx.ob("totalSize", short, r in [seed.get(n) for n in size], "totalSize() does not return the size of the data", "line %d" % f["l"])
    base = st.get("base")
    if base is None and st.get("stream"): return streaming(ctx, M, rec, ms, seed, st["stream"])
    if base is None: return
    idx = None
    for f in ms.get("bytesRead", []):
        for r, v, s in runs(f, src.start(seed)):
            idx = [n for n in seed if seed[n] == r]
            ctx.ob("bytesRead", short, bool(idx), "bytesRead() does not return a member", "line %d" % f["l"])
    if not idx: return
    idx = idx[0]
    for f in ms.get("reset", []):
        for r, v, s in runs(f, src.start(seed)): ctx.ob("reset", short, src.one(s, idx) == ('c', 0), "reset() does not put the position back to zero", "line %d" % f["l"])
    at = mk(*add(({('p', base): 1}, 0), ({('n', idx): 1}, 0)))
    for f in ms.get("read", []):
        cnt = next((('n', a["n"]) for a in f["params"] if "*" not in a["t"]), None)
        ptr = next((('p', a["n"]) for a in f["params"] if "*" in a["t"]), None)
        what = "%s::read(%s)" % (short, ", ".join(a["n"] for a in f["params"]))
        for r, v, s in runs(f, src.start(seed)):
            ctx.ob("position", what, src.one(s, idx) == mk(*add(({('n', idx): 1}, 0), ({cnt: 1}, 0))), "the position does not advance by the number of bytes read", "line %d" % f["l"])
            copies = [i for i in items(s) if i[0] == 'copy']
            if ptr is not None: ctx.ob("copied", what, copies == [('copy', 'memcpy', ptr, at, cnt)], "the destination does not get exactly the next bytes of the data (%s)" % "; ".join("%s from %s: %s bytes" % (show(i[2]), show(i[3]) if i[3] else "?", show(i[4])) for i in copies), "line %d" % f["l"])
            else:
                got = spanned(src.I, v, s)
                ctx.ob("span", what, got is not None and got[0] == at and got[1] is not None and got[1] == cnt, "the returned span is not the next bytes of the data (%s)" % (got and "%s, %s bytes" % (show(got[0]), show(got[1])),), "line %d" % f["l"])
    for (rule, c), (msg, line) in cl.bad.items(): ctx.fail(rule, "%s: %s" % (short, c), msg, "line %d" % line)
def streaming(ctx, M, rec, ms, seed, field):
    """A source that reads from a stream: every read goes to the stream, and the destination is long enough."""
    short = rec.split("::")[-1]
    def prepared(failing, status='ok'):
        cl = setup(OwnerClient(), M); cl.failing = failing
        src = Source(M, rec, cl)
        st0 = src.start(seed)
        st0.store[(THIS, (field,))] = frozenset([('stream', 'S')]); put(st0, ('s', 'S', status, False))
        return cl, src, st0
    for f in ms.get("isOpen", []):
        for status, want in (('ok', 1), ('closed', 0)):
            cl, src, st0 = prepared(False, status)
            for v, s in src.call(f, st0): ctx.ob("isOpen", "%s %s" % (short, status), v.consts() in ([want], {want}, [bool(want)]) or v.const() == want, "isOpen() does not tell whether the file is open", "line %d" % f["l"])
    for f in ms.get("reset", []):
        cl, src, st0 = prepared(False)
        for v, s in src.call(f, st0):
            seeks = [i for i in items(s) if i[0] == 'seek']
            ctx.ob("reset", short, len(seeks) == 1 and seeks[0][2][0] == ('c', 0) and (len(seeks[0][2]) == 1 or seeks[0][2][1][-1:] != ('end',)), "reset() does not put the position back to zero", "line %d" % f["l"])
    for f in ms.get("bytesRead", []):
        cl, src, st0 = prepared(False)
        for v, s in src.call(f, st0): ctx.ob("bytesRead", short, has(v.one() or TOP, lambda t: t == ('tell', 'S')), "bytesRead() is not the position in the stream", "line %d" % f["l"])
    for f in ms.get("read", []):
        cnt = next((('n', a["n"]) for a in f["params"] if "*" not in a["t"]), None)
        pad = next((('n', a["n"]) for a in f["params"] if "*" not in a["t"] and ('n', a["n"]) != cnt), None)
        ptr = next((('p', a["n"]) for a in f["params"] if "*" in a["t"]), None)
        what = "%s::read(%s)" % (short, ", ".join(a["n"] for a in f["params"]))
        cl, src, st0 = prepared(True)
        ok = {}
        for v, s in src.call(f, st0):
            copies = [i for i in items(s) if i[0] == 'copy' and i[1] == 'read']
            ctx.ob("copied", what, len(copies) == 1 and copies[0][4] == cnt and (ptr is None or copies[0][2] == ptr), "the destination does not get exactly the next bytes of the file", "line %d" % f["l"])
            if ptr is None and copies:
                got = spanned(src.I, v, s)
                ctx.ob("span", what, got is not None and got[0] == copies[0][2], "the returned span is not the memory that was read (%s)" % (got and show(got[0]),), "line %d" % f["l"])
                d = copies[0][2]
                size = [lin(i[3]) for i in items(s) if i[0] == 'vsize' and d[0] == 'ptr' and i[1] == d[1] and i[2] == d[2][:len(i[2])]]
                ctx.ob("padding", what, bool(size) and size[0] is not None and cl.le(add(({cnt: 1}, 0), ({pad: 1} if pad else {}, 0)), size[0], s), "the memory is not as long as the data and the padding asked for", "line %d" % f["l"])
            mem = tuple(sorted((str(k), str(x)) for k, x in s.store.items() if k[0] == THIS)), str(v.a)
            ok.setdefault(any(i[0] == 'F' for i in items(s)), set()).add(mem)
        if ok.get(True, set()) & ok.get(False, set()): ctx.fail("unreported", "%s::read %s" % (short, "span" if ptr is None else "pointer"), "a short read is neither reported by the call nor remembered by the source", "line %d" % f["l"])
        for (rule, c), (msg, line) in cl.bad.items(): ctx.fail(rule, "%s: %s" % (what, c), msg, "line %d" % line)
def loaders(ctx, M):
    for coll, opt in COLLECTIONS:
        bit = M.p.enums["fastgltf::Options"][opt]
        cl = run(M, coll, HostClient, option=('bits', bit, 0), force=dict(isDataUri=0, isLocalPath=1, valid=1))
        what = "external file of $.%s[]" % coll
        ctx.ob("opened", what, any(k[0].startswith("open") for k in cl.events), "the file is never opened")
        ctx.ob("read", what, any(k[0] == "op read" for k in cl.events), "the file is never read")
        ctx.ob("loaded", what, bool(cl.successes), "no path succeeds")
        for c, msg, line in leftover(ctx, cl, "read-error", what): ctx.fail("read-error", "%s: %s" % (what, c), msg, "line %d" % line)
        for v, s in cl.exits:
            for i in items(s):
                if i[0] in ('fd', 'map'): ctx.fail("descriptor", "%s: line %s" % (what, i[1]), "the %s created at line %s is never released" % ("descriptor" if i[0] == 'fd' else "mapping", i[1]))
        for (rule, c), (msg, line) in cl.bad.items():
            if rule in ("descriptor", "mapping", "size"): ctx.fail(rule, "%s: %s" % (what, c), msg, "line %d" % line)
def moving(ctx, M, rec, st):
    """Hand-written move operations of a class that owns a mapping."""
    if "maplen" not in st or not st.get("size"): return
    p = M.p
    short = rec.split("::")[-1]
    base, size = st["base"], sorted(st["size"])[0]
    dtor = [f for f in methods(p, rec) if f["q"] == rec + "::~" + short]
    for f in methods(p, rec):
        if not f["params"] or bare(f["params"][0]["t"]) != rec: continue
        assign = f["q"].endswith("operator=")
        for case in (("moved", "emptied", "self") if assign else ("moved",)):
            what = "%s::%s (%s)" % (short, f["q"].split("::")[-1], case)
            cl = setup(OwnerClient(), M); cl.failing = False
            src = Source(M, rec, cl)
            seed = src.seed()
            st0 = src.start(dict(seed) if assign else {})
            live = []
            O = THIS if case == "self" else ('other',)
            def own(root, tag):
                at = ('map', tag)
                st0.store[(root, (base,))] = frozenset([at])
                e = add(lin(list(st0.store[(root, (size,))])[0]), ({}, st["maplen"]))
                put(st0, ('map', tag, 'live'), ('mlen', tag, mk(*e)))
            if O != THIS:
                st0.store[(O, ())] = frozenset([('obj', rec)])
                for n, a in seed.items(): st0.store[(O, (n,))] = frozenset([(a[0], 'other.' + a[1]) if a[0] in ('p', 'n') else a])
                if case != "emptied": own(O, 'source')
                else: st0.store[(O, (base,))] = frozenset([('c', -1)])
            if assign: own(THIS, 'target')
            st0.store[(f["params"][0]["id"], ('&',))] = frozenset([('ptr', O, ())])
            st0.store[(f["params"][0]["id"], ())] = frozenset()
            before = {n: (frozenset([('map', 'source')]) if n == base and case != "emptied" else st0.store.get((O, (n,)))) for n in seed}
            if assign:
                exits = [s for _, s in src.call(f, st0, params=False)]
            else:
                exits = src.ctor(f, st0, params=False)
            ctx.ob("move", what, bool(exits), "no path")
            for s in exits:
                want = 'target' if case == "self" else 'source'
                if case != "emptied": ctx.ob("moved", what, src.one(s, base) == ('map', want), "the destination does not hold the mapping", "line %d" % f["l"])
                for n in seed:
                    if n != base and case != "self": ctx.ob("moved", what + ": " + n, src.member(s, n) == before[n], "member %s of the destination is not the one of the source" % n, "line %d" % f["l"])
                if not dtor: continue
                s = s.copy()
                for _, s2 in src.call(dtor[0], s):
                    if O == THIS: leaks(ctx, s2, what); continue
                    for _, s3 in src.I.run(dtor[0], s2, this=(O, ())): leaks(ctx, s3, what)
            for (rule, c), (msg, line) in cl.bad.items(): ctx.fail(rule, "%s: %s" % (what, c), msg, "line %d" % line)
def spanned(I, v, s):
    for a in (v.a if isinstance(v, V) else ()):
        if a[0] == 'span': return a[1], a[2]
        if a[0] in ('ctor', 'obj', 'call') and len(a) > 2 and isinstance(a[2], tuple) and len(a[2]) == 2: return simple(a[2][0]), simple(a[2][1])
    sub = v.sub or {}
    p = [simple(list(x)[0]) for k, x in sub.items() if len(x) == 1 and list(x)[0][0] in ('p', 'lin') and lin(simple(list(x)[0])) and any(t[0] in ('p', 'map') for t in lin(simple(list(x)[0]))[0])]
    n = [simple(list(x)[0]) for k, x in sub.items() if len(x) == 1 and lin(simple(list(x)[0])) and not any(t[0] in ('p', 'map') for t in lin(simple(list(x)[0]))[0])]
    return (p[0], n[0]) if p and n else None

def main(ctx):
    M = model()
    recs = base_records(M.p, GETTER)
    state = {}
    for r in recs: construction(ctx, M, r, state)
    for r in recs: reading(ctx, M, r, state.get(r, {}))
    for r in recs: moving(ctx, M, r, state.get(r, {}))
    loaders(ctx, M)
    ctx.need(len(recs), "classes", 2)

if __name__ == "__main__":
    framework.main("C19", main, explain=EXPLAIN)
