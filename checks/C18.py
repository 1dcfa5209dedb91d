import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree, struct
from loading import *
from hostio import items
import glb
from glb import lin, add, show_lin

EXPLAIN = ("Abstract execution of the GLB reader and writer in a linear integer domain over the size of the data, the fields of the container and the number of bytes consumed or emitted. "
           "Reader: every read lies within the data on every path (proved from the conditions of the path), and the document is parsed only where magic, version, chunk types and lengths are proved; well-formed and malformed containers at the limits are accepted and rejected. "
           "Writer: for JSON text of 4K+r bytes and a buffer of 4M+q bytes the emitted bytes tile the output exactly, lengths in the headers equal them, padding is spaces and zeros.")
MAGIC, JSON, BIN = 0x46546C67, 0x4E4F534A, 0x004E4942
U = lambda off: ('u32', 0, off)

def equal(cl, st, a, b):
    """a == b on every run of the path."""
    return cl.le(a, b, st) and cl.le(b, a, st)
def num(c): return {}, c

def glbdata(magic=MAGIC, version=2, length=None, jlen=100, jtype=JSON, blen=None, btype=BIN, total=None, cut=0):
    d = struct.pack("<II", jlen, jtype) + b"\x7b" * min(jlen, 200)
    if blen is not None: d += struct.pack("<II", blen, btype) + b"\1" * min(blen, 200)
    n = 12 + len(d)
    d = struct.pack("<III", magic, version, n if length is None else length) + d
    v = {i: x for i, x in enumerate(d)}
    v['T'] = (n if total is None else total) - cut
    return v

def held(cl, s):
    """Data sources the parser may hold for the GLB chunk when the document is parsed."""
    at = set()
    p = cl.paths["glb"]
    for a in s.store.get((("this",), p), frozenset()): at.add(a)
    return at

def check(ctx):
    M = model()
    # ---- the loader
    for name in ("loadGltfBinary", "loadGltfJson", "loadGltf"):
        cl = entry(M, name, glb.GlbClient)
        ctx.need(sum(len(v) for v in cl.parsed.values()), "states in which %s parses the document" % name, 1)
        ctx.need(len(cl.reads_done), "reads of the data in " + name, 1)
        for k in cl.reads_done: ctx.ob("read", "%s: data read in %s" % (name, k[0].split("::")[-1]), ('bounds', "unchecked read in " + k[0]) not in cl.bad, cl.bad.get(('bounds', "unchecked read in " + k[0]), ("", 0))[0], "line %d" % k[1])
        for (rule, c), (msg, line) in cl.bad.items():
            if rule == "bounds" and not c.startswith("unchecked read"): ctx.fail("read", "%s: %s" % (name, c), msg, "line %d" % line)
            if rule == "size": ctx.fail("size", "%s: %s" % (name, c), msg, "line %d" % line)
        # padded views
        ctx.need(len(cl.jsonviews), "views of JSON text made in " + name, 1)
        for (fn, line), vs in cl.jsonviews.items():
            for spans, ln, cap, s in vs:
                for sp in spans:
                    n, pad = lin(sp[1]), lin(sp[2])
                    l, c = ln and lin(ln), cap and lin(cap)
                    ok = l and n and cl.le(l, n, s)
                    ctx.ob("view", "%s: length of the JSON view in %s" % (name, fn), ok, "the view of the JSON text is longer than the data read (%s of %s bytes)" % (show_lin(ln) if ln else "?", show_lin(sp[1])), "line %d" % line)
                    ok = c and n and pad and cl.le(c, add(n, pad), s)
                    ctx.ob("view", "%s: capacity of the JSON view in %s" % (name, fn), ok, "the view of the JSON text claims more padding than was requested (%s of %s + %s)" % (show_lin(cap) if cap else "?", show_lin(sp[1]), show_lin(sp[2])), "line %d" % line)
        if name != "loadGltfBinary": continue
        for (fn, line), sts in cl.parsed.items():
            for s in sts:
                T = {('T',): 1}, 0
                w = "line %d" % line
                def ob(what, ok, msg): ctx.ob("header", "%s: %s" % (name, what), bool(ok), msg, w)
                ob("magic", equal(cl, s, lin(U(0)), num(MAGIC)), "the document is parsed although the magic number was not checked")
                ob("version", equal(cl, s, lin(U(4)), num(2)), "the document is parsed although the container version was not checked")
                ob("length", cl.le(lin(U(8)), T, s), "the document is parsed although the length in the header may exceed the data")
                ob("JSON chunk type", equal(cl, s, lin(U(16)), num(JSON)), "the document is parsed although the type of the first chunk was not checked")
                ob("JSON chunk length", cl.le(add(lin(U(12)), num(20)), T, s), "the document is parsed although the first chunk may exceed the data")
                p = cl.pos(s)
                J = add(lin(U(12)), num(20))
                src = {c for c in held(cl, s)}
                alts = {a[1].split("::")[-1] if a[0] == 'alt' and isinstance(a[1], str) else a[0] for a in src}
                if p is None: ob("end", False, "the position in the data is not known when the document is parsed"); continue
                if equal(cl, s, p, J):
                    ob("no second chunk", not alts & {"Array", "CustomBuffer", "Vector", "ByteView"}, "data without a BIN chunk still gives the asset's GLB buffer a data source (%s)" % sorted(alts)); continue
                b, off = cl.base(J)
                B = ('u32', b, off); BT = ('u32', b, off + 4)
                ob("BIN chunk type", equal(cl, s, lin(BT), num(BIN)), "the second chunk is accepted although its type was not checked")
                end = add(add(J, num(8)), lin(B))
                empty = equal(cl, s, lin(B), num(0))
                if empty: ob("empty BIN chunk", equal(cl, s, p, end) and not alts & {"Array", "CustomBuffer", "Vector", "ByteView"}, "an empty BIN chunk gives the asset's GLB buffer a data source (%s)" % sorted(alts))
                else:
                    ob("BIN chunk read", equal(cl, s, p, end), "not all of the BIN chunk is read (the load ends at %s)" % show_lin(glb.mk(*p)))
                    ob("BIN chunk delivered", alts and alts <= {"Array", "CustomBuffer", "Vector", "ByteView"}, "the data of the BIN chunk is not kept for the asset's buffer (%s)" % sorted(alts))
    # ---- containers that are accepted and rejected, at the limits
    GOOD = (("JSON chunk only", glbdata(), False), ("data after the container", glbdata(total=400), False), ("JSON and BIN chunk", glbdata(blen=40), True), ("small BIN chunk", glbdata(blen=4), True), ("empty BIN chunk", glbdata(blen=0), False), ("empty JSON chunk", glbdata(jlen=0), False))
    BAD = (("other magic", glbdata(magic=MAGIC + 1)), ("version 1", glbdata(version=1)), ("version 3", glbdata(version=3)), ("length exceeds the data by one", glbdata(cut=1)), ("JSON chunk exceeds the data by one", glbdata(length=50, cut=1)),
           ("JSON chunk of 2^32 - 1 bytes", glbdata(jlen=0xffffffff, total=220)), ("first chunk is BIN", glbdata(jtype=BIN)), ("second chunk is JSON", glbdata(blen=40, btype=JSON)), ("BIN chunk exceeds the data by one", glbdata(blen=40, length=167, cut=1)),
           ("BIN chunk of 2^32 - 1 bytes", glbdata(blen=0xffffffff, total=400)), ("header only", glbdata(total=12, length=12)), ("no data", dict(T=0)), ("11 bytes", glbdata(total=11)), ("19 bytes", glbdata(total=19, length=19, jlen=0)))
    for what, v, withbin in GOOD:
        cl = entry(M, "loadGltfBinary", glb.GlbClient, values=v)
        sts = [s for x in cl.parsed.values() for s in x]
        ctx.ob("accepted", what, bool(sts) and bool(cl.successes), "a well-formed container is rejected")
        for s in sts:
            alts = {a[1].split("::")[-1] for a in held(cl, s) if a[0] == 'alt' and isinstance(a[1], str)}
            has = bool(alts & {"Array", "CustomBuffer", "Vector", "ByteView"})
            ctx.ob("accepted", what + ": GLB buffer", has == withbin, "the GLB buffer holds %s" % (sorted(alts) or "nothing"))
    for what, v in BAD:
        cl = entry(M, "loadGltfBinary", glb.GlbClient, values=v)
        sts = [s for x in cl.parsed.values() for s in x]
        ctx.ob("rejected", what, not sts and not cl.successes, "a malformed container is %s" % ("parsed" if sts else "accepted"))
        ctx.ob("rejected", what + ": reads", not any(r == "bounds" for r, _ in cl.bad), "bytes beyond the end of the data are read")
    # ---- the type of a file
    f = M.p.fn("fastgltf::determineGltfFileType")
    def text(t): 
        v = {i: x for i, x in enumerate(t)}; v['T'] = len(t); return v
    E = M.p.enums["fastgltf::GltfType"]
    for what, v, want in (("GLB", glbdata(), "GLB"), ("JSON", text(b'{"asset":{}}'), "glTF"), ("JSON after spaces", text(b'  {"asset":{} }'), "glTF"), ("short JSON", text(b"{}"), "glTF"), ("text", text(b"abcdefghijklmnop"), "Invalid"), ("no data", text(b""), "Invalid"),
                          ("one byte", text(b"x"), "Invalid"), ("four spaces", text(b"    "), "Invalid"), ("magic without header", text(b"glTF\2\0\0\0"), "Invalid"), ("byte-swapped magic", text(b"FTlg\2\0\0\0abcdefgh"), "Invalid")):
        cl = setup(glb.GlbClient(values=v), M)
        ex = M.run_fn(f, '$', cl, ext=None)
        got = {a for x, _ in ex for a in x.a}
        ctx.ob("type", what, ('c', E[want]) in got or any(a[0] != 'c' for a in got), "the type of a file with %s is %s instead of %s" % (what, sorted(map(str, got)), want))
        ctx.ob("type", what + ": reads", not any(r == "bounds" for r, _ in cl.bad), "bytes beyond the end of the data are read")

    writer(ctx, M)

EMBED = ("Array", "Vector", "ByteView")
def writer(ctx, M):
    import glbwrite
    f = M.p.fn("fastgltf::Exporter::writeGltfBinary")
    wj = [g["id"] for g in M.p.functions if g["q"] == "fastgltf::Exporter::writeJson"]
    va = {g["id"]: g for g in M.p.functions if g["q"] == "fastgltf::validate"}
    alts = ["std::monostate"] + ["fastgltf::sources::" + x for x in ("BufferView", "URI", "Array", "Vector", "CustomBuffer", "ByteView", "Fallback")]
    jobs = [("fastgltf::sources::Array", r, q) for r in range(4) for q in range(4) if ctx.thorough or r == q or (r + q) % 4 == 3]
    jobs += [(a, 1, 3) for a in alts if not a.endswith("::Array")]
    for alt, r, q in jobs:
        cl = setup(glbwrite.WriteClient(r, q, jsonfn=wj, opaque=va), M)
        def pre(I, st): st.facts[('altf', ('asset',), ('buffers', '[0]', 'data'))] = ('in', frozenset([alt]))
        ex = M.run_fn(f, '$', cl, ext=None, pre=pre)
        short = alt.split("::")[-1]
        job = "JSON of 4K+%d bytes, %s of 4M+%d bytes" % (r, short, q)
        good = [(v, s) for v, s in ex if v.sub and ('c', 0) in v.sub.get(('.err',), ())]
        done = [(v, s, i[1]) for v, s in good for i in items(s) if i[0] == 'out']
        ctx.ob("written", job + ": export", bool(done), "no path produces a container")
        kinds = set()
        for v, s, l in done:
            L = glbwrite.Layout(cl, s, l)
            line = L.segs[0][3] if L.segs else 0
            def ob(what, ok, msg): ctx.ob("written", "%s: %s" % (job, what), bool(ok), msg, "line %d" % line)
            ob("bytes emitted", L.error is None, "the bytes of the container are not written one after the other: %s" % L.error)
            if L.error: continue
            total = cl.outsize(l, s)
            ob("size", L.same(L.end, total), "%s bytes are emitted into an output of %s" % (show_lin(glb.mk(*L.end)), show_lin(glb.mk(*total))))
            def field(off): 
                x = L.u32(off)
                return x and cl.lin(x)
            def is_(x, y): return x is not None and y is not None and L.same(x, y)
            n = lambda c: ({}, c)
            def txt(x): return show_lin(glb.mk(*x)) if x is not None else "unknown bytes"
            ob("magic", is_(field(n(0)), n(MAGIC)), "the magic number is %s" % txt(field(n(0))))
            ob("version", is_(field(n(4)), n(2)), "the version is %s" % txt(field(n(4))))
            ob("length", is_(field(n(8)), total), "the header says %s bytes, the container has %s" % (txt(field(n(8))), txt(total)))
            ob("length fits", cl.prove(add(n(0xffffffff), total, -1), s), "the container may have more bytes than the 32-bit length can hold")
            J = field(n(12))
            ob("JSON chunk type", is_(field(n(16)), n(JSON)), "the type of the first chunk is %s" % txt(field(n(16))))
            def aligned(x): return x[1] % 4 == 0 and all(k % 4 == 0 for k in x[0].values())
            def chunk(name, start, length, payload, pad, paysize):
                if length is None: ob(name + " length", False, "the length in the chunk header is not known"); return None
                ob(name + " aligned", aligned(length), "the length of the chunk (%s) is not a multiple of four" % txt(length))
                ob(name + " fits", cl.prove(add(n(0xffffffff), length, -1), s), "the length of the chunk may not fit into 32 bits")
                end = add(start, length)
                seg = L.region(start, end)
                ob(name + " length", seg is not None, "the chunk header says %s bytes, but the bytes emitted for the chunk do not end there" % txt(length))
                if seg is None: return end
                ob(name + " payload", seg and payload(seg[0][2]) and L.same(seg[0][1], paysize), "the chunk does not start with its %s bytes of data" % txt(paysize))
                rest = seg[1:]
                ob(name + " padding", len(rest) < 4 and add(add(start, length), add(start, paysize), -1)[1] < 4 and all((x[2][0] == 'bytes' and all(b == pad for b in x[2][1])) or (x[2][0] == 'fill' and x[2][1] == pad) for x in rest),
                   "the chunk is not padded to four bytes with 0x%02x" % pad)
                return end
            jend = None
            jsrc = lambda x: x[0] == 'json' and all(b == ' ' or b == 32 for b in x[1])
            extra = [x for _, _, x, _ in L.segs if x[0] == 'json']
            jsize = add(({glbwrite.K: 4}, r), n(len(extra[0][1]) if extra else 0))
            jend = chunk("JSON chunk", n(20), J, jsrc, 0x20, jsize)
            if jend is None: continue
            buffers = s.facts.get(('szc', ('asset',), ('buffers',)), ('in', frozenset('012')))[1]
            has = not L.same(jend, L.end)
            kinds.add(has)
            if has:
                ob("BIN chunk", '0' not in buffers and short in EMBED, "a BIN chunk is written although %s" % ("the first buffer's data is not in memory (%s)" % short if short not in EMBED else "there may be no buffer"))
                B = field(jend)
                ob("BIN chunk type", is_(field(add(jend, n(4))), n(BIN)), "the type of the second chunk is %s" % txt(field(add(jend, n(4)))))
                size = ({glbwrite.M4: 4}, q)
                bsrc = lambda x: x[0] == 'data' and x[1][:3] == ('buffers', '[0]', 'data') and x[1][3] == '<%s>' % alt
                bend = chunk("BIN chunk", add(jend, n(8)), B, bsrc, 0, size)
                ob("end", bend is not None and L.same(bend, L.end), "bytes follow the BIN chunk")
                av = ({('size', ('asset',), ('buffers', '[0]', 'data', '<%s>' % alt, 'bytes')): 1}, 0)
                ob("data available", cl.prove(add(av, size, -1), s), "more bytes are copied than the buffer's data has")
            else:
                ob("no BIN chunk", '0' in buffers or short not in EMBED, "the data of the first buffer is not written")
        if short in EMBED: ctx.ob("written", job + ": BIN chunk", True in kinds, "the data of the first buffer is never written")

if __name__ == "__main__":
    framework.main("C18", check, explain=EXPLAIN)
