import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import re
import framework, tree
import interp
from interp import *
from interp import V, State, C, TOP, bare, etype
from texts import *
from texts import TextClient, TextInterp
from uris import Run, prog, THIS, OTHER

EXPLAIN = ("Abstract interpretation of Parser::decodeDataUri and every base64 decoder in a linear integer domain over text and output sizes: a payload reaches a decoder only on paths where the encoding was found equal to "
           "\"base64\", the payload follows the comma behind it, its length is a positive multiple of four, and the output is exactly 3/4 of it less the padding that is passed along; each decoder, under that contract, reads "
           "and writes within bounds (SIMD loads and stores included) and hands the contract on; the 64 alphabet characters of the lookup table, its extent, and the bit positions each output byte is assembled from.")

CONT = ("fastgltf::StaticVector<", "std::vector<")
INPLACE = re.compile(r"(^|_)decode_inplace$")
SIX4 = 4

class B64(TextClient):
    def __init__(self, p):
        TextClient.__init__(self, p)
        self.calls = []          # (what, encoded, output, padding, size, state, line)
        self.made = {}
    def may_inline(self, I, f):
        return not INPLACE.search(f["n"])
    def buffer(self, ln): return self.text(ln, None, "output")
    def on_call(self, I, n, q, st):
        kids = n.get("c", [])
        t = bare(n.get("t", ""))
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and t.startswith(CONT):
            ks = [k for k in kids if k["k"] != "CXXDefaultArgExpr"]
            if not ks: return [(V([('str', ('lit', ''))]), st)]
            if etype(ks[0]).split("::")[-1].strip() in ("long", "unsigned long", "size_t", "int", "unsigned int") or "unsigned" in etype(ks[0]) or bare(etype(ks[0])) == "int":
                out = []
                for v, s in I.eval(ks[0], st):
                    e = lin(v.one())
                    if e is None: out.append((VTOP, s)); continue
                    if not self.prove(e, s): self.err("size", "container in " + self.where(I), "the size of the output may wrap around", n["l"])
                    out.append((V([('str', self.buffer(e))]), s))
                return out
            return I.eval(ks[0], st)
        r = TextClient.on_call(self, I, n, q, st)
        if r is not None: return r
        return None
    def other(self, I, n, q, cls, name, kids, st):
        if (cls.startswith(("fastgltf::StaticVector", "std::vector")) or kids and bare(etype(kids[0])).startswith(CONT)) and kids and n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            if name in ("data", "begin", "size", "size_bytes", "empty"):
                out = []
                for l, s in self.member_loc(I, kids[0], n, st):
                    a = I.load(l, s).one()
                    if a is None or a[0] != 'str': out.append((VTOP, s)); continue
                    out.append((V([('ptr', ('txt', a[1], ('c', 0)), ())]) if name in ("data", "begin") else V([mk(self.length(a[1]))]) if name != "empty" else VTOP, s))
                return out
        fn = n.get("fn")
        m = fn
        while m is not None and m["k"] != "MemberExpr" and m.get("c"): m = m["c"][0]
        called = name if not fn else (m.get("n") if m is not None and m["k"] == "MemberExpr" else name)
        if n["k"] == "CXXOperatorCallExpr" and name == "operator()":
            m = kids[0]
            while m is not None and m["k"] != "MemberExpr" and m.get("c"): m = m["c"][0]
            called = m.get("n") if m is not None else name
            kids = kids[1:]
        if called and (INPLACE.search(called) or called == "inplace" or "ecodeCallback" in called) and len(kids) >= 3:
            out = []
            for vs, s in I.args(kids, st):
                cb = "ecodeCallback" in called
                self.used(I, "callback" if cb else called, vs[0].one(), vs[1].one(), vs[2].one(), vs[3].one() if cb and len(vs) > 3 else None, s, n)
                out.append((VVOID, s))
            return out
        if called == "mapCallback" and kids:
            out = []
            for vs, s in I.args(kids, st):
                e = lin(vs[0].one())
                T = self.buffer(e) if e is not None else None
                if e is None or not self.prove(e, s): self.err("size", "map callback", "asks for a size that is not known", n["l"])
                for p in ([('ptr', ('txt', T, ('c', 0)), ())] if T else [TOP]) + [NULL]:
                    v = V([('obj', 'BufferInfo')], {("mappedMemory",): frozenset([p])})
                    out.append((v, s.copy()))
            return out
        return None
    def used(self, I, what, enc, outp, pad, size, st, n):
        if not self.quiet: self.calls.append((what, enc, outp, pad, size, st.copy(), n["l"], self.where(I)))
    # --- the bits of the characters' values
    track = False
    def transferred(self, I, d, b, cnt, s, n):
        if not self.track or d is None or d[0] != 'ptr': return
        if not isinstance(d[1], tuple) or d[1][0] != 'txt':
            if cnt is None or cnt[0] or not 0 < cnt[1] <= 64: return
            if b is None or b[0] != 'ptr' or not isinstance(b[1], tuple) or b[1][0] != 'txt' or lin(b[1][2]) is None: return
            path = d[2][:-1] if d[2] and (d[2][-1] == ('[]', 'data') or isinstance(d[2][-1], str) and d[2][-1][0] == '[') else d[2]
            s.store.pop((d[1], path), None)
            for k in range(cnt[1]): s.store[(d[1], path + ('[%d]' % k,))] = frozenset([('ch', b[1][1], mk(add(lin(b[1][2]), num(k))))])
            return
        if self.quiet: return
        o = lin(d[1][2])
        if b is None or cnt is None or cnt[0] or not 0 <= cnt[1] <= 64 or o is None or b[0] != 'ptr':
            self.writes.append((d[1][1], d[1][2], TOP, s.copy(), n["l"])); return
        path = b[2][:-1] if b[2] and (b[2][-1] == ('[]', 'data') or isinstance(b[2][-1], str) and b[2][-1][0] == '[') else b[2]
        base = int(b[2][-1][1:-1]) if b[2] and isinstance(b[2][-1], str) and b[2][-1][1:-1].isdigit() else 0
        for k in range(cnt[1]):
            v = I.load((b[1], path + ('[%d]' % (base + k),)), s)
            self.writes.append((d[1][1], mk(add(o, num(k))), v.one() if v.one() is not None else TOP, s.copy(), n["l"]))
    def bits(self, a):
        if a is None: return None
        if a[0] == 'bits': return a[1]
        if a[0] == 'c' and isinstance(a[1], int) and 0 <= a[1] < 1 << 32: return tuple((a[1] >> i) & 1 for i in range(32))
        return None
    def on_binop(self, I, op, va, vb, st, n):
        a, b = va.one(), vb.one()
        if self.track and a is not None and b is not None and 'bits' in (a[0], b[0]):
            x, y = self.bits(a), self.bits(b)
            r = None
            if x is None or y is None: pass
            elif op in ("<<", ">>"):
                if b[0] == 'c' and 0 <= b[1] < 32:
                    k = b[1]
                    r = (0,) * k + x[:32 - k] if op == "<<" else x[k:] + (0,) * k
            elif op in ("|", "+", "^"):
                if all(p == 0 or q == 0 for p, q in zip(x, y)): r = tuple(p or q for p, q in zip(x, y))
            elif op == "&":
                if all(p in (0, 1) or q in (0, 1) for p, q in zip(x, y)): r = tuple(0 if 0 in (p, q) else (q if p == 1 else p) for p, q in zip(x, y))
            return V([('bits', r)]) if r is not None else VTOP
        return TextClient.on_binop(self, I, op, va, vb, st, n)
    def memory(self, I, root, path, st):
        if isinstance(root, tuple) and root[0] == 'lut':
            return frozenset([('bits', tuple(('b', root[1], root[2], j) for j in range(6)) + (0,) * 26)])
        return TextClient.memory(self, I, root, path, st)
    def stored(self, I, root, v, st, node):
        if not self.track or self.quiet: return
        self.writes.append((root[1], root[2], v.one(), st.copy(), (node or {}).get("l", 0)))
    def on_index(self, I, loc, idx, st, n):
        if self.quiet: return
        b = n["c"][0] if n["k"] != "CXXOperatorCallExpr" else (n["c"][0])
        while b.get("k") == "ImplicitCastExpr" and b.get("ck") == "ArrayToPointerDecay": b = b["c"][0]
        t = bare(b.get("t", ""))
        m = re.search(r"std::array<.*, (\d+)>$", t) or re.search(r"\[(\d+)\]$", t)
        if not m: return
        ext = int(m.group(1))
        x = n["c"][1] if len(n["c"]) > 1 else None
        narrow = x
        while narrow is not None and narrow["k"] in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr") and narrow.get("c") and bare(narrow.get("t", "")) not in ("unsigned char", "char", "signed char"): narrow = narrow["c"][0]
        ok = narrow is not None and bare(narrow.get("t", "")) == "unsigned char" and ext >= 256
        for a in idx.a:
            e = lin(a)
            if not ok: ok = e is not None and self.prove(e, st) and self.le(add(e, num(1)), num(ext), st)
        self.did("table", I, "element of an array of %d" % ext, n["l"])
        if not ok: self.err("table", "element of an array of %d in %s" % (ext, self.where(I)), "an element may be accessed behind the end of the array", n["l"])

class B64Interp(TextInterp):
    def index(self, l, i, s, n):
        r = TextInterp.index(self, l, i, s, n)
        if self.cl.track:
            a = i.one()
            if l[0] in self.cl.tables and a is not None and a[0] == 'ch': return [((('lut', a[1], a[2]), ()), s)]
        return r

class B64Run(Run):
    def __init__(self, f):
        self.p = prog(); self.f = f
        self.cl = B64(self.p); self.cl.writes = []; self.cl.tables = set(); self.I = B64Interp(self.p, self.cl); self.st = State(); self.st.x = False
        self.I.this = THIS

def multiple_of_four(cl, ln, s):
    """ln is at least four and a multiple of four."""
    if not cl.le(num(4), ln, s): return False
    for r in (1, 2, 3):
        q = ({cl.fresh("quarter"): 4}, r)
        s2 = s.copy()
        if cl.fact(s2, add(ln, q, -1)) and cl.fact(s2, add(q, ln, -1)) and not cl.prove(num(-1), s2) and not contradiction(cl, s2): return False
    return True
def contradiction(cl, s):
    t = {cl.fresh("none"): 1}, 0
    fs = [(dict(k[1][0]), k[1][1]) for k in s.facts if k[0] == 'ge']
    cs = divide(list(fs))
    return infeasible(cs)

def contract(ctx, r, call, what, source=None):
    name, enc, outp, pad, size, s, line, fn = call
    cl = r.cl
    w = cl.view_of(enc, s)
    at = "line %d" % line
    site = "%s: call of %s in %s" % (what, name, fn)
    if w is None or w[2] is None: ctx.ob("payload", site, False, "the text that is decoded is not known", at); return
    T, off, ln = w
    ctx.ob("length", site, multiple_of_four(cl, ln, s), "the length of what is decoded may not be a positive multiple of four", at)
    P = lin(pad)
    ctx.ob("padding", site, P is not None and cl.prove(P, s) and cl.le(P, num(2), s), "the padding that is passed is not between 0 and 2", at)
    o = outp
    ok = False
    if P is not None and o is not None and o[0] == 'ptr' and isinstance(o[1], tuple) and o[1][0] == 'txt' and lin(o[1][2]) is not None:
        room = add(cl.length(o[1][1]), lin(o[1][2]), -1)
        ok = cl.eq(mul(room, 4), add(mul(ln, 3), mul(P, 4), -1), s)
    ctx.ob("output", site, ok, "the output is not exactly as large as what is decoded into it", at)
    if size is not None:
        z = lin(size)
        ctx.ob("size", site, z is not None and P is not None and cl.eq(mul(z, 4), add(mul(ln, 3), mul(P, 4), -1), s), "the size that is passed is not the decoded size", at)

def arguments(ctx, r, call, what):
    """Padding that is passed along belongs to the text that is decoded."""

def data_uri(ctx):
    p = prog()
    fs = [f for f in p.functions if f["n"] == "decodeDataUri" and f.get("body")]
    ctx.need(len(fs), "decodeDataUri", 1)
    for f in fs:
        r = B64Run(f)
        for x in p.records[f["rec"]]["fields"]: r.st.store[(THIS[0], (x["n"],))] = frozenset([('m', ("this",), (x["n"],))])
        texts = r.bind()
        ex = r.go()
        ctx.need(len(ex), "paths of decodeDataUri", 2)
        ctx.need(len(r.cl.calls), "calls of decoders in decodeDataUri", 1)
        ctx.analysed["decodeDataUri"] = {"exits": len(ex), "decoder calls on paths": len(r.cl.calls)}
        for c in r.cl.calls:
            contract(ctx, r, c, "data URI")
            name, enc, outp, pad, size, s, line, fn = c
            w = r.cl.view_of(enc, s)
            if w is None or w[1] is None: continue
            T, off, ln = w
            marked = False
            for k in s.facts:
                if k[0] == 'equal' and k[1] == T and k[4] == "base64" and s.facts[k] == ('in', frozenset([True])) and k[2] is not None:
                    if r.cl.eq(add(add(lin(k[2]), lin(k[3])), num(1)), off, s): marked = True
            ctx.ob("marked", "call of %s in %s" % (name, fn), marked, "a payload is decoded that does not directly follow the base64 marker and its comma", "line %d" % line)
        engine(ctx, r, "decodeDataUri")

def engine(ctx, r, what):
    for (rule, fn, w, line), k in r.cl.ops.items(): ctx.ob(rule, "%s: %s in %s" % (what, w, fn), True)
    for (rule, c), (msg, line) in r.cl.bad.items(): ctx.fail(rule, c, msg, "line %d" % line)
    for (fn, line), ok in r.cl.loops.items(): ctx.ob("terminates", "loop in %s" % fn, ok[0], "nothing the loop changes moves in one direction on every iteration", "line %d" % line)

def decoders(ctx):
    p = prog()
    inpl, plain = [], []
    for f in p.functions:
        if not f["q"].startswith("fastgltf::base64::") or not f.get("body") or f.get("rec"): continue
        ps = f.get("params", [])
        if INPLACE.search(f["n"]) and len(ps) == 3: inpl.append(f)
        elif re.search(r"(^|_)decode$", f["n"]) and len(ps) == 1: plain.append(f)
    ctx.need(len(inpl), "decoders with a given output", 2)
    ctx.need(len(plain), "decoders", 2)
    for f in inpl + plain:
        r = B64Run(f)
        cl = r.cl
        N = ('t', 'blocks', 0)
        T = cl.text(({N: 4}, 0), None, "encoded")
        cl.fact(r.st, ({N: 1}, -1))
        r.put(f["params"][0], cl.sv(T, num(0), cl.length(T)))
        O = P = None
        if len(f["params"]) == 3:
            P = ({('t', 'padding', 0): 1}, 0)
            cl.fact(r.st, add(num(2), P, -1))
            O = cl.text(add(({N: 3}, 0), P, -1), None, "output")
            r.put(f["params"][1], V([('ptr', ('txt', O, ('c', 0)), ())]))
            r.put(f["params"][2], V([mk(P)]))
        ex = r.go()
        what = f["q"].split("fastgltf::")[-1]
        ctx.need(len(ex), "paths of " + what, 1)
        ctx.analysed[what] = {"exits": len(ex)}
        for c in r.cl.calls:
            contract(ctx, r, c, what)
            if P is not None:
                # the tail of the text is decoded with the padding that was given
                w = cl.view_of(c[1], c[5])
                ok = w is not None and w[2] is not None and w[0] == T and cl.eq(add(w[1], w[2]), cl.length(T), c[5]) and lin(c[3]) is not None and cl.eq(lin(c[3]), P, c[5])
                ctx.ob("tail", "%s: call of %s" % (what, c[0]), ok, "the rest of the text is not handed on with its padding", "line %d" % c[6])
        engine(ctx, r, what)

ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

def tables(ctx):
    """Constant arrays of the decoder that are indexed by characters: the value of each of the 64 characters."""
    p = prog(); out = {}
    used = set()
    for f in p.functions:
        if not f["q"].startswith("fastgltf::base64::") or not f.get("body"): continue
        for y in tree.walk(f["body"]):
            if y["k"] == "DeclRefExpr" and y.get("id") in p.globals: used.add(y["id"])
    for i, g in p.globals.items():
        if i not in used or not g.get("init") or not g["file"].endswith(".cpp") and "base64" not in g["file"]: continue
        ls = []
        def leaves(n):
            if n.get("cv") is not None: ls.append(int(n["cv"])); return
            for c in n.get("c", []): leaves(c)
        leaves(g["init"])
        m = re.search(r", (\d+)>|\[(\d+)\]", g.get("t", ""))
        ext = int(next(x for x in m.groups() if x)) if m else len(ls)
        if ext < 64 or not ls: continue
        ls = ls[:ext] + [0] * (ext - len(ls))
        out[i] = ls
        for k, c in enumerate(ALPHABET):
            ctx.ob("alphabet", "%s['%s']" % (g["n"], c), ord(c) < ext and ls[ord(c)] == k, "is %s instead of %d" % (ls[ord(c)] if ord(c) < ext else "missing", k), "line %d" % g["l"])
    return out

def positions(ctx):
    """Bit i of output byte O is bit j of the value of character C with 8*O + 7 - i = 6*C + 5 - j; every byte of the output is written."""
    p = prog()
    tabs = tables(ctx)
    ctx.need(len(tabs), "tables of the decoder", 1)
    fs = [f for f in p.functions if f["q"].startswith("fastgltf::base64::") and f.get("body") and INPLACE.search(f["n"]) and len(f.get("params", [])) == 3
          and any(y["k"] == "CallExpr" and "block" in (y.get("n") or "") or y["k"] == "DeclRefExpr" and y.get("id") in tabs for y in tree.walk(f["body"])) and "fallback" in f["n"]]
    ctx.need(len(fs), "portable decoder", 1)
    for f in fs:
        for blocks in (None, 1, 2, 3):
            for P in (0, 1, 2):
                r = B64Run(f); cl = r.cl; cl.track = True
                cl.tables = set(tabs) | {('g', p.globals[i]["n"]) for i in tabs} | {('g', p.globals[i].get("q")) for i in tabs}
                N = ({('t', 'blocks', 0): 1}, 0) if blocks is None else num(blocks)
                if blocks is None: cl.fact(r.st, add(N, num(1), -1))
                T = cl.text(mul(N, 4), None, "encoded"); O = cl.text(add(mul(N, 3), num(P), -1), None, "output")
                r.put(f["params"][0], cl.sv(T, num(0), cl.length(T)))
                r.put(f["params"][1], V([('ptr', ('txt', O, ('c', 0)), ())])); r.put(f["params"][2], C(P))
                r.go()
                what = "%s of %s blocks with padding %d" % (f["n"], blocks or "any number of", P)
                ws = [w for w in cl.writes if w[0] == O]
                ctx.need(len(ws), "bytes written by " + what, 1)
                seen = set()
                for _, off, v, s, line in ws:
                    o = lin(off); b = cl.bits(v); ok = b is not None and o is not None
                    if o is not None and not o[0]: seen.add(o[1])
                    why = "is not assembled from the values of the characters"
                    if ok:
                        for i in range(8):
                            e = b[i]
                            if not isinstance(e, tuple) or e[1] != T: ok = False; why = "bit %d of a byte is not a bit of a character" % i; break
                            if not cl.eq(add(mul(o, 8), num(7 - i)), add(mul(lin(e[2]), 6), num(5 - e[3])), s): ok = False; why = "bit %d of a byte is bit %d of the wrong character or the wrong bit" % (i, e[3]); break
                    ctx.ob("bits", what, ok, why, "line %d" % line)
                if blocks is not None:
                    missing = sorted(set(range(3 * blocks - P)) - seen)
                    ctx.ob("written", what, not missing, "bytes %s of the output are not written" % missing)
                ctx.analysed[what] = {"bytes": len(ws)}

def dispatch(ctx):
    """Only functions that were checked are installed as decoders."""
    p = prog()
    names = {f["q"] for f in p.functions if f["q"].startswith("fastgltf::base64::")}
    n = 0
    for f in p.functions:
        if not (f.get("rec") or "").startswith("fastgltf::base64::") or not f.get("body"): continue
        for y in tree.walk(f["body"]):
            if y["k"] in ("CXXOperatorCallExpr", "BinaryOperator") and (y.get("n") == "operator=" or y.get("op") == "=") and len(y.get("c", [])) == 2 and "std::function" in etype(y["c"][0]):
                ds = [z for z in tree.walk(y["c"][1]) if z["k"] == "DeclRefExpr" and z.get("dk") in ("Function", "CXXMethod") or z["k"] == "DeclRefExpr" and (z.get("q") or "").startswith("fastgltf::base64::")]
                if not ds: continue
                m = y["c"][0]
                want = "_inplace" if "void" in etype(m) else "_decode"
                d = p.by_id.get(ds[0].get("id"), {}).get("n") or ds[0].get("n")
                n += 1
                ctx.ob("dispatch", "decoder %s" % d, bool(re.search(r"decode(_inplace)?$", d)) and (INPLACE.search(d) is not None) == ("void" in etype(m)), "is not one of the decoders", "line %d" % y["l"])
    return n

def check(ctx):
    data_uri(ctx)
    decoders(ctx)
    ctx.analysed["installed decoders"] = dispatch(ctx)
    positions(ctx)

if __name__ == "__main__":
    framework.main("C26", check, explain=EXPLAIN)
