"""Data sources (everything deriving from GltfDataGetter) as owners of memory, descriptors and mappings: a linear domain over
their size members, with the lengths of allocations and mappings as facts of the path."""
import re, ast
import tree
from interp import *
from interp import V, State, C, NULL, bare, etype
import glb
from glb import GlbClient, lin, add, mk, PADDING
from hostio import *
from hostio import items, strip

glb.TERMS = glb.TERMS + ('p', 'n', 'map')
NARROW = ("int", "unsigned int", "short", "unsigned short", "char", "unsigned char", "std::uint32_t", "std::int32_t")

def simple(a):
    while isinstance(a, tuple) and a and a[0] in ('cast', 'conv') and isinstance(a[-1], tuple): a = a[-1]
    return a
def form(v):
    """Linear form of a value, or None."""
    o = v.one() if isinstance(v, V) else v
    return lin(element(simple(o))) if o is not None else None
def element(a):
    """The address of an element of an array as a sum."""
    if a[0] == 'ptr' and len(a) == 3 and isinstance(a[1], tuple) and a[1][0] == 'deref' and len(a[2]) == 1:
        b, k = lin(simple(a[1][1])), a[2][0]
        i = None
        if isinstance(k, tuple) and k[0] == '[]' and isinstance(k[1], tuple) and len(k[1]) == 1:
            try: i = lin(simple(ast.literal_eval(k[1][0])))
            except (ValueError, SyntaxError): pass
        elif isinstance(k, str) and k[1:-1].isdigit(): i = ({}, int(k[1:-1]))
        if b is not None and i is not None: return mk(*add(b, i))
    return a

class OwnerClient(GlbClient):
    unroll = False
    def __init__(self, **kw):
        GlbClient.__init__(self, **kw)
        self.failing = True
        self.copies = {}
    # --- the sizes of the file
    def filesystem(self, I, n, m, st):
        r = HostClient.filesystem(self, I, n, m, st)
        if m != "file_size" or r is None: return r
        return [(V([('T',)]) if any(a[0] == 'call' for a in v.a) else v, s) for v, s in r]
    def posix(self, I, n, m, st):
        kids = n.get("c", [])
        if m == "fstat":
            out = []
            for vs, s in I.args(kids, st):
                for fl, s2 in self.outcomes(I, s, n, "fstat"):
                    for a in vs[1].a:
                        if a[0] == 'ptr' and not fl: s2.store[(a[1], a[2] + ('st_size',))] = frozenset([('T',)])
                    out.append((C(-1 if fl else 0), s2))
            return out
        if m == "mmap":
            out = []
            for vs, s in I.args(kids, st):
                fixed = vs[3].const()
                fixed = isinstance(fixed, int) and fixed & 0x10
                region = [i[1] for a in vs[0].a for i in items(s) if a[0] == 'map' and i[0] == 'map' and i[1] == a[1]]
                file = any(a[0] == 'fd' for a in vs[4].a)
                want = form(vs[1])
                self.ev("mmap", n, vs)
                for fl, s2 in self.outcomes(I, s, n, "mmap"):
                    if fl: out.append((V([('c', -1)]), s2)); continue
                    site = n["l"]
                    if fixed and region:
                        site = region[0]
                        have = self.maplen(s2, site)
                        if have is None or want is None or not self.le(want, have, s2): self.err("mapping", "mapped over a smaller reservation in " + self.where(I), "a file is mapped over a reservation that is not known to be as long", n["l"])
                    else:
                        put(s2, ('map', site, 'live'))
                        if want is not None: put(s2, ('mlen', site, mk(*want)))
                    if file: put(s2, ('file', site, mk(*want) if want is not None else TOP))
                    out.append((V([('map', site)]), s2))
            return out
        if m == "munmap":
            out = []
            for vs, s in I.args(kids, st):
                s = s.copy()
                self.ev("munmap", n)
                for a in vs[0].a:
                    a = simple(a)
                    if a[0] == 'map':
                        have, want = self.maplen(s, a[1]), form(vs[1])
                        if ('map', a[1], 'live') not in items(s): self.err("mapping", "released twice in " + self.where(I), "the mapping is released although it is not live on this path", n["l"])
                        if have is not None and (want is None or add(have, want, -1) != ({}, 0)): self.err("mapping", "released with another length in " + self.where(I), "the mapping is released with a length other than the mapped one", n["l"])
                        drop(s, lambda t: t == ('map', a[1], 'live'))
                    else: put(s, ('released', a, mk(*form(vs[1])) if form(vs[1]) is not None else TOP, n["l"]) if ('released', a) not in {i[:2] for i in items(s)} else ('twice', a))
                out.append((C(0), s))
            return out
        return HostClient.posix(self, I, n, m, st)
    def maplen(self, s, site):
        for i in items(s):
            if i[0] == 'mlen' and i[1] == site: return lin(i[2])
        return None
    # --- allocations
    def on_new(self, I, n, st):
        if not n.get("size") or "byte" not in str(n.get("at")) and "char" not in str(n.get("at")): return None
        out = []
        for v, s in I.eval(n["size"], st):
            e = form(v)
            a = s.copy()
            p = ('p', 'new%d' % n["l"])
            put(a, ('alloc', p, mk(*e) if e is not None else TOP))
            self.ev("allocation", n)
            out.append((V([p]), a))
            if self.failing and not self.failed(s):
                b = s.copy(); self.flag(b, I, n, "allocation"); out.append((V([NULL]), b))
        return out
    # --- arithmetic on pointers and sizes
    def on_binop(self, I, op, va, vb, st, n):
        x, y = form(va), form(vb)
        t = bare(n.get("t", "")) if n else ""
        if x is not None and y is not None and (x[0] or y[0]) and t not in NARROW:
            if op == "+": return V([mk(*add(x, y))])
            if op == "-": return V([mk(*add(x, y, -1))])
        return GlbClient.on_binop(self, I, op, va, vb, st, n)
    def decide(self, I, op, a, b, st):
        a, b = simple(a), simple(b)
        if a[0] in ('p',) and (b == NULL or b == ('c', -1)) : return {"==": False, "!=": True}.get(op)
        return GlbClient.decide(self, I, op, a, b, st)
    def stream_op(self, I, n, m, v, vs, s):
        i, status, dirty = self.status(s, v)
        if i is not None and m == "seekg":
            s = s.copy(); put(s, ('seek', i, tuple(simple(x.one() or TOP) for x in vs))); return [(v, s)]
        if i is not None and m == "tellg": return [(V([('tell', i)]), s)]
        return GlbClient.stream_op(self, I, n, m, v, vs, s)
    # --- writes
    def written(self, I, n, ptr, size, s):
        self.copied(I, n, ptr, None, size, s, "read")
    def copied(self, I, n, ptr, src, size, s, kind):
        d = form(ptr); c = form(size) if size is not None else None
        put(s, ('copy', kind, mk(*d) if d is not None else (ptr.one() or TOP), mk(*form(src)) if src is not None and form(src) is not None else (src.one() or TOP) if src is not None else None, mk(*c) if c is not None else TOP))
        if d is None: return
        for i in items(s):
            if i[0] == 'alloc' and dict(d[0]).get(i[1]) == 1:
                off = add(d, ({i[1]: 1}, 0), -1)
                have = lin(i[2])
                if have is None or c is None or not self.le(add(off, c), have, s): self.err("bounds", "%s behind the allocation in %s" % (kind, self.where(I)), "%s bytes are written at offset %s of an allocation of %s bytes" % (show(size.one() or TOP), show(mk(*off)), show(i[2])), n["l"])
    def on_call(self, I, n, q, st):
        kids = n.get("c", [])
        if q in ("memcpy", "std::memcpy", "memmove", "std::memmove", "__builtin_memcpy") and len(kids) == 3:
            out = []
            for vs, s in I.args(kids, st):
                s = s.copy(); self.copied(I, n, vs[0], vs[1], vs[2], s, "memcpy"); self.ev("memcpy", n); out.append((vs[0], s))
            return out
        if q.split("<")[0] in ("std::copy_n", "std::copy", "std::fill_n", "std::fill") and len(kids) == 3:
            out = []
            k = q.split("<")[0][5:]
            for vs, s in I.args(kids, st):
                s = s.copy()
                a, b = form(vs[0]), form(vs[1])
                if k == "copy_n": d, src, c = vs[2], vs[0], vs[1]
                elif k == "fill_n": d, src, c = vs[0], None, vs[1]
                else:
                    c = V([mk(*add(b, a, -1))]) if a is not None and b is not None else VTOP
                    d, src = (vs[2], vs[0]) if k == "copy" else (vs[0], None)
                self.copied(I, n, d, src, c, s, "memcpy" if src is not None else "memset"); out.append((VTOP, s))
            return out
        if q.startswith("std::fpos<") and len(kids) == 1: return I.eval(kids[0], st)
        if q in ("memset", "std::memset") and len(kids) == 3:
            out = []
            for vs, s in I.args(kids, st):
                s = s.copy(); self.copied(I, n, vs[0], None, vs[2], s, "memset"); self.ev("memset", n); out.append((vs[0], s))
            return out
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and bare(n["t"]).startswith(("fastgltf::span<", "std::span<")) and len(kids) == 2:
            return [(V([('span', simple(vs[0].one() or TOP), simple(vs[1].one() or TOP))]), s) for vs, s in I.args(kids, st)]
        if q.startswith("std::vector<") and n["k"] == "CXXMemberCallExpr" and kids and not n.get("arrow"):
            m = q.split("::")[-1]
            if m == "resize" or m in ("size", "size_bytes"):
                out = []
                for l, s in I.lval(kids[0], st):
                    at = ('vsize', l[0], l[1])
                    if m == "resize":
                        for vs, s2 in I.args(kids[1:], s):
                            s2 = s2.copy(); e = form(vs[0])
                            drop(s2, lambda t: t[:3] == at)
                            if e is not None: put(s2, at + (mk(*e),))
                            I.write(l, VTOP, s2, n)
                            out.append((VVOID, s2))
                    else:
                        k = [i[3] for i in items(s) if i[:3] == at]
                        if not k: return GlbClient.on_call(self, I, n, q, st)
                        out.append((V([k[0]]), s))
                return out
        if q.startswith("std::unique_ptr<") and q.endswith("::get") and kids:
            out = I.eval(kids[0], st)
            if all(v.a and all(a[0] in ('p', 'null') for a in v.a) for v, _ in out): return out
        return GlbClient.on_call(self, I, n, q, st)
    def library(self, I, n, q, cls, name, st): return None

THIS = ("this",)
def base_records(p, root):
    """Records that derive from root, directly or not."""
    out = []
    for q, r in p.records.items():
        b = [str(x) for x in r.get("bases", [])]
        if any(bare(x) == root for x in b): out.append(q)
    return out
def methods(p, rec): return [f for f in p.functions if f.get("rec") == rec and f.get("body") is not None]

class Source:
    """Runs the members of one data source class one after another on the same abstract object."""
    def __init__(self, M, rec, cl):
        self.M, self.p, self.rec, self.cl = M, M.p, rec, cl
        self.I = Interp(M.p, cl)
        self.fields = {f["n"]: f["t"] for f in M.p.records[rec]["fields"]}
    def start(self, seed=None):
        st = State(); st.x = False
        st.store[(THIS, ())] = frozenset([('obj', self.rec)])
        for k, v in (seed or {}).items(): st.store[(THIS, (k,))] = frozenset([v])
        return st
    def seed(self, root=THIS):
        """Symbolic values of the members."""
        out = {}
        for n, t in self.fields.items():
            b = bare(t)
            if "*" in t or b.startswith("std::unique_ptr<"): out[n] = ('p', n)
            elif b in ("std::size_t", "unsigned long", "std::uint64_t", "unsigned long long", "uint64_t", "std::streamsize", "long"): out[n] = ('n', n)
            elif b == "fastgltf::Error": out[n] = ('c', 0)
        return out
    def params(self, f, st):
        for a in f["params"]:
            t = a["t"]
            at = ('p', a["n"]) if "*" in t else ('n', a["n"]) if bare(t) in ("std::size_t", "unsigned long", "std::uint64_t") else ('m', ('arg', a["n"]), ())
            st.store[(a["id"], ())] = frozenset([at])
    def ctor(self, f, st, params=True):
        if params: self.params(f, st)
        I = self.I
        states = [st]
        I.this = (THIS, ()); I.depth += 1; I.stack.append(f["id"])
        for i in f.get("inits", []):
            if not i.get("e"): continue
            nx = []
            for s in states:
                for v, s2 in I.eval(i["e"], s):
                    if i.get("n"): I.write((THIS, (i["n"],)), v, s2, i["e"])
                    nx.append(s2)
            states = nx
        I.depth -= 1; I.stack.pop()
        out = []
        for s in states: out += I.run(f, s, this=(THIS, ()))
        return [s for _, s in out]
    def call(self, f, st, params=True):
        if params: self.params(f, st)
        return self.I.run(f, st, this=(THIS, ()))
    def member(self, s, n): return self.I.read((THIS, (n,)), s)
    def one(self, s, n):
        a = self.member(s, n)
        return simple(list(a)[0]) if len(a) == 1 else None

def show(a):
    if a[0] == 'lin': return " + ".join(["%s%s" % ("" if v == 1 else "%d*" % v, show(t)) for t, v in a[1]] + ([str(a[2])] if a[2] else []))
    if a[0] == 'T': return "fileSize"
    if a[0] in ('p', 'n'): return str(a[1])
    return show_atom(a)
from hostio import show as show_atom
