"""C22: SmallVector keeps its storage, capacity and ownership consistent.
Typestate of the storage of a SmallVector, over linear forms (lib/texts.py): every public member function is run from every
shape of object that satisfies the class invariant (own storage / heap block, arbitrary size and capacity; a second object of
either shape; the same object twice), for element types that are trivially copyable, moved without throwing, and copied when
the vector grows. The state tracks, per piece of memory, its length in elements, whether it is allocated and by which
allocator, and how many elements are constructed from its beginning on.
Rules: construct (nothing is constructed over, or behind, a live element or outside of the memory), destroy (just the live
elements), free (a block that was allocated, once, with its length, by an equal allocator, without live elements), read (live
elements only), and at every exit the invariant: data points to the object's own storage or to a block only it owns, capacity
is not more than what that memory holds (and the allocated length of a block), size elements are alive, no block is lost; and
the size/capacity each operation promises."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree, interp

from interp import *
from interp import V, State, C, TOP, bare
from texts import *
import uris
EXPLAIN = __doc__
THIS, OTHER = uris.THIS, uris.OTHER
ELEMS = ("Plain", "Moving", "Copying")
N = 3

_p = []
def prog():
    if not _p: _p.append(tree.load(tree.VERIF + "/witness/smallvector.cpp", tree.BASE))
    return _p[0]

def txt(a):
    """(memory, offset) of a pointer."""
    return (a[1][1], lin(a[1][2])) if a is not None and a[0] == 'ptr' and isinstance(a[1], tuple) and a[1][0] == 'txt' else (None, None)
def ptr(T, off): return ('ptr', ('txt', T, mk(off)), ())

class Vec(TextClient):
    maxfixed = 40
    size_of = 12
    def __init__(self, p):
        TextClient.__init__(self, p)
        self.inline = {}      # root of an object -> its own storage
    def may_inline(self, I, f): return f["n"] not in ("clz", "popcount")
    # --- memory
    def get(self, what, T, s):
        v = s.store.get(((what, T), ()))
        return lin(next(iter(v))) if v and len(v) == 1 else None
    def set(self, what, T, e, s): s.store[((what, T), ())] = frozenset([mk(e)])
    def alive(self, I, T, s, n, what):
        if T is None: return
        if self.get('cons', T, s) is None: return
        b = self.get('blk', T, s)
        if b is not None and b != num(1): self.err("released", "%s in %s" % (what, self.where(I)), "memory is used that may have been released", n["l"])
    def make(self, ln, name, s, cons=num(0), blk=None, own=None):
        T = self.text(ln, None, name)
        self.set('cons', T, cons, s)
        if blk: self.set('blk', T, num(1), s)
        if own is not None: s.store[(('own', T), ())] = frozenset([own])
        return T
    def construct(self, I, a, cnt, s, n, what):
        T, o = txt(a)
        site = "%s in %s" % (what, self.where(I))
        self.did("construct", I, what, n["l"])
        k = self.get('cons', T, s) if T is not None else None
        if k is None or o is None or cnt is None:
            if cnt is not None and self.eq(cnt, num(0), s): return
            self.err("construct", site, "elements are constructed at a place that is not known", n["l"]); return
        if self.eq(cnt, num(0), s): return
        self.alive(I, T, s, n, what)
        end = add(o, cnt)
        if not self.prove(cnt, s) or not self.le(end, self.length(T), s): self.err("construct", site, "elements may be constructed outside of the memory", n["l"])
        if self.eq(o, k, s): self.set('cons', T, end, s)
        elif self.quiet and not self.le(o, add(k, num(1), -1), s): self.set('cons', T, add(k, cnt), s)      # looking for what a loop does step by step
        elif self.trivial and self.le(o, k, s):
            if self.le(k, end, s): self.set('cons', T, end, s)
            elif not self.le(end, k, s): self.set('cons', T, end, s)
        elif self.le(o, add(k, num(1), -1), s): self.err("construct", site, "an element may be constructed over a live one, which is lost", n["l"])
        else: self.err("construct", site, "elements may be constructed behind a gap", n["l"])
    def destroy(self, I, a, cnt, s, n, what):
        T, o = txt(a)
        site = "%s in %s" % (what, self.where(I))
        self.did("destroy", I, what, n["l"])
        k = self.get('cons', T, s) if T is not None else None
        if cnt is not None and self.eq(cnt, num(0), s): return
        if k is None or o is None or cnt is None:
            self.err("destroy", site, "elements are destroyed at a place that is not known", n["l"]); return
        self.alive(I, T, s, n, what)
        if not self.prove(cnt, s): self.err("destroy", site, "the range that is destroyed may end before it begins", n["l"])
        elif not (self.le(add(o, cnt), k, s) if self.trivial else self.eq(add(o, cnt), k, s)): self.err("destroy", site, "what is destroyed is not just the last live elements", n["l"])
        self.set('cons', T, o, s)
    def reads(self, I, a, cnt, s, n, what):
        T, o = txt(a)
        if T is None: return
        k = self.get('cons', T, s)
        if k is None: return
        self.did("read", I, what, n["l"])
        if cnt is not None and self.eq(cnt, num(0), s): return
        self.alive(I, T, s, n, what)
        if o is None or cnt is None or not self.prove(o, s) or not self.le(add(o, cnt), k, s): self.err("read", "%s in %s" % (what, self.where(I)), "elements that are not alive may be read", n["l"])
    def range(self, I, T, off, cnt, st, n, what):
        self.alive(I, T, st, n, what)
        return TextClient.range(self, I, T, off, cnt, st, n, what)
    # --- allocation
    def free(self, I, al, a, cnt, s, n):
        T, o = txt(a)
        site = "deallocation in " + self.where(I)
        self.did("free", I, "deallocate", n["l"])
        if T is None or self.get('blk', T, s) is None or not self.eq(o, num(0), s): self.err("free", site, "something that was not allocated is released", n["l"]); return
        if self.get('blk', T, s) != num(1): self.err("free", site, "memory is released twice", n["l"]); return
        if cnt is None or not self.eq(cnt, self.length(T), s): self.err("free", site, "memory is released with another size than it was allocated with", n["l"])
        if not self.trivial and not self.eq(self.get('cons', T, s), num(0), s): self.err("free", site, "memory is released with live elements in it", n["l"])
        if not self.same_allocator(al, T, s): self.err("free", site, "memory is released with an allocator that may not be the one it came from", n["l"])
        self.set('blk', T, num(0), s)
    def same_allocator(self, al, T, s):
        v = s.store.get((('own', T), ()))
        return v is not None and al is not None and (v == frozenset([al]) or s.store.get((('equal',), ())) == frozenset([C1]))
    def on_new(self, I, n, st):
        if not n.get("place"): return None
        out = []
        for v, s in I.eval(n["place"][0], st):
            rs = I.eval(n["init"], s) if n.get("init") else [(VTOP, s)]
            for _, s2 in rs:
                s2 = s2.copy()
                for a in v.a: self.construct(I, a, num(1), s2, n, "new")
                out.append((v, s2))
        return out
    def on_call(self, I, n, q, st):
        kids = n.get("c", [])
        name = q.split("::")[-1]; t = bare(n.get("t", ""))
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if "allocator<" in t and t.startswith("std::") and not t.startswith(("std::basic", "std::vector")):
                ks = [k for k in kids if k["k"] != "CXXDefaultArgExpr"]
                if not ks: self.n += 1; return [(V([('alc', self.n)]), st)]
                return I.eval(ks[0], st)
            if t.startswith("std::initializer_list") and kids: return I.eval(kids[0], st)
            if t.split("::")[-1] in ELEMS and len(kids) == 1 and n.get("ck") in ("copy", "move"):
                out = []
                for l, s in I.lval(kids[0], st):
                    if isinstance(l[0], tuple) and l[0][0] == 'txt': self.reads(I, ('ptr',) + l, num(1), s, n, "copying an element")
                    out.append((V([('elem',)]), s))
                return out
            if t.split("::")[-1] in ELEMS: return [(V([('elem',)]), s) for _, s in I.args(kids, st)]
        f = self.p.by_id.get(n.get("id"))
        if f is not None and f.get("rec") == "fastgltf::SmallVector" and f.get("body") and not f.get("ctor") and I.can_inline(f):
            if f.get("static") or not n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr"): return I.inline(f, n, None, kids, st)
            return I.inline(f, n, kids[0], kids[1:], st)
        obj = etype(kids[0]) if kids and n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") else ""
        if "array<std::byte" in obj and name in ("data", "begin", "operator[]", "front"):
            out = []
            for l, s in self.member_loc(I, kids[0], n, st):
                T = self.inline.get(l[0]) if l[1] and l[1][-1] == "storage" or True else None
                out.append((V([ptr(T, num(0))]) if T else VTOP, s))
            return out
        if "initializer_list" in obj:
            out = []
            for v, s in I.eval(kids[0], st):
                a = v.one()
                if a is None or a[0] != 'il': return None
                out.append((V([mk(self.length(a[1]))]) if name == "size" else V([ptr(a[1], num(0))]) if name == "begin" else V([ptr(a[1], self.length(a[1]))]) if name == "end" else VTOP, s))
            return out
        if name == "operator=" and len(kids) == 2 and bare(etype(kids[0])).split("::")[-1] in ELEMS:
            out = []
            for d, s0 in I.lval(kids[0], st):
                for l, s in I.lval(kids[1], s0):
                    s = s.copy()
                    if isinstance(l[0], tuple) and l[0][0] == 'txt': self.reads(I, ('ptr',) + l, num(1), s, n, "assigning from an element")
                    if isinstance(d[0], tuple) and d[0][0] == 'txt':
                        if self.trivial: self.construct(I, ('ptr',) + d, num(1), s, n, "assigning to an element")
                        else: self.reads(I, ('ptr',) + d, num(1), s, n, "assigning to an element")
                    out.append((d, s))
            return out
        if name in ("allocate", "deallocate", "allocate_object", "deallocate_object"):
            ks = kids; out = []
            for vs, s in I.args(ks, st):
                s = s.copy(); al = vs[0].one()
                if name.startswith("allocate"):
                    e = lin(vs[1].one())
                    if e is None: self.err("allocate", "allocation in " + self.where(I), "the number of elements that is allocated is not known", n["l"]); out.append((VTOP, s)); continue
                    self.did("allocate", I, name, n["l"])
                    out.append((V([ptr(self.make(e, "block", s, blk=True, own=al), num(0))]), s))
                else:
                    self.free(I, al, vs[1].one(), lin(vs[2].one()), s, n); out.append((VVOID, s))
            return out
        if name in ("operator==", "operator!=") and len(kids) == 2 and "allocator" in etype(kids[0]):
            out = []
            for vs, s in I.args(kids, st):
                a, b = vs[0].one(), vs[1].one()
                k = s.store.get((('equal',), ()))
                for eq in ((True,) if a == b and a is not None else (True, False) if k is None else (k == frozenset([C1]),)):
                    s2 = s.copy()
                    if a != b: s2.store[(('equal',), ())] = frozenset([C1 if eq else C0])
                    out.append((C(eq == (name == "operator==")), s2))
            return out
        if name in ("clz", "countl_zero", "__builtin_clzll", "__builtin_clzl", "bit_ceil", "bit_width") and kids:
            out = []
            for vs, s in I.args(kids[-1:], st):
                e = lin(vs[0].one())
                if e is None: out.append((VTOP, s)); continue
                if name == "bit_ceil":
                    r = {self.fresh("power"): 1}, 0
                    self.fact(s, add(r, e, -1)); out.append((V([mk(r)]), s))
                else:
                    z = ({('t', 'clz', ckey(e)): 1}, 0)
                    out.append((V([mk(z if name != "bit_width" else add(num(64), z, -1))]), s))
            return out
        if name.startswith("~") and n["k"] == "CXXMemberCallExpr" or n["k"] == "CXXPseudoDestructorExpr":
            out = []
            for l, s in self.member_loc(I, kids[0], n, st):
                s = s.copy()
                if isinstance(l[0], tuple) and l[0][0] == 'txt': self.destroy(I, ('ptr',) + l, num(1), s, n, "destructor")
                out.append((VVOID, s))
            return out
        if q.startswith(("std::destroy", "std::uninitialized_")) or name in ("memcpy", "memmove", "construct_at") or q in ("std::copy_n", "std::copy", "std::move", "std::distance", "std::fill", "std::fill_n") and len(kids) > 1:
            out = []
            for vs, s in I.args(kids, st):
                s = s.copy(); vs = [v.one() for v in vs]
                def between(a, b):
                    (T, x), (U, y) = txt(a), txt(b)
                    return add(y, x, -1) if T is not None and T == U and x is not None and y is not None else None
                r = VTOP
                if name == "distance":
                    d = between(vs[0], vs[1]); r = V([mk(d)]) if d is not None else VTOP
                elif name == "construct_at": self.construct(I, vs[0], num(1), s, n, name); r = V([vs[0]])
                elif name == "destroy_at": self.destroy(I, vs[0], num(1), s, n, name); r = VVOID
                elif name == "destroy_n": self.destroy(I, vs[0], lin(vs[1]), s, n, name)
                elif name == "destroy": self.destroy(I, vs[0], between(vs[0], vs[1]), s, n, name); r = VVOID
                elif name in ("memcpy", "memmove"):
                    c = lin(vs[2])
                    if c is not None and all(k % self.size_of == 0 for k in c[0].values()) and c[1] % self.size_of == 0:
                        c = ({t: k // self.size_of for t, k in c[0].items()}, c[1] // self.size_of)
                    else:
                        self.err("construct", "%s in %s" % (name, self.where(I)), "what is copied is not known to be a number of whole elements", n["l"]); c = None
                    if c is not None: self.reads(I, vs[1], c, s, n, name); self.construct(I, vs[0], c, s, n, name)
                    r = V([vs[0]]) if vs[0] is not None else VTOP
                else:
                    by_n = name.endswith("_n"); fill = "fill" in name or "default" in name or "value" in name
                    c = lin(vs[1]) if by_n else between(vs[0], vs[1])
                    d = vs[0] if fill else vs[2]
                    if not fill: self.reads(I, vs[0], c, s, n, name)
                    if name.startswith("uninit") or self.trivial: self.construct(I, d, c, s, n, name)
                    else: self.reads(I, d, c, s, n, name)        # assigns to live elements
                    T, o = txt(d)
                    if T is not None and o is not None and c is not None: r = V([ptr(T, add(o, c))])
                out.append((r, s))
            return out
        return TextClient.on_call(self, I, n, q, st)
    def on_binop(self, I, op, va, vb, st, n):
        a, b = va.one(), vb.one()
        x, y = (lin(a) if a is not None else None), (lin(b) if b is not None else None)
        if op == "<<" and x == num(1) and y is not None and y[0]:
            zs = [t for t in y[0] if t[1] == 'clz']
            r = {self.fresh("power"): 1}, 0
            self.fact(st, add(r, num(1), -1))
            if len(zs) == 1 and y[0] == {zs[0]: -1} and y[1] >= 64: self.fact(st, add(add(r, (dict(zs[0][2][0]), zs[0][2][1]), -1), num(1), -1))
            return V([mk(r)])
        return TextClient.on_binop(self, I, op, va, vb, st, n)
C0, C1 = C(0).one(), C(1).one()

class VecInterp(TextInterp):
    def wrapper_type(self, t): return not t.startswith("fastgltf::SmallVector") and TextInterp.wrapper_type(self, t)

    # for (x : list) is a loop over a hidden position
    def s_CXXForRangeStmt(self, n, states):
        o = Out(); rest = []
        d = n["var"]; pos = (('range', n["l"]), ())
        for s in states:
            for l, s1 in self.lval(n["range"], s):
                a = self.load(l, s1).one()
                if a is not None and a[0] == 'il': b, ln = ptr(a[1], num(0)), self.cl.length(a[1])
                else:
                    b = self.load((l[0], l[1] + (fields()["data"],)), s1).one(); ln = lin(self.load((l[0], l[1] + (fields()["size"],)), s1).one() or TOP)
                T, off = txt(b)
                if T is None or off is None or ln is None: rest.append(s1); continue
                s1 = s1.copy(); s1.store[pos] = frozenset([b])
                end = ptr(T, add(off, ln))
                self.one_loop(n, s1, o, {"k": "RangeCond", "pos": pos, "end": end, "var": d, "l": n["l"]}, {"k": "RangeStep", "pos": pos}, False)
        if rest:
            r = TextInterp.s_CXXForRangeStmt(self, n, rest)
            o.next += r.next; o.ret += r.ret
        for s in o.next: s.store.pop(pos, None)
        return o
    def s_RangeStep(self, n, states):
        o = Out()
        for s in states:
            (a,) = s.store[n["pos"]]
            T, off = txt(a)
            s = s.copy(); s.store[n["pos"]] = frozenset([ptr(T, add(off, num(1)))]); o.next.append(s)
        return o
    def cond(self, n, st):
        if n["k"] != "RangeCond": return TextInterp.cond(self, n, st)
        (a,) = st.store[n["pos"]]; out = []
        r = self.decide("!=", a, n["end"], st)
        for b in (True, False):
            if r is not None and r != b: continue
            s = st.copy()
            if not self.assume("!=", a, n["end"], b, s): continue
            if b:
                v = n["var"]["id"]
                if n["var"].get("t", "").rstrip().endswith("&"): s.store[(v, ('&',))] = frozenset([a]); s.store[(v, ())] = frozenset()
                else:
                    self.cl.reads(self, a, num(1), s, n, "copying an element"); s.store[(v, ())] = frozenset([('elem',)])
            out.append((b, s))
        return out

class VecRun(uris.Run):
    strong = True         # blocks are larger than the own storage, the capacity is never zero: assumed if every operation keeps it so
    weaker = set()
    def __init__(self, f):
        self.p = prog(); self.f = f
        self.cl = Vec(self.p); self.I = VecInterp(self.p, self.cl); self.st = State(); self.st.x = False
        self.I.this = THIS
        self.cl.trivial = "Plain" in f["rect"]
        self.roots = []
        self.old = {}
    def obj(self, root, kind):
        """An object that satisfies the invariant."""
        cl, s, nm = self.cl, self.st, root[0]
        T = cl.inline[root] = cl.make(num(N), nm + " storage", s)
        self.roots.append(root)
        if kind is None: return
        al = ('alc', nm)
        size = ({('t', nm + ' size', 0): 1}, 0)
        if kind == "own":
            cap = ({('t', nm + ' capacity', 0): 1}, 0)
            if self.strong: cl.fact(s, add(cap, num(1), -1))
            cl.fact(s, add(num(N), cap, -1)); cl.set('cons', T, size, s)
        else:
            cap = ({('t', nm + ' capacity', 0): 1}, 0)
            T = cl.make(cap, nm + " block", s, size, True, al)
            if self.strong: cl.fact(s, add(cap, num(N + 1), -1))
        cl.fact(s, add(cap, size, -1))
        for k, v in ((fields()["data"], ptr(T, num(0))), (fields()["size"], mk(size)), (fields()["capacity"], mk(cap)), (fields()["allocator"], al)):
            s.store[(root, (k,))] = frozenset([v])
        self.old[root] = (size, cap)
    def number(self, a):
        e = ({('t', a["n"] or "argument", 0): 1}, 0)
        self.put(a, V([mk(e)])); return e

_f = {}
def fields():
    """The members that play the parts: found by what the accessors of the same name return, or by their types."""
    if _f: return _f
    p = prog()
    for g in p.functions:
        if g.get("rec") == "fastgltf::SmallVector" and g["n"] in ("data", "size", "capacity") and g.get("body"):
            for y in tree.walk(g["body"]):
                if y["k"] == "MemberExpr" and y.get("dk") == "Field" or y["k"] == "MemberExpr" and g["n"] in y.get("n", ""): _f.setdefault(g["n"], y["n"]); break
    for x in p.records["fastgltf::SmallVector"]["fields"]:
        if "allocator" in bare(x["t"]).split("<")[0]: _f["allocator"] = x["n"]
    return _f

def invariant(ctx, r, s, what, dead=()):
    cl, F = r.cl, fields()
    owners = {}
    for root in r.roots:
        o = "the object" if root == THIS[0] else "the other object"
        TI = cl.inline[root]
        if root in dead:
            ctx.ob("destroyed", what, cl.trivial or cl.eq(cl.get('cons', TI, s), num(0), s), "elements in the object's own storage are not destroyed")
            continue
        T, off = txt(r.value((root, (F["data"],)), s))
        size, cap = (lin(r.value((root, (F[k],)), s)) for k in ("size", "capacity"))
        al = r.value((root, (F["allocator"],)), s)
        blk = cl.get('blk', T, s) if T is not None else None
        ok = T is not None and off is not None and cl.eq(off, num(0), s) and (T == TI or blk == num(1))
        ctx.ob("data", what, ok, "%s does not point to its own storage or an allocated block afterwards" % o)
        if not ok or size is None or cap is None:
            ctx.ob("data", what, ok and size is not None and cap is not None, "size or capacity of %s are not known afterwards" % o); continue
        if not (cl.le(num(1), cap, s) if T == TI else cl.le(num(N + 1), cap, s)): VecRun.weaker.add(what)
        if T == TI: ctx.ob("capacity", what, cl.le(cap, num(N), s), "%s claims more capacity than its own storage has" % o)
        else:
            owners.setdefault(T, []).append(o)
            ctx.ob("capacity", what, cl.eq(cap, cl.length(T), s), "the capacity of %s is not what was allocated" % o)
            ctx.ob("allocator", what, cl.same_allocator(al, T, s), "%s holds memory of an allocator that may differ from its own" % o)
            ctx.ob("alive", what, cl.trivial or cl.eq(cl.get('cons', TI, s), num(0), s), "elements stay alive in storage that %s no longer uses" % o)
        ctx.ob("size", what, cl.prove(size, s) and cl.le(size, cap, s), "the size of %s may exceed its capacity" % o)
        k = cl.get('cons', T, s)
        ctx.ob("alive", what, k is not None and (cl.le(size, k, s) if cl.trivial else cl.eq(k, size, s)), "the live elements of %s are not the first size() ones" % o)
    for loc in list(s.store):
        if isinstance(loc[0], tuple) and loc[0][0] == 'blk':
            live = cl.get('blk', loc[0][1], s) == num(1); ow = owners.get(loc[0][1], [])
            ctx.ob("owned", what, not live or len(ow) == 1, "a block of memory is " + ("lost" if not ow else "owned twice"))

def promise(ctx, r, s, what, old, args, alias):
    cl, F, f = r.cl, fields(), r.f
    size, cap = (lin(r.value((THIS[0], (F[k],)), s)) for k in ("size", "capacity"))
    want = None; n = f["n"]
    if f.get("dtor"): return
    moved = [a for a in f["params"] if "SmallVector" in a["t"]]
    if moved: want = r.old.get(OTHER[0] if not alias else THIS[0], (None,))[0]
    elif f.get("ctor"): want = args[0] if args else num(0)
    elif n in ("resize", "assign"): want = args[0]
    elif n == "clear": want = num(0)
    elif n in ("emplace_back", "push_back"): want = add(old[0], num(1))
    elif n == "pop_back": want = add(old[0], num(1), -1)
    elif n in ("insert", "erase", "swap", "append"): return
    else: want = old[0]
    if want is not None: ctx.ob("result", what, size is not None and cl.eq(size, want, s), "the size is not what the operation promises")
    if n == "reserve": ctx.ob("result", what, cap is not None and cl.le(args[0], cap, s), "the capacity may be less than what was reserved")
    if moved and moved[0]["t"].startswith("const") and not alias:
        o = lin(r.value((OTHER[0], (F["size"],)), s))
        ctx.ob("result", what, o is not None and cl.eq(o, r.old[OTHER[0]][0], s), "copying changes the size of the source")

class Quiet:
    def __init__(self): self.analysed = {}
    def ob(self, *a): pass
    def need(self, *a): pass
    def fail(self, *a): pass

def check(ctx):
    VecRun.weaker = set(); VecRun.strong = True
    run(Quiet())
    VecRun.strong = not VecRun.weaker
    ctx.analysed["assumed of every object"] = "capacity > 0, blocks larger than own storage (kept by every operation)" if VecRun.strong else "nothing beyond the invariant"
    run(ctx)

def run(ctx):
    p = prog(); F = fields()
    ctx.need(len(F), "members of SmallVector", 4)
    fs = [f for f in p.functions if f.get("rec") == "fastgltf::SmallVector" and f.get("body") and "verif::" in (f.get("rect") or "") and f.get("acc") == 0 and not f.get("static")]
    ctx.need(len(fs), "public member functions of SmallVector", 60)
    for e in ELEMS:
        names = {f["n"] for f in fs if e in f["rect"]}
        for m in ("SmallVector", "~SmallVector", "operator=", "reserve", "resize", "assign", "clear", "shrink_to_fit", "emplace_back"): ctx.need(m in names, "%s for %s" % (m, e), 1)
    runs = 0
    for f in fs:
        e = next(x for x in ELEMS if x in f["rect"])
        label = "%s(%s) for %s" % (f["n"], ", ".join(re.sub(r"verif::\w+", "T", a["t"]).replace("fastgltf::", "") for a in f["params"]), e)
        pair = [a for a in f["params"] if "SmallVector<" in a["t"]]
        mine = [None] if f.get("ctor") else ["own", "heap"]
        for k1 in mine:
            for k2 in (["own", "heap"] + (["same"] if not f.get("ctor") else []) if pair else [None]):
                r = VecRun(f); cl = r.cl
                r.obj(THIS[0], k1)
                args = []
                for a in f["params"]:
                    t = bare(a["t"])
                    if a in pair:
                        l = THIS if k2 == "same" else OTHER
                        if k2 != "same": r.obj(OTHER[0], k2)
                        r.st.store[(a["id"], ('&',))] = frozenset([('ptr',) + l]); r.st.store[(a["id"], ())] = frozenset()
                    elif "initializer_list" in t:
                        X = cl.make(({('t', 'list size', 0): 1}, 0), "list", r.st); cl.set('cons', X, cl.length(X), r.st)
                        r.put(a, V([('il', X)])); args.append(cl.length(X))
                    elif "allocator" in t: r.put(a, V([('alc', 'argument')]))
                    elif t in ("unsigned long", "int", "unsigned int", "long"): args.append(r.number(a))
                    else: r.put(a, V([('elem',)]))
                # preconditions, which the functions assert
                if f["n"] == "operator[]": cl.fact(r.st, add(add(r.old[THIS[0]][0], args[0], -1), num(1), -1))
                if f["n"] in ("pop_back", "front", "back"): cl.fact(r.st, add(r.old[THIS[0]][0], num(1), -1))
                what = label + {None: "", "own": " on own storage", "heap": " on a block"}[k1] + {None: "", "own": " from own storage", "heap": " from a block", "same": " from itself"}[k2]
                if cl.quiet: raise RuntimeError
                try: ex = r.go()
                except interp.BudgetExceeded: ctx.need(0, "bounded number of states of " + what, 1); continue
                runs += 1
                ctx.need(len(ex), "exits of " + what, 1)
                for s in ex:
                    invariant(ctx, r, s, what, (THIS[0],) if f.get("dtor") else ())
                    promise(ctx, r, s, what, r.old.get(THIS[0]), args, k2 == "same")
                for (rule, fn, w, line), k in cl.ops.items(): ctx.ob(rule, "%s: %s in %s" % (what, w, fn), True)
                for (rule, c), (msg, line) in cl.bad.items(): ctx.fail(rule, "%s: %s" % (what, c), msg, "line %d" % line)
    ctx.analysed["runs (function x shapes x element kind)"] = runs
    ctx.analysed["functions"] = len(fs)

if __name__ == "__main__":
    framework.main("C22", check, explain=EXPLAIN)
