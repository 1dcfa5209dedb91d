"""Writing GLB containers: the emission of bytes through a cursor, in the linear domain of glb.py."""
import tree
from interp import *
from interp import V, State, C, NULL, bare, etype
from builtins_ import split as split_name
from hostio import *
from hostio import items
import glb
from glb import mk, add, trivially, show_lin

K, M4 = ('T', 'K'), ('T', 'M')
class WriteClient(glb.GlbClient):
    """json.size() is 4 K + r, the byteLength of the first buffer is 4 M + q (K, M not negative)."""
    steps = True
    def __init__(self, r=0, q=0, jsonfn=(), **kw):
        glb.GlbClient.__init__(self, **kw)
        self.r, self.q = r, q
        self.jsonfn = jsonfn
        self.emits = {}
        self.lenread = False
    # --- values
    def lin(self, a):
        while a[0] in ('cast', 'conv') and isinstance(a[-1], tuple): a = a[-1]
        if a[0] == 'm' and a[2] and a[2][-1] == 'byteLength': return {M4: 4}, self.q
        if a[0] == 'm' and a[2] and a[2][-1] == 'bytes': return {('size', a): 1}, 0
        if a[0] == 'sz' and len(a) > 3 and a[3] == 0 and a[2] and a[2][-1] == 'bytes': return {('size', a[1], a[2]): 1}, 0
        return glb.lin(a)
    def on_call(self, I, n, q, st):
        kids = n.get("c", [])
        if n.get("id") in self.jsonfn: return [(V([('jsontext',)]), s) for _, s in I.args(kids, st)]
        r = self.memory_call(I, n, q or "", kids, st)
        if r is not None: return r
        return glb.GlbClient.on_call(self, I, n, q, st)
    def outsize(self, l, s):
        for i in items(s):
            if i[0] == 'out' and i[1] == l: return glb.lin(i[2])
        return {}, 0
    def setout(self, l, s, e):
        drop(s, lambda i: i[0] == 'out' and i[1] == l); put(s, ('out', l, mk(*e)))
    def emit(self, I, n, s, l, off, size, src):
        """size bytes are written at off."""
        w = self.where(I)
        if size == ('c', 0): return
        self.emits[(w, n["l"])] = self.emits.get((w, n["l"]), 0) + 1
        put(s, ('emit', l, off, size, src, n["l"]))
    def memory_call(self, I, n, q, kids, st):
        cls, name = split_name(q)
        if cls.startswith(("std::vector<std::byte", "std::basic_string<")) and n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and name in ("size", "length", "data", "c_str", "resize", "reserve", "insert", "push_back", "append", "begin", "end", "operator[]"):
            out = []
            for l, s in I.lval(kids[0], st):
                at = I.read(l, s)
                j = [a for a in at if a[0] == 'jsontext']
                if j:
                    extra = j[0][1] if len(j[0]) > 1 else ()
                    size = add(({K: 4}, self.r), ({}, len(extra)))
                    if name in ("size", "length"): out.append((V([mk(*size)]), s)); continue
                    if name in ("data", "c_str", "begin"): out.append((V([('jptr', extra)]), s)); continue
                    if name in ("resize", "append", "push_back"):
                        for vs, s2 in I.args(kids[1:], s):
                            s2 = s2.copy()
                            c = vs[-1].one()
                            if name == "push_back": k = 1
                            else:
                                e = vs[0].one() and self.lin(vs[0].one())
                                if e and name == "resize": e = add(e, size, -1)
                                if not e or e[0] or not 0 <= e[1] < 16: return None
                                k = e[1]
                            s2.store[l] = frozenset([('jsontext', extra + ((c[1] if c and c[0] == 'c' else '?'),) * k)])
                            out.append((VVOID, s2))
                        continue
                    return None
                if cls.startswith("std::vector<std::byte") and l[0] != ('asset',):
                    e = self.outsize(l, s)
                    if name in ("size", "length"): out.append((V([mk(*e)]), s)); continue
                    if name in ("data", "begin"): out.append((V([('optr', l, ('c', 0))]), s)); continue
                    if name == "end": out.append((V([('optr', l, mk(*e))]), s)); continue
                    if name == "reserve": out += [(VVOID, s2) for _, s2 in I.args(kids[1:], s)]; continue
                    if name in ("resize", "insert", "push_back"):
                        for vs, s2 in I.args(kids[1:], s):
                            s2 = s2.copy()
                            if name == "push_back":
                                self.emit(I, n, s2, l, mk(*e), ('c', 1), self.source(I, V([('val', vs[0].one())]), ('c', 1), s2)); new = add(e, ({}, 1))
                            elif name == "resize":
                                new = vs[0].one() and self.lin(vs[0].one())
                                if new and len(vs) > 1: self.emit(I, n, s2, l, mk(*e), mk(*add(new, e, -1)), ('fill', byte(vs[1].one())))
                            else:
                                new = None
                                if len(vs) == 3 and vs[1].one() and vs[2].one():
                                    a, b = vs[1].one(), vs[2].one()
                                    d = self.distance(a, b)
                                    if d is not None:
                                        self.emit(I, n, s2, l, mk(*e), mk(*d), self.source(I, vs[1], mk(*d), s2)); new = add(e, d)
                                    elif self.lin(a):
                                        self.emit(I, n, s2, l, mk(*e), mk(*self.lin(a)), ('fill', byte(b))); new = add(e, self.lin(a))
                            if new is None: return None
                            self.setout(l, s2, new)
                            out.append((VVOID, s2))
                        continue
                return None
            return out
        if name in ("memcpy", "memmove", "memset", "copy", "copy_n", "fill", "fill_n") and (cls in ("", "std") ) and len(kids) == 3:
            out = []
            for vs, s in I.args(kids, st):
                s = s.copy()
                a = [v.one() for v in vs]
                if None in a: return None
                if name in ("memcpy", "memmove"): d, src, size = a[0], vs[1], self.lin(a[2])
                elif name == "memset": d, src, size = a[0], None, self.lin(a[2])
                elif name == "copy": d, src, size = a[2], vs[0], self.distance(a[0], a[1])
                elif name == "copy_n": d, src, size = a[2], vs[0], self.lin(a[1])
                elif name == "fill": d, src, size = a[0], None, self.distance(a[0], a[1])
                else: d, src, size = a[0], None, self.lin(a[1])
                d = base(d)
                if d[0] != 'optr' or size is None: return None
                fill = {"memset": 1, "fill": 2, "fill_n": 2}.get(name)
                what = ('fill', byte(a[fill])) if fill else self.source(I, src, mk(*size), s)
                self.emit(I, n, s, d[1], d[2], mk(*size), what)
                res = ('optr', d[1], mk(*add(self.lin(d[2]), size))) if name in ("copy", "copy_n", "fill_n") else d
                out.append((V([res]), s))
            return out
        return None
    def distance(self, a, b):
        a, b = base(a), base(b)
        if a[0] == 'optr' and b[0] == 'optr' and a[1] == b[1]: return add(self.lin(b[2]), self.lin(a[2]), -1)
        if a[0] == 'jptr' and b[0] == 'op' and b[1] == '+' and base(b[2]) == a: return self.lin(b[3])
        if a[0] == 'ptr' and b[0] == 'op' and b[1] == '+' and base(b[2]) == a: return self.lin(b[3])
        return None
    def source(self, I, v, size, s):
        """What the bytes are: the JSON text, the data of a buffer, or known bytes."""
        a = base(v.one() or ('top',))
        if a[0] == 'jptr': return ('json', a[1])
        if a[0] == 'val': return ('bytes', (byte(a[1]),))
        if a[0] == 'ptr':
            if a[1] == ('asset',): return ('data', a[2], mk(*self.lin(size)))
            if size[0] == 'c' and size[1] <= 64:
                p = a[2][:-1] if a[2] and a[2][-1] == ('[]', 'data') else a[2]
                if size[1] == 1 and p == a[2]: return ('bytes', (byte(one(I.read((a[1], p), s))),))
                k0 = 0
                if p and isinstance(p[-1], str) and p[-1][0] == '[' and p[-1][1:-1].isdigit(): k0 = int(p[-1][1:-1]); p = p[:-1]
                return ('bytes', tuple(byte(one(I.read((a[1], p + ('[%d]' % (k0 + i),)), s))) for i in range(size[1])))
        return ('other', a[0])
    # --- arithmetic
    def on_binop(self, I, op, va, vb, st, n):
        a, b = va.one(), vb.one()
        if a is None or b is None: return None
        pa, pb = base(a), base(b)
        x, y = self.lin(a), self.lin(b)
        if pa[0] == 'optr' and y is not None and op in ("+", "-"): return V([('optr', pa[1], mk(*add(self.lin(pa[2]), y, 1 if op == "+" else -1)))])
        if pb[0] == 'optr' and pa[0] == 'optr' and pa[1] == pb[1] and op == "-": return V([mk(*add(self.lin(pa[2]), self.lin(pb[2]), -1))])
        if pa[0] in ('jptr',) and op == "+": return V([('op', '+', pa, b)])
        if x is None or y is None or (not x[0] and not y[0]): return None
        if not y[0]:
            c = y[1]
            if op == "%" and c > 0 and all(k % c == 0 for k in x[0].values()): return C(x[1] % c)
            if op == "&" and c >= 0 and (c + 1) & c == 0 and all(k % (c + 1) == 0 for k in x[0].values()): return C(x[1] & c)
            m = -c if c < 0 else (1 << 64) - c if c >= 1 << 63 else (1 << 32) - c if c >= 1 << 31 else 0
            if op == "&" and m and m & (m - 1) == 0 and all(k % m == 0 for k in x[0].values()): return V([mk(x[0], x[1] // m * m)])
            if op == ">>": return V([('op', '>>', mk(*x), ('c', c))])
            if op == "/" and c > 0 and all(k % c == 0 for k in x[0].values()): return V([mk({t: k // c for t, k in x[0].items()}, x[1] // c)])
        if op == "&" and not x[0]: return self.on_binop(I, op, vb, va, st, n)
        r = glb.GlbClient.on_binop(self, I, op, V([mk(*x)]), V([mk(*y)]), st, n)
        return r
    def decide(self, I, op, a, b, st):
        x, y = self.lin(a), self.lin(b)
        if x is not None and y is not None and (x[0] or y[0]):
            a, b = mk(*x), mk(*y)
            d = add(x, y, -1)
            if op in ("==", "!=") and not d[0]: return (d[1] == 0) == (op == "==")
        return glb.GlbClient.decide(self, I, op, a, b, st)
    def facts(self, st):
        out = glb.GlbClient.facts(self, st)
        for k, v in st.facts.items():
            if k[0] == 'cmp' and v[0] == 'in' and len(v[1]) == 1:
                op, a, b = k[1:4]
                if glb.lin(a) is not None and glb.lin(b) is not None: continue
                x, y = self.lin(a), self.lin(b)
                if x is None or y is None: continue
                if True not in v[1]: op = NEG[op]
                d = add(x, y, -1)
                if op in (">", ">=", "=="): out.append((d[0], d[1] - (op == ">")))
                if op in ("<", "<=", "=="):
                    m = add(({}, 0), d, -1); out.append((m[0], m[1] - (op == "<")))
        return out

def one(at): return next(iter(at)) if len(at) == 1 else ('top',)
def base(a):
    while a[0] in ('cast', 'conv') and isinstance(a[-1], tuple): a = a[-1]
    return a
def byte(a):
    """One byte: a number, or ('part', number, shift)."""
    if a is None: return None
    a = base(a)
    if a[0] == 'c' and isinstance(a[1], int): return a[1] & 255
    if a[0] == 'c' and isinstance(a[1], str) and len(a[1]) == 1: return ord(a[1])
    if a[0] == 'obj' and len(a) > 2 and a[2] == 'z': return 0
    if a[0] == 'op' and a[1] == '>>' and a[3][0] == 'c': return ('part', a[2], a[3][1])
    if a[0] == 'op' and a[1] == '&' and a[3] == ('c', 255): return byte(a[2])
    return ('part', a, 0)

class Layout:
    """The bytes a path emits, in order."""
    def __init__(self, cl, s, l):
        self.cl, self.s = cl, s
        em = [i for i in items(s) if i[0] == 'emit' and i[1] == l]
        self.segs = []                                # (offset, size, source)
        self.error = None
        cur = ({}, 0)
        rest = list(em)
        while rest:
            at = [i for i in rest if self.same(glb.lin(i[2]), cur)]
            if len(at) != 1:
                self.error = "%s bytes at %s" % ("no" if not at else "twice the", show_lin(mk(*cur))); break
            i = at[0]; rest.remove(i)
            sz = glb.lin(i[3])
            if sz is None: self.error = "unknown size"; break
            self.segs.append((cur, sz, i[4], i[5]))
            cur = add(cur, sz)
        self.end = cur
    def same(self, a, b): return add(a, b, -1) == ({}, 0)
    def byte(self, off):
        for o, sz, src, _ in self.segs:
            d = add(off, o, -1)
            if d[0] or d[1] < 0: continue
            if not sz[0] and d[1] < sz[1]:
                if src[0] == 'bytes': return src[1][d[1]]
                if src[0] == 'fill': return src[1]
                return None
        return None
    def u32(self, off):
        b = [self.byte(add(off, ({}, i))) for i in range(4)]
        if all(isinstance(x, int) for x in b): return ('c', sum(x << 8 * i for i, x in enumerate(b)))
        v = set()
        for i, x in enumerate(b):
            if not isinstance(x, tuple) or x[0] != 'part' or x[2] != 8 * i: return None
            e = self.cl.lin(x[1])
            v.add(mk(*e) if e is not None else x[1])
        return v.pop() if len(v) == 1 else None
    def region(self, start, end):
        """Segments between two offsets; None if they do not fill the region exactly."""
        out, cur = [], start
        for o, sz, src, line in self.segs:
            if self.same(o, cur) and not self.same(cur, end): out.append((o, sz, src, line)); cur = add(cur, sz)
        return out if self.same(cur, end) else None
