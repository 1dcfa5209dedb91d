"""Reading GLB containers: a linear domain over the size of the data, the fields read from it and the number of bytes consumed."""
import itertools
import tree
from interp import *
from interp import V, State, C, NULL, bare, etype
from hostio import *
from hostio import show as show_atom

GETTER = "fastgltf::GltfDataGetter"
PADDING = 64

TERMS = ('T', 'u32', 'size')
def lin(a):
    """Linear form ({term: coefficient}, constant) of an atom, or None."""
    if a[0] == 'c' and isinstance(a[1], int) and not isinstance(a[1], bool): return {}, a[1]
    if a[0] in TERMS: return {a: 1}, 0
    if a[0] == 'lin': return dict(a[1]), a[2]
    return None
def mk(d, c):
    d = {k: v for k, v in d.items() if v}
    if not d: return ('c', c)
    if len(d) == 1 and c == 0 and list(d.values()) == [1]: return list(d)[0]
    return ('lin', tuple(sorted(d.items(), key=repr)), c)
def add(x, y, k=1):
    d = dict(x[0])
    for t, v in y[0].items(): d[t] = d.get(t, 0) + k * v
    return {t: v for t, v in d.items() if v}, x[1] + k * y[1]
def trivially(e): return e[1] >= 0 and all(v >= 0 for v in e[0].values())

class GlbClient(HostClient):
    ptrindex = True
    unroll = True
    def __init__(self, **kw):
        self.values = kw.pop("values", None)
        HostClient.__init__(self, fail=False, **kw)
        self.bases = {}
        self.reads_done = {}
        self.parsed = {}
        self.jsonviews = {}
        self.root_calls = {}
    # --- proofs
    def facts(self, st):
        out = []
        for k, v in st.facts.items():
            if k[0] == 'cmp' and v[0] == 'in' and len(v[1]) == 1:
                op, a, b = k[1:4]
                if True not in v[1]: op = NEG[op]
                x, y = lin(a), lin(b)
                if x is None or y is None: continue
                d = add(x, y, -1)
                if op in (">", ">=", "=="): out.append((d[0], d[1] - (op == ">")))
                if op in ("<", "<=", "=="):
                    m = add(({}, 0), d, -1); out.append((m[0], m[1] - (op == "<")))
            elif lin(k) and k[0] in TERMS + ('lin',) and v[0] == 'in' and len(v[1]) == 1 and isinstance(list(v[1])[0], int):
                x = lin(k); c = list(v[1])[0]
                out.append((x[0], x[1] - c)); m = add(({}, 0), x, -1); out.append((m[0], m[1] + c))
        return out
    values = None                           # concrete data: {'T': n, offset: byte}
    def concrete(self, a):
        """Value of an atom for the concrete data, or None."""
        while a[0] in ('cast', 'conv') and isinstance(a[-1], tuple): a = a[-1]
        if a[0] == 'c': return a[1]
        if a[0] == 'T': return self.values['T']
        if a[0] == 'fb': return self.values.get(a[2], 0)
        if a[0] == 'u32': return sum(self.values.get(a[2] + i, 0) << (8 * i) for i in range(4))
        if a[0] == 'min':
            x = [self.concrete(b) for b in a[1:]]
            return min(x) if None not in x else None
        x = lin(a)
        if x is None: return None
        return self.subst(x)[1]
    def subst(self, e):
        if self.values is None: return e
        return {}, e[1] + sum(k * self.concrete(t) for t, k in e[0].items())
    def prove(self, e, st):
        """e >= 0 follows from the facts of the path."""
        e = self.subst(e)
        if trivially(e): return True
        fs = self.facts(st)
        for n in (1, 2, 3):
            for c in itertools.combinations(fs, n):
                r = e
                for f in c: r = add(r, f, -1)
                if trivially(r): return True
        return False
    def le(self, a, b, st): return self.prove(add(b, a, -1), st)
    # --- position
    def pos(self, st):
        for i in items(st):
            if i[0] == 'pos': return lin(i[1])
        return None
    def setpos(self, st, e):
        drop(st, lambda t: t[0] == 'pos')
        if e is not None: put(st, ('pos', mk(*e)))
    def base(self, e):
        e = self.subst(e)
        k = mk(e[0], 0)
        return self.bases.setdefault(k, len(self.bases)), e[1]
    def library(self, I, n, q, cls, name, st):
        if cls == GETTER: return self.getter(I, n, name, st)
        return None
    def getter(self, I, n, m, st):
        out = []
        for vs, s in I.args(n["c"][1:], st):
            s = s.copy()
            if m == "reset": self.setpos(s, ({}, 0)); out.append((VVOID, s))
            elif m == "totalSize": out.append((V([('T',)]), s))
            elif m == "bytesRead":
                p = self.pos(s)
                out.append((V([mk(*p)]) if p is not None else VTOP, s))
            elif m == "read":
                isspan = "span" in n.get("t", "")
                cnt = vs[0] if isspan else vs[1]
                p = self.pos(s)
                if self.values is not None and cnt.one() is not None and self.concrete(cnt.one()) is not None: cnt = V([('c', self.concrete(cnt.one()))])
                where = self.where(I)
                self.reads_done.setdefault((where, n["l"]), []).append(cnt.a)
                e = None
                if p is None: self.err("bounds", "read at an unknown position in " + where, "data is read without a preceding reset of the data source", n["l"])
                else:
                    alts = self.mins(cnt)
                    bad = []
                    for a in alts:
                        if not any(lin(x) is not None and self.le(add(p, lin(x)), ({('T',): 1}, 0), s) for x in a): bad.append(a)
                    if bad: self.err("bounds", "unchecked read in " + where, "%s bytes are read although the data is not known to have that many left" % " or ".join(show_lin(x) for x in bad[0]), n["l"])
                    if len(alts) == 1 and len(alts[0]) == 1 and lin(alts[0][0]) is not None: e = add(p, lin(alts[0][0]))
                if isspan:
                    self.setpos(s, e)
                    out.append((V([('span', cnt.one() or TOP, vs[1].one() if len(vs) > 1 else ('c', 0))]), s))
                else:
                    for a in vs[0].a:
                        if a[0] == 'ptr' and a[2] and p is not None and e is not None and not e[0].keys() - p[0].keys() and cnt.one() and cnt.one()[0] == 'c':
                            path = a[2][:-1] if (a[2][-1] == ('[]', 'data') or (isinstance(a[2][-1], str) and a[2][-1] == '[0]')) else a[2]
                            b, off = self.base(p)
                            for i in range(min(cnt.one()[1], 64)): s.store[(a[1], path + ('[%d]' % i,))] = frozenset([('fb', b, off + i)])
                    self.setpos(s, e)
                    self.written(I, n, vs[0], cnt, s)
                    out.append((VVOID, s))
            else: return None
        return out
    def mins(self, v):
        """Alternatives of a value; each a list of terms of which the value is at most any."""
        out = []
        for a in v.a:
            if a[0] == 'call' and a[1] == 'std::min' or a[0] in ('min',): out.append([x for x in a[2]] if a[0] == 'call' else list(a[1:]))
            else: out.append([a])
        return out
    def sizes_differ(self, I, a, b, s):
        x, y = lin(strip(a)), lin(strip(b))
        if x is not None and y is not None: return add(x, y, -1) != ({}, 0)
        return HostClient.sizes_differ(self, I, a, b, s)
    # --- arithmetic
    def on_binop(self, I, op, va, vb, st, n):
        a, b = va.one(), vb.one()
        if a is None or b is None: return None
        if op in ("|", "+"):
            r = self.le32(('op', '|', a, b))
            if r is not None: return V([r])
        if op == "<<" and b[0] == 'c' and a[0] == 'fb': return V([('op', '<<', a, b)])
        x, y = lin(a), lin(b)
        if x is None or y is None: return None
        if not x[0] and not y[0]: return None
        wide = n is None or bare(n.get("t", "")) in ("unsigned long", "unsigned long long", "long", "long long", "std::size_t", "std::uint64_t")
        if op == "+" and (wide or self.le(add(x, y), ({}, 0xffffffff), st)): return V([mk(*add(x, y))])
        if op == "-" and self.le(y, x, st): return V([mk(*add(x, y, -1))])
        if op == "*" and wide and (not x[0] or not y[0]):
            k = (x if not x[0] else y)[1]; z = y if not x[0] else x
            return V([mk({t: v * k for t, v in z[0].items()}, z[1] * k)])
        return V([('op', op, ('any',), ('c', n["l"] if n else 0))])
    def le32(self, a):
        """A little-endian 32-bit field put together from four consecutive bytes."""
        parts = []
        def flat(x):
            if x[0] == 'op' and x[1] in ('|', '+') and len(x) == 4: return flat(x[2]) and flat(x[3])
            if x[0] == 'op' and x[1] == '<<' and x[2][0] == 'fb' and x[3][0] == 'c': parts.append((x[3][1], x[2])); return True
            if x[0] == 'fb': parts.append((0, x)); return True
            return False
        if not flat(a): return None
        parts.sort()
        if len(parts) == 4 and [p[0] for p in parts] == [0, 8, 16, 24] and all(p[1][1] == parts[0][1][1] and p[1][2] == parts[0][1][2] + i for i, p in enumerate(parts)):
            return ('u32', parts[0][1][1], parts[0][1][2])
        return a
    def decide(self, I, op, a, b, st):
        if self.values is not None:
            x, y = self.concrete(a), self.concrete(b)
            if x is not None and y is not None and (a[0] != 'c' or b[0] != 'c'):
                if not isinstance(x, (int, bool)) or not isinstance(y, (int, bool)): return HostClient.decide(self, I, op, a, b, st)
                return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}.get(op)
        x, y = lin(a), lin(b)
        if x is not None and y is not None and (x[0] or y[0]):
            d = add(x, y, -1)
            if op in ("<=", ">"):
                if self.le(x, y, st): return op == "<="
            if op in ("<", ">="):
                if self.le(y, x, st): return op == ">="
            if op == "<" and self.le(add(x, ({}, 1)), y, st): return True
            if op == ">" and self.le(add(y, ({}, 1)), x, st): return True
        return HostClient.decide(self, I, op, a, b, st)
    def other(self, I, n, q, cls, name, st):
        if name in ("padded_string_view", "basic_string_view") and cls.startswith("simdjson"): pass
        if q == "std::min" and len(n.get("c", [])) == 2:
            out = []
            for vs, s in I.args(n["c"], st):
                if all(v.one() and lin(v.one()) is not None for v in vs): out.append((V([('min', vs[0].one(), vs[1].one())]), s))
                else: return None
            return out
        if cls.startswith("fastgltf::span<") and name in ("data", "size", "size_bytes", "begin") and n.get("c"):
            pass
        if "padded_string_view" in q and len(n.get("c", [])) >= 3:
            for vs, s in I.args(n["c"], st):
                sp = [x for x in walk_atoms(vs[0].a) if x[0] == 'span']
                for a in vs[0].a:
                    if a[0] == 'ptr' and a[2] and a[2][-1] == ('[]', 'data'): sp += [x for x in I.read((a[1], a[2][:-1]), s) if x[0] == 'span']
                self.jsonviews.setdefault((self.where(I), n["l"]), []).append((sp, vs[1].one(), vs[2].one(), s))
            return None
        return None
    def on_unit(self, I, n, f, s): self.parsed.setdefault((self.where(I), n["l"]), []).append(s.copy())

def walk_atoms(a):
    for x in a:
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, tuple):
                if y and isinstance(y[0], str): yield y
                st += [z for z in y if isinstance(z, tuple)]
def show_lin(a):
    x = lin(a)
    if x is None: return show_atom(a)
    r = ["%s%s" % ("" if v == 1 else "%d*" % v, "totalSize" if t[0] == 'T' else "u32@%d%s" % (t[2], "" if t[1] == 0 else "+%d" % t[1])) for t, v in x[0].items()]
    if x[1] or not r: r.append(str(x[1]))
    return " + ".join(r)
