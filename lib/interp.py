"""Abstract interpreter over the resolved tree.

Values are sets of provenance atoms; a state maps abstract locations (root, path) to values, carries facts about
immutable terms, and a client component.  Calls to functions of the program are inlined.  See DESIGN.md.

Atoms:
 ('c', x) constant            ('ptr', root, path) address of a location       ('null',) null / empty optional
 ('obj', T) default object    ('m', root, path) initial content of a location  ('uninit',) indeterminate
 ('j', p) JSON node           ('jr', p, kind) typed JSON read                  ('v', p, kind) value read from JSON
 ('key', p) JSON member name  ('call', q, args, site) opaque call              ('op', o, ...) opaque operation
 ('lam', ids, caps) closure   ('sz', root, path, d) element count + d          ('pos', root, path, a, r, c, tag) position
 ('huge', tag) a number beyond every bound                                     ('top',)
"""
import sys, re
sys.setrecursionlimit(20000)
TOP = ('top',)
NULL = ('null',)
UNINIT = ('uninit',)
CAP = 14

class V:
    __slots__ = ("a", "sub")
    def __init__(self, atoms=(), sub=None):
        self.a = atoms if isinstance(atoms, frozenset) else frozenset(atoms)
        self.sub = sub or None
    def __repr__(self): return "V(%s%s)" % (set(self.a), (", " + repr(self.sub)) if self.sub else "")
    def one(self):
        if len(self.a) == 1:
            for x in self.a: return x
        return None
    def const(self):
        x = self.one()
        return x[1] if x and x[0] == 'c' else None
    def consts(self):
        """All constants if every atom is one, else None."""
        if all(x[0] == 'c' for x in self.a): return [x[1] for x in self.a]
        return None
    def join(self, o):
        a = self.a | o.a
        a = capped(a)
        sub = None
        if self.sub or o.sub:
            sub = dict(self.sub or {})
            for k, v in (o.sub or {}).items(): sub[k] = (sub[k] | v) if k in sub else v
        return V(a, sub)
    def key(self):
        return (self.a, tuple(sorted(self.sub.items(), key=repr)) if self.sub else None)

VTOP = V([TOP])
VVOID = V([('c', None)])
def C(x): return V([('c', x)])

def zero_atom(x, t):
    """What a default-initialised atom of type t becomes when the storage was zeroed first."""
    if x[0] == 'obj': return ('obj', x[1], 'z')
    if x == UNINIT: return NULL if t.rstrip().endswith("*") else ('c', False if t == "bool" else 0)
    return x
class State:
    __slots__ = ("store", "facts", "x")
    def __init__(self): self.store = {}; self.facts = {}; self.x = None
    def copy(self):
        s = State.__new__(State); s.store = dict(self.store); s.facts = dict(self.facts); s.x = self.x
        return s

class Out:
    __slots__ = ("next", "brk", "cont", "ret")
    def __init__(self): self.next = []; self.brk = []; self.cont = []; self.ret = []

def is_ref(t): return t.endswith("&") or t.endswith("&&")
def bare(t):
    t = t.strip()
    while True:
        o = t
        for s in ("&", "*", " const"):
            if t.endswith(s): t = t[:-len(s)].strip()
        if t.startswith("const "): t = t[6:].strip()
        if t == o: return t

def _crc32c_table():
    t = []
    for i in range(256):
        c = i
        for _ in range(8): c = (c >> 1) ^ (0x82F63B78 if c & 1 else 0)
        t.append(c)
    return t
_T = _crc32c_table()
def crc32c(s):
    c = 0
    for b in s.encode("utf8"): c = _T[(c ^ b) & 255] ^ (c >> 8)
    return c

def comp(c):
    """Path component without its loop tag."""
    return '[]' if isinstance(c, tuple) else c
def canon(root, path):
    s = str(root) if not isinstance(root, tuple) else repr(root)
    for c in path:
        c = comp(c)
        s += c if c.startswith('[') or c.startswith('<') else '.' + c
    return s

def mentions(t, root, pre):
    """Does atom t mention location root.pre...?"""
    if not isinstance(t, tuple): return False
    if len(t) >= 3 and t[0] in ('m', 'sz', 'pos', 'ptr') and t[1] == root and isinstance(t[2], tuple) and t[2][:len(pre)] == pre: return True
    return any(mentions(x, root, pre) for x in t if isinstance(x, tuple))
def has_atom(t, a):
    if t == a: return True
    return isinstance(t, tuple) and any(has_atom(x, a) for x in t if isinstance(x, tuple))

def capped(a):
    """Too many alternatives are forgotten, except that they involve the number under study."""
    if len(a) > 1: a = bitjoin(a)
    if len(a) <= CAP: return a
    big = ('big',)
    return frozenset([TOP] + [('op', '*' if grows(x) else '/', big) for x in a if has_atom(x, big)])
BITS = 0xffffffff
def bits_of(a):
    """(known ones, known zeros) of a set of flags, or None."""
    if a[0] == 'bits': return a[1], a[2]
    if a[0] == 'c' and isinstance(a[1], int): x = int(a[1]) & BITS; return x, ~x & BITS
    return None
def bits(o, z): return ('bits', o & BITS, z & BITS)
def bitjoin(a):
    """Alternatives of a set of flags are one set of flags of which less is known."""
    if len(a) < 2: return a
    for x in a:
        if x[0] == 'bits': break
    else: return a
    bs = [bits_of(x) for x in a]
    r = {x for x, b in zip(a, bs) if b is None}
    o = z = BITS
    for b in bs:
        if b is not None: o &= b[0]; z &= b[1]
    r.add(('bits', o, z))
    return frozenset(r)
def grows(t):
    """Does the term multiply or add?"""
    return isinstance(t, tuple) and (t[:2] in (('op', '*'), ('op', '+'), ('op', '<<')) or any(grows(x) for x in t if isinstance(x, tuple)))

ARITH = {"float", "double", "int", "unsigned int", "long", "unsigned long", "char", "unsigned char", "signed char", "short", "unsigned short", "bool"}
SCALARS = {"bool", "fastgltf::Error", "simdjson::error_code"}
CMP = {"==", "!=", "<", ">", "<=", ">="}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}

NARROW = {"unsigned char": (8, False), "signed char": (8, True), "char": (8, True), "unsigned short": (16, False), "short": (16, True), "unsigned int": (32, False), "int": (32, True)}
NZ = frozenset([('nz',)])
class Interp:
    MAXDEPTH = 14
    def __init__(self, prog, client=None, positions=False, immutable=True):
        self.p = prog
        self.cl = client
        self.positions = positions
        self.immutable = immutable
        self.depth = 0
        self.stack = []
        self.this = ("this", ())
        self.tracked = {}
        self.tkeys = []
        self.steps = 0
        self.maxstates = 96
        self.valid_enums = False  # the enumerator Invalid marks values that no valid asset has
        self.budget = 10 ** 9
        self.inlined = {}
        self._reads = {}
        if not hasattr(prog, "static_info"):
            crc = {}
            for f in prog.functions:
                for n in _strings(f.get("body")): crc.setdefault(crc32c(n), n)
            for g in prog.globals.values():
                for n in _strings(g.get("init")): crc.setdefault(crc32c(n), n)
            # members of vectors and matrices that only depend on their dimensions
            prog.static_info = (crc, {f["id"] for f in prog.functions if f["q"].startswith("fastgltf::math::") and not f.get("params") and f.get("body") and f["q"].rsplit("::", 1)[-1] in ("columns", "rows", "size")})
        self.crc, self.sizeless = prog.static_info

    # ---------------------------------------------------------------- store
    def read(self, loc, st):
        root, path = loc
        v = st.store.get(loc)
        if v is not None and not (len(path) == 0 and v == frozenset()): atoms = v
        else:
            atoms = None
            for i in range(len(path) - 1, -1, -1):
                b = st.store.get((root, path[:i]))
                if b is not None:
                    atoms = frozenset(z for x in b for y in self.project(x, path[i:], st) for z in ((self.cl is not None and y[0] == 'm' and self.cl.memory(self, y[1], y[2], st)) or (y,)))
                    break
            if atoms is None:
                if isinstance(root, int): atoms = frozenset([UNINIT])
                else:
                    atoms = self.cl.memory(self, root, path, st) if self.cl is not None else None
                    if atoms is None: atoms = frozenset([self.table_element(root, path, st) or ('m', root, path)])
        atoms = capped(atoms)
        return atoms
    def table_element(self, root, path, st):
        """The constant at a constant index of a constant global array."""
        if not (isinstance(root, tuple) and len(root) == 2 and root[0] == 'g' and path): return None
        if isinstance(path[0], str) and re.fullmatch(r"\[\d+\]", path[0]) and len(path) > 1:
            tab = self.const_table((root, ()), st)
            i = int(path[0][1:-1])
            if tab is not None and i < len(tab):
                v = (tab[i].sub or {}).get(path[1:])
                if v is not None and len(v) == 1: return next(iter(v))
        if not (all(isinstance(c, str) and re.fullmatch(r"\[\d+\]", c) for c in path)): return None
        k = ("tab", root[1], path)
        if k in self._reads: return self._reads[k]
        r = None
        g = next((g for g in self.p.globals.values() if g.get("q") == root[1] and g.get("const") and g.get("init")), None)
        if g is not None:
            n = g["init"]
            for c in path:
                n = self._elements(n)
                i = int(c[1:-1])
                if n is None or i >= len(n): n = None; break
                n = n[i]
            if n is not None:
                cl, self.cl = self.cl, None
                try: v = self.eval(n, State())
                finally: self.cl = cl
                if len(v) == 1 and v[0][0].const() is not None: r = v[0][0].one()
        self._reads[k] = r
        return r
    def _elements(self, n):
        while n is not None:
            if n["k"] == "InitListExpr":
                c = n["c"]
                if len(c) == 1 and c[0]["k"] == "InitListExpr" and 'array' in n.get("t", ""): n = c[0]; continue
                return c
            if n["k"] == "CallExpr" and n.get("q", "").endswith("to_array") and len(n.get("c", [])) == 1: n = n["c"][0]; continue
            if n["k"] in ("ExprWithCleanups", "ConstantExpr", "ImplicitCastExpr", "CXXConstructExpr", "MaterializeTemporaryExpr") and len(n.get("c", [])) == 1: n = n["c"][0]; continue
            return None
        return None
    def load(self, loc, st):
        a = self.read(loc, st)
        root, path = loc
        n = len(path)
        sub = {k[1][n:]: v for k, v in st.store.items() if k[0] == root and len(k[1]) > n and k[1][:n] == path}
        return V(a, sub)
    def clear(self, loc, st):
        root, path = loc
        n = len(path)
        for k in [k for k in st.store if k[0] == root and k[1][:n] == path]: del st.store[k]
    def write(self, loc, v, st, node=None, weak=False):
        if self.cl is not None: self.cl.on_store(self, loc, v, st, node)
        if any(isinstance(c, str) and c == '[*]' for c in loc[1]): weak = True
        if weak:
            st.store[loc] = self.read(loc, st) | v.a
            for k, a in (v.sub or {}).items():
                l = (loc[0], loc[1] + k); st.store[l] = self.read(l, st) | a
            return
        self.clear(loc, st)
        st.store[loc] = v.a
        if v.sub:
            for k, a in v.sub.items(): st.store[(loc[0], loc[1] + k)] = a
        if not self.immutable and st.facts:
            for t in [t for t in st.facts if mentions(t, loc[0], loc[1])]: del st.facts[t]
    def project(self, atom, path, st):
        if not path: return [atom]
        k = atom[0]
        c = path[0]
        if k == 'm': return [('m', atom[1], atom[2] + path)]
        if k == 'obj':
            r = self.p.records.get(atom[1])
            if r is None: return [('default', atom[1], tuple(comp(x) for x in path))]
            for f in self.record_fields(r):
                if f["n"] == c:
                    out = []
                    fv = self.field_default_v(f, st)
                    if fv.sub and path[1:] in fv.sub: return list(fv.sub[path[1:]])
                    for x in fv.a:
                        if len(atom) > 2: x = zero_atom(x, f["t"])
                        out += self.project(x, path[1:], st)
                    return out
            return [('default', atom[1], tuple(comp(x) for x in path))]
        if k in ('alt', 'alt0') and isinstance(c, str) and c.startswith('<'):
            if c != '<%s>' % atom[1]: return []
            return self.project(('obj', atom[1]), path[1:], st)
        if k == 'null': return []
        if k == 'uninit': return [UNINIT]
        if k == 'top': return [TOP]
        if k == 'ctor' : return [('el', atom, tuple(comp(x) for x in path))]
        if k == 'c': return [atom] if c == '.val' or str(c).startswith('<') else [('el', atom, tuple(comp(x) for x in path))]
        if k == 'ptr': return self.proj_ptr(atom, path, st)
        if str(c).startswith('<') or c == '.val': return self.project(atom, path[1:], st)
        return [('el', atom, tuple(comp(x) for x in path))]
    def proj_ptr(self, atom, path, st): return [('el', atom, tuple(comp(x) for x in path))]
    def record_fields(self, r):
        out = []
        for b in r["bases"]:
            br = self.p.records.get(bare(b))
            if br: out += self.record_fields(br)
        return out + r["fields"]
    def field_default(self, f, st): return list(self.field_default_v(f, st).a)
    def field_default_v(self, f, st):
        k = ("fd", f["id"])
        if k in self._reads: return self._reads[k]
        if f.get("init") is not None:
            s = State()
            s.x = st.x
            cl, self.cl = self.cl, None
            try: rs = self.eval(f["init"], s)
            finally: self.cl = cl
            out = rs[0][0] if rs else V([UNINIT])
        else: out = self.type_default(f["t"])
        self._reads[k] = out
        return out
    def type_default(self, t):
        t = bare(t) if not t.rstrip().endswith("*") else t
        if t.startswith(("std::optional<", "std::unique_ptr<", "std::shared_ptr<", "fastgltf::OptionalWithFlagValue<")): return V([NULL])
        if t.startswith(("std::vector<", "std::basic_string", "fastgltf::SmallVector<", "fastgltf::StaticVector<", "std::pmr::")): return V([('empty',)])
        if t.startswith("std::variant<"):
            first = t[len("std::variant<"):].split(",")[0].strip(" >")
            return V([('alt0', first)])
        if t in self.p.records: return V([('obj', t)])
        return V([UNINIT])
    def drop_locals(self, ids, st):
        if not ids: return
        for k in [k for k in st.store if k[0] in ids or (k[0].__class__ is tuple and len(k[0]) == 2 and k[0][0] in ('it', 'itn', 'pos') and k[0][1] in ids)]: del st.store[k]

    # ---------------------------------------------------------------- joins
    def key(self, st):
        k = []
        if len(self.tkeys) != len(self.tracked): self.tkeys = [(i, ()) for i in sorted(self.tracked, key=repr)]
        get = st.store.get
        for t in self.tkeys:
            v = get(t)
            if v is not None and len(v) == 1:
                (x,) = v
                if x[0] == 'c' or x[0] == 'pos': k.append((t[0], x))
        return (tuple(k), self.cl.key(self, st) if self.cl else None)
    def merge2(self, a, b):
        if a is b: return a
        s = State(); s.x = self.cl.join_x(a.x, b.x) if self.cl else a.x
        store = {}
        ka, kb = a.store, b.store
        if ka == kb: store = ka.copy()
        else:
            for k, v in ka.items():
                w = kb.get(k)
                if w is None:
                    if (k[0], ()) in kb or not isinstance(k[0], int):
                        w = self.read(k, b); v = v | w
                elif w is not v and w != v: v = v | w
                store[k] = capped(v)
            for k, w in kb.items():
                if k not in ka:
                    if (k[0], ()) in ka or not isinstance(k[0], int):
                        w = w | self.read(k, a)
                    store[k] = capped(w)
        s.store = store
        fa, fb = a.facts, b.facts
        if fa == fb: s.facts = fa.copy()
        else:
            for t, c in fa.items():
                d = fb.get(t)
                if d is None: continue
                m = join_con(c, d)
                if m is not None: s.facts[t] = m
        return s
    def join(self, states):
        if len(states) <= 1: return states
        g = {}
        for s in states:
            k = self.key(s)
            g[k] = self.merge2(g[k], s) if k in g else s
        r = list(g.values())
        if len(r) > self.maxstates:
            g = {}
            for s in r:
                k = self.cl.key(self, s) if self.cl else None
                g[k] = self.merge2(g[k], s) if k in g else s
            r = list(g.values())
        return r
    def join_ret(self, rets):
        g = {}
        for v, s in rets:
            # an unknown result known not to be zero stays that way when the facts of the return paths are merged
            if not v.sub and len(v.a) == 1:
                (x,) = v.a
                if x[0] == 'call' and self.decide("==", x, ('c', 0), s) is False: v = V([('nz',)])
            k = (self.key(s), ('nz',) if v.a == NZ else tuple(sorted(map(repr, v.a))) if all(x[0] in ('c', 'null') for x in v.a) else None, None if not v.sub else tuple(sorted((repr(k2), repr(sorted(a2, key=repr))) for k2, a2 in v.sub.items() if k2 in (('.err',),))))
            if k in g: g[k] = (g[k][0].join(v), self.merge2(g[k][1], s))
            else: g[k] = (v, s)
        return list(g.values())

    # ---------------------------------------------------------------- facts
    def kill(self, st, root, pre):
        for t in [t for t in st.facts if mentions(t, root, pre)]: del st.facts[t]
    def assume_in(self, st, term, vals):
        """Restricts term to vals; False when impossible."""
        c = st.facts.get(term)
        if c is None: st.facts[term] = ('in', frozenset(vals)); return True
        if c[0] == 'in': n = c[1] & frozenset(vals)
        else: n = frozenset(vals) - c[1]
        st.facts[term] = ('in', n)
        return bool(n)
    def assume_notin(self, st, term, vals, domain=None):
        c = st.facts.get(term)
        if c is None: n = ('notin', frozenset(vals))
        elif c[0] == 'in': n = ('in', c[1] - frozenset(vals))
        else: n = ('notin', c[1] | frozenset(vals))
        if n[0] == 'notin' and domain is not None and domain <= n[1]: return False
        if n[0] == 'notin' and domain is not None: n = ('in', domain - n[1])
        st.facts[term] = n
        return not (n[0] == 'in' and not n[1])
    def known(self, st, term):
        c = st.facts.get(term)
        return c

    # ---------------------------------------------------------------- positions
    @staticmethod
    def cls(r):  # class -> (lo, hi)
        return {'0': (0, 0), '1': (1, 1), '2': (2, 10 ** 9)}[r]
    def size_classes(self, st, root, path):
        c = st.facts.get(('szc', root, path))
        return set(c[1]) if c else {'0', '1', '2'}
    def pos_begin(self, root, path, tag, st):
        """Forks on the class of the container's size."""
        out = []
        for r in sorted(self.size_classes(st, root, path)):
            s = st.copy()
            s.facts[('szc', root, path)] = ('in', frozenset([r]))
            out.append((('pos', root, path, '0', r, 0, tag), s))
        return out
    def pos_step(self, p, st):
        _, root, path, a, r, c, tag = p
        na = {'0': '1', '1': '2', '2': '2'}[a]
        nr = {'0': [], '1': ['0'], '2': ['1', '2']}[r]
        out = []
        for x in nr:
            s = st.copy(); self.kill(s, root, path + (('[]', tag),))
            out.append((('pos', root, path, na, x, c, tag), s))
            if self.cl is not None: self.cl.on_step(self, p, s)
        return out

    def decide(self, op, a, b, st):
        """Truth of a op b: True, False or None."""
        if self.cl is not None:
            r = self.cl.decide(self, op, a, b, st)
            if r is not None: return r
            r = self.cl.decide(self, SWAP[op], b, a, st)
            if r is not None: return r
        if (a == ('nz',) and b == ('c', 0)) or (b == ('nz',) and a == ('c', 0)):
            return {"==": False, "!=": True}.get(op)
        if (a[0] == 'bits' or b[0] == 'bits') and op in ("==", "!="):
            x, y = bits_of(a), bits_of(b)
            if x is None or y is None: return None
            if x[0] & y[1] or x[1] & y[0]: return op == "!="
            if x[0] | x[1] == BITS and y[0] | y[1] == BITS: return op == "=="
            return None
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                return {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y}[op]()
            except TypeError: return (op == "!=") if op in ("==", "!=") else None
        if a[0] == 'pos' and b[0] in ('sz',) and a[1] == b[1] and a[2] == b[2]: # idx + c op size + d
            lo, hi = self.cls(a[4])  # remaining = size - idx
            return decide_range(op, a[5] - b[3], lo, hi, True)
        if b[0] == 'pos' and a[0] != 'pos': return self.decide(SWAP[op], b, a, st)
        if a[0] == 'iter1' and b[0] == 'sz' and a[1:3] == b[1:3] and b[3] >= 0: return op in ("<", "<=", "!=")
        if b[0] == 'iter1' and a[0] == 'sz': return self.decide(SWAP[op], b, a, st)
        if a[0] == 'iter1' and b[0] == 'iter1' and a[1:] == b[1:]: return op in ("==", "<=", ">=")
        if a[0] == 'pos' and b[0] == 'c' and isinstance(b[1], (int, float)) and not isinstance(b[1], bool):
            lo, hi = self.cls(a[3])
            return decide_range(SWAP[op], b[1] - a[5], lo, hi, True)
        if a[0] == 'pos' and b[0] == 'begin' and a[1:3] == b[1:3]: return self.decide(op, a, ('c', 0), st)
        if b[0] == 'begin' and a[0] == 'sz' and a[1:3] == b[1:3]: return self.decide(op, a, ('c', 0), st)
        if a[0] == 'begin' and b[0] in ('pos', 'sz'): return self.decide(SWAP[op], b, a, st)
        if a[0] == 'pos' and b[0] == 'pos' and a[1:3] == b[1:3] and a[6] == b[6] and a[3:5] == b[3:5]:
            return {"==": a[5] == b[5], "!=": a[5] != b[5], "<": a[5] < b[5], ">": a[5] > b[5], "<=": a[5] <= b[5], ">=": a[5] >= b[5]}[op]
        if b[0] == 'sz' and a[0] == 'c': return self.decide(SWAP[op], b, a, st)
        if a[0] == 'sz' and b[0] == 'c' and isinstance(b[1], int):
            lo, hi = 0, 10 ** 9
            c = st.facts.get(('szc', a[1], a[2]))
            if c:
                rs = [self.cls(x) for x in c[1]]
                lo, hi = min(x[0] for x in rs), max(x[1] for x in rs)
            return decide_range(SWAP[op], b[1] - a[3], lo, hi, True)
        if a[0] == 'sz' and b[0] == 'sz' and a[1:3] == b[1:3]:
            return {"==": a[3] == b[3], "!=": a[3] != b[3], "<": a[3] < b[3], ">": a[3] > b[3], "<=": a[3] <= b[3], ">=": a[3] >= b[3]}[op]
        if a[0] == 'huge' and b[0] in ('c', 'sz'):
            if b[0] == 'c' and not isinstance(b[1], (int, float)): return None
            return {"==": False, "!=": True, "<": False, ">": True, "<=": False, ">=": True}[op]
        if b[0] == 'huge' and a[0] in ('c', 'sz'): return self.decide(SWAP[op], b, a, st)
        if a[0] == 'sz' and b[0] == 'ptr': return self.decide(SWAP[op], b, a, st)
        if a[0] == 'ptr' and b[0] == 'sz' and a[1] == b[1] and a[2][:-1] == b[2] and op in ("==", "!=") and b[3] == 0: return op == "!="
        nn = ('ptr', 'obj', 'lam', 'ctor')
        if op in ("==", "!="):
            if (a[0] in nn and b[0] == 'null') or (b[0] in nn and a[0] == 'null'): return op == "!="
            if a[0] == 'null' and b[0] == 'null': return op == "=="
            if a[0] == 'null' and b[0] == 'c': return op == "!="
            if b[0] == 'null' and a[0] == 'c': return op == "!="
            if a[0] == 'ptr' and b[0] == 'ptr':
                if a[1] == b[1] and a[2] == b[2]: return None if any(isinstance(c, tuple) for c in a[2]) else op == "=="
                for p, q in ((a, b), (b, a)):
                    if p[1] == q[1] and p[2] and q[2] and p[2][:-1] == q[2][:-1] and q[2][-1] in (('[]', 'back'), ('[]', 'front')) and isinstance(p[2][-1], tuple):
                        # the element a loop is at against the first or last one
                        v = st.store.get((('pos', p[2][-1][1]), ()))
                        v = v and v.one() if hasattr(v, "one") else (next(iter(v)) if v and len(v) == 1 else None)
                        if v and v[0] == 'pos' and v[5] == 0: 
                            lo, hi = self.cls(v[4]); d = 1
                            if q[2][-1][1] == 'front': lo, hi = self.cls(v[3]); d = 0
                            return decide_range("==" if op == "==" else "!=", d, lo, hi, True)
                if any(isinstance(c, tuple) for c in a[2] + b[2]): return None
                return op == "!="
        if a == b and a[0] in ('m', 'v', 'call') :
            return op in ("==", "<=", ">=")
        # strings against string constants through a hash
        if a[0] == 'crc' and b[0] == 'c':
            s = self.crc.get(b[1])
            if s is not None: return self.decide(op, a[1], ('c', s), st)
            return None
        if b[0] == 'crc' and a[0] == 'c': return self.decide(SWAP[op], b, a, st)
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if y[0] in ('c', 'null'):
                    yy = y[1] if y[0] == 'c' else None
                    t = self.factkey(x)
                    c = st.facts.get(t)
                    if c:
                        if c[0] == 'in':
                            if yy not in c[1]: return op == "!="
                            if len(c[1]) == 1: return op == "=="
                        elif yy in c[1]: return op == "!="
        t = st.facts.get(('cmp', op, a, b))
        if t: return True in t[1] if len(t[1]) == 1 else None
        t = st.facts.get(('cmp', NEG[op], a, b))
        if t: return (not (True in t[1])) if len(t[1]) == 1 else None
        return None
    def factkey(self, a):
        if a[0] == 'and' : return ('bit', a[1], a[2])
        return a
    def assume(self, op, a, b, val, st, ta=None):
        """Records that (a op b) is val; returns False when contradictory."""
        if not val: op = NEG[op]
        if a[0] in ('c', 'null') and b[0] not in ('c', 'null'): a, b, op = b, a, SWAP[op]
        if a[0] == 'crc' and b[0] == 'c':
            s = self.crc.get(b[1])
            if s is None: return True
            return self.assume(op, a[1], ('c', s), True, st)
        if a[0] == 'sz' and b[0] == 'c' and isinstance(b[1], int):
            cur = self.size_classes(st, a[1], a[2])
            n = {r for r in cur if decide_range(SWAP[op], b[1] - a[3], self.cls(r)[0], self.cls(r)[1], True) is not False}
            st.facts[('szc', a[1], a[2])] = ('in', frozenset(n))
            return bool(n)
        if b[0] in ('c', 'null') and op in ("==", "!="):
            if a[0] in ('c', 'null', 'ptr', 'obj', 'top', 'uninit', 'huge', 'bits'): return True
            y = b[1] if b[0] == 'c' else None
            dom = self.domain(ta) if ta else None
            return self.assume_in(st, a, [y]) if op == "==" else self.assume_notin(st, a, [y], dom)
        if a[0] in ('top', 'uninit') or b[0] in ('top', 'uninit'): return True
        st.facts[('cmp', op, a, b)] = ('in', frozenset([True]))
        return True
    def domain(self, t):
        t = bare(t)
        if t == "bool": return frozenset([True, False])
        e = self.p.enums.get(t)
        if e and not is_flags(e): return frozenset(v for k, v in e.items() if not (self.valid_enums and k == "Invalid"))
        return None

    def truth(self, a, st):
        if self.cl is not None:
            r = self.cl.truth(self, a, st)
            if r is not None: return r
        k = a[0]
        if k == 'c': return bool(a[1]) if a[1] is not None else None
        if k == 'bits': return True if a[1] else False if a[2] == BITS else None
        if k in ('ptr', 'obj', 'lam', 'huge', 'ctor'): return True
        if k == 'null': return False
        if k == 'pos':
            lo, hi = self.cls(a[3]); return None if lo + a[5] <= 0 <= hi + a[5] and not (lo == hi) else lo + a[5] != 0
        if k == 'not':
            r = self.truth(a[1], st); return None if r is None else not r
        if k == 'cmp': return self.decide(a[1], a[2], a[3], st)
        if k == 'has':
            r = self.truth_has(a[1], st)
            return r
        if k == 'sz': return self.decide("!=", a, ('c', 0), st)
        c = st.facts.get(('truth', a))
        if c: return True in c[1] if len(c[1]) == 1 else None
        c = st.facts.get(a)
        if c:
            if c[0] == 'in' and len(c[1]) == 1: return bool(list(c[1])[0])
            if c[0] == 'notin' and (0 in c[1] or False in c[1] or None in c[1]): return True
        return None
    def truth_has(self, a, st):
        if a[0] == 'null': return False
        c = st.facts.get(a)
        if c:
            if c[0] == 'in' and c[1] == frozenset([None]): return False
            if c[0] == 'notin' and None in c[1]: return True
            if c[0] == 'in' and None not in c[1]: return True
        c = st.facts.get(('truth', ('has', a)))
        if c: return True in c[1] if len(c[1]) == 1 else None
        if a[0] in ('m', 'call', 'el', 'alt0', 'top', 'uninit'): return None
        return True
    def assume_truth(self, a, val, st):
        k = a[0]
        if k in ('c', 'ptr', 'null', 'obj', 'top', 'uninit', 'lam', 'huge', 'bits'): return True
        if k == 'not': return self.assume_truth(a[1], not val, st)
        if k == 'cmp': return self.assume(a[1], a[2], a[3], val, st)
        if k == 'sz': return self.assume("!=", a, ('c', 0), val, st)
        if k == 'has':
            if val: st.facts.setdefault(a[1], ('notin', frozenset())); c = st.facts[a[1]]; st.facts[a[1]] = ('notin', c[1] | {None}) if c[0] == 'notin' else ('in', c[1] - {None})
            else: st.facts[a[1]] = ('in', frozenset([None]))
            return True
        st.facts[('truth', a)] = ('in', frozenset([val]))
        if self.cl is not None: self.cl.on_assume(self, a, val, st)
        return True

    # ---------------------------------------------------------------- conditions
    def cond(self, n, st):
        """[(bool, state)]"""
        k = n["k"]
        if k == "UnaryOperator" and n["op"] == "!":
            return [(not b, s) for b, s in self.cond(n["c"][0], st)]
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            out = []
            for b, s in self.cond(n["c"][0], st):
                if b == (n["op"] == "||"): out.append((b, s))
                else: out += self.cond(n["c"][1], s)
            return out
        if k == "ImplicitCastExpr" or k in ("CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr"):
            if n.get("ck") in ("IntegralToBoolean", "PointerToBoolean", "IntegralCast", "NoOp", "FloatingToBoolean"): return self.cond(n["c"][0], st)
        if k == "CallExpr" and n.get("q") in ("__builtin_expect",): return self.cond(n["c"][0], st)
        if k == "CXXRewrittenBinaryOperator" and n.get("c"): return self.cond(n["c"][0], st)
        if (k == "BinaryOperator" or k == "CXXOperatorCallExpr") and n.get("op") in CMP:
            if k == "CXXOperatorCallExpr" and self.cl is not None:
                r = self.cl.on_call(self, n, n.get("q", ""), st)
                if r is not None: return self.cond_of_values(n, r)
            if k == "CXXOperatorCallExpr" and (n.get("q") or "").startswith("fastgltf::math::"): return self.cond_of_values(n, self.eval(n, st))
            return self.compare(n, st)
        return self.cond_of_values(n, self.eval(n, st))
    def cond_of_values(self, n, vals):
        out = []
        for v, s in vals:
            loc = self.simple_loc(n, s)
            t, f, unk = [], [], []
            for a in v.a:
                r = self.truth(a, s)
                (t if r is True else f if r is False else unk).append(a)
            for val, sure in ((True, t), (False, f)):
                if not sure and not unk: continue
                q = s.copy()
                if len(unk) == 1 and not sure:
                    if not self.assume_truth(unk[0], val, q): continue
                if loc is not None and len(v.a) > 1 and (loc in q.store): q.store[loc] = frozenset(sure + unk)
                if loc is not None and loc[0] in self.tracked and len(v.a) == 1 and unk and self.tracked[loc[0]] == 'bool': q.store[loc] = frozenset([('c', val)])
                out.append((val, q))
        return out
    def simple_loc(self, n, st):
        """Location of a plain variable/member expression without side effects, else None."""
        while n["k"] in ("ImplicitCastExpr",) or (n["k"] in ("CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.get("ck") in ("NoOp", "IntegralCast")): n = n["c"][0]
        if n["k"] == "DeclRefExpr" and n["dk"] in ("Var", "ParmVar", "Binding"):
            r = self.lval(n, st)
            return r[0][0] if len(r) == 1 else None
        if n["k"] == "MemberExpr":
            b = n["c"][0] if n.get("c") else None
            x = b
            while x is not None and x["k"] == "MemberExpr": x = x["c"][0] if x.get("c") else None
            if x is None or x["k"] in ("DeclRefExpr", "CXXThisExpr"):
                try: r = self.lval(n, st)
                except Exception: return None
                return r[0][0] if len(r) == 1 else None
        return None
    def compare(self, n, st):
        op = n["op"]
        out = []
        L, R = n["c"][0], n["c"][1]
        for va, s1 in self.eval(L, st):
            for vb, s in self.eval(R, s1):
                out += self.compare_vals(op, va, vb, s, self.simple_loc(L, s), self.simple_loc(R, s), etype(L), etype(R))
        return out
    def compare_vals(self, op, va, vb, s, la=None, lb=None, ta=None, tb=None):
        out = []
        pairs = [(a, b, self.decide(op, a, b, s)) for a in va.a for b in vb.a]
        for val in (True, False):
            ok = [(a, b) for a, b, r in pairs if r is None or r is val]
            if not ok: continue
            q = s.copy()
            if len(ok) == 1 and len(pairs) == 1 and pairs[0][2] is None:
                if not self.assume(op, pairs[0][0], pairs[0][1], val, q, ta if pairs[0][1][0] in ('c', 'null') else tb): continue
            elif len(vb.a) == 1 and len(ok) >= 1:
                # a single unknown alternative
                pass
            for loc, idx, full in ((la, 0, va), (lb, 1, vb)):
                if loc is not None and loc in q.store and len(full.a) > 1:
                    keep = frozenset(o[idx] for o in ok)
                    if keep != full.a: q.store[loc] = keep
            out.append((val, q))
        return out

    # ---------------------------------------------------------------- lvalues
    def lval(self, n, st):
        """[(loc, state)]"""
        k = n["k"]
        if k == "DeclRefExpr":
            if n["dk"] == "EnumConstant":
                t = (('tmp', id(n)), ())
                st.store[t] = frozenset([('c', int(n["ev"]))])
                return [(t, st)]
            if n["dk"] in ("Function", "CXXMethod"): return [((('fn', n.get("q")), ()), st)]
            i = n["id"]
            v = st.store.get((i, ('&',)))
            if v is not None:
                return [((a[1], a[2]), st) for a in v if a[0] == 'ptr'] or [((('deref', ('top',)), ()), st)]
            if n.get("q") and (i, ()) not in st.store and n["dk"] != "ParmVar" and i in self.p.globals:
                return [((('g', n["q"]), ()), st)]
            return [((i, ()), st)]
        if k == "MemberExpr":
            if not n.get("c"): return [((('g', n["q"]), ()), st)]
            base = n["c"][0]
            if n.get("dk") == "Var": return [((('g', n["q"]), ()), st)]
            out = []
            if n.get("arrow"):
                for v, s in self.eval(base, st):
                    out += [((l[0], l[1] + (n["n"],)), s) for l in self.deref(v, s)]
                return self.dedup(out)
            for l, s in self.lval(base, st): out.append(((l[0], l[1] + (n["n"],)), s))
            return out
        if k == "CXXThisExpr": return [(self.this, st)]
        if k == "UnaryOperator" and n["op"] == "*":
            out = []
            for v, s in self.eval(n["c"][0], st): out += [(l, s) for l in self.deref(v, s)]
            return self.dedup(out)
        if k == "UnaryOperator" and n["op"] in ("++", "--") and not n.get("post"):
            out = []
            for v, s in self.eval(n, st): out += self.lval(n["c"][0], s)
            return out
        if k == "ArraySubscriptExpr":
            out = []
            for i, s0 in self.eval(n["c"][1], st):
                for v, s in self.eval(n["c"][0], s0):
                    for l in self.deref(v, s):
                        if self.cl is not None and self.cl.ptrindex and n["c"][0].get("ck") != "ArrayToPointerDecay":
                            l2 = self.offset(l, i)
                            if l2 is not None: out.append((l2, s)); continue
                        out += self.index(l, i, s, n)
            return out
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr") and n.get("c"):
            return self.lval(n["c"][0], st)
        if k == "BinaryOperator" and n["op"] in ("=",):
            out = []
            for v, s in self.eval(n, st): out += self.lval(n["c"][0], s)
            return out
        if k == "CompoundAssignOperator":
            out = []
            for v, s in self.eval(n, st): out += self.lval(n["c"][0], s)
            return out
        if k == "ConditionalOperator":
            out = []
            for b, s in self.cond(n["c"][0], st): out += self.lval(n["c"][1 if b else 2], s)
            return out
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            out = []
            for v, s in self.call(n, st, want_loc=True):
                if isinstance(v, V):
                    t = (('tmp', id(n)), ())

                    self.clear(t, s)
                    s.store[t] = v.a
                    for kk, a in (v.sub or {}).items(): s.store[(t[0], kk)] = a
                    out.append((t, s))
                else: out.append((v, s))
            return out
        out = []
        for v, s in self.eval(n, st):
            t = (('tmp', id(n)), ())
            self.clear(t, s)
            s.store[t] = v.a
            for kk, a in (v.sub or {}).items(): s.store[(t[0], kk)] = a
            out.append((t, s))
        return out
    def dedup(self, l):
        seen = set(); out = []
        for x, s in l:
            k = (x, id(s))
            if k not in seen: seen.add(k); out.append((x, s))
        return out
    def deref(self, v, st):
        out = []
        for a in v.a:
            if a[0] == 'ptr': out.append((a[1], a[2]))
            elif a[0] == 'pos': out.append((a[1], a[2] + (('[]', a[6]),)))
            elif a[0] == 'iter1': out.append((a[1], a[2] + (('[]', a[3]),)))
            elif a[0] == 'mptr': out.append((a[1], a[2]))
            elif a[0] in ('begin', 'iter'): out.append((a[1], a[2] + (('[]', 'it'),)))
            elif a[0] in ('null', 'uninit'): continue
            elif a[0] == 'sz': out.append((a[1], a[2] + ('[end]',)))
            elif a[0] == 'm': out.append((('deref', a), ()))
            else: out.append((('deref', a), ()))
        return out
    def offset(self, l, i):
        """Location i elements after the element l of an array (i constant), or None."""
        c = i.one()
        if c is None or c[0] != 'c' or not isinstance(c[1], int) or not l[1]: return None
        m = l[1][-1]
        if m == ('[]', 'data'): return (l[0], l[1][:-1] + ('[%d]' % c[1],))
        if isinstance(m, str) and m[0] == '[' and m[1:-1].isdigit(): return (l[0], l[1][:-1] + ('[%d]' % (int(m[1:-1]) + c[1]),))
        return None
    def index(self, l, i, s, n):
        if self.cl is not None: self.cl.on_index(self, l, i, s, n)
        c = i.one()
        if c is not None and c[0] == 'c' and isinstance(c[1], int): return [((l[0], l[1] + ('[%d]' % c[1],)), s)]
        if c is not None and c[0] == 'pos':
            return [((l[0], l[1] + (('[]', c[6]),)), s)]
        if c is not None and c[0] == 'iter1' and c[1:3] == l: return [((l[0], l[1] + (('[]', c[3]),)), s)]
        return [((l[0], l[1] + (('[]', tuple(sorted(map(repr, i.a)))[:1] if len(i.a) == 1 else '*'),)), s)]

    # ---------------------------------------------------------------- expressions
    def eval(self, n, st):
        """[(V, state)]"""
        self.steps += 1
        if self.steps > self.budget: raise BudgetExceeded()
        if n is None: return [(VVOID, st)]
        k = n["k"]
        if "cv" in n and k not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "BinaryOperator", "ConditionalOperator", "UnaryOperator"):
            if not (k == "ImplicitCastExpr" and n["t"] == "bool"):
                x = int(n["cv"])
                if n.get("t") == "bool": x = bool(x)
                return [(C(x), st)]
        m = getattr(self, "e_" + k, None)
        if m is not None: return m(n, st)
        if k in ("IntegerLiteral",): return [(C(int(n["v"])), st)]
        if k in ("CharacterLiteral",): return [(C(n["v"]), st)]
        if k in ("FloatingLiteral", "CXXBoolLiteralExpr", "StringLiteral"): return [(C(n["v"]), st)]
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"): return [(V([NULL]), st)]
        if k in ("CXXThisExpr",): return [(V([('ptr',) + self.this]), st)]
        # unknown node: evaluate the children for their effects
        outs = [(VTOP, st)]
        for c in n.get("c", []):
            nx = []
            for _, s in outs: nx += [(VTOP, s2) for _, s2 in self.eval(c, s)]
            outs = nx
        return outs
    def e_DeclRefExpr(self, n, st):
        if n["dk"] in ("Function", "CXXMethod"): return [(V([('fnptr', n.get("q"), n["id"])]), st)]
        if "sv" in n: return [(C(n["sv"]), st)]
        if n["dk"] == "EnumConstant": return [(C(int(n["ev"])), st)]
        if "nullopt_t" in n.get("t", ""): return [(V([NULL]), st)]
        out = []
        for l, s in self.lval(n, st):
            if l[0].__class__ is tuple and l[0][0] == 'g' and l[1] == () and l not in s.store:
                g = self.p.globals.get(n["id"])
                if g and g.get("const") and g.get("init") and g["t"].split("<")[0].replace("const ", "") not in ("std::array",):
                    r = self.eval(g["init"], s)
                    if len(r) == 1 and all(a[0] in ('c', 'ctor') for a in r[0][0].a): out += r; continue
            out.append((self.load(l, s), s))
        return out
    def e_MemberExpr(self, n, st):
        if n.get("dk") in ("CXXMethod",): return [(VTOP, st)]
        if n.get("dk") == "EnumConstant" and "cv" in n: return [(C(int(n["cv"])), st)]
        return [(self.load(l, s), s) for l, s in self.lval(n, st)]
    def e_ArraySubscriptExpr(self, n, st): return [(self.load(l, s), s) for l, s in self.lval(n, st)]
    def e_ImplicitCastExpr(self, n, st):
        if n["t"] == "bool":
            return [(C(b), s) for b, s in self.cond(n["c"][0], st)] if n.get("ck") != "IntegralToBoolean" or True else []
        return self.narrow(n["t"], self.eval(n["c"][0], st)) if n.get("ck") == "IntegralCast" else self.eval(n["c"][0], st)
    def narrow(self, t, r):
        """Conversion to a narrower integer type: constants wrap, a number of unknown size becomes another number."""
        w = NARROW.get(bare(t))
        if w is None: return r
        out = []
        for v, s in r:
            at = set()
            for a in v.a:
                if a[0] == 'c' and isinstance(a[1], int) and not isinstance(a[1], bool):
                    x = a[1] & ((1 << w[0]) - 1)
                    if w[1] and x >> (w[0] - 1): x -= 1 << w[0]
                    at.add(('c', x))
                elif a[0] in ('big', 'hidx'): at.add(('op', 'narrow', a))
                else: at.add(a)
            out.append((v if at == v.a else V(at, v.sub), s))
        return out
    def e_cast(self, n, st):
        if n["t"] == "bool" and n.get("ck") in ("IntegralToBoolean", "PointerToBoolean"): return [(C(b), s) for b, s in self.cond(n["c"][0], st)]
        r = self.eval(n["c"][0], st)
        if self.cl is not None:
            for v, s in r: self.cl.on_cast(self, n, v, s)
        return self.narrow(n["t"], r)
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_cast
    def e_ImplicitValueInitExpr(self, n, st):
        t = n["t"]
        return [(self.zeroed(t), st)]
    def zeroed(self, t):
        return V([zero_atom(x, t) for x in self.type_default(t).a])
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_UnaryOperator(self, n, st):
        op = n["op"]
        if op == "!":
            return [(C(b), s) for b, s in self.cond(n, st)]
        if op == "&":
            return [(V([('ptr', l[0], l[1])]), s) for l, s in self.lval(n["c"][0], st)]
        if op == "*":
            return [(self.load(l, s), s) for l, s in self.lval(n, st)]
        if op in ("++", "--"):
            out = []
            for l, s in self.lval(n["c"][0], st):
                v = self.load(l, s)
                for nv, s2 in self.step(v, 1 if op == "++" else -1, s):
                    self.write(l, nv, s2, n)
                    out.append((v if n.get("post") else nv, s2))
            return out
        out = []
        for v, s in self.eval(n["c"][0], st):
            r = []
            for a in v.a:
                if a[0] == 'c' and isinstance(a[1], (int, float)):
                    r.append(('c', {"-": lambda x: -x, "~": lambda x: ~x, "+": lambda x: x}[op](a[1])) if op in "-~+" else TOP)
                elif a[0] == 'bits' and op == "~": r.append(('bits', a[2], a[1]))
                else: r.append(self.opatom(op, a))
            out.append((V(r), s))
        return out
    def step(self, v, d, st):
        a = v.one()
        if a is not None and a[0] == 'pos' and d == 1 and a[5] == 0:
            return [(V([p]), s) for p, s in self.pos_step(a, st)]
        if self.cl is not None and self.cl.steps:
            r = self.cl.on_binop(self, "+", v, C(d), st, None)
            if r is not None: return [(r, st)]
        return [(self.arith("+", v, C(d), st), st)]
    def opatom(self, op, *a):
        r = ('op', op) + a
        return r if depth(r) < 9 else TOP
    def arith(self, op, va, vb, st):
        out = set()
        for a in va.a:
            for b in vb.a: out.add(self.arith1(op, a, b, st))
        if len(out) > 6 and all(x[0] == 'c' for x in out): out = {('op', 'num')}
        return V(capped(frozenset(out)))
    def arith1(self, op, a, b, st):
        if op in ("|", "&", "^") and (a[0] == 'bits' or b[0] == 'bits' or (op == "|" and self.cl is not None and self.cl.flagbits)):
            x, y = bits_of(a), bits_of(b)
            if x is not None and y is not None:
                if op == "|": return bits(x[0] | y[0], x[1] & y[1])
                if op == "&": return bits(x[0] & y[0], x[1] | y[1])
                return bits((x[0] & y[1]) | (x[1] & y[0]), (x[0] & y[0]) | (x[1] & y[1]))
            if op == "|" and (x or y): return bits((x or y)[0], 0)
            if op == "&" and (x or y): return bits(0, (x or y)[1])
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if op == "+": return ('c', x + y)
                if op == "-": return ('c', x - y)
                if op == "*": return ('c', x * y)
                if op == "/": return ('c', x // y if isinstance(x, int) and isinstance(y, int) else x / y)
                if op == "%": return ('c', x % y)
                if op == "&": return ('c', x & y)
                if op == "|": return ('c', x | y)
                if op == "^": return ('c', x ^ y)
                if op == "<<": return ('c', x << y)
                if op == ">>": return ('c', x >> y)
            except Exception: return TOP
        if a == ('op', 'num') and b[0] == 'c' or b == ('op', 'num') and a[0] == 'c': return ('op', 'num')
        if op in ("+", "-") and a[0] in ('begin', 'iter') and b[0] == 'c': return ('iter', a[1], a[2])
        if op in ("+", "-") and b[0] == 'c' and isinstance(b[1], int):
            d = b[1] if op == "+" else -b[1]
            if a[0] == 'pos': return a[:5] + (a[5] + d,) + a[6:]
            if a[0] == 'sz': return a[:3] + (a[3] + d,)
            if d == 0: return a
            if a[0] == 'huge': return a
        if op == "+" and a[0] == 'c' and b[0] in ('pos', 'sz', 'huge'): return self.arith1(op, b, a, st)
        if op == "-" and a[0] == 'pos' and b[0] == 'pos' and a[1:3] == b[1:3]:
            if b[3] == '0': return a[:5] + (a[5] - b[5],) + a[6:]   # it - begin
        if op == "-" and a[0] == 'pos' and b[0] == 'begin' and a[1:3] == b[1:3]: return a
        if op == "-" and a[0] == 'sz' and b[0] == 'begin' and a[1:3] == b[1:3]: return a
        if op == "-" and a[0] == 'begin' and b[0] == 'begin': return ('c', 0)
        if op in ("|", "&", "^") and (a[0] == 'huge' or b[0] == 'huge'): return TOP
        if op == "&":
            if b[0] == 'c': return ('and', a, b[1])
            if a[0] == 'c': return ('and', b, a[1])
        if 'huge' in (a[0], b[0]) and op in ("*", "/"): return a if a[0] == 'huge' else b
        return self.opatom(op, a, b)
    def e_BinaryOperator(self, n, st):
        op = n["op"]
        if op == "=":
            out = []
            for v, s0 in self.eval(n["c"][1], st):
                for l, s in self.lval(n["c"][0], s0):
                    self.assign(l, v, s, n)
                    out.append((v, s))
            return out
        if op in ("&&", "||") or op in CMP:
            return [(C(b), s) for b, s in self.cond(n, st)]
        if op == ",":
            out = []
            for _, s in self.eval(n["c"][0], st): out += self.eval(n["c"][1], s)
            return out
        if "cv" in n: return [(C(int(n["cv"])), st)]
        out = []
        for a, s0 in self.eval(n["c"][0], st):
            for b, s in self.eval(n["c"][1], s0):
                r = None
                if self.cl is not None: r = self.cl.on_binop(self, op, a, b, s, n)
                out.append((r if r is not None else self.arith(op, a, b, s), s))
        return out
    def assign(self, l, v, s, n):
        self.write(l, v, s, n)
        root = l[0]
        if isinstance(root, int) and l[1] == ():
            pass
    def e_CompoundAssignOperator(self, n, st):
        out = []
        for b, s0 in self.eval(n["c"][1], st):
            for l, s in self.lval(n["c"][0], s0):
                a = self.load(l, s)
                r = self.cl.on_binop(self, n["op"][:-1], a, b, s, n) if self.cl is not None else None
                if r is None: r = self.arith(n["op"][:-1], a, b, s)
                self.write(l, r, s, n)
                out.append((r, s))
        return out
    def e_ConditionalOperator(self, n, st):
        out = []
        for b, s in self.cond(n["c"][0], st): out += self.eval(n["c"][1 if b else 2], s)
        return out
    def e_CXXDefaultArgExpr(self, n, st): return [(VTOP, st)]
    def e_UnaryExprOrTypeTraitExpr(self, n, st): return [(V([('sizeof', n.get("arg"))]), st)]
    def e_LambdaExpr(self, n, st):
        caps = []
        for c in n.get("caps", []):
            if "init" in c and c["init"] is not None:
                # init capture: bind once, by location when the captured name is a reference
                r = None
                try: r = self.lval(c["init"], st)
                except Exception: pass
                if r and len(r) == 1:
                    st = r[0][1]
                    st.store[(c["id"], ('&',))] = frozenset([('ptr',) + r[0][0]])
                    st.store[(c["id"], ())] = frozenset()
        return [(V([('lam', tuple(n["ops"]))]), st)]
    def e_InitListExpr(self, n, st):
        t = bare(n.get("t", ""))
        outs = [({}, st)]
        fields = n.get("fields")
        kids = n.get("c", [])
        if not kids:
            v = self.zeroed(t)
            if v.a == frozenset([UNINIT]) and fields: v = V([('obj', t, 'z')])
            return [(v, st)]
        if fields is None and len(kids) == 1 and not t.endswith("]") and not t.startswith("std::initializer_list"):
            return self.eval(kids[0], st)
        for i, c in enumerate(kids):
            nx = []
            name = None
            if fields is not None and i < len(fields): name = fields[i].split("::")[-1]
            else: name = '[%d]' % i
            for sub, s in outs:
                for v, s2 in self.eval(c, s):
                    d = dict(sub)
                    if name == "": # base class: flatten
                        if any(a[0] == 'lam' for a in v.a): d['lam'] = d.get('lam', frozenset()) | v.a
                        for k, a in (v.sub or {}).items(): d[k] = a
                    else:
                        d[(name,)] = v.a
                        for k, a in (v.sub or {}).items(): d[(name,) + k] = a
                    nx.append((d, s2))
            outs = nx
        return [(V(d.pop('lam')) if 'lam' in d else V([('obj', t, 'z')], d), s) for d, s in outs]
    def e_CXXConstructExpr(self, n, st):
        t = bare(n["t"])
        kids = n.get("c", [])
        if self.cl is not None:
            r = self.cl.on_call(self, n, n["q"] + "::" + n["q"].split("::")[-1], st)
            if r is not None: return r
        if n.get("ck") in ("copy", "move") and kids:
            f = self.p.by_id.get(n.get("id"))
            return self.eval(kids[0], st)
        f = self.p.by_id.get(n.get("id"))
        if t.startswith("fastgltf::Expected<"):
            out = []
            for v, s in self.eval(kids[0], st) if kids else [(VTOP, st)]:
                if kids and bare(etype(kids[0])) == "fastgltf::Error": out.append((V([('obj', t)], {('.err',): v.a, ('.val',): frozenset([('empty',)])}), s))
                else:
                    sub = {('.err',): frozenset([('c', 0)]), ('.val',): v.a}
                    for k, a in (v.sub or {}).items(): sub[('.val',) + k] = a
                    out.append((V([('obj', t)], sub), s))
            return out
        if t.startswith("std::variant<") and kids:
            alt = bare(etype(kids[0]))
            out = []
            for v, s in self.eval(kids[0], st):
                if alt.startswith("std::variant<"): out.append((v, s)); continue
                sub = {('<%s>' % alt,): v.a}
                for k, a in (v.sub or {}).items(): sub[('<%s>' % alt,) + k] = a
                out.append((V([('alt', alt)], sub), s))
            return out
        if f is not None and f.get("body") and not self.wrapper_type(t) and self.can_inline(f):
            return self.construct(f, n, t, kids, st)
        args = self.args(kids, st)
        out = []
        k0 = n["k"]
        dim = re.fullmatch(r"fastgltf::math::(?:vec<[^,<>]*, (\d)>|quat<[^,<>]*>)", t)
        for vs, s in args:
            if dim and vs:
                N = int(dim.group(1) or 4)
                comps = None
                if len(vs) == N: comps = [v.a for v in vs]
                elif len(vs) == 1:
                    at = bare(etype(kids[0]))
                    if at.startswith("std::initializer_list") or at.endswith("]"): comps = [vs[0].sub.get(('[%d]' % i,)) for i in range(N)] if vs[0].sub else None
                    elif at in ARITH: comps = [vs[0].a] * N
                if comps and all(c is not None for c in comps):
                    out.append((V([self.callatom('ctor', t, vs)], {('[%d]' % i,): c for i, c in enumerate(comps)}), s)); continue
            if dim and not vs:
                out.append((V([('ctor', t, ())], {('[%d]' % i,): frozenset([('c', 0 if i < 3 or t.startswith("fastgltf::math::vec") else 1)]) for i in range(int(dim.group(1) or 4))}), s)); continue
            if len(vs) == 2 and t.startswith("std::pair<"):
                sub = {}
                for nm, v in zip(("first", "second"), vs):
                    sub[(nm,)] = v.a
                    for k, a in (v.sub or {}).items(): sub[(nm,) + k] = a
                out.append((V([('obj', t)], sub), s)); continue
            if not vs:
                v = self.type_default(t)
                if v.a == frozenset([UNINIT]): v = V([('ctor', t, ())])
                elif k0 == "CXXTemporaryObjectExpr" or n.get("list"): v = V([zero_atom(x, t) for x in v.a])
                out.append((v, s))
            elif self.passthrough(t) : out.append((vs[0], s))
            else: out.append((V([self.callatom('ctor', t, vs)]), s))
        return out
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def callatom(self, kind, q, vs, site=None):
        a = tuple(v.one() or ('any',) + tuple(sorted(v.a, key=repr))[:4] for v in vs)
        r = (kind, q, a) if site is None else (kind, q, a, site)
        if depth(r) > (16 if q.startswith("std::filesystem::") else 8): r = (kind, q, (TOP,)) if site is None else (kind, q, (TOP,), site)
        return r
    def passthrough(self, t):
        return t.startswith(("std::basic_string", "std::optional<", "std::unique_ptr<", "std::shared_ptr<", "std::filesystem::path", "std::vector<", "fastgltf::OptionalWithFlagValue<",
                             "__gnu_cxx::__normal_iterator", "fastgltf::span<", "std::move_iterator", "simdjson::", "fastgltf::StaticVector<", "std::pair<", "std::reference_wrapper"))
    def wrapper_type(self, t):
        return t.startswith(("fastgltf::OptionalWithFlagValue<", "fastgltf::SmallVector<", "fastgltf::StaticVector<", "fastgltf::span<", "fastgltf::Expected<", "fastgltf::math::", "fastgltf::URI", "fastgltf::AccessorBoundsArray"))
    def args(self, kids, st):
        outs = [([], st)]
        for c in kids:
            nx = []
            for vs, s in outs:
                for v, s2 in self.eval(c, s): nx.append((vs + [v], s2))
            outs = nx
        return outs
    def e_CXXNewExpr(self, n, st):
        r = self.cl.on_new(self, n, st) if self.cl is not None else None
        if r is not None: return r
        return [(V([('new', n.get("at"), n["l"])]), st)]
    def e_CXXBindTemporaryExpr(self, n, st): return self.eval(n["c"][0], st)

    # ---------------------------------------------------------------- calls
    def e_CallExpr(self, n, st):
        out = []
        for v, s in self.call(n, st):
            out.append((v if isinstance(v, V) else self.load(v, s), s))
        return out
    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr

    def call(self, n, st, want_loc=False):
        """[(V or loc, state)]: a location when the call returns a reference the analysis knows."""
        q = n.get("q", "")
        if self.cl is not None:
            r = self.cl.on_call(self, n, q, st)
            if r is not None: return r
        from builtins_ import builtin
        r = builtin(self, n, q, st)
        if r is not None: return r
        if n.get("noreturn") or q == "__builtin_unreachable": return []
        f = self.p.by_id.get(n.get("id"))
        kids = n.get("c", [])
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()" and kids:
            # lambda or function object
            out = []
            for fv, s in self.eval(kids[0], st):
                ops = [a for a in fv.a if a[0] == 'lam']
                if ops and f is not None and f.get("body") and self.can_inline(f): out += self.inline(f, n, None, kids[1:], s)
                elif f is not None and f.get("body") and self.can_inline(f): out += self.inline(f, n, None, kids[1:], s)
                else:
                    for vs, s2 in self.args(kids[1:], s): out.append((V([self.callatom('call', self.fname(kids[0], fv), vs, n["l"])]), s2))
            return out
        if f is not None and f.get("body") and self.can_inline(f):
            if n["k"] == "CXXMemberCallExpr" or (n["k"] == "CXXOperatorCallExpr" and f.get("rec") and not f.get("static")):
                return self.inline(f, n, kids[0], kids[1:], st)
            return self.inline(f, n, None, kids, st)
        if not n.get("q"):  # indirect
            fn = n.get("fn")
            out = []
            if fn is not None and len(kids) == 1 and self.fname(fn, VTOP) == "crcStringFunction":
                return [(V([('c', crc32c(a[1])) if a[0] == 'c' and isinstance(a[1], str) else ('crc', a) for a in v.a]), s) for v, s in self.eval(kids[0], st)]
            for fv, s in (self.eval(fn, st) if fn else [(VTOP, st)]):
                a = fv.one()
                if a is not None and a[0] == 'fnptr' and a[2] in self.p.by_id and self.can_inline(self.p.by_id[a[2]]):
                    out += self.inline(self.p.by_id[a[2]], n, None, kids, s); continue
                for vs, s2 in self.args(kids, s):
                    at = self.callatom('call', self.fname(fn, fv), vs, n["l"])
                    self.refresh(at, s2)
                    out.append((V([at]), s2))
            return out
        out = []
        for vs, s in self.args(kids, st):
            at = self.callatom('call', q, vs, n["l"])
            self.refresh(at, s)
            out.append((V([at]), s))
        return out
    def fname(self, fn, fv):
        while fn is not None and fn.get("c") and fn["k"] not in ("MemberExpr", "DeclRefExpr"): fn = fn["c"][0]
        if fn is not None and "n" in fn: return fn["n"]
        return "?"
    def refresh(self, at, s):
        for t in [t for t in s.facts if has_atom(t, at)]: del s.facts[t]
    def can_inline(self, f):
        if self.depth >= self.MAXDEPTH or f["id"] in self.stack: return False
        if f["id"] in self.sizeless: return True
        if f.get("rec") and self.wrapper_type(f["rec"] + "<"): return False
        if f.get("rect") and self.wrapper_type(f["rect"]): return False
        if self.cl is not None and not self.cl.may_inline(self, f): return False
        return True
    def bind_params(self, f, kids, st):
        """Evaluates arguments and binds them; [(state)]"""
        outs = [([], st)]
        for p, c in zip(f["params"], kids):
            nx = []
            for bs, s in outs:
                if is_ref(p["t"]):
                    for l, s2 in self.lval(c, s): nx.append((bs + [(p, 'ref', l)], s2))
                else:
                    for v, s2 in self.eval(c, s): nx.append((bs + [(p, 'val', v)], s2))
            outs = nx
        res = []
        for bs, s in outs:
            s = s.copy()
            for p, kind, x in bs: self.clear((p["id"], ()), s)
            for p, kind, x in bs:
                if kind == 'ref':
                    s.store[(p["id"], ('&',))] = frozenset([('ptr', x[0], x[1])])
                    s.store[(p["id"], ())] = frozenset()
                else:
                    s.store[(p["id"], ())] = x.a
                    for k, a in (x.sub or {}).items(): s.store[(p["id"], k)] = a
                    self.track(p["id"], p["t"])
            res.append(s)
        return res
    def track(self, i, t):
        t = bare(t) if not t.endswith("*") else t
        if t in SCALARS or t in self.p.enums: self.tracked[i] = t
        elif self.positions: self.tracked[i] = t
    def inline(self, f, n, obj, kids, st):
        out = []
        rt = f["ret"]
        objs = [(self.this, st)]
        if obj is not None:
            if n.get("arrow"):
                objs = []
                for v, s in self.eval(obj, st): objs += [(l, s) for l in self.deref(v, s)]
            elif obj["k"] == "CXXThisExpr": objs = [(self.this, st)]
            else: objs = self.lval(obj, st)
        self.inlined[f["q"]] = self.inlined.get(f["q"], 0) + 1
        for o, s0 in objs:
            for s in self.bind_params(f, kids, s0):
                rets = self.run(f, s, this=o)
                for v, s2 in rets: out.append((v, s2))
        return out
    def run(self, f, st, this=None):
        """Executes the body of f from state st: [(V or loc, state)]"""
        self.depth += 1; self.stack.append(f["id"])
        old = self.this
        if this is not None: self.this = this
        oldret = getattr(self, "retref", False)
        self.retref = is_ref(f["ret"])
        try:
            if self.cl is not None: self.cl.on_enter(self, f, st)
            o = self.exec(f["body"], [st])
            rets = list(o.ret) + [(VVOID, s) for s in o.next]
            ids = self.locals_of(f)
            res = []
            for v, s in rets:
                s = s.copy() if False else s
                self.drop_locals(ids, s)
                res.append((v, s))
            if self.retref: return [r for r in res if not isinstance(r[0], V) or True]
            vals = self.join_ret(res)
            return vals
        finally:
            self.this = old; self.depth -= 1; self.stack.pop(); self.retref = oldret
    def locals_of(self, f):
        k = ("locals", f["id"])
        if k not in self._reads:
            ids = {p["id"] for p in f["params"]}
            from tree import walk
            for x in walk(f["body"]):
                if x["k"] in ("Var", "Decomposition") and "id" in x and not x.get("static"):
                    ids.add(x["id"])
                    for b in x.get("bind", []): ids.add(b["id"]); ids.add(b.get("hid"))
            self._reads[k] = ids
        return self._reads[k]
    def construct(self, f, n, t, kids, st):
        out = []
        tmp = (('new', id(n)), ())
        for s in self.bind_params(f, kids, st):
            self.clear(tmp, s)
            s.store[tmp] = frozenset([('obj', t)])
            states = [s]
            old = self.this; self.this = tmp
            self.depth += 1; self.stack.append(f["id"])
            oldret = getattr(self, "retref", False); self.retref = False
            try:
                deleg = False
                for i in f.get("inits", []):
                    if not i.get("e"): continue
                    nx = []
                    for s1 in states:
                        for v, s2 in self.eval(i["e"], s1):
                            if i.get("n"):
                                self.write((tmp[0], (i["n"],)), v, s2, i["e"])
                            elif i.get("deleg") or i.get("base"):
                                for k2, a in (v.sub or {}).items(): s2.store[(tmp[0], k2)] = a
                            nx.append(s2)
                    states = self.join(nx)
                o = self.exec(f["body"], states)
            finally:
                self.this = old; self.depth -= 1; self.stack.pop(); self.retref = oldret
            for s2 in self.join(o.next + [x for _, x in o.ret]):
                v = self.load(tmp, s2)
                self.clear(tmp, s2)
                self.drop_locals(self.locals_of(f), s2)
                out.append((v, s2))
        return out

    # ---------------------------------------------------------------- statements
    def exec(self, n, states):
        o = Out()
        if n is None or not states: o.next = list(states); return o
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is not None: return m(n, states)
        for s in states:   # expression statement
            o.next += [s2 for _, s2 in self.eval(n, s)]
        o.next = self.join(o.next)
        return o
    def s_NullStmt(self, n, states):
        o = Out(); o.next = states; return o
    def s_CompoundStmt(self, n, states):
        o = Out()
        cur = self.join(states)
        ids = set()
        for c in n.get("c", []):
            if not cur: break
            r = self.exec(c, cur)
            o.brk += r.brk; o.cont += r.cont; o.ret += r.ret
            cur = self.join(r.next)
            if c["k"] == "DeclStmt": self.decl_ids(c, ids)
        for s in cur: self.drop_locals(ids, s)
        if ids:
            for s in o.brk + o.cont: self.drop_locals(ids, s)
            # returned values may be locations of locals: keep those stores
        o.next = self.join(cur)
        o.brk = self.join(o.brk); o.cont = self.join(o.cont)
        o.ret = self.join_rets(o.ret)
        return o
    def join_rets(self, rets):
        if len(rets) <= 1: return rets
        if any(not isinstance(v, V) for v, _ in rets): return rets
        return self.join_ret(rets)
    def decl_ids(self, c, ids):
        for d in c.get("c", []):
            if "id" in d and not d.get("static"): ids.add(d["id"])
            for b in d.get("bind", []):
                ids.add(b["id"])
                if b.get("hid"): ids.add(b["hid"])
    def s_DeclStmt(self, n, states):
        o = Out()
        cur = states
        for d in n.get("c", []):
            if d["k"] not in ("Var", "Decomposition"): continue
            nx = []
            for s in cur: nx += self.declare(d, s)
            cur = self.join(nx)
        o.next = cur
        return o
    def declare(self, d, st):
        i = d["id"]
        if d.get("static"):
            g = self.p.globals.get(i)
        self.clear((i, ()), st)
        t = d["t"]
        if d["k"] == "Decomposition": return self.decompose(d, st)
        if is_ref(t) and d.get("init"):
            out = []
            for l, s in self.lval(d["init"], st):
                s = s.copy()
                s.store[(i, ('&',))] = frozenset([('ptr', l[0], l[1])]); s.store[(i, ())] = frozenset()
                out.append(s)
            return out
        self.track(i, t)
        if not d.get("init"):
            v = self.type_default(t)
            st.store[(i, ())] = v.a
            if self.cl is not None: self.cl.on_declare(self, d, (i, ()), v, st)
            return [st]
        out = []
        for v, s in self.eval(d["init"], st):
            s = s.copy()
            if v.a == frozenset([UNINIT]) and not v.sub: v = V([UNINIT])
            self.clear((i, ()), s)
            s.store[(i, ())] = v.a
            for k, a in (v.sub or {}).items(): s.store[(i, k)] = a
            if self.cl is not None: self.cl.on_declare(self, d, (i, ()), v, s)
            out.append(s)
        return out
    def decompose(self, d, st):
        i = d["id"]; out = []
        ref = is_ref(d["t"])
        if d.get("init") is None: return [st]
        if ref: src = self.lval(d["init"], st)
        else:
            src = []
            for v, s in self.eval(d["init"], st):
                s = s.copy()
                self.clear((i, ('.dec',)), s)
                s.store[(i, ('.dec',))] = v.a
                for k, a in (v.sub or {}).items(): s.store[(i, ('.dec',) + k)] = a
                src.append(((i, ('.dec',)), s))
        for l, s in src:
            s = s.copy()
            s.store[(i, ('&',))] = frozenset([('ptr', l[0], l[1])]); s.store[(i, ())] = frozenset()
            for idx, b in enumerate(d.get("bind", [])):
                if "hid" in b:
                    t = bare(d["t"])
                    name = {0: '.err', 1: '.val'}[idx] if t.startswith("fastgltf::Expected<") else ('first', 'second')[idx] if t.startswith("std::pair<") else '<%d>' % idx
                    for vid in (b["hid"], b["id"]):
                        s.store[(vid, ('&',))] = frozenset([('ptr', l[0], l[1] + (name,))]); s.store[(vid, ())] = frozenset()
                else:
                    e = b.get("e")
                    if e is not None and e["k"] == "MemberExpr":
                        s.store[(b["id"], ('&',))] = frozenset([('ptr', l[0], l[1] + (e["n"],))]); s.store[(b["id"], ())] = frozenset()
            out.append(s)
        return out
    def s_IfStmt(self, n, states):
        o = Out()
        ids = set()
        cur = states
        if n.get("init"):
            r = self.exec(n["init"], cur); cur = r.next
            if n["init"]["k"] == "DeclStmt": self.decl_ids(n["init"], ids)
        if n.get("var"):
            nx = []
            for s in cur: nx += self.declare(n["var"], s)
            cur = self.join(nx); ids.add(n["var"]["id"])
        T, F = [], []
        if "cc" in n: (T if n["cc"] else F).extend(cur)
        else:
            for s in cur:
                for b, s2 in self.cond(n["cond"], s): (T if b else F).append(s2)
        if self.cl is not None: self.cl.on_branch(self, n, T, F)
        a = self.exec(n["then"], self.join(T)) if T else Out()
        b = self.exec(n["else"], self.join(F)) if F and n.get("else") else Out()
        if F and not n.get("else"): b.next = F
        o.next = a.next + b.next
        o.brk = a.brk + b.brk; o.cont = a.cont + b.cont; o.ret = a.ret + b.ret
        if ids:
            for s in o.next + o.brk + o.cont: self.drop_locals(ids, s)
        o.next = self.join(o.next)
        return o
    def same(self, a, b):
        return a.store == b.store and a.facts == b.facts and a.x == b.x
    def loop(self, heads, step, o, maxit=12):
        """step(states) -> (exit states, back states). Iterates to a fixpoint."""
        seen = {}
        work = self.join(heads)
        exits = []
        it = 0
        while work:
            it += 1
            fresh = []
            for s in work:
                k = self.key(s)
                if k in seen:
                    m = self.merge2(seen[k], s)
                    if self.same(m, seen[k]): continue
                    if it > 6: m = self.widen(seen[k], m)
                    if self.same(m, seen[k]): continue
                    seen[k] = m; fresh.append(m.copy())
                else:
                    seen[k] = s; fresh.append(s.copy())
            if not fresh or it > 40: break
            ex, back = step(fresh)
            exits += ex
            work = self.join(back)
        o.next += exits
    def widen(self, old, new):
        for k, v in new.store.items():
            w = old.store.get(k)
            if w is not None and w != v and len(v) > 3 : new.store[k] = frozenset([TOP]) if any(x[0] in ('c', 'op', 'cat', 'top') for x in v - w) else v
        return new
    def s_ForStmt(self, n, states):
        o = Out(); ids = set()
        cur = states
        r = self.json_for(n, cur)
        if r is not None: return r
        if n.get("init"):
            r = self.exec(n["init"], cur); cur = r.next
            if n["init"]["k"] == "DeclStmt": self.decl_ids(n["init"], ids)
        self.cond_loop(n, cur, o, n.get("cond"), n.get("inc"))
        for s in o.next: self.drop_locals(ids, s)
        o.next = self.join(o.next)
        return o
    def s_WhileStmt(self, n, states):
        o = Out()
        self.cond_loop(n, states, o, n.get("cond"), None)
        o.next = self.join(o.next)
        return o
    def cond_loop(self, n, states, o, cond, inc):
        cur = states
        if self.positions and cond is not None:
            nx = []
            for s in cur: nx += self.promote(cond, s, n)
            cur = self.join(nx)
        if cond is not None and cur: self.track_counter(cond, cur[0])
        pv = self.promoted(n, cond, inc, cur) if cond is not None and cur and not self.positions else None
        if pv is not None:
            var, croot, cpath = pv
            forced = lambda s: self.cl is not None and self.cl.must_iterate(self, (croot, cpath), s)
            if any(forced(s) for s in cur): self.tracked[('it', var)] = self.tracked[('bad', var)] = 'int'
        def step(ss):
            T, F = [], []
            for s in ss:
                if pv is not None:
                    force = forced(s)
                    if not force or s.store.get((('it', var), ())):
                        q = s.copy(); q.store[(var, ())] = frozenset([('sz', croot, cpath, 0)]); F.append(q)
                    for q in self.pick(s, var, force):
                        self.kill(q, croot, cpath + (('[]', var),))
                        q.store[(var, ())] = frozenset([('iter1', croot, cpath, var)])
                        for b, s2 in self.cond(cond, q): (T if b else F).append(s2)
                elif cond is None: T.append(s)
                else:
                    for b, s2 in self.cond(cond, s): (T if b else F).append(s2)
            r = self.exec(n["body"], self.join(T)) if T else Out()
            o.ret += r.ret
            back = self.join(r.next + r.cont)
            if inc is not None and back:
                r2 = self.exec(inc, back); back = r2.next
            return F + r.brk, back
        self.loop(cur, step, o)
        if pv is not None:
            for s in o.next: s.store.pop((('it', var), ()), None); s.store.pop((('bad', var), ()), None)
    def promoted(self, n, cond, inc, cur):
        """(variable, container) of a loop that counts or iterates through a whole container in memory."""
        from tree import walk
        for x in walk(cond):
            if x["k"] not in ("BinaryOperator", "CXXOperatorCallExpr") or x.get("op") not in ("<", "!=", ">") or len(x.get("c", [])) != 2: continue
            for A, B in ((x["c"][0], x["c"][1]), (x["c"][1], x["c"][0])):
                if x["op"] != "!=" and (x["op"] == "<") != (A is x["c"][0]): continue
                l = self.simple_loc(A, cur[0])
                if l is None or not isinstance(l[0], int) or l[1]: continue
                v = self.load(l, cur[0]).one()
                if v is None or (v != ('c', 0) and v[0] != 'begin'): continue
                if v[0] == 'c' and l[0] in self.tracked: continue
                cl, self.cl = self.cl, None
                try: rb = self.eval(B, cur[0].copy())
                finally: self.cl = cl
                b = rb[0][0].one() if len(rb) == 1 else None
                if b is None or b[0] != 'sz' or b[3] != 0 or (v[0] == 'begin' and v[1:3] != b[1:3]): continue
                if self.const_table((b[1], b[2]), cur[0]) is not None: continue
                if all(self.load(l, s).one() == v for s in cur) and self.only_steps(l[0], [y for y in (cond, n["body"], inc) if y is not None]): return l[0], b[1], b[2]
        return None
    def only_steps(self, var, nodes):
        """Is the variable changed by ++ only (at least once)?"""
        from tree import walk
        ref = lambda y: y["k"] == "DeclRefExpr" and y.get("id") == var
        def strip(y):
            while y["k"] in ("ImplicitCastExpr", "ParenExpr") and y.get("c"): y = y["c"][0]
            return y
        steps = 0
        for r in nodes:
            for y in walk(r):
                c = y.get("c") or []
                if not c or not ref(strip(c[0])): 
                    if y["k"] == "UnaryOperator" and y.get("op") == "&" and c and ref(strip(c[0])): return False
                    continue
                op = y.get("op")
                if y["k"] in ("UnaryOperator", "CXXOperatorCallExpr") and op == "++": steps += 1
                elif y["k"] == "UnaryOperator" and op in ("--", "&"): return False
                elif y["k"] == "CXXOperatorCallExpr" and op in ("--", "=", "+=", "-="): return False
                elif y["k"] in ("BinaryOperator", "CompoundAssignOperator") and op in ("=", "+=", "-=", "*=", "/=", "<<=", ">>=", "&=", "|="): return False
        return steps > 0
    def track_counter(self, cond, st):
        """A counter compared with a small constant is unrolled exactly."""
        if cond["k"] not in ("BinaryOperator",) or cond.get("op") not in CMP: return
        for A, B in ((cond["c"][0], cond["c"][1]), (cond["c"][1], cond["c"][0])):
            l = self.simple_loc(A, st)
            if l is None or not isinstance(l[0], int) or l[1]: continue
            a = self.load(l, st).const()
            if not isinstance(a, int) or isinstance(a, bool): continue
            cl, self.cl = self.cl, None
            try: rb = self.eval(B, st.copy())
            finally: self.cl = cl
            b = rb[0][0].const() if len(rb) == 1 else None
            if isinstance(b, int) and abs(b - a) <= 40: self.tracked[l[0]] = 'int'
    def promote(self, cond, st, n):
        """Turns a counter or iterator compared with a container's size/end into a position."""
        from tree import walk
        outs = [st]
        for x in walk(cond):
            if x["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and x.get("op") in CMP and len(x.get("c", [])) == 2:
                for A, B in ((x["c"][0], x["c"][1]), (x["c"][1], x["c"][0])):
                    l = self.simple_loc(A, outs[0])
                    if l is None or not isinstance(l[0], int): continue
                    v = self.load(l, outs[0]).one()
                    if v is None or v not in (('c', 0),) and v[0] != 'begin': continue
                    nx = []
                    done = False
                    for s in outs:
                        rb = self.eval(B, s.copy())
                        b = rb[0][0].one() if len(rb) == 1 else None
                        if b is not None and b[0] == 'sz' and (v[0] == 'c' or v[1:3] == b[1:3]):
                            done = True
                            for p, s2 in self.pos_begin(b[1], b[2], l[0], s):
                                s2.store[l] = frozenset([p]); self.tracked[l[0]] = 'pos'
                                self.kill(s2, b[1], b[2] + (('[]', l[0]),))
                                nx.append(s2)
                        elif b is not None and v == ('c', 0) and b[0] in ('call', 'm', 'op', 'v'):
                            done = True
                            root = ('n', b)
                            for p, s2 in self.pos_begin(root, (), l[0], s):
                                s2.store[l] = frozenset([p]); self.tracked[l[0]] = 'pos'
                                nx.append(s2)
                        else: nx.append(s)
                    if done: return nx
        return outs
    def s_DoStmt(self, n, states):
        o = Out()
        def step(ss):
            r = self.exec(n["body"], ss)
            o.ret += r.ret
            T, F = [], list(r.brk)
            for s in self.join(r.next + r.cont):
                for b, s2 in self.cond(n["cond"], s): (T if b else F).append(s2)
            return F, T
        self.loop(states, step, o)
        o.next = self.join(o.next)
        return o
    def s_CXXForRangeStmt(self, n, states):
        o = Out()
        cur = states
        if n.get("init"): cur = self.exec(n["init"], cur).next
        d = n["var"]
        ids = {d["id"]}
        for b in d.get("bind", []): ids.add(b["id"]); ids.add(b.get("hid"))
        for s in cur:
            for l, s1 in self.lval(n["range"], s):
                v = self.load(l, s1)
                a = v.one()
                if a is not None and a[0] in ('j',): self.range_json(n, d, a, s1, o)
                elif any(x[0] == 'j' for x in v.a): 
                    for x in v.a:
                        if x[0] == 'j': self.range_json(n, d, x, s1.copy(), o)
                else: self.range_loc(n, d, l, s1, o)
        for s in o.next: self.drop_locals(ids, s)
        o.next = self.join(o.next)
        return o
    def json_for(self, n, states):
        """for (auto it = a.begin(); it != a.end(); ++it) over a JSON array or object is a range loop."""
        i = n.get("init")
        if not i or i["k"] != "DeclStmt" or not i.get("c"): return None
        d = next((x for x in i["c"] if x["k"] == "Var" and "simdjson::dom::" in x.get("t", "") and "iterator" in x["t"]), None)
        if d is None or not d.get("init"): return None
        x = d["init"]
        while x["k"] != "CXXMemberCallExpr" and len(x.get("c", [])) == 1: x = x["c"][0]
        if x["k"] != "CXXMemberCallExpr" or not x.get("q", "").endswith("::begin"): return None
        inc = n.get("inc")
        while inc is not None and inc["k"] != "CXXOperatorCallExpr" and len(inc.get("c", [])) == 1: inc = inc["c"][0]
        if inc is None or not inc.get("q", "").endswith("operator++"): return None
        o = Out()
        for s in states:
            for v, s1 in self.eval(x["c"][0], s):
                for a in v.a:
                    if a[0] != 'j': return None
                    self.range_json(n, d, a, s1.copy(), o, "dom::object" in d["t"])
        for s in o.next: self.drop_locals({d["id"]}, s)
        o.next = self.join(o.next)
        return o
    def range_json(self, n, d, a, st, o, isobj=None):
        if isobj is None: isobj = "key_value_pair" in d["t"]
        tag = d["id"]
        path = resolve(a[1], st)
        force = self.cl is not None and self.cl.json_must_iterate(self, path, isobj)
        only = self.cl.json_key(self, path) if isobj and self.cl is not None else None
        if only is not None: force = True
        if force: self.tracked[('it', tag)] = 'int'     # keeps the states before and after the first iteration apart
        counters = [] if isobj else self.counters(n)
        it, num = (('it', tag), ()), (('itn', tag), ())
        K = 5
        if counters:
            self.tracked[num[0]] = 'int'
            for c in counters: self.tracked[c] = 'int'
            st = st.copy(); st.store[num] = frozenset([('c', 0)])
        jsize = ('call', 'jsize', (('j', path),), 0)
        def step(ss):
            ex, T = [], []
            for s in ss:
                exact = None
                if counters:
                    (k,) = s.store[num]; k = k[1]
                    f = s.facts.get(jsize)
                    if f and f[0] == 'in' and len(f[1]) == 1: (exact,) = f[1]
                    if not isinstance(exact, int) or exact >= K: exact = None
                if (not force or s.store.get(it)) and (exact is None or k == exact): ex.append(s.copy())
                if exact is not None and k >= exact: continue
                if only is not None and s.store.get(it): continue
                s = s.copy()
                keep = s.facts.get(jsize)
                self.kill_json(s, path)
                if keep: s.facts[jsize] = keep
                if force: s.store[it] = frozenset([('c', 1)])
                self.clear((d["id"], ()), s)
                if d["k"] == "Decomposition":
                    p = path + ".*"
                    for b, v in zip(d.get("bind", []), (('key', p), ('j', p))):
                        for vid in ({b["id"], b.get("hid")} - {None}): s.store[(vid, ())] = frozenset([v]); s.store.pop((vid, ('&',)), None)
                elif isobj:
                    p = path + ".*"
                    s.store[(d["id"], ())] = frozenset([('kv', path)])
                    s.store[(d["id"], ('key',))] = frozenset([('key', p)])
                    s.store[(d["id"], ('value',))] = frozenset([('j', p)])
                elif counters and k < K:
                    s.store[(d["id"], ())] = frozenset([('j', path + "[%d]" % k)])
                else: s.store[(d["id"], ())] = frozenset([('j', path + "[]")])
                if counters:
                    s.store[num] = frozenset([('c', min(k + 1, K))])
                    if k >= K:
                        for c in counters: s.store[(c, ())] = frozenset([('op', 'num')])
                if only is not None: s.facts[('key', path + ".*")] = ('in', frozenset([only]))
                if self.cl is not None: self.cl.on_json_iter(self, path, isobj, s)
                T.append(s)
            r = self.exec(n["body"], self.join(T)) if T else Out()
            o.ret += r.ret
            return ex + r.brk, self.join(r.next + r.cont)
        self.loop([st], step, o)
        for s in o.next: s.store.pop(it, None); s.store.pop(num, None)
    def counters(self, n):
        """Integer variables declared outside the loop that its body increments."""
        k = ("cnt", id(n))
        if k not in self._reads:
            from tree import walk
            inner = {x["id"] for x in walk(n["body"]) if x["k"] == "Var" and "id" in x}
            r = []
            for x in walk(n["body"]):
                if x["k"] == "UnaryOperator" and x["op"] in ("++",) and x["c"][0]["k"] == "DeclRefExpr" and x["c"][0].get("dk") == "Var" and x["c"][0]["id"] not in inner: r.append(x["c"][0]["id"])
                if x["k"] == "CompoundAssignOperator" and x["op"] == "+=" and x["c"][0]["k"] == "DeclRefExpr" and x["c"][0].get("dk") == "Var" and x["c"][0]["id"] not in inner and "int" in x["c"][0]["t"] + x["c"][0]["t"].replace("long", "int"): r.append(x["c"][0]["id"])
            self._reads[k] = r
        return self._reads[k]
    def kill_json(self, s, p):
        for t in list(s.facts):
            if mentions_json(t, p): del s.facts[t]
    def range_loc(self, n, d, l, st, o):
        tag = n["var"]["id"]
        tab = self.const_table(l, st)
        if tab is not None: return self.range_table(n, d, l, tab, st, o)
        el = (l[0], l[1] + (('[]', tag),))
        m = self.cl is not None and self.cl.unroll and re.match(r"std::array<.*, (\d+)>$", bare(n["range"].get("t", "")))
        if m and int(m.group(1)) <= 16:                      # element by element
            cur = [st]
            for i in range(int(m.group(1))):
                nxt = []
                for s in cur:
                    self.clear((d["id"], ()), s)
                    at = (l[0], l[1] + ('[%d]' % i,))
                    if is_ref(d["t"]): s.store[(d["id"], ('&',))] = frozenset([('ptr',) + at]); s.store[(d["id"], ())] = frozenset()
                    else:
                        v = self.load(at, s)
                        s.store[(d["id"], ())] = v.a
                    nxt.append(s)
                r = self.exec(n["body"], nxt)
                o.ret += r.ret; o.next += r.brk
                cur = r.next + r.cont
            o.next += cur
            return
        force = self.cl is not None and self.cl.must_iterate(self, l, st)
        if force and not self.positions: self.tracked[('it', tag)] = self.tracked[('bad', tag)] = 'int'
        if self.positions:
            def enter(s):
                out = []
                for p, s2 in self.pos_begin(l[0], l[1], tag, s):
                    s2.store[(('pos', tag), ())] = frozenset([p]); out.append(s2)
                return out
            self.tracked[('pos', tag)] = 'pos'
            heads = [x for x in enter(st)]
        else: heads = [st]
        entered = {}
        def step(ss):
            T, F = [], []
            for s in ss:
                if self.positions:
                    p = list(s.store[(('pos', tag), ())])[0]
                    (F if p[4] == '0' else T).append(s)
                else:
                    if not force or s.store.get((('it', tag), ())): F.append(s.copy())
                    T += self.pick(s, tag, force)
            T2 = []
            for s in T:
                self.kill(s, el[0], el[1])
                self.clear((d["id"], ()), s)
                if d["k"] == "Decomposition":
                    T2 += self.decompose_at(d, el, s)
                elif is_ref(d["t"]):
                    s.store[(d["id"], ('&',))] = frozenset([('ptr',) + el]); s.store[(d["id"], ())] = frozenset(); T2.append(s)
                else:
                    v = self.load(el, s)
                    if not v.sub and l in s.store and False: pass
                    s.store[(d["id"], ())] = v.a
                    for k, a in (v.sub or {}).items(): s.store[(d["id"], k)] = a
                    self.track(d["id"], d["t"]) if not self.positions else None
                    T2.append(s)
            r = self.exec(n["body"], self.join(T2)) if T2 else Out()
            o.ret += r.ret
            back = self.join(r.next + r.cont)
            if self.positions:
                nb = []
                for s in back:
                    p = list(s.store[(('pos', tag), ())])[0]
                    for p2, s2 in self.pos_step(p, s):
                        s2.store[(('pos', tag), ())] = frozenset([p2]); nb.append(s2)
                back = nb
            return F + r.brk, back
        self.loop(heads, step, o)
        for s in o.next:
            s.store.pop((('pos', tag), ()), None); s.store.pop((('it', tag), ()), None); s.store.pop((('bad', tag), ()), None)
    def pick(self, s, tag, force):
        """The element of a forced loop's iteration is the one under study (once) or another one."""
        s = s.copy()
        if not force: return [s]
        out = []
        if not s.store.get((('it', tag), ())):
            b = s.copy()
            b.store[(('it', tag), ())] = b.store[(('bad', tag), ())] = frozenset([('c', 1)]); out.append(b)
        s.store[(('bad', tag), ())] = frozenset([('c', 0)]); out.append(s)
        return out
    def is_bad(self, tag, s):
        """Is the element a loop tag stands for the one under study?"""
        if isinstance(tag, str): return tag.startswith('any')
        v = s.store.get((('bad', tag), ()))
        return v == frozenset([('c', 1)])
    def const_table(self, l, st):
        """The elements of a constant global array (up to 64), else None."""
        root, path = l
        if path != () or not (isinstance(root, tuple) and len(root) == 2 and root[0] == 'g') or self.positions: return None
        k = ("ctab", root[1])
        if k not in self._reads:
            r = None
            g = next((g for g in self.p.globals.values() if g.get("q") == root[1] and g.get("const") and g.get("init")), None)
            n = self._elements(g["init"]) if g is not None else None
            if n is not None and 0 < len(n) <= 64:
                cl, self.cl = self.cl, None
                r = []
                for c in n:
                    v = self.eval(c, State())
                    if len(v) != 1: r = None; break
                    r.append(v[0][0])
                self.cl = cl
            self._reads[k] = r
        return self._reads[k]
    def range_table(self, n, d, l, tab, st, o):
        """Unrolls a loop over a constant table."""
        cur, done = [st], []
        for i, v in enumerate(tab):
            el = (l[0], l[1] + ('[%d]' % i,))
            T = []
            for s in cur:
                s = s.copy()
                s.store[el] = v.a
                for k, a in (v.sub or {}).items(): s.store[(el[0], el[1] + k)] = a
                self.clear((d["id"], ()), s)
                if d["k"] == "Decomposition": T += self.decompose_at(d, el, s)
                elif is_ref(d["t"]):
                    s.store[(d["id"], ('&',))] = frozenset([('ptr',) + el]); s.store[(d["id"], ())] = frozenset(); T.append(s)
                else:
                    s.store[(d["id"], ())] = v.a
                    for k, a in (v.sub or {}).items(): s.store[(d["id"], k)] = a
                    T.append(s)
            r = self.exec(n["body"], self.join(T)) if T else Out()
            o.ret += r.ret; done += r.brk
            cur = self.join(r.next + r.cont)
            for s in cur + r.brk:
                self.clear(el, s)
        o.next += cur + done
    def decompose_at(self, d, el, s):
        s = s.copy()
        i = d["id"]
        s.store[(i, ('&',))] = frozenset([('ptr',) + el]); s.store[(i, ())] = frozenset()
        for idx, b in enumerate(d.get("bind", [])):
            if "hid" in b:
                name = ('first', 'second')[idx] if "std::pair<" in d["t"] else '<%d>' % idx
                for vid in (b["hid"], b["id"]):
                    s.store[(vid, ('&',))] = frozenset([('ptr', el[0], el[1] + (name,))]); s.store[(vid, ())] = frozenset()
            else:
                e = b.get("e")
                if e is not None and e["k"] == "MemberExpr":
                    s.store[(b["id"], ('&',))] = frozenset([('ptr', el[0], el[1] + (e["n"],))]); s.store[(b["id"], ())] = frozenset()
        return [s]
    def s_SwitchStmt(self, n, states):
        o = Out(); ids = set()
        cur = states
        if n.get("init"):
            cur = self.exec(n["init"], cur).next
            if n["init"]["k"] == "DeclStmt": self.decl_ids(n["init"], ids)
        body = n["body"].get("c", []) if n["body"]["k"] == "CompoundStmt" else [n["body"]]
        # flatten: list of (labels, stmt)
        items = []
        for b in body:
            labels = []
            while b is not None and b["k"] in ("CaseStmt", "DefaultStmt"):
                labels.append(b); b = b["c"][0] if b.get("c") else None
            items.append((labels, b))
        entry = {}
        default_idx = None
        for idx, (labels, b) in enumerate(items):
            for lb in labels:
                if lb["k"] == "DefaultStmt": default_idx = idx
        rest_all = []
        for s in cur:
            loc = self.simple_loc(n["cond"], s)
            for v, s1 in self.eval(n["cond"], s):
                rest = [(v, s1)]
                for idx, (labels, b) in enumerate(items):
                    for lb in labels:
                        if lb["k"] != "CaseStmt": continue
                        cvv = int(lb["cv"]) if "cv" in lb else None
                        if "str" in lb and cvv is not None: self.crc.setdefault(cvv, lb["str"])
                        nrest = []
                        for rv, rs in rest:
                            for val, q in self.compare_vals("==", rv, C(cvv), rs, loc, None, etype(n["cond"])):
                                if val: entry.setdefault(idx, []).append(q)
                                else:
                                    keep = V([a for a in rv.a if self.decide("==", a, ('c', cvv), rs) is not True])
                                    nrest.append((keep, q))
                        rest = nrest
                for rv, rs in rest:
                    dom = self.domain(n.get("ct", ""))
                    if dom is not None and all(a[0] in ('m', 'call', 'v', 'el') for a in rv.a):
                        covered = {int(lb["cv"]) for labels, _ in items for lb in labels if lb["k"] == "CaseStmt" and "cv" in lb}
                        if dom <= covered and not (self.cl is not None and self.cl.open_enum(self, rv, rs)): continue
                    if self.cl is not None: self.cl.on_switch_default(self, n, rv, rs, default_idx is not None)
                    if default_idx is not None: entry.setdefault(default_idx, []).append(rs)
                    else: rest_all.append(rs)
        flow = []
        for idx, (labels, b) in enumerate(items):
            flow = self.join(flow + entry.get(idx, []))
            if not flow: continue
            if b is None: continue
            r = self.exec(b, flow)
            if b["k"] == "DeclStmt": self.decl_ids(b, ids)
            o.ret += r.ret; o.cont += r.cont; o.next += r.brk
            flow = r.next
        o.next += flow + rest_all
        for s in o.next + o.cont: self.drop_locals(ids, s)
        o.next = self.join(o.next)
        return o
    def s_ReturnStmt(self, n, states):
        o = Out()
        for s in states:
            if not n.get("c"): o.ret.append((VVOID, s)); continue
            if self.retref:
                for l, s2 in self.lval(n["c"][0], s): o.ret.append((l, s2))
            else:
                for v, s2 in self.eval(n["c"][0], s):
                    if self.cl is not None: self.cl.on_return(self, n, v, s2)
                    o.ret.append((v, s2))
        o.ret = self.join_rets(o.ret)
        return o
    def s_BreakStmt(self, n, states):
        o = Out(); o.brk = list(states); return o
    def s_ContinueStmt(self, n, states):
        o = Out(); o.cont = list(states); return o
    def s_CXXTryStmt(self, n, states):
        o = self.exec(n["c"][0], states); return o
    def s_LabelStmt(self, n, states): return self.exec(n["c"][0], states)

class BudgetExceeded(Exception): pass

class Client:
    ptrindex = False
    steps = False         # on_binop also sees increments
    def on_new(self, I, n, st): return None
    """Default hooks."""
    flagbits = False
    def on_store(self, I, loc, v, st, node): pass
    def on_step(self, I, p, st): pass
    def on_call(self, I, n, q, st): return None
    def on_index(self, I, loc, idx, st, n): pass
    def on_cast(self, I, n, v, st): pass
    def on_binop(self, I, op, a, b, st, n): return None
    def on_branch(self, I, n, T, F): pass
    def on_enter(self, I, f, st): pass
    def on_return(self, I, n, v, st): pass
    def on_declare(self, I, d, loc, v, st): pass
    def on_assume(self, I, a, val, st): pass
    def on_switch_default(self, I, n, v, st, has): pass
    def open_enum(self, I, v, st): return False
    def decide(self, I, op, a, b, st): return None
    def truth(self, I, a, st): return None
    def key(self, I, st): return None
    def join_x(self, a, b): return a
    def may_inline(self, I, f): return True
    def on_deref_opt(self, I, loc, n, st): pass
    def on_resize(self, I, loc, m, args, st, n): pass
    unroll = False                          # loops over small std::arrays run element by element
    def must_iterate(self, I, loc, st): return False
    def memory(self, I, root, path, st): return None
    def alts(self, I, l, st, al): return al
    def json_outcomes(self, I, path, kind, n, st, outs): return None
    def json_value(self, I, path, kind, st): return None
    def json_key(self, I, path): return None
    def json_must_iterate(self, I, path, isobj): return False
    def on_json_iter(self, I, path, isobj, st): pass

def decide_range(op, c, lo, hi, _):
    """Truth of  c op x  for every x in [lo, hi]; None when it varies."""
    big = 10 ** 9
    if op == "<":
        if c < lo: return True
        if c >= hi: return False if hi < big else None
        return None
    if op == "<=":
        if c <= lo: return True
        if c > hi: return False if hi < big else None
        return None
    if op == ">":
        r = decide_range("<=", c, lo, hi, True); return None if r is None else not r
    if op == ">=":
        r = decide_range("<", c, lo, hi, True); return None if r is None else not r
    if op == "==":
        if lo == hi: return c == lo
        if c < lo or (c > hi and hi < big): return False
        return None
    r = decide_range("==", c, lo, hi, True); return None if r is None else not r

def etype(n):
    while n is not None and n["k"] == "ImplicitCastExpr" and n.get("c"): n = n["c"][0]
    return n.get("t", "") if n else ""
def is_flags(e):
    vals = [v for v in e.values() if v]
    return len(vals) > 3 and sum(1 for v in vals if v & (v - 1) == 0) > 0.7 * len(vals) and max(vals) > 2 * len(vals)
def depth(t):
    return 1 + max([depth(x) for x in t if isinstance(x, tuple)], default=0) if isinstance(t, tuple) else 0
def join_con(c, d):
    if c == d: return c
    if c[0] == 'in' and d[0] == 'in': return ('in', c[1] | d[1])
    if c[0] == 'notin' and d[0] == 'notin':
        x = c[1] & d[1]; return ('notin', x) if x else None
    if c[0] == 'in': c, d = d, c
    x = c[1] - d[1]     # notin c, in d
    return ('notin', x) if x else None
def resolve(p, st):
    """JSON path with the member names known in st substituted."""
    i = p.find(".*")
    while i >= 0:
        f = st.facts.get(('key', p[:i + 2]))
        if f and f[0] == 'in' and len(f[1]) == 1:
            (k,) = f[1]
            p = p[:i + 1] + k + p[i + 2:]
        i = p.find(".*", i + 1)
    return p
def mentions_json(t, p):
    if not isinstance(t, tuple): return False
    if len(t) >= 2 and t[0] in ('j', 'jr', 'v', 'key', 'present', 'jt') and isinstance(t[1], str) and t[1].startswith(p) and t[1] != p: return True
    return any(mentions_json(x, p) for x in t if isinstance(x, tuple))
def _strings(n):
    from tree import walk
    if n is None: return
    for x in walk(n):
        if x["k"] == "StringLiteral": yield x["v"]
        if "sv" in x: yield x["sv"]
        if x["k"] in ("CaseStmt", "DeclRefExpr") and "str" in x: yield x["str"]
