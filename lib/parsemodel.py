"""The loading side: units (functions that read one JSON collection), forced reads, final values of asset members."""
import sys, re
import tree, interp
from interp import *
from interp import V, State, Client, Interp, canon, comp, bare, C, NULL
from builtins_ import OK, NSF, TYPE, RANGE, OOB

ALL = (1 << 62) - 1
PARSER = "fastgltf::Parser"
NAMES = {'ok': OK, 'nsf': NSF, 'type': TYPE, 'range': RANGE}

def prefixes(p):
    """Proper ancestors of a JSON path, with the container kind each must have."""
    out = {}
    for m in re.finditer(r"[.\[]", p):
        i = m.start()
        if i == 0: continue
        out[p[:i]] = 'object' if p[i] == '.' else 'array'
    return out
def norm(p): return re.sub(r"\[\d+\]", "[]", p)
def same_path(a, pat): return a == pat or (a != pat and "[" in a and norm(a) == pat)

class Force:
    """One forced read: at `path` (read as `kind`, if given) the outcome is `outcome` and the value `value`."""
    def __init__(self, path, outcome, kind=None, value=None):
        self.path, self.outcome, self.kind, self.value = path, outcome, kind, value
        self.anc = prefixes(path)
        self.outer_arrays = {p for p, k in self.anc.items() if k == 'array'}
        i = max(path.rfind("."), path.rfind("["))
        self.parent, self.last = path[:i], path[i + 1:]

class ParseClient(Client):
    """path/outcome/kind/value: the read under study; pre: further forced reads [(path, outcome, kind, value)]; restrict:
    optional objects and arrays that are neither ancestors of a forced read nor required are absent."""
    def __init__(self, path=None, outcome=None, kind=None, value=None, opaque=(), ext=None, pre=(), optional=()):
        self.path = path
        self.main = Force(path, outcome, kind, value) if path else None
        self.forced = ([self.main] if path else []) + [Force(*p) for p in pre]
        self.optional = set(optional)
        for f in self.forced:
            self.optional -= set(f.anc); self.optional.discard(f.path)
        self.opaque = opaque
        self.reads = {}       # (path, kind) -> line
        self.units = {}
        self.stores = {}
        self.callbacks = []
        self.sinks = []
        self.calls = {}
        self.locals = set()
    # --- forced reads
    def matches(self, p): return self.main is not None and same_path(p, self.path)
    def json_outcomes(self, I, path, kind, n, st, outs):
        self.reads.setdefault((path, kind), n.get("l"))
        for f in self.forced:
            if same_path(path, f.path):
                if f.kind and kind != f.kind and kind != 'element' and f.outcome in ('ok', 'range'): continue
                if f is self.main: st.x = True
                if kind == 'element': return [o for o in outs if o == (NSF if f.outcome == 'nsf' else OK)]
                want = NAMES[f.outcome]
                if want == RANGE and RANGE not in outs: want = TYPE
                return [want] if want in outs or want != NSF else []
        for f in self.forced:
            for a, k in f.anc.items():
                if same_path(path, a):
                    if kind == 'element': return [o for o in outs if o == OK]
                    return [o for o in outs if o == (OK if kind == k else TYPE)]
        if self.optional and norm(path) in self.optional and NSF in outs: return [NSF]
        return None
    def json_value(self, I, path, kind, st):
        for f in self.forced:
            if f.value is not None and same_path(path, f.path) and (f.kind is None or kind == f.kind): return V([f.value])
        return None
    def json_must_iterate(self, I, path, isobj):
        for f in self.forced:
            if isobj:
                q = norm(path)
                if f.path.startswith(q + ".*") or (f.path.startswith(q + ".") and not (f.outcome == 'nsf' and f.parent == q)): return True
            elif f.outcome == 'nsf' and f.path.endswith("]") and same_path(path, f.parent): continue
            elif any(same_path(path, a) for a in f.outer_arrays): return True
        return False
    def json_key(self, I, path):
        q = norm(path)
        for f in self.forced:
            if f.path.startswith(q + "."):
                c = re.match(r"[^.\[]+", f.path[len(q) + 1:]).group(0)
                if c != '*' and not (f.outcome == 'nsf' and f.parent == q): return c
        return None
    def decide(self, I, op, a, b, st):
        # an array that must have an element has a size of at least one
        if a == ('c', 0) and b[0] == 'call' and b[1] == 'jsize' and self.forced:
            j = b[2][0]
            if j[0] == 'j' and self.json_must_iterate(I, j[1], False): return {"<": True, "==": False, "!=": True, ">=": False}.get(op)
        return None
    def key(self, I, st): return st.x
    def join_x(self, a, b): return a
    # --- units
    def on_call(self, I, n, q, st):
        i = n.get("id")
        if i in self.opaque:
            f = self.opaque[i]
            out = []
            for vs, s in I.args([c for c in n["c"] if bare(interp.etype(c)).startswith("simdjson")], st):
                for v in vs:
                    for a in v.a:
                        if a[0] == 'j': self.units.setdefault(i, set()).add(resolve(a[1], s))
                self.on_unit(I, n, f, s)
                out.append((V([('call', f["q"], (), n["l"])]), s))
            return out
        if not q and n.get("fn") is not None: self.indirect(I, n, st)
        return None
    def on_unit(self, I, n, f, s): pass
    def indirect(self, I, n, st): pass

def is_unit(f):
    ts = [p["t"] for p in f.get("params", [])]
    return f.get("rec") == PARSER and any("simdjson::dom::array" in t for t in ts) and any(bare(t) == "fastgltf::Asset" and is_ref(t) and not t.startswith("const") for t in ts)

class Model:
    def __init__(self, prog):
        self.p = prog
        self.unitfns = {f["id"]: f for f in prog.functions if f.get("body") and is_unit(f)}
        # a unit called by a unit is inlined, not a unit of its own
        self.root = prog.fn(PARSER + "::parse")
        self.this = (("this",), ())
        self.config = self.find_field(PARSER, "fastgltf::Extensions")
        self.options = self.find_field(PARSER, "fastgltf::Options")
        self.discover()
    def find_field(self, rec, t, depth=0):
        r = self.p.records.get(rec)
        if r is None or depth > 2: return None
        for f in r["fields"]:
            if bare(f["t"]) == t: return (f["n"],)
        for f in r["fields"]:
            x = self.find_field(bare(f["t"]), t, depth + 1)
            if x: return (f["n"],) + x
        return None
    def discover(self):
        cl = ParseClient(opaque=self.unitfns)
        self.run_fn(self.root, '$', cl)
        self.units = {}     # root path -> function
        for i, paths in cl.units.items():
            for p in paths: self.units[p] = self.unitfns[i]
        self.root_reads = cl.reads
        if len(self.units) < 10: raise tree.AnalysisError("collections of the document were not found in Parser::parse")
    def unit_of(self, path):
        """Unit (root path or '$') that reads a JSON path."""
        best = '$'
        for r in self.units:
            if (path == r or path.startswith((r + "[", r + "."))) and len(r) > len(best): best = r
        if best != '$' and path == best: return '$'
        return best
    def run_fn(self, f, root, cl, ext=None, opts=None, positions=False, pre=None):
        I = Interp(self.p, cl, positions=positions)
        st = State()
        for a in f["params"]:
            if 'simdjson' in a["t"]: st.store[(a["id"], ())] = frozenset([('j', root)])
            elif bare(a["t"]) == "fastgltf::Asset":
                st.store[(a["id"], ('&',))] = frozenset([('ptr', ('asset',), ())]); st.store[(a["id"], ())] = frozenset()
            else: st.store[(a["id"], ())] = frozenset([('m', ('arg', a["n"]), ())])
        if self.config: st.store[(("this",), self.config)] = frozenset([('c', ALL if ext is None else ext)] if ext != 'any' else [('m', ("this",), self.config)])
        if opts is not None and self.options: st.store[(("this",), self.options)] = frozenset([('c', opts)])
        st.x = False
        if pre: pre(I, st)
        self.I = I
        return I.run(f, st, this=self.this)
    def run_unit(self, root, cl, **kw):
        if root == '$':
            cl.opaque = self.unitfns
            return self.run_fn(self.root, '$', cl, **kw)
        cl.opaque = {i: f for i, f in self.unitfns.items() if f is not self.units[root]}
        return self.run_fn(self.units[root], root, cl, **kw)
    # --- exits
    def successes(self, exits):
        """(root, prefix, state) of the exits that may report success."""
        out = []
        for v, s in exits:
            err = v.a
            pre = ('asset',), ()
            if v.sub and ('.err',) in v.sub:
                err = v.sub[('.err',)]
                s = s.copy()
                r = ('ret',)
                s.store[(r, ())] = v.a
                for k, a in v.sub.items(): s.store[(r, k)] = a
                pre = r, ('.val',)
            if any(self.I.decide("==", a, ('c', 0), s) is not False for a in err): out.append((pre[0], pre[1], s))
        return out
    def leaf_paths(self, root, pre, s):
        n = len(pre)
        seen = set()
        for k in s.store:
            if k[0] == root and k[1][:n] == pre: seen.add(canon('asset', k[1][n:]))
        return seen
    def final(self, root, pre, s, member):
        """Atoms of an asset member (canonical path) in a state."""
        comps = parse_canon(member)
        locs = [pre]
        for c in comps:
            nx = []
            for l in locs:
                if c.startswith('['):
                    tags = {k[1][len(l)] for k in s.store if k[0] == root and len(k[1]) > len(l) and k[1][:len(l)] == l and (comp(k[1][len(l)]) == c or (c == '[]' and str(comp(k[1][len(l)])).startswith('[')))}
                    if not tags: tags = {c}
                    nx += [l + (t,) for t in tags]
                else: nx.append(l + (c,))
            locs = nx
        out = set()
        for l in locs: out |= self.I.read((root, l), s)
        return out

def parse_canon(m):
    """'asset.a[].b<T>.c' -> components."""
    out = []; i = 5
    while i < len(m):
        ch = m[i]
        if ch == '.':
            j = i + 1
            while j < len(m) and m[j] not in '.[<': j += 1
            out.append(m[i + 1:j]); i = j
        elif ch == '[':
            j = m.index(']', i) + 1
            out.append(m[i:j]); i = j
        elif ch == '<':
            d = 0; j = i
            while j < len(m):
                if m[j] == '<': d += 1
                elif m[j] == '>':
                    d -= 1
                    if d == 0: break
                j += 1
            out.append(m[i:j + 1]); i = j + 1
        else: raise ValueError(m)
    return out

def deps(a, o):
    if isinstance(a, tuple) and a:
        if a[0] == 'v' and len(a) == 3: o.add(a[1] + ":" + a[2]); return o
        if a[0] == 'key' and len(a) == 2: o.add("KEY " + a[1]); return o
        for x in a: deps(x, o)
    return o
def cat_atom(a):
    """Canonical, comparable description of an atom."""
    k = a[0]
    if k == 'v': return a[1] + ":" + a[2]
    if k == 'key': return "KEY " + a[1]
    if k == 'c': return "=" + repr(a[1])
    if k == 'null': return "null"
    if k in ('obj', 'alt', 'alt0'): return "obj"
    if k == 'empty': return "empty"
    if k in ('default',): return "dflt"
    if k == 'uninit': return "uninit"
    if k == 'm': 
        d = deps(a, set())
        return "table(" + ",".join(sorted(d)) + ")" if d else "m:" + canon(a[1], a[2])
    d = deps(a, set())
    return "f(" + ",".join(sorted(d)) + ")"
