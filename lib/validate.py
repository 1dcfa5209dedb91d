"""C12: validate() with one index of the asset out of range at a time, and the bounds of its own accesses."""
import os, re
import tree, interp
from interp import *
from interp import V, State, Client, Interp, comp
from parsemodel import parse_canon
from multiprocessing import Pool

ROOT = ('asset',)
def short(path): return canon('', path).lstrip('.')
def load_spec():
    out = []
    for l in open(os.path.join(os.path.dirname(__file__), "..", "spec", "indices.txt")):
        l = l.split("#")[0].strip()
        if l:
            a, b = [x.strip() for x in l.split("->")]
            out.append((a, b))
    return out

class ValClient(Client):
    """member: the index that is out of range (in one element of every collection on its path)."""
    def __init__(self, member=None, target=None):
        self.member, self.target = member, target
        self.reads, self.bad, self.sites = 0, {}, {}
        self.deref = {}
        self.split = ()          # objects whose optional members are tracked path-sensitively
        self.anc = set(); self.alt = {}
        if member:
            cs = parse_canon("asset." + member)
            for i in range(1, len(cs)):
                p = canon('', tuple(cs[:i])).lstrip('.')
                self.anc.add(p)
                if cs[i].startswith('<'): self.alt[p] = cs[i][1:-1]
    def here(self, I, path, s, prefixes):
        if short(path) not in prefixes: return False
        return all(I.is_bad(c[1], s) for c in path if isinstance(c, tuple))
    def memory(self, I, root, path, st):
        if self.member and root == ROOT and self.here(I, path, st, (self.member,)):
            self.reads += 1
            return frozenset([('hidx',)])
        return None
    def must_iterate(self, I, l, st):
        # a collection on the path holds the element under study
        return self.member is not None and l[0] == ROOT and short(l[1]) in self.anc and (short(l[1]) + "[]" in self.anc or short(l[1]) + "[]" == self.member) and all(I.is_bad(c[1], st) for c in l[1] if isinstance(c, tuple))
    def present(self, I, a, st):
        return a[0] == 'm' and a[1] == ROOT and self.here(I, a[2], st, self.anc)
    def truth(self, I, a, st):
        if a[0] == 'has' and self.present(I, a[1], st): return True
        if self.present(I, a, st): return True
        return None
    def alts(self, I, l, st, al):
        if l[0] == ROOT and short(l[1]) in self.alt and self.here(I, l[1], st, self.alt):
            w = [x for x in al if x == self.alt[short(l[1])]]
            return w or al
        return al
    def decide(self, I, op, a, b, st):
        if a[0] == 'hidx' and b[0] == 'sz' and b[1] == ROOT and b[3] <= 0 and short(b[2]) == self.target:
            return {">=": True, "<": False, "==": None if b[3] == 0 else False, "!=": None if b[3] == 0 else True, ">": None if b[3] == 0 else True, "<=": None if b[3] == 0 else False}[op]
        if a[0] == 'hidx' and b[0] == 'null': return op == "!="
        if self.present(I, a, st) and b[0] == 'null': return op == "!="
        if a[0] == 'sz' and a[1] == ROOT and b[0] == 'c' and a[3] == 0 and isinstance(b[1], int) and self.must_iterate(I, (a[1], a[2]), st):
            return interp.decide_range(SWAP[op], b[1], 1, 10 ** 9, True)
        return None
    def key(self, I, st):
        if not self.split: return None
        o = []
        for a, c in st.facts.items():
            if a[0] == 'm' and a[1] == ROOT and short(a[2]).rpartition(".")[0] in self.split:
                t = I.truth_has(a, st)
                if t is not None: o.append((short(a[2]), t))
        return tuple(sorted(o))
    def on_index(self, I, loc, i, st, n):
        if loc[0] != ROOT: return
        for a in i.a:
            self.sites.setdefault((n["l"], short(loc[1])), 0)
            if a[0] == 'hidx': self.bad[n["l"]] = short(loc[1])
            elif a[0] == 'c' and self.member is None and isinstance(a[1], int):
                if I.decide(">", ('sz', loc[0], loc[1], 0), a, st) is not True: self.bad[n["l"]] = "%s at the constant index %d" % (short(loc[1]), a[1])
    def on_deref_opt(self, I, loc, n, st):
        if self.member is None and loc[0] == ROOT:
            ok = all((a[0] != 'null') and (a[0] != 'm' or I.truth(('has', a), st) is True) for a in I.read(loc, st))
            k = (n["l"], short(loc[1]))
            self.deref[k] = self.deref.get(k, True) and ok

_S = {}
def run(cl):
    p = _S["p"]
    f = p.fn("fastgltf::validate")
    I = Interp(p, cl)
    st = State()
    a = f["params"][0]
    st.store[(a["id"], ('&',))] = frozenset([('ptr', ROOT, ())]); st.store[(a["id"], ())] = frozenset()
    ex = I.run(f, st)
    ok = [s for v, s in ex if any(I.decide("==", x, ('c', 0), s) is not False for x in v.a)]
    return I, ex, ok
def job(mt):
    cl = ValClient(*mt)
    try: I, ex, ok = run(cl)
    except (tree.AnalysisError, interp.BudgetExceeded) as e: return mt, None, str(e)
    return mt, (len(ok), len(ex), cl.reads, cl.bad, I.steps), None

def check(ctx):
    p = tree.load("src/fastgltf.cpp")
    _S["p"] = p
    spec = load_spec()
    cl = ValClient()
    I, ex, ok = run(cl)
    if not ok: raise tree.AnalysisError("validate() has no accepting path")
    weak = {t.rpartition(".")[0] for (l, t), v in cl.deref.items() if not v}
    if weak:
        c2 = ValClient(); c2.split = weak
        run(c2)
        cl.deref = {k: v or c2.deref.get(k, False) for k, v in cl.deref.items()}
    for (l, t), v in sorted(cl.deref.items()):
        ctx.ob("no-empty-access", "%s at fastgltf.cpp:%d" % (t, l), v, "validate() reads the value of an optional that may be empty")
    for l, t in sorted(cl.bad.items()): ctx.ob("constant-index", "fastgltf.cpp:%d" % l, False, "validate() reads element of %s without checking its size" % t)
    with Pool(8) as P: res = P.map(job, spec, chunksize=1)
    for (m, t), r, err in res:
        if err: raise tree.AnalysisError("%s: %s" % (m, err))
        acc, n, reads, bad, steps = r
        ctx.ob("index-validated", "%s < %s.size()" % (m, t), not acc, "validate() accepts an asset in which this index is out of range" + ("" if reads else " (it is never read)"))
        ctx.ob("no-unchecked-use", m, not bad, "validate() indexes %s with this index before checking it (line %s)" % (", ".join(sorted(set(bad.values()))), ", ".join(map(str, sorted(bad)))))
    ctx.need(len(res), "index members", 60)
    ctx.analysed = {"function": "fastgltf::validate", "index members": len(spec), "optional reads": len(cl.deref), "steps": sum(r[1][4] for r in res)}
