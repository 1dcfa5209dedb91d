"""C13: one number of the document at a time is larger than every bound; it must not reach an index, a size computation or an enumeration unchecked."""
import os, re
import tree, interp, validate
from parsemodel import *
from interp import grows
from multiprocessing import Pool

BIG = ('big',)
SIZES = ("memcpy", "memmove", "memset", "malloc", "calloc", "realloc", "std::memcpy", "std::memmove", "std::memset", "operator new", "operator new[]", "std::next", "std::advance", "std::copy_n", "std::fill_n")
SIZED = ("fastgltf::StaticVector::StaticVector", "fastgltf::SmallVector::SmallVector", "std::vector::vector", "std::make_unique", "std::vector::assign")
CAPPED = ("min", "std::min", "fastgltf::min", "clamp", "std::clamp")
def mentions_big(a):
    if a == BIG: return True
    if isinstance(a, tuple):
        if a[:1] == ('call',) and len(a) > 1 and a[1] in CAPPED: return False
        if a[:1] == ('op',) and len(a) > 1 and a[1] in ('%', '&'): return False
        return any(mentions_big(x) for x in a if isinstance(x, tuple))
    return False

class Sinks:
    """Uses of the number under study."""
    def init(self): self.hits, self.nsinks = {}, 0
    def dec(self, I, op, a, b, st):
        if a == BIG:
            if b[0] == 'c' and isinstance(b[1], (int, float)) and not isinstance(b[1], bool) and b[1] < (1 << 32):
                return {"==": False, "!=": True, "<": False, ">": True, "<=": False, ">=": True}[op]
            if b[0] == 'sz':
                d = b[3]
                return {"<": False if d <= 0 else None, ">=": True if d <= 0 else None, "<=": False if d < 0 else None, ">": True if d < 0 else None}.get(op)
            if b[0] == 'null': return op == "!="
        return None
    def bounded(self, st, loc=None):
        for t, c in st.facts.items():
            if t[:1] == ('grown',) and loc is not None and t[1] == loc: return True
            if t[:1] != ('cmp',) or c != ('in', frozenset([True])): continue
            _, op, a, b = t
            for x, y, o in ((a, b, op), (b, a, SWAP[op])):
                if mentions_big(x) and o in ("<", "<=") and not mentions_big(y) and (loc is None or y[0] not in ('sz', 'c') and 'max_size' not in repr(y)): return True
        return False
    def sink(self, I, what, n, ok):
        self.nsinks += 1
        if not ok: self.hits.setdefault((n.get("l"), what), 1)
    def on_index(self, I, loc, i, st, n):
        if any(mentions_big(a) for a in i.a): self.sink(I, "is used as an index into %s" % canon(loc[0] if isinstance(loc[0], str) else '', loc[1]).lstrip("."), n, self.bounded(st, loc))
    def on_cast(self, I, n, v, st):
        if bare(n["t"]) in I.p.enums and any(mentions_big(a) for a in v.a): self.sink(I, "is converted to %s" % bare(n["t"]), n, False)
    def on_resize(self, I, loc, m, args, st, n):
        at = [a for v in args for a in v.a if mentions_big(a)]
        if at:
            self.sink(I, "determines the size of a container by arithmetic", n, not any(grows(a) for a in at) or self.bounded(st))
            if m == "resize" and all(grows(a) for a in at): st.facts[('grown', loc)] = ('in', frozenset([True]))
    def on_new(self, I, n, size, st): pass
    def call_sink(self, I, n, q, st):
        if q.split("::")[-1] in ("max", "min") and len(n.get("c", [])) == 2:
            r = I.args(n["c"], st.copy())
            if any(mentions_big(a) for vs, _ in r for v in vs for a in v.a):
                return [(V([('call', q.split("::")[-1], a, b) for a in vs[0].a for b in vs[1].a]), s) for vs, s in r]
        if q in SIZES:
            for vs, s in I.args(n.get("c", []), st.copy()):
                if any(mentions_big(a) for v in vs for a in v.a): self.sink(I, "is passed to %s" % q, n, self.bounded(s))
        elif q in SIZED and n.get("c") and bare(interp.etype(n["c"][0])) in ("unsigned long", "std::size_t", "unsigned int", "long", "int"):
            for v, s in I.eval(n["c"][0], st.copy()):
                if any(mentions_big(a) and grows(a) for a in v.a): self.sink(I, "determines the size of a container by arithmetic", n, self.bounded(s))

class NumClient(Sinks, ParseClient):
    def __init__(self, **kw):
        ParseClient.__init__(self, **kw); Sinks.init(self)
    def decide(self, I, op, a, b, st):
        r = Sinks.dec(self, I, op, a, b, st)
        return r if r is not None else ParseClient.decide(self, I, op, a, b, st)
    def on_call(self, I, n, q, st):
        r = self.call_sink(I, n, q, st)
        if r is not None: return r
        return ParseClient.on_call(self, I, n, q, st)
class MemClient(Sinks, validate.ValClient):
    """A number already stored in the asset, used by a later step of loading."""
    def __init__(self, m):
        validate.ValClient.__init__(self, m, None); Sinks.init(self)
    def memory(self, I, root, path, st):
        r = validate.ValClient.memory(self, I, root, path, st)
        return frozenset([BIG]) if r else None
    def present(self, I, a, st): return False
    def truth(self, I, a, st): return None
    def must_iterate(self, I, l, st): return False
    def here(self, I, path, s, prefixes): return short(path) in prefixes
    def decide(self, I, op, a, b, st): return Sinks.dec(self, I, op, a, b, st)
    def on_call(self, I, n, q, st): return self.call_sink(I, n, q, st)
    def on_deref_opt(self, *a): pass
    on_index = Sinks.on_index

from validate import short
_S = {}
def job(a):
    kind, u, path, k = a
    M = _S["m"]
    try:
        if kind == 'json':
            cl = NumClient(path=path, outcome='ok', kind=k, value=BIG, optional=_S["opt"])
            M.run_unit(u, cl, opts=None)
        else:
            cl = MemClient(path)
            I = Interp(M.p, cl)
            st = State()
            f = M.p.by_id[k]
            for x in f["params"]:
                if bare(x["t"]) == "fastgltf::Asset":
                    st.store[(x["id"], ('&',))] = frozenset([('ptr', ('asset',), ())]); st.store[(x["id"], ())] = frozenset()
                else: st.store[(x["id"], ())] = frozenset([('m', ('arg', x["n"]), ())])
            I.run(f, st, this=M.this)
        return a, (sorted(cl.hits), cl.nsinks), None
    except (tree.AnalysisError, interp.BudgetExceeded) as e: return a, None, str(e)

def asset_numbers(p):
    """Members of the asset that hold an integer from the document."""
    out = []
    def walk(rec, path, depth, seen):
        r = p.records.get(rec)
        if r is None or depth > 8 or rec in seen: return
        for f in r["fields"]: fld(f["t"], path + "." + f["n"] if path else f["n"], depth, seen | {rec})
        for b in r.get("bases", []): walk(bare(b if isinstance(b, str) else b.get("t", "")), path, depth + 1, seen | {rec})
    def fld(t, path, depth, seen):
        t = bare(t)
        if t in ("unsigned long", "long", "std::size_t", "unsigned int"): out.append(path); return
        m = re.match(r"(std::optional|fastgltf::OptionalWithFlagValue|std::unique_ptr)<(.*)>$", t)
        if m: return fld(first_arg(m.group(2)), path, depth, seen)
        m = re.match(r"(std::vector|fastgltf::SmallVector|fastgltf::StaticVector)<(.*)>$", t)
        if m: return fld(first_arg(m.group(2)), path + "[]", depth, seen)
        if t.startswith("fastgltf::"): walk(t, path, depth + 1, seen)
    walk("fastgltf::Asset", "", 0, frozenset())
    return out
def first_arg(s):
    d = 0
    for i, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif c == ',' and d == 0: return s[:i]
    return s

def is_step(f):
    """Functions, other than the units, that work on the loaded asset while loading."""
    return f.get("rec") == PARSER and f.get("body") and any(bare(x["t"]) == "fastgltf::Asset" for x in f.get("params", []))

def check(ctx):
    import mapping
    prog = tree.load("src/fastgltf.cpp")
    M = Model(prog)
    _S["m"] = M
    _S["opt"] = mapping.optional_containers(mapping.load_rows())
    jobs = []
    for u in sorted(M.units):
        cl = ParseClient(); M.run_unit(u, cl)
        for (p, k) in sorted(cl.reads):
            if k in ("uint64", "int64"): jobs.append(('json', u, p, k))
    steps = [f for f in prog.functions if is_step(f) and f["id"] not in M.unitfns]
    nums = asset_numbers(prog)
    for f in steps: jobs += [('step', f["q"], m, f["id"]) for m in nums]
    jobs.sort(key=lambda j: 0 if j[1].startswith(("$.nodes", "$.mat")) else 1)
    with Pool(8) as P: res = P.map(job, jobs, chunksize=1)
    total = 0
    for a, r, err in res:
        if err: raise tree.AnalysisError("%s: %s" % (a[2], err))
        hits, n = r
        total += n
        what = a[2] if a[0] == 'json' else "%s in %s" % (a[2], a[1])
        ctx.ob("bounded" if a[0] == 'json' else "bounded-member", what, not hits, "; ".join("%s (fastgltf.cpp:%s)" % (w, l) for l, w in hits) + " although it may be out of range")
    ctx.need(sum(1 for a, _, _ in res if a[0] == 'json'), "integers of the document", 40)
    ctx.analysed = {"integers of the document": sum(1 for a in jobs if a[0] == 'json'), "later steps": [f["q"] for f in steps], "integer members": len(nums), "sinks reached": total}
