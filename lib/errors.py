"""C01: every call that reports an error, forced to fail: the function reporting errors around it must not succeed."""
import re, os
import tree, interp
from tree import walk
from interp import V, VTOP, State, Client, Interp, bare, etype, is_ref, mentions
from multiprocessing import Pool

def is_err(t): return bare(t) == "fastgltf::Error" or bare(t).startswith("fastgltf::Expected<") or re.match(r"std::pair<fastgltf::Error,", bare(t))
FAIL = ('nz',)

class SiteClient(Client):
    def __init__(self, site, opaque, missing=None):
        self.site, self.opaque, self.missing = site, opaque, missing
        self.hit = False
    def value(self, I, n, a):
        t = bare(n["t"])
        if t == "fastgltf::Error" or t.startswith("simdjson"): return V([a])
        if t.startswith("fastgltf::Expected<"): return V([('obj', t)], {('.err',): frozenset([a]), ('.val',): frozenset([('call', 'result', (), n["l"])])})
        return V([('obj', t)], {('first',): frozenset([a]), ('second',): frozenset([('call', 'result', (), n["l"])])})
    def outputs(self, I, n, st):
        """[state] after the call's arguments: whatever it may write through them is unknown."""
        f = I.p.by_id.get(n.get("id"))
        kids = n.get("c", [])
        if f is not None and len(kids) > len(f["params"]): kids = kids[len(kids) - len(f["params"]):] if n["k"] == "CXXOperatorCallExpr" else kids[1:]
        outs = [s for v, s in I.args(n.get("c", []), st)]
        for p, c in zip(f["params"] if f is not None else [], kids):
            t = p["t"].strip()
            if t.startswith("const ") or "simdjson" in t or not (t.endswith("&") or t.endswith("*")) or t.endswith("&&"): continue
            nx = []
            for s in outs:
                locs = [l for l, _ in I.lval(c, s.copy())] if t.endswith("&") else [(a[1], a[2]) for v, _ in I.eval(c, s.copy()) for a in v.a if a[0] == 'ptr']
                s = s.copy()
                for l in locs:
                    I.clear(l, s); s.store[l] = VTOP.a
                    for t2 in [x for x in s.facts if mentions(x, l[0], l[1])]: del s.facts[t2]
                nx.append(s)
            outs = nx
        return outs
    def on_call(self, I, n, q, st):
        if n is self.site:
            self.hit = True
            out = []
            for s in self.outputs(I, n, st):
                s.x = True
                out.append((self.value(I, n, FAIL), s))
            return out
        if n.get("id") in self.opaque and is_err(n["t"]) and not q.startswith("fastgltf::Expected"):
            out = []
            for s in self.outputs(I, n, st): out.append((self.value(I, n, ('call', q, (), n["l"])), s))
            return out
        return None
    def decide(self, I, op, a, b, st):
        # the forced failure is not the "property is absent" outcome of a lookup
        if a == FAIL and b[0] == 'c' and b[1] == self.missing: return {"==": False, "!=": True}.get(op)
        return None
    def key(self, I, st): return st.x
    def json_outcomes(self, I, path, kind, n, st, outs): return None

def success(I, v, s):
    """May this exit report success?"""
    err = v.a
    if v.sub:
        err = v.sub.get(('.err',)) or v.sub.get(('first',)) or v.a
    return any(I.decide("==", a, ('c', 0), s) is not False for a in err)

def run(prog, f, cl):
    I = Interp(prog, cl)
    st = State()
    for a in f.get("params", []):
        st.store[(a["id"], ())] = frozenset([('j', '$')]) if 'simdjson::dom' in a["t"] else frozenset([('m', ('arg', a["n"]), ())])
    st.x = False
    ex = I.run(f, st, this=(("this",), ()))
    return I, [(v, s) for v, s in ex if s.x and success(I, v, s)]

_S = {}
def job(i):
    prog, sites, opaque, missing = _S["a"]
    f, n = sites[i]
    try:
        cl = SiteClient(n, opaque, missing)
        I, bad = run(prog, f, cl)
        return i, cl.hit, len(bad), None
    except (tree.AnalysisError, interp.BudgetExceeded) as e: return i, False, 0, str(e)

def reach(prog, frame, frames):
    """Functions whose body is part of a frame: the frame itself and the helpers it calls that do not report errors."""
    seen, todo, out = {frame["id"]}, [frame], [frame]
    while todo:
        g = todo.pop()
        for n in walk(g["body"]):
            i = n.get("id") if n["k"].endswith("CallExpr") else None
            h = prog.by_id.get(i) if i is not None else None
            if h is None or not h.get("body") or i in seen or i in frames or not h["file"].startswith(tree.REPO): continue
            seen.add(i); todo.append(h); out.append(h)
    return out

def sites(prog):
    frames = {f["id"]: f for f in prog.functions if f.get("body") and is_err(f["ret"]) and f["file"].startswith(tree.REPO) and not f.get("rec", "").startswith("fastgltf::Expected")}
    out = []
    for f in frames.values():
        for g in reach(prog, f, frames):
            for n in walk(g["body"]):
                if n["k"] not in ("CallExpr", "CXXMemberCallExpr") and not (n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()"): continue
                if is_err(n["t"]) and not n.get("q", "").startswith("fastgltf::Expected"): out.append((f, n))
                elif bare(n["t"]).startswith("simdjson::error_code") and any("simdjson::dom::parser::" in x.get("q", "") for x in walk(n) if x is not n): out.append((f, n))
    return frames, out

def check(ctx):
    prog = tree.load("src/fastgltf.cpp")
    frames, ss = sites(prog)
    missing = prog.enums["fastgltf::Error"]["MissingField"]
    _S["a"] = (prog, ss, frames, missing)
    with Pool(8) as P: res = P.map(job, range(len(ss)), chunksize=2)
    count = {}
    for i, hit, bad, err in res:
        f, n = ss[i]
        callee = n.get("q") or "document parser"
        k = (f["q"], callee); count[k] = count.get(k, 0) + 1
        what = "%s in %s (%d)" % (callee, f["q"], count[k])
        if err: raise tree.AnalysisError("%s: %s" % (what, err))
        if not hit: raise tree.AnalysisError("%s: the call at line %d was never reached by the analysis" % (what, n["l"]))
        ctx.ob("failure-propagates", what, not bad, "this call fails, yet %s can still report success" % f["q"], "%s:%d" % (f["file"], n["l"]))
    ctx.need(len(ss), "call sites that report errors", 60)
    ctx.analysed = {"functions_reporting_errors": sorted(f["q"] for f in frames.values() if not f.get("rec", "").startswith("fastgltf::Expected")), "call_sites": len(ss)}
