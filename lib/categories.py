"""C09: Parser::parse with a category mask of which one bit is known; which collections are parsed and reported."""
import os
import tree, interp
from interp import *
from interp import V, BITS, bits, bits_of
from parsemodel import ParseClient, Model, norm, ALL
from multiprocessing import Pool
HERE = os.path.dirname(os.path.abspath(__file__))
EXCEPT = {("Animations", "Nodes")}      # Category::OnlyAnimations: the targets of channels are the user's business

def closure(names, colls):
    """category -> categories its data refer to, directly (spec/indices.txt)."""
    low = {n.lower(): n for n in names}
    g = {n: set() for n in names}
    for l in open(os.path.join(HERE, "..", "spec", "indices.txt")):
        l = l.split("#")[0].strip()
        if not l: continue
        a, b = [x.strip() for x in l.split("->")]
        a = low.get(a.split("[")[0].lower()); b = low.get(b.split("[")[0].split(".")[0].lower()) if "." not in b else None
        if a and b and a != b and (a, b) not in EXCEPT: g[a].add(b)
    while True:
        n = {a: r | {x for b in r for x in g[b]} for a, r in g.items()}
        if n == g: return g
        g = n

_S = {}
class CatClient(ParseClient):
    flagbits = True
    def __init__(self, unit, **kw):
        ParseClient.__init__(self, path=unit, outcome='ok', kind='array', **kw)
        self.unit = unit; self.entered = None
    def on_unit(self, I, n, f, s):
        p = _S["byfn"].get(n.get("id"))
        if p == self.unit and n.get("id") in self.units and any(norm(x) == self.unit for x in self.units[n["id"]]):
            self.entered = n["l"]; s.x = 'parsed'
    def json_outcomes(self, I, path, kind, n, st, outs):
        x = st.x
        r = ParseClient.json_outcomes(self, I, path, kind, n, st, outs)
        if x == 'parsed': st.x = x
        return r

def run(unit, mask):
    M = _S["m"]
    cl = CatClient(unit)
    def pre(I, st):
        for a in M.root["params"]:
            if bare(a["t"]) == "fastgltf::Category": st.store[(a["id"], ())] = frozenset([mask])
    ex = M.run_unit('$', cl, pre=pre, opts=0)
    out = []
    for rt, pf, s in M.successes(ex):
        out.append((s.x, M.final(rt, pf, s, "asset.availableCategories"), M.final(rt, pf, s, "asset.defaultScene")))
    return out, cl.entered
def job(a):
    try: return a, run(a[1], a[2]), None
    except (tree.AnalysisError, interp.BudgetExceeded) as e: return a, None, str(e)

def check(ctx):
    p = tree.load("src/fastgltf.cpp")
    M = Model(p)
    _S["m"] = M
    _S["byfn"] = {f["id"]: u for u, f in M.units.items()}
    C = p.enums["fastgltf::Category"]
    single = {n: v for n, v in C.items() if v > 0 and v & (v - 1) == 0}
    unit = {}
    for u in M.units:
        n = next((c for c in single if c.lower() == u.rsplit(".", 1)[-1].lower()), None)
        if n: unit[n] = u
    ctx.need(len(unit), "categories with a parse function", 10)
    G = closure(set(single), None)
    every = 0
    for v in single.values(): every |= v
    free = BITS ^ every                         # bits that are no category: only in Category::All and the like
    jobs = []
    root = {c: u for c, u in unit.items() if u.count(".") == 1}   # the others live in extensions and are always read
    for c in sorted(single):
        for d in sorted({c} | G[c]):
            if d in root: jobs.append(("requested", root[d], bits(single[c], free), c, d))
    for d, u in sorted(root.items()):
        z = free | single[d]
        for c in single:
            if d in G[c]: z |= single[c]
        jobs.append(("not requested", u, bits(0, z), None, d))
        for n, v in sorted(C.items()):
            if n in single or n == "None": continue
            need = {c for c in single if v & single[c]}
            need |= {x for c in need for x in G[c]}
            jobs.append(("requested" if d in need else "not requested", u, bits(v & BITS, ~v & BITS), n, d))
        jobs.append(("not requested", u, bits(0, BITS), "None", d))
    for d, u in sorted(unit.items()):
        if d not in root:
            for n in ("None", "All"): jobs.append(("extension", u, bits(C[n] & BITS, ~C[n] & BITS), n, d))
    with Pool(8) as P: res = P.map(job, jobs, chunksize=4)
    w = lambda l: "src/fastgltf.cpp:%s" % (l or M.root["l"])
    for (kind, u, m, c, d), r, err in res:
        if err: raise tree.AnalysisError("%s with %s: %s" % (u, c, err))
        out, line = r
        if not out: raise tree.AnalysisError("no successful load with %s and %s" % (c, u))
        name = "Category::%s, %s in the document" % (c or "any without what needs %s" % d, d)
        bit = single[d]
        if kind == "requested": ctx.ob("R1 requested categories are parsed", name, all(x == 'parsed' for x, _, _ in out), "a load that succeeds does not read the %s" % u, w(None))
        elif kind == "not requested": ctx.ob("R2 other categories are not parsed", name, all(x != 'parsed' for x, _, _ in out) and line is None, "the collection is read although nothing that was requested refers to it", w(line))
        for x, av, ds in out:
            for a in av:
                b = bits_of(a)
                if b is None: raise tree.AnalysisError("availableCategories is %r" % (a,))
                if x == 'parsed': ctx.ob("R3 parsed categories are available", name, bool(b[0] & bit), "the collection was read and availableCategories does not say so", w(line))
                elif x and kind != "extension": ctx.ob("R3 only parsed categories are available", name, bool(b[1] & bit), "the collection was not read and availableCategories says that it was", w(line))
    # the default scene
    M2 = Model(p)
    out = []
    cl = ParseClient(path="$.scene", outcome='ok', kind='uint'); cl.flagbits = True
    for n, m, want in (("any without Scenes", bits(0, free | single["Scenes"]), False), ("Scenes", bits(single["Scenes"], free), True)):
        cl = ParseClient(path="$.scene", outcome='ok', kind='uint', value=('v', '$.scene', 'uint')); cl.flagbits = True
        def pre(I, st):
            for a in M.root["params"]:
                if bare(a["t"]) == "fastgltf::Category": st.store[(a["id"], ())] = frozenset([m])
        ex = M.run_unit('$', cl, pre=pre, opts=0)
        for rt, pf, s in M.successes(ex):
            if not s.x: continue
            fin = M.final(rt, pf, s, "asset.defaultScene")
            has = any(a[0] == 'v' for a in fin)
            ctx.ob("R4 default scene", "Category::" + n, has == want or (want and has), "the default scene %s" % ("is kept although the scenes are not loaded" if has else "is lost"), w(None))
    ctx.analysed = {"category sets": len(jobs), "categories": sorted(unit), "references between categories": {a: sorted(b) for a, b in G.items() if b}}
