"""C08: the parser with one extension not enabled; documents that require extensions; the extension table."""
import re, os
import tree, mapping, interp, witness
from parsemodel import *
from multiprocessing import Pool

def ext_in(p):
    return re.findall(r"extensions\.([A-Z][A-Za-z0-9_]+)", p)
_S = {}
class ExtClient(ParseClient):
    """Collects the units entered and the extension whose data they read."""

def atoms_paths(a, o):
    if isinstance(a, tuple):
        if len(a) >= 2 and a[0] in ('v', 'key', 'j', 'jr', 'present', 'jt') and isinstance(a[1], str): o.add(a[1])
        for x in a: atoms_paths(x, o)
    return o

def job_reads(unit):
    M = _S["m"]
    cl = ParseClient()
    try: M.run_unit(unit, cl, opts=0 if unit == '$' else None)
    except (tree.AnalysisError, interp.BudgetExceeded) as e: return unit, None, str(e)
    out = {}
    for (p, k), l in cl.reads.items():
        for e in ext_in(p): out.setdefault(e, l)
    for i, ps in cl.units.items():
        for p in ps:
            for e in ext_in(p): out.setdefault(e, M.unitfns[i]["l"] if "l" in M.unitfns[i] else None)
    return unit, out, None

def job_off(a):
    unit, ext, bit = a
    M = _S["m"]
    cl = ParseClient()
    try: ex = M.run_unit(unit, cl, ext=ALL & ~bit, opts=0 if unit == '$' else None)
    except (tree.AnalysisError, interp.BudgetExceeded) as e: return a, None, str(e)
    bad = {}
    succ = M.successes(ex)
    for rt, pf, s in succ:
        for m in M.leaf_paths(rt, pf, s):
            for at in M.final(rt, pf, s, m):
                for p in atoms_paths(at, set()):
                    if ext in ext_in(resolve(p, s)): bad[re.sub(r"\[\d+\]", "[]", m)] = p
    for i, ps in cl.units.items():
        for p in ps:
            if ext in ext_in(p): bad["(" + M.unitfns[i]["q"] + ")"] = p
    return a, (bad, len(succ)), None

def job_req(a):
    name, mask = a
    M = _S["m"]
    cl = ParseClient(path="$.extensionsRequired[]", outcome='ok', kind='string', value=('c', name))
    try: ex = M.run_unit('$', cl, ext=mask, opts=0)
    except (tree.AnalysisError, interp.BudgetExceeded) as e: return a, None, str(e)
    return a, (sum(1 for e in M.successes(ex) if e[2].x), any(s.x for _, s in ex)), None

def check(ctx):
    prog = tree.load("src/fastgltf.cpp")
    M = Model(prog)
    _S["m"] = M
    exts = {n: v for n, v in prog.enums["fastgltf::Extensions"].items() if v}
    with Pool(8) as P:
        reads = P.map(job_reads, sorted(M.units) + ['$'], chunksize=1)
        jobs = []
        for u, r, err in reads:
            if err: raise tree.AnalysisError("%s: %s" % (u, err))
            for e in sorted(r):
                if e in ext_in(u): continue      # entered only from the root, which is judged on its own
                if e in exts: jobs.append((u, e, exts[e]))
                else: ctx.ob("known-extension", "%s read in %s" % (e, u), False, "data of this extension is read although it has no flag in Extensions")
        weight = lambda j: 0 if j[0].startswith("$.nodes") else 1 if j[0].startswith("$.mat") else 2
        jobs.sort(key=weight)
        res = P.map(job_off, jobs, chunksize=1)
        req = [("VENDOR_unknown_extension", ALL), ("", ALL)]
        for n, v in exts.items(): req += [(n, ALL & ~v), (n, v)]
        rres = P.map(job_req, req, chunksize=1)
    for (u, e, b), r, err in res:
        if err: raise tree.AnalysisError("%s without %s: %s" % (u, e, err))
        bad, n = r
        if not n: raise tree.AnalysisError("%s without %s: no accepted document" % (u, e))
        ctx.ob("disabled-extension-ignored", "%s in %s" % (e, u), not bad, "with the extension disabled its data still reaches " + ", ".join("%s (from %s)" % x for x in sorted(bad.items())[:4]))
    ctx.need(len(res), "extension reads", 30)
    for (n, mask), r, err in rres:
        if err: raise tree.AnalysisError("extensionsRequired %s: %s" % (n, err))
        acc, seen = r
        if not seen: raise tree.AnalysisError("extensionsRequired is never read")
        if n not in exts: ctx.ob("required-unknown", repr(n), not acc, "a document requiring an unknown extension is accepted")
        elif mask == exts[n]: ctx.ob("required-enabled", n, acc > 0, "a document requiring this extension is rejected although it is enabled")
        else: ctx.ob("required-disabled", n, not acc, "a document requiring this extension is accepted although it is not enabled")
    witness.compile_file(ctx, "table", os.path.join(os.path.dirname(__file__), "..", "witness", "tables.cpp"), 40, only="extension")
    ctx.analysed = {"extensions": sorted(exts), "units": sorted(M.units), "runs": len(jobs) + len(req) + len(reads)}
