"""C05: enumerated values, read from their text and written back, against spec/enums.txt; compile-time witnesses for the tables."""
import os, re, subprocess
import tree, mapping, interp
from parsemodel import *
from multiprocessing import Pool

class Row: pass
def load():
    out = []
    for l in open(os.path.join(os.path.dirname(__file__), "..", "spec", "enums.txt")):
        l = l.split("#")[0].split()
        if not l: continue
        r = Row()
        r.path, r.member, r.enum = l[0], l[1], "fastgltf::" + l[2]
        r.pairs = [p.rsplit("=", 1) for p in l[3].split(",")]
        r.int = "int" in l[4:]
        r.pre = ()
        r.default = next((x[8:] for x in l if x.startswith("default=")), None)
        if "when" in l: 
            p, o = l[l.index("when") + 1].rsplit(":", 1); r.pre = ((p, o, None, None),)
        out.append(r)
    return out

_S = {}
def job(a):
    i, text = a
    M, rows, opt, prog = _S["a"]
    r = rows[i]
    v = ('c', int(text) if r.int else text)
    try:
        cl = ParseClient(path=r.path, outcome='ok', kind='uint64' if r.int else 'string', value=v, pre=r.pre, optional=opt)
        succ = M.successes(M.run_unit(M.unit_of(r.path), cl))
        read = any(same_path(p, r.path) for p, _ in cl.reads)
        at = set()
        for rt, pf, s in succ:
            if s.x: at |= M.final(rt, pf, s, r.member)
        return i, text, read, bool([1 for e in succ if e[2].x]), at, None
    except (tree.AnalysisError, interp.BudgetExceeded) as e: return i, text, False, False, set(), str(e)

def check(ctx):
    prog = tree.load("src/fastgltf.cpp")
    M = Model(prog)
    rows = load()
    _S["a"] = (M, rows, mapping.optional_containers(mapping.load_rows()), prog)
    jobs = []
    for i, r in enumerate(rows):
        e = prog.enums.get(r.enum)
        if e is None: raise tree.AnalysisError("enum %s not found" % r.enum)
        for t, n in r.pairs:
            if n not in e: raise tree.AnalysisError("%s::%s not found" % (r.enum, n))
            jobs.append((i, t))
        texts = [t for t, _ in r.pairs]
        # values glTF does not define
        if r.int: jobs += [(i, str(x)) for x in {min(map(int, texts)) - 1, max(map(int, texts)) + 1, 70000, 1 << 40, int(texts[0]) + 256, int(texts[-1]) + 65536, int(texts[0]) + (1 << 32)} if x >= 0 and str(x) not in texts]
        else: jobs += [(i, t) for t in ("", "?", "unknown")]      # (near misses are accepted: names are told apart by as few characters as needed)
    with Pool(8) as P: res = P.map(job, jobs, chunksize=1)
    for i, t, read, ok, at, err in res:
        r = rows[i]
        if err: raise tree.AnalysisError("%s: %s" % (r.path, err))
        want = dict(r.pairs).get(t)
        what = "%s %r" % (r.path, t)
        if not read: raise tree.AnalysisError("%s is never read" % r.path)
        if want is not None:
            v = prog.enums[r.enum][want]
            vals = {a[1] if a[0] == 'c' else a for a in at}
            ctx.ob("read", what, ok and vals == {v}, "is read as %s, not as %s" % (", ".join(sorted({name(prog, r.enum, a) for a in at})) if ok else "an error", want))
        else:
            bad = [a for a in at if a[0] == 'c' and a[1] in [prog.enums[r.enum][n] for _, n in r.pairs]] if ok and t != "" else []
            ctx.ob("read-unknown", what, not bad, "is no value of glTF, but is read as %s" % ", ".join(name(prog, r.enum, a) for a in bad))
    written(ctx, prog, rows)
    witnesses(ctx)
    ctx.analysed = {"enumerated_properties": len(rows), "forced_reads": len(jobs)}

def written(ctx, prog, rows):
    """The exporter with each enumerator in turn."""
    import exportmap
    exportmap.prepare()
    jobs = []
    for r in rows:
        for t, n in r.pairs:
            jobs.append(dict(m=r.member[6:], path=r.path, form="num" if r.int else "str", value=('c', prog.enums[r.enum][n]), text=t, optional=t == r.default, name=n))
    with Pool(8) as P: res = P.map(exportmap.run, jobs, chunksize=1)
    for j, r, err in res:
        if err: raise tree.AnalysisError("%s: %s" % (j["m"], err))
        ends, miss, reads, places, steps = r
        if not ends: raise tree.AnalysisError("no export of an asset with %s succeeds" % j["m"])
        pl = sorted({"%s (line %s)" % (c, l) for (a, b, c), l in places.items() if a == j["path"]})
        what = "%s = %s -> %r" % (j["m"], j["name"], j["text"])
        ctx.ob("written", what, (not miss or j["optional"]) and not pl, "%s is written as %s" % (j["name"], ", ".join(pl)) if pl else "%s is not written to %s on some path" % (j["name"], j["path"]))

def name(prog, enum, a):
    if a[0] == 'c': return prog.enum_names[enum].get(a[1], str(a[1]))
    return cat_atom(a)

def witnesses(ctx):
    import witness
    witness.compile_file(ctx, "tables", os.path.join(os.path.dirname(__file__), "..", "witness", "tables.cpp"), 40)
