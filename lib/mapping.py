"""spec/mapping.txt: the reviewed table of glTF properties; and the forced-read runs that decide C02 and C03."""
import os, re
import tree, parsemodel
from parsemodel import *
from multiprocessing import Pool

class Row:
    def __init__(self, pres, kind, path, members=(), default=None, when=None, key=None):
        self.pres, self.kind, self.path, self.members, self.default, self.when, self.key = pres, kind, path, list(members), default, when, key
    @property
    def kinds(self): return ("uint64", "int64", "double") if self.kind == "number" else (self.kind,)
    @property
    def pre(self):
        if not self.when: return ()
        if "=" in self.when:
            p, v = self.when.split("=")
            return ((p, 'ok', None, ('c', v)),)
        p, o = self.when.rsplit(":", 1)
        return ((p, o, None, None),)

def texture_rows(r):
    m, extra = r.members[0], [x[1:] for x in r.extra]
    p = r.path
    yield Row(r.pres, "object", p, [m], "null", r.when)
    yield Row("req", "uint64", p + ".index", [m + ".textureIndex"])
    yield Row("opt", "uint64", p + ".texCoord", [m + ".texCoordIndex"], "0")
    for x in extra: yield Row("opt", "double", p + "." + x, [m + "." + x], "1")
    e = p + ".extensions.KHR_texture_transform"
    yield Row("opt", "object", p + ".extensions")
    yield Row("opt", "object", e, [m + ".transform"], "null")
    yield Row("opt", "array", e + ".offset", [m + ".transform.uvOffset[%d]" % i for i in (0, 1)], ["0", "0"])
    yield Row("elem", "double", e + ".offset[]", [m + ".transform.uvOffset[%d]" % i for i in (0, 1)])
    yield Row("opt", "array", e + ".scale", [m + ".transform.uvScale[%d]" % i for i in (0, 1)], ["1", "1"])
    yield Row("elem", "double", e + ".scale[]", [m + ".transform.uvScale[%d]" % i for i in (0, 1)])
    yield Row("opt", "double", e + ".rotation", [m + ".transform.rotation"], "0")
    yield Row("opt", "uint64", e + ".texCoord", [m + ".transform.texCoordIndex"], "null")

def load_rows():
    rows = []
    for l in open(os.path.join(os.path.dirname(__file__), "..", "spec", "mapping.txt")):
        l = l.split("#")[0].strip()
        if not l: continue
        f = l.split()
        r = Row(f[0], f[1], f[2])
        r.extra = []
        i = 3
        while i < len(f):
            if f[i] == "->":
                m = f[i + 1]
                x = re.match(r"(.*)\[0\.\.(\d)\]$", m)
                r.members = [x.group(1) + "[%d]" % k for k in range(int(x.group(2)) + 1)] if x else [m]
            elif f[i] == "=": r.default = f[i + 1].split(",") if "," in f[i + 1] else f[i + 1]
            elif f[i] == "when": r.when = f[i + 1]
            elif f[i] == "key": r.key = f[i + 1]
            elif f[i].startswith("+"): r.extra.append(f[i]); i -= 1
            i += 2
        if r.kind == "texture": rows += texture_rows(r)
        else: rows.append(r)
    return rows

def optional_containers(rows): return {r.path for r in rows if r.pres == "opt" and r.kind in ("object", "array")}

def const_matches(atom, want):
    """Is a concrete default atom the expected one? None when the atom says nothing."""
    if atom[0] == 'uninit': return False
    if want == "null": 
        if atom[0] == 'null': return True
        if atom[0] in ('c', 'empty', 'obj', 'alt', 'v'): return False
        return None
    if want == "empty":
        if atom[0] == 'empty' or atom == ('c', ''): return True
        if atom[0] in ('c', 'null', 'v'): return False
        return None
    if atom[0] == 'null': return False
    if atom[0] == 'v': return False
    if atom[0] == 'c':
        x = atom[1]
        if isinstance(x, str): return False
        if want in ("True", "False"): return bool(x) == (want == "True")
        return float(x) == float(want) or abs(float(x) - float(want)) < 1e-6
    return None

def val_of(a): return (a[1], a[2]) if a[0] == 'v' else None

_S = {}
def setup(model, rows, optional):
    _S.update(m=model, rows=rows, opt=optional)

def run_row(job):
    """One forced run; returns (row number, mode, verdicts)."""
    i, mode, restrict = job
    r = _S["rows"][i]
    M = _S["m"]
    try: return (i, mode) + _run(M, r, mode, _S["opt"] if restrict else ())
    except tree.AnalysisError as e: return (i, mode, None, "analysis: %s" % e)
    except interp.BudgetExceeded: return (i, mode, None, "analysis: budget exceeded")

def _run(M, r, mode, optional):
    unit = M.unit_of(r.path)

    kw = {}
    if r.path.startswith("$.asset"): kw["opts"] = 0
    root = unit == '$' and r.path.count(".") == 1
    if root:                                # everything is requested: C09 decides the other categories
        def pre(I, st):
            for a in M.root["params"]:
                if interp.bare(a["t"]) == "fastgltf::Category": st.store[(a["id"], ())] = frozenset([interp.bits(interp.BITS, 0)])
        kw["pre"] = pre
    if mode == "ok":
        bad = []
        for k in r.kinds:
            cl = ParseClient(path=r.path, outcome='ok', kind=k, pre=r.pre, optional=optional)
            cl.flagbits = root
            ex = M.run_unit(unit, cl, **kw)
            succ = M.successes(ex)
            if not any(same_path(p, r.path) for p, _ in cl.reads): bad.append(("unread", "the property is never read")); continue
            if not succ: bad.append(("rejected", "no document with this property as %s is accepted" % k)); continue
            found = []
            for n, m in enumerate(r.members):
                if r.kind in ("object", "array"): break
                at = set()
                for rt, pf, s in succ: at |= M.final(rt, pf, s, m)
                good = [a for a in at if a[0] == 'v' and same_path(a[1], r.path)]
                wrong = [a for a in at if not (a[0] == 'v' and same_path(a[1], r.path)) and (a[0] in ('c', 'null', 'uninit', 'empty', 'v') or deps(a, set()))]
                if r.pres == "elem":
                    # an element lands in some component; a constant index lands in the component of that number
                    found += good
                    wrong = [a for a in wrong if a[0] == 'v' or deps(a, set())]
                    if len(r.members) > 1:
                        for a in good:
                            x = re.search(r"\[(\d+)\]$", a[1])
                            if x and int(x.group(1)) != n: bad.append(("order " + m, "element %s ends up in %s" % (x.group(1), m)))
                        if not good and not wrong: continue
                if r.pres == "elem" and wrong: bad.append(("mixed " + m, "%s may hold %s instead" % (m, fmt(wrong))))
                elif r.pres != "elem" and not good: bad.append(("lost " + m, "the value does not reach %s (which holds %s)" % (m, fmt(at))))
                elif wrong: bad.append(("mixed " + m, "%s may hold %s instead" % (m, fmt(wrong))))
            if r.pres == "elem" and r.members and r.kind not in ("object", "array") and not found:
                bad.append(("lost " + r.members[0], "the value does not reach " + ", ".join(r.members)))
            # nothing else may depend on it
            if r.kind not in ("object", "array"):
                allowed = set(r.members)
                for rt, pf, s in succ:
                    for m in M.leaf_paths(rt, pf, s):
                        if m in allowed or generic(m) in {generic(a) for a in allowed}: continue
                        for a in M.final(rt, pf, s, m):
                            if a[0] == 'v' and same_path(a[1], r.path): bad.append(("stray " + generic(m), "the value also ends up in %s" % m)); break
            if r.key:
                at = set()
                for rt, pf, s in succ: at |= M.final(rt, pf, s, r.key)
                if not any(a[0] == 'key' for a in at): bad.append(("key " + r.key, "the property name does not reach %s (which holds %s)" % (r.key, fmt(at))))
        return (bad, None)
    if mode == "nsf":
        cl = ParseClient(path=r.path, outcome='nsf', pre=r.pre, optional=optional)
        succ = M.successes(M.run_unit(unit, cl, **kw))
        if r.pres == "req": return ([("missing", "a document without this required property is accepted")] if succ else [], None)
        if r.pres == "opt" and not succ: return ([("demanded", "a document without this optional property is rejected")], None)
        bad = []
        if r.default is not None:
            for n, m in enumerate(r.members):
                want = r.default[n] if isinstance(r.default, list) else r.default
                at = set()
                for rt, pf, s in succ: at |= M.final(rt, pf, s, m)
                wrong = [a for a in at if const_matches(a, want) is False]
                if wrong and r.kind in ("object", "array") and not isinstance(r.default, list): wrong = [a for a in wrong if a[0] != 'v']
                if wrong: bad.append(("default " + m, "%s is %s when the property is absent, not %s" % (m, fmt(wrong), want)))
        return (bad, None)
    if mode in ("type", "range"):
        ks = r.kinds
        bad = []
        cl = ParseClient(path=r.path, outcome=mode, kind=None, pre=r.pre, optional=optional)
        succ = M.successes(M.run_unit(unit, cl, **kw))
        if succ: bad.append((mode, "a document in which this property has the wrong JSON type is accepted" if mode == "type" else "a document in which this number is out of range is accepted"))
        return (bad, None)

def generic(m): return re.sub(r"\[\d+\]", "[]", m)
def fmt(at): return "{" + ", ".join(sorted({cat_atom(a) for a in at}))[:200] + "}"

def decide(ctx, modes, thorough):
    prog = tree.load("src/fastgltf.cpp")
    M = Model(prog)
    rows = load_rows()
    setup(M, rows, optional_containers(rows))
    jobs = []
    for i, r in enumerate(rows):
        for mode in modes:
            if mode == "nsf" and (r.pres in ("elem", "any")): continue
            if mode == "nsf" and r.path.endswith("]"): continue
            if mode == "ok" and r.kind in ("object", "array"): continue
            if mode == "range": continue
            jobs.append((i, mode, not thorough))
    weight = lambda j: (0 if rows[j[0]].path.startswith("$.nodes") else 1 if rows[j[0]].path.startswith("$.mat") else 2 if M.unit_of(rows[j[0]].path) == '$' else 3)
    jobs.sort(key=weight)
    with Pool(min(8, os.cpu_count() or 1)) as P: res = P.map(run_row, jobs, chunksize=1)
    for i, mode, bad, err in res:
        r = rows[i]
        if err: raise tree.AnalysisError("%s (%s): %s" % (r.path, mode, err))
        ctx.ob(mode, r.path)
        for what, msg in bad: ctx.fail(mode, r.path + " " + what, msg)
    ctx.need(len(rows), "table", 400)
    ctx.analysed = {"functions": len(prog.functions), "units": sorted(M.units), "table_rows": len(rows), "runs": len(jobs)}
    return M, rows
