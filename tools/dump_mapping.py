"""Development aid: proposes rows of spec/mapping.txt from the current source. Rows are reviewed by hand against the glTF specification."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import tree
from parsemodel import *
from multiprocessing import Pool
M = None
def leafs(root):
    cl = ParseClient(); M.run_unit(root, cl)
    return sorted((p, k) for (p, k) in cl.reads)
def job(a):
    root, p, k = a
    try:
        cl = ParseClient(path=p, outcome='ok', kind=k)
        ex = M.run_unit(root, cl)
        direct, derived = {}, {}
        for r, pre, s in M.successes(ex):
            if not s.x: continue
            for m in M.leaf_paths(r, pre, s):
                for at in M.final(r, pre, s, m):
                    if at[0] == 'v' and norm(at[1]) == p: direct.setdefault(m, set()).add(cat_atom(at))
                    elif any(d.split(":")[0] == p for d in (norm(x) for x in deps(at, set()))): derived.setdefault(m, set()).add(cat_atom(at))
        cl = ParseClient(path=p, outcome='nsf', kind=k)
        ex = M.run_unit(root, cl)
        req = True; dfl = {}; unc = False
        for r, pre, s in M.successes(ex):
            if not s.x: unc = True
            req = False
            for m in direct:
                dfl.setdefault(m, set()).update(cat_atom(x) for x in M.final(r, pre, s, m))
        bad = []
        for o in ('type', 'range'):
            if o == 'range' and k not in ('uint64', 'int64'): continue
            if k == 'element': continue
            ex = M.run_unit(root, ParseClient(path=p, outcome=o, kind=k))
            if any(s.x for r, pre, s in M.successes(ex)): bad.append(o)
        return (root, p, k, direct, derived, req, unc, dfl, bad)
    except Exception as e:
        import traceback
        return (root, p, k, 'ERR ' + traceback.format_exc(), 0, 0, 0, 0, 0)
if __name__ == "__main__":
    M = Model(tree.load("src/fastgltf.cpp"))
    jobs = []
    for root in ['$'] + sorted(M.units):
        if len(sys.argv) > 1 and root not in sys.argv[1:]: continue
        for p, k in leafs(root): jobs.append((root, norm(p), k))
    jobs = sorted(set(jobs))
    with Pool(8) as P:
        for root, p, k, direct, derived, req, unc, dfl, bad in P.imap(job, jobs):
            if isinstance(direct, str): print("ERR", root, p, k, direct); continue
            print("%s %s %s unc=%d bad=%s" % (p, k, "REQ" if req else "opt", unc, ",".join(bad)))
            for m in sorted(direct): print("    -> %s  dflt=%s%s" % (m, "|".join(sorted(dfl.get(m, ['-']))), "" if len(direct[m]) == 1 else " " + str(direct[m])))
            for m in sorted(derived):
                if m not in direct: print("    ~> %s  %s" % (m, "|".join(sorted(derived[m]))))
