import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree
from loading import *
from hostio import *
from hostio import items

EXPLAIN = ("Abstract execution with typestate of the user's buffer callbacks, over every path of the loaders (data URI and external file in $.buffers and $.images, GLB chunk): "
           "the map callback splits into 'no memory' and 'memory with an id'; every call of a callback must be under a null check and get the parser's user pointer; memory is written before it is unmapped, unmapped if a callback is set, "
           "delivered as CustomBuffer with that id; without memory a library-owned array that was written is delivered; the user's decoder replaces the library's wherever one may be set.")

def check(ctx):
    M = model()
    P = config_paths(M)
    for k in ("map", "unmap", "decode", "user"):
        if k not in P: raise tree.AnalysisError("member of the parser for the %s callback not found" % k)
    runs = []
    for coll, opt in COLLECTIONS:
        bit = M.p.enums["fastgltf::Options"][opt]
        runs.append(("data URI of $.%s[]" % coll, run(M, coll, HostClient, force=dict(isDataUri=1, valid=1), fail=False), True))
        runs.append(("external file of $.%s[]" % coll, run(M, coll, HostClient, option=('bits', bit, 0), force=dict(isDataUri=0, isLocalPath=1, valid=1)), False))
    for name in ("loadGltfBinary", "loadGltf"): runs.append(("GLB chunk in " + name, entry(M, name, glb.GlbClient), False))
    for what, cl, data in runs:
        maps = [k for k in cl.events if k[0] == "map"]
        ctx.ob("asked", what, bool(maps), "the map callback is never asked for memory")
        for k in cl.events:
            if k[0].startswith(("map", "unmap", "decode", "user pointer", "written")): ctx.ob("event", "%s: %s line %d" % (what, k[0], k[1]))
        kinds = {d[0] for d in cl.delivered}
        for need in ("user memory", "own memory after null", "own memory"):
            ctx.ob("delivery", "%s: %s" % (what, need), need in kinds, {"user memory": "memory returned by the map callback is never delivered", "own memory after null": "when the map callback returns no memory, the data is not delivered in library-owned memory", "own memory": "without a map callback the data is not delivered"}[need])
        if data:
            ctx.ob("decoder", what, any(k[0] == "decode user" for k in cl.events), "a decoder set by the user is never called")
        for (rule, c), (msg, line) in cl.bad.items():
            if rule in ("callback", "delivery"): ctx.fail(rule, "%s: %s" % (what, c), msg, "line %d" % line)
        # paths that end in an error after the memory was written still give it back
        un = ('m', ("this",), cl.unmappath)
        bad = set()
        for v, s in cl.exits:
            for i in items(s):
                if i[0] == 'w' and ('u', i[1]) not in items(s):
                    t = I_truth(M, un, s)
                    if t is not False: bad.add(i[1])
        ctx.ob("error-exit", what, not bad, "memory that was written is not unmapped on a path that ends the load (mapped at line %s)" % sorted(bad))

def I_truth(M, a, s):
    t = M.I.truth(a, s)
    if t is None: t = M.I.decide("!=", a, NULL, s)
    return t

if __name__ == "__main__":
    framework.main("C17", check, explain=EXPLAIN)
