"""Runs of the loading entry points shared by the checks C16, C17, C18, C19."""
import tree
from parsemodel import *
from parsemodel import Model
from hostio import *
from hostio import setup, items
import glb

COLLECTIONS = (("buffers", "LoadExternalBuffers"), ("images", "LoadExternalImages"))
ALLCPP = tree.VERIF + "/witness/all.cpp"

_m = []
def model():
    if not _m: _m.append(Model(tree.load(ALLCPP, tree.BASE + ["-I%s/src" % tree.REPO])))
    return _m[0]

def run(M, coll, cls, option=None, force=None, **kw):
    """Reads one element of a collection that has a uri. option: known bits of the options."""
    path = "$.%s[].uri" % coll
    cl = setup(cls(pre=[(path, 'ok', 'string', None)], force=force, **kw), M)
    def pre(I, st):
        if option: st.store[(("this",), M.options)] = frozenset([option])
    root = M.unit_of(path)
    ex = M.run_unit(root, cl, pre=pre)
    cl.exits = ex
    cl.successes = M.successes(ex)
    return cl
def entry(M, name, cls, **kw):
    f = M.p.fn("fastgltf::Parser::" + name)
    cl = setup(cls(opaque={M.root["id"]: M.root}, **kw), M)
    ex = M.run_fn(f, '$', cl, ext=None)
    cl.exits = ex
    cl.successes = M.successes(ex)
    return cl
def leftover(ctx, cl, rule, what, skip=()):
    """Obligations about the exits: no failure of the operating system ends in success."""
    seen = set()
    for k, n in cl.events.items(): pass
    for _, _, s in cl.successes:
        for i in items(s):
            if i[0] == 'F' and (i[1], i[2]) not in seen:
                seen.add((i[1], i[2]))
                yield "%s in %s" % (i[1], i[2]), "a failed %s is not reported: the load succeeds (%s)" % (i[1], what), i[3]
