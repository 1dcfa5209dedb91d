import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree
import uris
from uris import *
from uris import Run, members, label, prog

EXPLAIN = ("Abstract interpretation of every constructor and assignment of URIView and URI (and what they call) in a linear integer domain over the offsets and lengths of texts, all paths kept apart, loops by induction variables: "
           "positions given to substr, erase and compare lie within the text (they throw otherwise), characters are accessed within it, views are made within it, loops move forward, no standard function that throws on malformed numbers is used, "
           "and at the exit every component is empty or lies within the object's own text.")

def report(ctx, r, what):
    for (rule, fn, w, line), k in r.cl.ops.items():
        ctx.ob(rule, "%s: %s in %s" % (what, w, fn), True)
    for (rule, c), (msg, line) in r.cl.bad.items(): ctx.fail(rule, c, "%s (reached from %s)" % (msg, what), "line %d" % line)
    for (fn, line), ok in r.cl.loops.items(): ctx.ob("terminates", "loop in %s" % fn, ok[0], "nothing the loop changes moves in one direction on every iteration", "line %d" % line)

def within(ctx, r, exits, what):
    p = r.p
    W = r.whole()
    isview = r.f.get("rec") == VIEW
    base = () if isview else (next(n for n, t in r.own() if t == VIEW),)
    for s in exits:
        if isview:
            w = r.value((THIS[0], (W,)), s)
            T, off, size = r.cl.view_of(w, s) or (None, None, None)
        else:
            u = r.value((THIS[0], (next(n for n, t in r.own() if t.startswith("std::basic_string<")),)), s)
            T, off, size = r.cl.view_of(u, s) or (None, None, None)
        for n, t in r.views():
            if not t.startswith("std::basic_string_view"): continue
            v = r.value((THIS[0], base + (n,)), s)
            ok = v is not None and v[0] == 'sv' and lin(v[3]) is not None
            if ok and not r.cl.le(lin(v[3]), num(0), s):
                ok = v[1] == T and T is not None and off is not None and lin(v[2]) is not None and r.cl.le(off, lin(v[2]), s) and r.cl.le(add(lin(v[2]), lin(v[3])), add(off, size), s)
                why = "may lie outside of the text" if v[1] == T else "refers to another text than the object's own"
            else: why = "is not known"
            ctx.ob("component", "%s: %s" % (what, n), ok, "the component %s" % why, "line %d" % r.f["line"] if r.f.get("line") else None)

def check(ctx):
    n = 0
    for rec in (VIEW, OWN):
        ms = members(rec)
        ctx.need(len(ms), "constructors and assignments of " + rec, 2)
        for f in ms:
            r = Run(f)
            if not f.get("ctor"): r.old()
            r.bind()
            ex = r.go()
            what = label(f)
            ctx.need(len(ex), "paths through " + what, 1)
            ctx.analysed[what] = {"paths": len(ex), "functions": len(r.I.inlined) + 1}
            n += len(ex)
            report(ctx, r, what)
            within(ctx, r, ex, what)
    # helpers that may be called with any text
    for f in prog().functions:
        if f.get("rec") == OWN and f["n"] == "decodePercents" and f.get("body"):
            r = Run(f); r.bind(); ex = r.go(); report(ctx, r, label(f))
    # the accessors hand out the components and do not throw
    for rec in (VIEW, OWN):
        for f in prog().functions:
            if f.get("rec") != rec or not f.get("body") or f.get("ctor") or f.get("params") or f["n"].startswith(("~", "operator")) or "path" == bare(f["ret"]).split("::")[-1]: continue
            if not (f["ret"].startswith("std::basic_string_view") or f["ret"] == "bool"): continue
            r = Run(f); r.old(); ex = r.go(); report(ctx, r, label(f))
            if not f["ret"].startswith("std::basic_string_view"): continue
    ctx.analysed["paths"] = n

if __name__ == "__main__":
    framework.main("C14", check, explain=EXPLAIN)
