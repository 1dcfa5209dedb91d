"""C06/C07: what the exporter writes is JSON, and every text of the asset is escaped."""
import tree, writer, charloop
from interp import bare

def scan(ctx, rule, p, fs, mk, what):
    """Interprets string-scanning functions as transducers and reports what their oracle rejects."""
    n = 0
    for f in fs:
        for small in ((True, False) if mk is charloop.EscapeOracle else (None,)):
            o = mk(*([small] if small is not None else []))
            sc = charloop.Scan(p, o)
            try: sc.analyse(f)
            except charloop.Unsupported as e: ctx.analysed.setdefault("not analysed", []).append("%s: %s" % (f["q"], e)); break
            except charloop.Bad as e: sc.fail(f, str(e))
            if sc.bad: break
        n += 1
        for c in sorted(o.seen, key=repr): ctx.ob(rule, "%s %s %r" % (f["q"], what, c))
        for msg, l in sc.bad.items(): ctx.fail(rule, "%s %s" % (f["q"], msg.split(" (")[0]), msg, where(l))
    return n

def structure(ctx):
    p = tree.load("src/fastgltf.cpp")
    E = writer.Export(p)
    cl = writer.WriteClient(p, E.units)
    I, ends = E.run_root(cl)
    ctx.analysed["functions"] = [u["q"] for u in E.units] + [E.root["q"]]
    ctx.analysed["automaton contexts"] = len(cl.summaries)
    ctx.analysed["interpreted statements"] = I.steps
    ctx.analysed["appended pieces"] = cl.nfed
    return p, E, cl, I, ends
def where(l): return "src/fastgltf.cpp:%s" % l

def check06(ctx):
    p, E, cl, I, ends = structure(ctx)
    names = {u["id"]: u["q"].split("::")[-1] for u in E.units}
    for (fid, ctl), res in cl.summaries.items():
        ctx.ob("R1 well-formed", "%s after %r" % (names[fid], ctl[2]), True)
    if not cl.errors:
        for s in ends:
            ctl = s.x[0]
            ctx.ob("R2 complete", "writeJson returns %s" % (writer.fpath(ctl[0])), ctl[0] == () and ctl[1] is None and ctl[2] == '}', "the text ends inside %s" % writer.fpath(ctl[0]), where(E.root["l"]))
    for (msg, path), l in cl.errors.items(): ctx.fail("R1 well-formed", "%s %s" % (path, msg), msg, where(l))
    for (path,), l in cl.dups.items(): ctx.fail("R3 unique keys", path, "the member is written twice into the same object", where(l))
    ctx.ob("R3 unique keys", "%d objects" % len(cl.summaries))
    pretty = [f for f in p.functions if f["q"] == "fastgltf::prettyPrintJson" and f.get("body")]
    scan(ctx, "R4 pretty printing keeps the text", p, pretty, charloop.PrettyOracle, "character")
    ctx.need(cl.nfed, "appended pieces", 20)

def check07(ctx):
    p, E, cl, I, ends = structure(ctx)
    for (path, kind), l in cl.texts.items(): ctx.ob("R1 escaped", "%s %s" % (path, kind))
    for (path, name), l in cl.raw.items(): ctx.fail("R1 escaped", "%s %s" % (path, name), "the text of %s is written between quotes without escaping" % name, where(l))
    ctx.need(cl.nfed, "appended pieces", 20)
    esc = [f for f in p.functions if f["q"] == "fastgltf::escapeString" and f.get("body")]
    scan(ctx, "R2 escaping", p, esc, charloop.EscapeOracle, "character")
