import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, tree
from effects import *

EXPLAIN = ("Whole-program scan of every object with static storage (namespace scope, static members, function-local statics, in every translation unit of the library): it is constant, a synchronisation primitive, or never changed after its "
           "initialisation except inside of std::call_once, in which case every function that uses it is only reachable from objects whose constructors pass that call_once; no mutable members are reached through it; no function "
           "with process-wide effects is called; and every callback is passed the user pointer of the object it was set on.")
PROCESS = ("setlocale", "std::setlocale", "std::locale::global", "setenv", "putenv", "unsetenv", "chdir", "umask", "signal", "sigaction", "rand", "std::rand", "srand", "std::srand", "strtok", "std::strtok", "strerror", "localtime", "gmtime", "asctime", "ctime",
           "std::localtime", "std::gmtime", "tmpnam", "std::tmpnam", "std::set_terminate", "std::set_new_handler", "std::pmr::set_default_resource", "std::atexit", "atexit", "fesetround", "std::fesetround", "std::ios_base::sync_with_stdio", "simdjson::get_active_implementation", "getenv_s", "mblen", "mbtowc", "wctomb")
UNITS = [(tree.VERIF + "/witness/all.cpp", None), ("src/fastgltf.cpp", None), ("src/base64.cpp", None), ("src/io.cpp", None)]

def scan(ctx, p):
    R = Roots(p)
    fid = {f["id"]: f for f in p.functions}
    # functions that only run inside of std::call_once
    once, other, oncers = set(), set(), {}
    callers = {}
    refs = {}
    for f in p.functions:
        if not f.get("body"): continue
        skip = set()
        for x in list(tree.walk(f["body"])) + [y for i in f.get("inits", []) if i.get("e") for y in tree.walk(i["e"])]:
            if x["k"] == "CallExpr" and x.get("q") == "std::call_once":
                for a in x.get("c", [])[1:]:
                    for y in tree.walk(a):
                        if y["k"] == "DeclRefExpr" and y.get("dk") in ("Function", "CXXMethod"): once.add(y["id"]); skip.add(id(y)); oncers.setdefault(y["id"], set()).add(f["id"])
                        if y["k"] == "LambdaExpr":
                            for z in ("call", "op", "id", "fid"):
                                if y.get(z) in fid: once.add(y[z]); oncers.setdefault(y[z], set()).add(f["id"])
            if x["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr") and x.get("id") in fid: callers.setdefault(x["id"], set()).add(f["id"])
            if x["k"] == "DeclRefExpr" and x.get("dk") in ("Function", "CXXMethod") and id(x) not in skip and x.get("id") in fid: callers.setdefault(x["id"], set()).add(f["id"])
            if x["k"] == "LambdaExpr":
                for z in ("call", "op", "fid"):
                    if x.get(z) in fid and x[z] not in once: callers.setdefault(x[z], set()).add(f["id"])
    # functions called only from those
    more = True
    only = {i for i in once if not callers.get(i)}
    while more:
        more = False
        for i, c in callers.items():
            if i not in only and c and c <= only: only.add(i); more = True
    mut = {r["q"] for r in p.records.values() for x in r["fields"] if x.get("mut")}
    written = {}
    def of(n, direct=False):
        if direct: return frozenset([n["id"]]) if n.get("id") in R.globals else frozenset()
        return R.of(n)
    for f in p.functions:
        if not f.get("body"): continue
        for roots, x, how in mutations(f, of):
            for g in roots: written.setdefault(g, []).append((f, x, how))
    for g in p.globals.values():
        what = g["q"] if not g["local"] else "static %s" % g["q"]
        w = written.get(g["id"], [])
        t = g["t"]
        if any(t.replace("const ", "").startswith(s) for s in SYNC): ctx.ob("static", what, True); continue
        late = [(f, x, how) for f, x, how in w if f["id"] not in only]
        if g["const"] and not late:
            ctx.ob("constant", what, True)
        for f, x, how in late:
            ctx.fail("shared", "%s in %s" % (what, f["q"].split("::")[-1]), "an object with static storage is %s after its initialisation, so independent objects (and threads) share it" % how, "%s line %d" % (os.path.basename(f["file"]), x["l"]))
        if not late and not g["const"]: ctx.ob("static", what, True)
        if g["local"] and g.get("init"):
            inner = {y["id"] for y in tree.walk(g["init"]) if y["k"] in ("Var", "ParmVar") and "id" in y}
            dep = [y for y in tree.walk(g["init"]) if y["k"] == "CXXThisExpr" or y["k"] == "DeclRefExpr" and y.get("dk") in ("Var", "ParmVar", "Binding") and y.get("id") not in inner and y.get("id") not in R.globals and not y.get("cx") and "cv" not in y]
            dep = [y for y in dep if y["k"] == "CXXThisExpr" or not (is_const(y.get("t", "")) and y.get("dk") == "Var" and "::" in (y.get("q") or ""))]
            ctx.ob("once", what, not dep, "the value it keeps for the whole process is computed from the arguments or the object of the first call", "line %d" % g["l"])
        base = bare(t).replace("const ", "")
        if base in mut: ctx.fail("shared", what, "an object with static storage has mutable members", "line %d" % g["l"])
        if w and not late:
            # initialised under call_once: who uses it
            users = {f["id"] for f in p.functions if f.get("body") and f["id"] not in only and any(y["k"] == "DeclRefExpr" and y.get("id") == g["id"] for y in tree.walk(f["body"]))}
            guards = set()
            for f, x, how in w:
                # the functions passed to call_once that lead to the write
                todo, seen = [f["id"]], set()
                while todo:
                    i = todo.pop()
                    if i in seen: continue
                    seen.add(i); guards |= oncers.get(i, set()); todo += [c for c in callers.get(i, ()) if c in only]
            classes = {}
            for i in guards:
                f = fid[i]
                if f.get("ctor"): classes[f["rec"]] = f
            safe = {c for c in classes if all(f["id"] in guards or f.get("smf") in ("copy", "move") for f in p.functions if f.get("ctor") and f.get("rec") == c and f.get("body"))}
            seen, todo = set(), list(users)
            while todo:
                i = todo.pop()
                if i in seen: continue
                seen.add(i)
                f = fid[i]
                if i in guards or i in only: continue
                if f.get("rec") in safe and not f.get("static"): continue
                cs = [c for c in callers.get(i, ()) if c != i]
                if not cs and f.get("lambda"): continue
                ctx.ob("initialised", "%s used by %s" % (what, f["q"].split("::")[-1]), bool(cs), "it can be read while another thread initialises it: nothing on this path passes the std::call_once", "line %d" % f["l"])
                todo += cs
    # process-wide effects
    n = 0
    for f in p.functions:
        if not f.get("body"): continue
        for x in tree.walk(f["body"]):
            if x["k"] in ("CallExpr", "CXXMemberCallExpr"):
                n += 1
                q = (x.get("q") or "").split("<")[0]
                if q in PROCESS and q != "simdjson::get_active_implementation": ctx.fail("process", "%s in %s" % (q, f["q"].split("::")[-1]), "this function changes or uses state of the whole process", "line %d" % x["l"])
                elif (x.get("q") or "") == "std::filesystem::current_path" and x.get("c") and bare(x.get("t", "")) == "void": ctx.fail("process", "current_path in %s" % f["q"].split("::")[-1], "the working directory of the process is changed", "line %d" % x["l"])
                elif x["k"] == "CXXMemberCallExpr" and q.endswith("operator=") : pass
        for x in tree.walk(f["body"]):
            # assignments to what belongs to other libraries (simdjson's active implementation)
            if x["k"] in ("CXXOperatorCallExpr", "BinaryOperator") and x.get("op") == "=" and x.get("c"):
                l = lvalue(x["c"][0])
                if l["k"] in ("CallExpr",) and (l.get("q") or "").startswith("simdjson::get_active") : ctx.fail("process", "%s in %s" % (l["q"], f["q"].split("::")[-1]), "the JSON library's process-wide implementation is changed", "line %d" % x["l"])
    ctx.obligations += 1
    ctx.analysed.setdefault("calls", 0); ctx.analysed["calls"] += n
    ctx.analysed.setdefault("static objects", 0); ctx.analysed["static objects"] += len(p.globals)
    ctx.analysed.setdefault("functions", 0); ctx.analysed["functions"] += len(p.functions)
    return R

def resolve(f, n):
    """An expression behind casts and initialisers of local variables."""
    for _ in range(6):
        while n["k"] in CASTS and n.get("c"): n = n["c"][0]
        if n["k"] == "DeclRefExpr" and n.get("dk") == "Var":
            d = [x for x in tree.walk(f["body"]) if x["k"] == "Var" and x.get("id") == n["id"]]
            if len(d) == 1 and d[0].get("init"): n = d[0]["init"]; continue
        return n
    return n
def base_of(f, n):
    """(root, members) of a member expression."""
    path = []
    n = resolve(f, n)
    while n["k"] == "MemberExpr":
        path.append(n["n"])
        if not n.get("c"): return None
        n = resolve(f, n["c"][0])
    if n["k"] == "CXXThisExpr": return "this", tuple(reversed(path))
    if n["k"] == "DeclRefExpr": return n.get("id"), tuple(reversed(path))
    return None

def callbacks(ctx, p):
    n = 0
    for f in p.functions:
        if not f.get("body"): continue
        for x in tree.walk(f["body"]):
            if x["k"] != "CallExpr" or x.get("q") or not x.get("fn"): continue
            fn = resolve(f, x["fn"])
            while fn["k"] == "UnaryOperator" and fn.get("op") == "*": fn = resolve(f, fn["c"][0])
            if fn["k"] != "MemberExpr": continue
            kids = x.get("c", [])
            if not kids or "void *" != etype(kids[-1]).replace("const ", ""): continue
            b = base_of(f, fn); a = base_of(f, kids[-1])
            n += 1
            last = resolve(f, kids[-1])
            known = a is not None or last["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr", "IntegerLiteral", "CXXThisExpr", "UnaryOperator")
            if last["k"] == "DeclRefExpr" and last.get("dk") == "ParmVar": continue
            if not known: continue
            ok = a is not None and len(a[1]) > 0 and b is not None and a[0] == b[0] and a[1][:-1] == b[1][:-1]
            ctx.ob("user pointer", "%s in %s" % (fn["n"], f["q"].split("::")[-1]), ok, "the callback is not passed the user pointer set on its own object", "line %d" % x["l"])
            if ok: fields.setdefault((fn.get("q") or "").rsplit("::", 1)[0], set()).add(last.get("q") or last.get("n"))
    ctx.analysed["callback calls"] = n
    for c, v in fields.items(): ctx.ob("user pointer", "member of " + c, len(v) == 1, "different callbacks are passed different members")
fields = {}

def check(ctx):
    for src, flags in UNITS:
        if src.startswith("/"): fl = tree.BASE + ["-I%s/src" % tree.REPO]
        else: fl = None
        p = tree.load(src, fl)
        scan(ctx, p)
        if src.startswith("/"): callbacks(ctx, p)
    ctx.need(ctx.analysed["static objects"], "objects with static storage", 20)
    ctx.need(ctx.analysed.get("callback calls", 0), "calls of callbacks", 2)

if __name__ == "__main__":
    framework.main("C23", check, explain=EXPLAIN)
