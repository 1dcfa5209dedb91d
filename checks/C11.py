import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework, tree
from effects import *
import C23

EXPLAIN = ("Interprocedural must-assign dataflow over every public entry point of Parser, Exporter and FileExporter (all functions and lambdas they reach): a member that a run changes is assigned on every path of the entry point before anything reads it; "
           "members set through setters are changed by no run; the shared JSON parser is only used to parse the new text; the data source is reset before it is read; and no object with static storage is changed by anything a run reaches.")
CLASSES = ("fastgltf::Parser", "fastgltf::Exporter", "fastgltf::FileExporter")
RESETS = ("clear", "reset", "emplace", "assign")
GETTER = "fastgltf::GltfDataGetter"
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr")

def strip(n):
    while n is not None and n["k"] in CASTS + ("CXXDefaultArgExpr",) and n.get("c"): n = n["c"][0]
    return n
def is_this(n):
    n = strip(n)
    while n is not None and n["k"] == "UnaryOperator" and n.get("op") == "*": n = strip(n["c"][0])
    return n is not None and n["k"] == "CXXThisExpr"

class Flow:
    """Must-assign analysis of the members (field ids) of one object and of the state of data sources (parameter ids)."""
    def __init__(self, p, fields):
        self.p, self.fields = p, fields
        self.memo = {}
        self.alias = {}
        self.reads = {}         # (what, function, line) of reads before assignment
        self.visited = set()
        self.stack = []
        self.lam = {}
    # what an expression designates: field id, ('getter', param) or None
    def loc(self, n):
        n = strip(n)
        if n is None: return None
        if n["k"] == "MemberExpr":
            if n.get("id") in self.fields and n.get("c") and is_this(n["c"][0]): return n["id"]
            return None
        if n["k"] == "DeclRefExpr":
            if n["id"] in self.alias: return self.alias[n["id"]]
            if n.get("dk") == "ParmVar" and GETTER in n.get("t", ""): return 'getter'
        return None
    def members_in(self, r):
        """The members whose addresses make up a braced list, if that is all it has."""
        while r is not None and r["k"] not in ("InitListExpr", "DeclStmt"):
            if r["k"] in CASTS + ("CXXStdInitializerListExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and r.get("c"): r = r["c"][0]
            else: return None
        if r is not None and r["k"] == "DeclStmt":
            d = r.get("c", r.get("decls", []))
            return self.members_in(d[0].get("init")) if d and d[0].get("init") else None
        if r is None or not r.get("c"): return None
        out = []
        for e in r["c"]:
            e = strip(e)
            if e["k"] != "UnaryOperator" or e.get("op") != "&": return None
            l = self.loc(e["c"][0])
            if l is None: return None
            out.append(l)
        return out
    def run(self, f, S, binds=None):
        """State at the normal end of f (None: never returns)."""
        key = (f["id"], S)
        if key in self.memo: return self.memo[key]
        if f["id"] in self.stack or len(self.stack) > 60: return S
        self.visited.add(f["id"])
        self.stack.append(f["id"])
        outs = []
        end = self.stmt(f["body"], S, outs, [])
        if end is not None: outs.append(end)
        self.stack.pop()
        r = frozenset.intersection(*outs) if outs else None
        self.memo[key] = r
        return r
    def meet(self, l):
        l = [x for x in l if x is not None]
        return frozenset.intersection(*l) if l else None
    def read(self, loc, n, S):
        if loc is None or loc in S: return
        f = self.p.by_id[self.stack[-1]]
        self.reads.setdefault((loc, f["q"].split("::")[-1]), n["l"])
    # --- statements
    def stmt(self, n, S, rets, brk):
        if n is None or S is None: return S
        k = n["k"]
        if k == "CompoundStmt":
            for c in n.get("c", []):
                S = self.stmt(c, S, rets, brk)
                if S is None: return None
            return S
        if k == "DeclStmt":
            for d in n.get("c", n.get("decls", [])):
                if d.get("k") in ("Var", "Decomposition") and d.get("init"):
                    l = self.loc(d["init"]) if indirect(d.get("t", "")) and d["t"].rstrip().endswith("&") else None
                    lam = strip(d["init"])
                    if l is not None: self.alias[d["id"]] = l
                    elif lam is not None and lam["k"] == "LambdaExpr":
                        # judged where it is called or passed on
                        self.lam[d["id"]] = lam
                        for c in lam.get("caps", []):
                            if c.get("init"): S = self.expr(c["init"], S)
                    else: S = self.expr(d["init"], S)
                else: S = self.sub(d, S)
            return S
        if k == "IfStmt":
            if n.get("init"): S = self.stmt(n["init"], S, rets, brk)
            if n.get("var"): S = self.stmt(n["var"], S, rets, brk) if n["var"]["k"].endswith("Stmt") else self.sub(n["var"], S)
            T, F = self.cond(n["cond"], S) if n.get("cond") else (S, S)
            a = self.stmt(n.get("then"), T, rets, brk)
            b = self.stmt(n.get("else"), F, rets, brk) if n.get("else") else F
            return self.meet([a, b])
        if k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"):
            each = self.members_in(n.get("range")) if k == "CXXForRangeStmt" and n.get("var") else None
            if each:
                # a loop over a list of members written out in place: its body runs once for each
                for l in each:
                    self.alias[n["var"]["id"]] = l
                    out = []
                    S = self.meet([self.stmt(n.get("body"), S, rets, out)] + out)
                    if S is None: return None
                return S
            for key in ("init", "range"):
                if n.get(key): S = self.stmt(n[key], S, rets, brk) if n[key]["k"].endswith("Stmt") else self.expr(n[key], S)
            head = S
            if k == "DoStmt":
                inner = []
                e = self.stmt(n.get("body"), head, rets, inner)
                if e is not None and n.get("cond"): e = self.expr(n["cond"], e)
                return self.meet([e] + inner)
            T = head
            if n.get("cond"): T, head = self.cond(n["cond"], head)
            inner = []
            if n.get("var") and n["var"].get("init"): T = self.expr(n["var"]["init"], T)
            e = self.stmt(n.get("body"), T, rets, inner)
            if e is not None and n.get("inc"): self.expr(n["inc"], e)
            return self.meet([head] + inner)
        if k == "SwitchStmt":
            if n.get("init"): S = self.stmt(n["init"], S, rets, brk)
            if n.get("cond"): S = self.expr(n["cond"], S)
            inner = []; cur = None; default = False
            body = n.get("body") or {}
            for c in (body.get("c", []) if body.get("k") == "CompoundStmt" else [body]):
                while c.get("k") in ("CaseStmt", "DefaultStmt"):
                    default |= c["k"] == "DefaultStmt"
                    cur = self.meet([cur, S])
                    nx = c.get("body") or c.get("sub") or (c["c"][-1] if c.get("c") else None)
                    if nx is None: break
                    c = nx
                cur = self.stmt(c, cur, rets, inner) if cur is not None else None
            return self.meet([cur] + inner + ([] if default else [S]))
        if k == "ReturnStmt":
            for c in n.get("c", []):
                if c is not None: S = self.expr(c, S)
            if S is not None: rets.append(S)
            return None
        if k in ("BreakStmt",):
            brk.append(S); return None
        if k in ("ContinueStmt", "GotoStmt"): return None
        if k in ("CXXThrowExpr",): return None
        if k in ("LabelStmt", "AttributedStmt", "CaseStmt", "DefaultStmt"):
            for c in n.get("c", []): S = self.stmt(c, S, rets, brk)
            for key in ("body", "sub"):
                if n.get(key): S = self.stmt(n[key], S, rets, brk)
            return S
        if k == "CXXTryStmt":
            outs = [self.stmt(c, S, rets, brk) for c in n.get("c", [])]
            return self.meet(outs) if outs else S
        if k.endswith("Stmt"): return self.sub(n, S)
        return self.expr(n, S)
    def sub(self, n, S):
        for key, v in n.items():
            if isinstance(v, dict) and "k" in v: S = self.expr(v, S)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and "k" in x: S = self.expr(x, S)
            if S is None: return None
        return S
    # --- expressions
    def cond(self, n, S):
        m = strip(n)
        if m is not None and m["k"] == "BinaryOperator" and m.get("op") in ("&&", "||"):
            T, F = self.cond(m["c"][0], S)
            if m["op"] == "&&":
                T2, F2 = self.cond(m["c"][1], T); return T2, self.meet([F, F2])
            T2, F2 = self.cond(m["c"][1], F); return self.meet([T, T2]), F2
        if m is not None and m["k"] == "UnaryOperator" and m.get("op") == "!":
            T, F = self.cond(m["c"][0], S); return F, T
        S = self.expr(n, S)
        return S, S
    def expr(self, n, S):
        if n is None or S is None: return S
        if n["k"].endswith("Stmt"): return self.stmt(n, S, [], [])
        k = n["k"]; kids = n.get("c", [])
        if k == "LambdaExpr":
            for c in n.get("caps", []):
                if c.get("init"): S = self.expr(c["init"], S)
            for i in n.get("ops", []):
                f = self.p.by_id.get(i)
                if f is not None and f.get("body"): self.run(f, S)
            return S
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"): return self.meet(list(self.cond(n, S)))
        if k == "ConditionalOperator":
            T, F = self.cond(kids[0], S)
            return self.meet([self.expr(kids[1], T), self.expr(kids[2], F)])
        if k in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=" and len(kids) == 2:
            l = self.loc(kids[0])
            S = self.expr(kids[1], S)
            if S is None: return None
            if l is not None: return S | {l}
            return self.expr(kids[0], S)
        if k == "CXXOperatorCallExpr" and n.get("op") == "()" and n.get("lambda") and kids:
            for a in kids[1:]: S = self.expr(a, S)
            f = self.p.by_id.get(n.get("id"))
            if S is not None and f is not None and f.get("body"): return self.run(f, S)
            return S
        if k == "DeclRefExpr" and n.get("id") in self.lam: return self.expr(self.lam[n["id"]], S)
        if k in CALLS and n.get("noreturn"):
            return None
        if k == "CXXMemberCallExpr" and kids:
            m = (n.get("q") or "").split("::")[-1]
            l = self.loc(kids[0])
            if l is not None:
                for a in kids[1:]: S = self.expr(a, S)
                if l == 'getter':
                    if m == "reset": return S | {l}
                    if m in ("read", "bytesRead"): self.read(l, n, S)
                    return S
                if m in RESETS and (not n.get("arrow") or strip(kids[0])["k"] == "DeclRefExpr") or m == "reset": return S | {l}
                if m == "swap" and len(kids) == 2 and self.loc(kids[1]) is None: return S | {l}
                self.read(l, n, S)
                return S
            if is_this(kids[0]):
                for i, a in enumerate(kids[1:]): S = self.arg(a, S, i + 1 in n.get("ref", []))
                f = self.p.by_id.get(n.get("id"))
                if S is not None and f is not None and f.get("body"): return self.run(f, S)
                return S
        if k == "CallExpr":
            for i, a in enumerate(kids): S = self.arg(a, S, i in n.get("ref", []))
            if n.get("fn"): S = self.expr(n["fn"], S)
            if S is None: return None
            if (n.get("q") or "").split("<")[0] == "std::swap" and len(kids) == 2:
                ls = [self.loc(a) for a in kids]
                # what was in the other variable is what this run gave it
                if (ls[0] is None) != (ls[1] is None): return S | {l for l in ls if l is not None and l != 'getter'}
            f = self.p.by_id.get(n.get("id"))
            if f is not None and f.get("body") and (any(self.loc(a) is not None for a in kids) or any(self.loc(a["c"][0]) is not None for a in kids if a["k"] == "UnaryOperator" and a.get("c"))):
                # passed by reference: follow it inside
                saved = dict(self.alias)
                got = []
                for a, prm in zip(kids, f["params"]):
                    l = self.loc(a)
                    if l is not None and prm["t"].rstrip().endswith("&"): self.alias[prm["id"]] = l; got.append(l)
                if got:
                    self.memo = {x: v for x, v in self.memo.items() if x[0] != f["id"]}
                    r = self.run(f, S)
                    self.memo = {x: v for x, v in self.memo.items() if x[0] != f["id"]}
                    self.alias = saved
                    return r
                self.alias = saved
            for a in kids:
                l = self.loc(a)
                if l is not None and l != 'getter': self.read(l, n, S)
            return S
        l = self.loc(n)
        if l is not None:
            if l != 'getter': self.read(l, n, S)
            return S
        return self.sub(n, S)
    def arg(self, a, S, ref):
        """Arguments that are whole members bound to references are followed into the function; everything else is read."""
        l = self.loc(a)
        if l is not None and (l == 'getter' or ref): return S
        return self.expr(a, S)

def reach(p, start):
    seen, todo = set(), [f["id"] for f in start]
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        f = p.by_id.get(i)
        if f is None or not f.get("body"): continue
        for x in list(tree.walk(f["body"])) + [y for z in f.get("inits", []) if z.get("e") for y in tree.walk(z["e"])]:
            if x["k"] in CALLS + ("CXXConstructExpr", "CXXTemporaryObjectExpr", "DeclRefExpr", "MemberExpr") and x.get("id") in p.by_id: todo.append(x["id"])
            if x["k"] == "LambdaExpr": todo += [i2 for i2 in x.get("ops", [])]
    return seen

class Quiet:
    """Collects the results of the scan of static storage."""
    def __init__(self): self.fails = []; self.obligations = 0; self.analysed = {}
    def ob(self, rule, what, ok=True, msg=None, where=None):
        if not ok: self.fails.append((rule, what, msg, where))
        return ok
    def fail(self, rule, what, msg, where=None): self.fails.append((rule, what, msg, where))

def check(ctx):
    p = tree.load(tree.VERIF + "/witness/all.cpp", tree.BASE + ["-I%s/src" % tree.REPO])
    runs_all = set()
    for K in CLASSES:
        rec = p.records.get(K)
        if rec is None: raise tree.AnalysisError("class %s not found" % K)
        family = [K] + [b for b in rec.get("bases", []) if b in p.records]
        fields = {f["id"]: f for q in family for f in p.records[q]["fields"]}
        methods = [f for f in p.functions if f.get("rec") in family and f.get("body") and not f.get("static") and not f.get("lambda")]
        public = [f for f in methods if f.get("acc") == 0 and not f.get("ctor") and not f.get("smf") and not f["n"].startswith("~")]
        entries = [f for f in public if f.get("rec") == K and (bare_ret(f).startswith("fastgltf::Expected<") or bare_ret(f) == "fastgltf::Error")]
        setters = [f for f in public if f["ret"] == "void"]
        ctx.need(len(entries), "entry points of " + K, 1)
        def of(n, direct=False):
            n = strip(n)
            while n is not None:
                if n["k"] == "MemberExpr":
                    if n.get("id") in fields and n.get("c") and is_this(n["c"][0]): return frozenset([n["id"]])
                    n = strip(n["c"][0]) if n.get("c") else None
                elif n["k"] in ("ArraySubscriptExpr", "UnaryOperator") and n.get("c"): n = strip(n["c"][0])
                elif n["k"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr") and n.get("c") and (n.get("q") or "").split("::")[-1] in ACCESS: n = strip(n["c"][0])
                elif n["k"] == "CallExpr" and (n.get("q") or "").split("<")[0] in FORWARD and n.get("c"): n = strip(n["c"][0])
                elif n["k"] == "DeclRefExpr" and n.get("id") in refs: n = refs[n["id"]]
                else: return frozenset()
            return frozenset()
        refs = {}
        def mutated(ids):
            out = {}
            for i in ids:
                f = p.by_id.get(i)
                if f is None or not f.get("body") or f.get("ctor") or f.get("smf"): continue
                for x in tree.walk(f["body"]):
                    if x["k"] == "Var" and x.get("init") and x.get("t", "").rstrip().endswith("&") and not is_const(pointee(x["t"])): refs[x["id"]] = strip(x["init"])
                for roots, x, how in mutations(f, of, static=False):
                    for r in roots: out.setdefault(r, []).append((f, x, how))
                for x in tree.walk(f["body"]):
                    if x["k"] == "CallExpr" and (x.get("q") or "").split("<")[0] in ("std::move", "std::exchange", "std::swap") and x.get("c"):
                        for r in of(x["c"][0]): out.setdefault(r, []).append((f, x, "moved from"))
            return out
        config = set(mutated({f["id"] for f in setters}))
        ran = reach(p, entries)
        runs_all |= ran
        ran_m = {i for i in ran if i in p.by_id and (p.by_id[i].get("rec") in family or p.by_id[i].get("lambda"))} - {f["id"] for f in setters}
        state = mutated(ran_m)
        ctx.analysed[K] = {"entries": [f["n"] for f in entries], "functions reached": len(ran), "set with setters": sorted(fields[i]["n"] for i in config), "changed by runs": sorted(fields[i]["n"] for i in state)}
        for i in config:
            for f, x, how in state.get(i, []):
                ctx.fail("configuration", "%s::%s in %s" % (K.split("::")[-1], fields[i]["n"], f["q"].split("::")[-1]), "what was set with a setter is %s by a run, so the next run uses something else" % how, "line %d" % x["l"])
            ctx.ob("configuration", "%s::%s" % (K.split("::")[-1], fields[i]["n"]))
        json = {i for i, f in fields.items() if "simdjson" in f["t"]}
        for f in entries:
            fl = Flow(p, fields)
            for prm in f["params"]: pass
            end = fl.run(f, frozenset())
            for i in state:
                if i in config or i in json: continue
                bad = [(w, l) for (loc, w), l in fl.reads.items() if loc == i]
                ctx.ob("assigned", "%s: %s::%s" % (f["q"].split("::", 1)[1], K.split("::")[-1], fields[i]["n"]), not bad, "%s reads the member before this run has assigned it, so what an earlier run left behind is used" % (bad[0][0] if bad else ""), "line %d" % bad[0][1] if bad else None)
            bad = [(w, l) for (loc, w), l in fl.reads.items() if loc == 'getter']
            if any(GETTER in prm["t"] for prm in f["params"]): ctx.ob("source", f["q"].split("::", 1)[1], not bad, "%s reads the data source without resetting it first" % (bad[0][0] if bad else ""), "line %d" % bad[0][1] if bad else None)
            ctx.analysed.setdefault("flow", {})[f["q"]] = len(fl.visited)
        for i in ran_m:
            f = p.by_id[i]
            for x in tree.walk(f["body"]) if f.get("body") else []:
                if x["k"] == "CXXMemberCallExpr" and x.get("c") and of(x["c"][0]) & json:
                    m = (x.get("q") or "").split("::")[-1]
                    ctx.ob("json parser", "%s in %s" % (m, f["q"].split("::")[-1]), m.startswith(("parse", "allocate", "operator", "get")) or x.get("const") or m in ("max_depth", "capacity", "max_capacity"), "the JSON parser is shared by all runs and used for something other than parsing the new text", "line %d" % x["l"])
    q = Quiet()
    C23.scan(q, p)
    names = {p.by_id[i]["q"].split("::")[-1] for i in runs_all if i in p.by_id}
    for rule, what, msg, where in q.fails:
        if rule in ("shared", "once"): ctx.fail("static", what, "state outside of the object is kept between runs: " + msg, where)
    ctx.ob("static", "%d objects with static storage" % len(p.globals))

def bare_ret(f): return f["ret"].replace("const ", "").strip()

if __name__ == "__main__":
    framework.main("C11", check, explain=EXPLAIN)
