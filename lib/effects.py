"""Which functions may change which objects: static storage (C23) and the members of an object over its runs (C11)."""
import re
import tree
from interp import bare, etype

ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=")
SYNC = ("std::once_flag", "std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::condition_variable")
CASTS = ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CStyleCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXFunctionalCastExpr", "CXXBindTemporaryExpr")
FORWARD = ("std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::get", "std::get_if", "std::data", "std::begin", "std::end")
ACCESS = ("operator->", "operator*", "operator[]", "get", "data", "begin", "end", "front", "back", "at", "value", "find", "emplace_hint")

def is_const(t): return t.startswith("const ") or t.endswith(" const")
def pointee(t):
    t = t.strip()
    for e in ("*const", "*", "&&", "&"):
        if t.endswith(e): return t[:-len(e)].strip()
    return t
def indirect(t): return t.rstrip().endswith(("*", "&", "*const"))

class Roots:
    """Resolves expressions to the objects of static storage they designate."""
    def __init__(self, p):
        self.p = p
        self.var = {}            # variable -> roots its pointee/referent designates
        self.ret = {}            # function -> roots of the returned pointer or reference
        self.globals = {g["id"]: g for g in p.globals.values()}
        changed = True
        while changed:
            changed = False
            for f in p.functions:
                if not f.get("body"): continue
                for x in tree.walk(f["body"]):
                    if x["k"] == "Var" and x.get("init") and not x.get("static") and indirect(x.get("t", "")):
                        changed |= self.more(self.var, x["id"], self.of(x["init"]))
                    elif x["k"] == "ReturnStmt" and x.get("c") and indirect(f["ret"]):
                        changed |= self.more(self.ret, f["id"], self.of(x["c"][0]))
                    elif x["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                        g = p.by_id.get(x.get("id"))
                        if g is None or not g.get("body"): continue
                        kids = x.get("c", [])
                        if x["k"] != "CallExpr" and len(kids) == len(g["params"]) + 1: kids = kids[1:]
                        for a, prm in zip(kids, g["params"]):
                            if indirect(prm["t"]) and not is_const(pointee(prm["t"])): changed |= self.more(self.var, prm["id"], self.of(a))
                    elif x["k"] == "CXXForRangeStmt" and x.get("var") and indirect(x["var"].get("t", "")):
                        changed |= self.more(self.var, x["var"]["id"], self.of(x["range"]))
    def more(self, d, k, v):
        old = d.get(k, frozenset())
        if v <= old: return False
        d[k] = old | v
        return True
    def of(self, n):
        """Roots of the object an expression designates or points to."""
        while n is not None and n["k"] in CASTS and n.get("c"):
            if n.get("ck") == "LValueToRValue" and not indirect(n.get("t", "")): return frozenset()
            n = n["c"][0]
        if n is None: return frozenset()
        k = n["k"]; kids = n.get("c", [])
        if k == "DeclRefExpr":
            if n.get("id") in self.globals: return frozenset([n["id"]])
            return self.var.get(n.get("id"), frozenset())
        if k == "MemberExpr":
            r = self.of(kids[0]) if kids else frozenset()
            return r | (frozenset([n["id"]]) if n.get("id") in self.globals else frozenset())
        if k in ("ArraySubscriptExpr",): return self.of(kids[0])
        if k == "UnaryOperator" and n.get("op") in ("*", "&", "++", "--"): return self.of(kids[0])
        if k == "BinaryOperator" and n.get("op") in ("+", "-", ",", "=") and kids: return self.of(kids[0]) | (self.of(kids[1]) if n["op"] == "," else frozenset())
        if k == "ConditionalOperator": return self.of(kids[1]) | self.of(kids[2])
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            out = self.ret.get(n.get("id"), frozenset())
            q = (n.get("q") or "").split("<")[0]
            m = (n.get("q") or "").split("::")[-1]
            if k == "CallExpr" and q in FORWARD and kids: out |= self.of(kids[0])
            if k != "CallExpr" and m in ACCESS and kids: out |= self.of(kids[0])
            return out
        return frozenset()

def lvalue(n):
    while n["k"] in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and n.get("c"): n = n["c"][0]
    return n
def read_only(n):
    """Argument that is read or bound to a reference to const."""
    return is_const(n.get("t", "")) or (n["k"] == "ImplicitCastExpr" and n.get("ck") == "LValueToRValue")
def mutations(f, of, static=True):
    """[(roots, node, how)] in a function body; of(expr) gives the roots of an expression."""
    for x in tree.walk(f["body"]):
        k = x["k"]; kids = x.get("c", [])
        if k in ("BinaryOperator", "CompoundAssignOperator") and x.get("op") in ASSIGN:
            l = lvalue(kids[0])
            if l["k"] == "DeclRefExpr" and l.get("dk") in ("Var", "ParmVar") and indirect(l.get("t", "")) and l.get("t", "").rstrip().endswith("*"):
                r = of(l, direct=True)
            else: r = of(l)
            if r: yield r, x, "assigned"
        elif k == "UnaryOperator" and x.get("op") in ("++", "--"):
            r = of(kids[0])
            if r: yield r, x, "assigned"
        elif k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and kids:
            m = (x.get("q") or "").split("::")[-1]
            o = kids[0]
            member = k == "CXXMemberCallExpr" or m in ("operator=", "operator+=", "operator-=", "operator[]", "operator++", "operator--", "operator<<=", "operator|=", "operator&=", "operator*=", "operator()")
            if member and not x.get("const") and m not in ACCESS and not is_const(o.get("t", "")):
                r = of(o)
                if r: yield r, x, "changed with %s" % m
            for i in x.get("ref", []):
                if i < len(kids) and not x.get("inroot") and not (member and i == 0):
                    r = of(kids[i])
                    if r: yield r, x, "passed to %s" % m
        elif k == "CallExpr" and kids and not x.get("inroot"):
            q = (x.get("q") or "").split("<")[0]
            if q in FORWARD or q == "std::call_once": continue
            for i in x.get("ref", []):
                if i < len(kids):
                    a = lvalue(kids[i])
                    addr = a["k"] == "UnaryOperator" and a.get("op") == "&"
                    # a pointer that is passed by value is not changed itself
                    if not addr and kids[i].get("t", "").rstrip().endswith(("*", "*const")): r = of(kids[i], direct=False) if static else frozenset()
                    else: r = of(a["c"][0] if addr else a)
                    if r: yield r, x, "passed to %s" % (x.get("n") or q or "a function")
