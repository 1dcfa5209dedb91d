"""Runs of the members of URIView and URI in the text domain (lib/texts.py), shared by C14 and C15."""
import tree
from interp import *
from interp import V, State, C, TOP, UNINIT, bare
from texts import *

VIEW, OWN = "fastgltf::URIView", "fastgltf::URI"
THIS = (("this",), ())
OTHER = (("other",), ())

_p = []
def prog():
    if not _p: _p.append(tree.load(tree.VERIF + "/witness/all.cpp", tree.BASE + ["-I%s/src" % tree.REPO]))
    return _p[0]

class UriClient(TextClient):
    def may_inline(self, I, f): return True
    def other(self, I, n, q, cls, name, kids, st):
        if n.get("c") and (name in ("strtoul", "strtol", "from_chars", "stoi", "stoul")):
            if name.startswith("sto"): self.err("throws", "%s in %s" % (name, self.where(I)), "%s throws for text that is not a number" % name, n["l"])
        return None

class Run:
    """One member function run from a described state."""
    def __init__(self, f):
        self.p = prog(); self.f = f
        self.cl = UriClient(self.p)
        self.I = TextInterp(self.p, self.cl)
        self.st = State(); self.st.x = False
        self.I.this = THIS
    def views(self):
        """(name, type) of the members of a view."""
        return [(x["n"], bare(x["t"])) for x in self.p.records[VIEW]["fields"]]
    def own(self): return [(x["n"], bare(x["t"])) for x in self.p.records[OWN]["fields"]]
    def whole(self):
        """The member that holds the whole text of a view: the one data() or string() hands out."""
        f = next((g for g in self.p.functions if g.get("rec") == VIEW and g["n"] == "string" and g.get("body")), None)
        if f is not None:
            for x in tree.walk(f["body"]):
                if x["k"] == "MemberExpr" and x["n"] in dict(self.views()): return x["n"]
        return "view"
    def set_view(self, loc, T, name):
        """An arbitrary view object into T."""
        L = self.cl.length(T)
        W = self.whole()
        for n, t in self.views():
            l = (loc[0], loc[1] + (n,))
            if t.startswith("std::basic_string_view"):
                if n == W: self.st.store[l] = self.cl.sv(T, num(0), L).a
                else:
                    o, k = ({('t', name + n + " offset", 0): 1}, 0), ({('t', name + n + " length", 0): 1}, 0)
                    self.cl.fact(self.st, add(L, add(o, k), -1))
                    self.st.store[l] = self.cl.sv(T, o, k).a
            else: self.st.store[l] = frozenset([('m', (name,), (n,))])
    def set_uri(self, loc, name):
        T = self.cl.text(({('t', name + " size", 0): 1}, 0), None, name)
        for n, t in self.own():
            l = (loc[0], loc[1] + (n,))
            if t.startswith("std::basic_string<"): self.st.store[l] = frozenset([('str', T)])
            elif t == VIEW: self.set_view(l, T, name)
            else: self.st.store[l] = frozenset([('m', (name,), (n,))])
        return T
    def free_text(self, name): return self.cl.text(({('t', name + " size", 0): 1}, 0), None, name)
    def bind(self, alias=False):
        """Gives the parameters arbitrary values; returns the texts of the arguments."""
        texts = []
        for a in self.f["params"]:
            t = bare(a["t"])
            if t.startswith("std::basic_string_view"):
                T = self.free_text("argument"); texts.append(T); v = self.cl.sv(T, num(0), self.cl.length(T))
                self.put(a, v)
            elif t.startswith("std::basic_string<"):
                T = self.free_text("argument"); texts.append(T); self.put(a, V([('str', T)]))
            elif t in (VIEW, OWN):
                loc = OTHER
                if alias:
                    loc = THIS
                    if self.f.get("rec") == OWN and t == VIEW: loc = (THIS[0], (next(n for n, x in self.own() if x == VIEW),))
                elif t == VIEW:
                    T = self.free_text("source"); texts.append(T); self.set_view(OTHER, T, "other")
                else: texts.append(self.set_uri(OTHER, "other"))
                self.st.store[(a["id"], ('&',))] = frozenset([('ptr',) + loc]); self.st.store[(a["id"], ())] = frozenset()
            else: self.put(a, V([('m', ('arg', a["n"]), ())]))
        return texts
    def put(self, a, v):
        if is_ref(a["t"]):
            l = (('argument', a["id"]), ())
            self.st.store[l] = v.a
            self.st.store[(a["id"], ('&',))] = frozenset([('ptr',) + l]); self.st.store[(a["id"], ())] = frozenset()
        else: self.st.store[(a["id"], ())] = v.a
    def old(self):
        """The object's earlier value."""
        if self.f.get("rec") == VIEW: self.set_view(THIS, self.free_text("earlier"), "this")
        else: return self.set_uri(THIS, "this")
    def go(self):
        f, I, st = self.f, self.I, self.st
        self.before = st.copy()
        if not f.get("ctor"): return [s for _, s in I.run(f, st, this=THIS)]
        st.store[THIS] = frozenset([('obj', f["rec"])])
        states = [st]
        I.stack.append(f["id"]); I.depth += 1
        for i in f.get("inits", []):
            if not i.get("e"): continue
            nx = []
            for s in states:
                for v, s2 in I.eval(i["e"], s):
                    s2 = s2.copy()
                    if i.get("n"): I.write((THIS[0], (i["n"],)), v, s2, i["e"])
                    else:
                        for k, a in (v.sub or {}).items(): s2.store[(THIS[0], k)] = a
                    nx.append(s2)
            states = nx
        I.stack.pop(); I.depth -= 1
        out = []
        for s in states: out += [x for _, x in I.run(f, s, this=THIS)]
        return out
    def value(self, loc, s):
        v = self.I.load(loc, s)
        return v.one()

def members(rec):
    """Constructors and assignments of a class that have a body."""
    return [f for f in prog().functions if f.get("rec") == rec and f.get("body") and (f.get("ctor") or f["n"] == "operator=")]
def label(f): return "%s(%s)" % (f["q"].split("fastgltf::")[-1], ", ".join(a["t"].replace("std::basic_string<char>", "std::string").replace("std::basic_string_view<char>", "std::string_view").replace("fastgltf::", "") for a in f["params"]))
