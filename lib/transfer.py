"""Copy and move members of the library's classes: which member of the source each member of the result comes from."""
import tree, interp
from interp import *
from interp import V, State, C, TOP, UNINIT, bare
from uris import prog, THIS, OTHER

class TransferClient(interp.Client):
    """Records what is destroyed and constructed in place, and the order of writes."""
    def __init__(self): self.order = []
    def key(self, I, st): return st.x
    def may_inline(self, I, f): return True
    def field(self, v):
        a = v.one()
        return (a[1], a[2]) if a is not None and a[0] == 'ptr' else None
    def on_new(self, I, n, st):
        if not n.get("place"): return None
        out = []
        for v, s in I.eval(n["place"][0], st):
            l = self.field(v)
            init = n.get("init")
            src = None
            if init is not None:
                for y in tree.walk(init):
                    if y["k"] == "MemberExpr" and y.get("dk") == "Field":
                        ls = I.lval(y, s)
                        if ls: src = (ls[0][0][0], ls[0][0][1]); break
                for w, s2 in I.eval(init, s): s = s2
            s = s.copy()
            s.x = (s.x or ()) + (('make', l, src),)
            if l is not None and src is not None: I.write(l, V([('m', src[0], src[1])]), s, n)
            out.append((v, s))
        return out
    def on_call(self, I, n, q, st):
        if q in ("std::destroy_at", "std::destroy") and n.get("c"):
            out = []
            for v, s in I.eval(n["c"][0], st):
                s = s.copy(); s.x = (s.x or ()) + (('destroy', self.field(v)),)
                out.append((V([('void',)]), s))
            return out
        if n["k"] == "CXXMemberCallExpr" and n.get("n", "").startswith("~"):
            m = n["c"][0]
            while m is not None and m["k"] != "MemberExpr": m = (m.get("c") or [None])[0]
            if m is not None and m.get("c"):
                for l, s in I.lval(m["c"][0], st):
                    s = s.copy(); s.x = (s.x or ()) + (('destroy', l),)
                    return [(V([('void',)]), s)]
        return None
    def on_store(self, I, loc, v, st, node):
        if loc[0] == THIS[0] and loc[1]: self.order.append((loc[1][0], frozenset(k[1][0] for k, w in st.store.items() if k[0] == THIS[0] and k[1] and len(k[1]) == 1 and w == frozenset([('m', ('other',), k[1])]))))

def run(f, seed=None, old=None):
    """(exits, client) of a special member run on an object that is not the argument."""
    p = prog(); cl = TransferClient(); I = Interp(p, cl)
    st = State(); st.x = ()
    rec = p.records[f["rec"]]
    I.this = THIS
    for x in rec["fields"]:
        st.store[(OTHER[0], (x["n"],))] = frozenset([('m', ('other',), (x["n"],))])
        if not f.get("ctor"): st.store[(THIS[0], (x["n"],))] = frozenset([('m', ('old',), (x["n"],))])
    for k, v in (seed or {}).items(): st.store[(OTHER[0], (k,))] = frozenset([v])
    for k, v in (old or {}).items(): st.store[(THIS[0], (k,))] = frozenset([v])
    for a in f["params"]:
        if bare(a["t"]) == f["rec"]:
            st.store[(a["id"], ('&',))] = frozenset([('ptr',) + OTHER]); st.store[(a["id"], ())] = frozenset()
        else: st.store[(a["id"], ())] = frozenset([(seed or {}).get(a["n"]) or (seed or {}).get(bare(a["t"])) or ('m', ('arg', a["n"]), ())])
    states = [st]
    if f.get("ctor"):
        st.store[THIS] = frozenset([('obj', f["rec"])])
        I.stack.append(f["id"]); I.depth += 1
        for i in f.get("inits", []):
            if not i.get("e"): continue
            nx = []
            for s in states:
                for v, s2 in I.eval(i["e"], s):
                    s2 = s2.copy()
                    if i.get("n"): I.write((THIS[0], (i["n"],)), v, s2, i["e"])
                    else: delegate(I, i["e"], v, s2)
                    nx.append(s2)
            states = nx
        I.stack.pop(); I.depth -= 1
    out = []
    for s in states: out += [x for _, x in I.run(f, s, this=THIS)]
    return out, cl

def delegate(I, e, v, s):
    for k, a in (v.sub or {}).items(): s.store[(THIS[0], k)] = a

def comes_from(s, path, t, start={}, depth=0):
    """'other' when the member (and all of its parts) is the source's member of the same name, else what it is."""
    p = prog()
    loc = (THIS[0], path)
    main = s.store.get(loc)
    subs = {k[1]: v for k, v in s.store.items() if k[0] == THIS[0] and len(k[1]) > len(path) and k[1][:len(path)] == path}
    want = lambda q: frozenset([('m', ('other',), q)])
    good = lambda q, v: v == want(q) or v == start.get(q)
    if main is not None and good(path, main):
        b = [k for k, v in subs.items() if not good(k, v) and any(a != TOP for a in v)]
        return None if not b else "its part %s is not the source's" % ".".join(map(str, b[0][len(path):]))
    rec = p.records.get(bare(t))
    if rec and rec["fields"] and depth < 3:
        for x in rec["fields"]:
            w = comes_from(s, path + (x["n"],), x["t"], start, depth + 1)
            if w is not None: return "%s: %s" % (x["n"], w) if subs else w
        return None
    if main is None: return "it is not set"
    if any(a[0] == 'm' and a[1] == ('old',) for a in main): return "the value it had before survives"
    if main <= frozenset([UNINIT]): return "it is left without a value"
    if any(mentions_other(a, path) for a in main): return None if all(mentions_other(a, path) for a in main) else "on some path it is not the source's"
    return "it does not come from the source's member"

def mentions_other(a, path):
    if a == ('m', ('other',), path): return True
    return isinstance(a, tuple) and any(mentions_other(x, path) for x in a if isinstance(x, tuple))
