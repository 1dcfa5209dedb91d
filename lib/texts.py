"""Strings, views into them and pointers into buffers: a linear integer domain over offsets and lengths, all paths kept apart.

Values: ('str', T) a string that owns the text T; ('sv', T, offset, length) a view into T (T None: no text); ('ptr', ('txt', T, offset), ()) a pointer into T.
Every change of a string gives it a new text, so that views and pointers into the old one can be told from those into the new one.
Loops are replaced by their induction variables (value = start + step * iterations) and by bounds that hold before the loop and are kept by its body."""
import re
from math import gcd
from functools import reduce
import tree
import interp
from interp import *
from interp import V, State, C, NULL, TOP, VTOP, VVOID, UNINIT, bare, etype, Out, NEG, SWAP, CMP
from builtins_ import split

HUGE = 1 << 64
BOUND = 1 << 60
U64 = ("unsigned long", "unsigned long long", "std::size_t", "size_t", "std::uint64_t")
def lin(a):
    if a is None: return None
    if a[0] == 'c' and isinstance(a[1], int) and not isinstance(a[1], bool): return {}, a[1]
    if a[0] == 't': return {a: 1}, 0
    if a[0] == 'lin': return dict(a[1]), a[2]
    return None
def mk(e):
    d = {k: v for k, v in e[0].items() if v}
    if not d: return ('c', e[1])
    if len(d) == 1 and e[1] == 0 and list(d.values()) == [1]: return list(d)[0]
    return ('lin', tuple(sorted(d.items(), key=repr)), e[1])
def add(x, y, k=1):
    d = dict(x[0])
    for t, v in y[0].items(): d[t] = d.get(t, 0) + k * v
    return {t: v for t, v in d.items() if v}, x[1] + k * y[1]
def mul(x, k): return {t: v * k for t, v in x[0].items()}, x[1] * k
def num(c): return {}, c
def norm(e):
    """Integer tightening of e >= 0."""
    if not e[0]: return e
    g = reduce(gcd, [abs(v) for v in e[0].values()])
    return ({t: v // g for t, v in e[0].items()}, e[1] // g) if g > 1 else e
def ckey(e): return tuple(sorted(e[0].items(), key=repr)), e[1]

def infeasible(cs, limit=350):
    """No non-negative integers satisfy all constraints e >= 0 (Fourier-Motzkin elimination with tightening; False when not shown)."""
    # equalities: substitute a variable with coefficient one
    cs = [norm(c) for c in cs]
    for _ in range(40):
        keys = {ckey(c): c for c in cs}
        eq = next((c for c in keys.values() if ckey(mul(c, -1)) in keys and any(abs(v) == 1 for v in c[0].values())), None)
        if eq is None: break
        t = next(k for k in sorted(eq[0], key=repr) if abs(eq[0][k]) == 1)
        v = mul(({k: w for k, w in eq[0].items() if k != t}, eq[1]), -eq[0][t])
        nx = [v]
        for c in keys.values():
            k = c[0].get(t)
            c = norm(add(({a: w for a, w in c[0].items() if a != t}, c[1]), mul(v, k))) if k else c
            if c[0] or c[1] < 0: nx.append(c)
        cs = nx
    live = {}
    def put(d, e):
        e = norm(e)
        if all(v >= 0 for v in e[0].values()) and e[1] >= 0: return True
        if all(v <= 0 for v in e[0].values()) and e[1] < 0: return False
        k = tuple(sorted(e[0].items(), key=repr))
        if k not in d or d[k][1] > e[1]: d[k] = e
        return True
    for e in cs:
        if not put(live, e): return True
    while live:
        pos, neg = {}, {}
        for k, e in live.items():
            for t, v in e[0].items(): (pos if v > 0 else neg).setdefault(t, []).append(e)
        # variables are at least zero
        ts = set(pos) | set(neg)
        best = min(ts, key=lambda t: (len(pos.get(t, ())) + 1) * len(neg.get(t, ())))
        P = pos.get(best, []) + [({best: 1}, 0)]; N = neg.get(best, [])
        rest = {k: e for k, e in live.items() if best not in e[0]}
        for a in P:
            for b in N:
                x, y = a[0][best], -b[0][best]
                if not put(rest, add(mul(a, y), mul(b, x))): return True
        if len(rest) > limit: return False
        live = rest
    return False

def divide(cs):
    """Replaces remainders: x mod m = x - m * (x div m), which lies in 0..m-1."""
    for _ in range(12):
        t = next((t for c in cs for t in c[0] if t[1] in ('mod', 'div') and (t[1] == 'mod' or not any(d == t for d in divide.done))), None)
        if t is None: break
        x = (dict(t[2][0]), t[2][1]); m = t[3]
        q, r = ('t', 'div') + t[2:], ('t', 'mod') + t[2:]
        e = add(x, ({q: m}, 0), -1)
        nx = []
        for c in cs:
            k = c[0].get(r)
            nx.append(add(({a: v for a, v in c[0].items() if a != r}, c[1]), mul(e, k)) if k else c)
        if q not in divide.done: nx += [e, add(num(m - 1), e, -1)]
        divide.done.append(q)
        cs = nx
    divide.done.clear()
    return cs
divide.done = []

class TextInterp(Interp):
    MAXDEPTH = 18
    def __init__(self, *a, **k):
        Interp.__init__(self, *a, **k)
        self.budget = 4 * 10 ** 6
    def wrapper_type(self, t): return not t.startswith("fastgltf::URI") and Interp.wrapper_type(self, t)
    # states are kept apart
    def join(self, states):
        if len(states) <= 1: return states
        g = {}
        for s in states: g.setdefault((frozenset(s.store.items()), frozenset((k, v) for k, v in s.facts.items())), s)
        if len(g) > 3000: raise BudgetExceeded()
        return list(g.values())
    def join_ret(self, rets): return rets
    def join_rets(self, rets): return rets
    def eval(self, n, st):
        if n is not None and "cv" in n and bare(n.get("t", "")) in U64 and n["cv"].startswith("-"): return [(C(int(n["cv"]) % HUGE), st)]
        return Interp.eval(self, n, st)
    def e_MemberExpr(self, n, st):
        if n.get("n") == "npos": return [(C(HUGE - 1), st)]
        return Interp.e_MemberExpr(self, n, st)
    def e_DeclRefExpr(self, n, st):
        if n.get("n") == "npos": return [(C(HUGE - 1), st)]
        return Interp.e_DeclRefExpr(self, n, st)
    # --- pointers into the same text compare by their offsets
    @staticmethod
    def offsets(a, b):
        if a[0] == 'ptr' and b[0] == 'ptr' and isinstance(a[1], tuple) and isinstance(b[1], tuple) and a[1][0] == b[1][0] == 'txt' and a[1][1] == b[1][1] and lin(a[1][2]) is not None and lin(b[1][2]) is not None:
            return a[1][2], b[1][2]
        return a, b
    def decide(self, op, a, b, st):
        a, b = self.offsets(a, b)
        return Interp.decide(self, op, a, b, st)
    # --- facts
    def assume(self, op, a, b, val, st, ta=None):
        a, b = self.offsets(a, b)
        x, y = lin(a), lin(b)
        if x is not None and y is not None:
            if not val: op = NEG[op]
            d = add(x, y, -1)
            if op == "!=":
                if self.cl.prove(d, st): d = add(d, num(1), -1)
                elif self.cl.prove(mul(d, -1), st): d = add(mul(d, -1), num(1), -1)
                else: st.facts[('ne', ckey(d))] = ('in', frozenset([True])); return True
                return self.cl.fact(st, d)
            if op == "==": return self.cl.fact(st, d) and self.cl.fact(st, mul(d, -1))
            if op in ("<", "<="): d = mul(d, -1)
            if op in ("<", ">"): d = add(d, num(1), -1)
            return self.cl.fact(st, d)
        return Interp.assume(self, op, a, b, val, st, ta)
    # --- subtraction wraps around
    def e_BinaryOperator(self, n, st):
        if n["op"] == "-" and "cv" not in n and bare(n.get("t", "")) in U64:
            out = []
            for a, s0 in self.eval(n["c"][0], st):
                for b, s in self.eval(n["c"][1], s0):
                    x, y = lin(a.one()), lin(b.one())
                    if x is None or y is None:
                        r = self.cl.on_binop(self, "-", a, b, s, n)
                        out.append((r if r is not None else VTOP, s)); continue
                    out += self.difference(x, y, s)
            return out
        return Interp.e_BinaryOperator(self, n, st)
    def difference(self, x, y, s):
        d = add(x, y, -1)
        if self.cl.prove(d, s): return [(V([mk(d)]), s)]
        if self.cl.prove(add(mul(d, -1), num(1), -1), s): return [(V([mk(add(d, num(HUGE)))]), s)]
        out = []
        for e, r in ((d, d), (add(mul(d, -1), num(1), -1), add(d, num(HUGE)))):
            q = s.copy()
            if self.cl.fact(q, e): out.append((V([mk(r)]), q))
        return out
    def e_CompoundAssignOperator(self, n, st):
        if n["op"] == "-=" and bare(n.get("t", "")) in U64:
            out = []
            for b, s0 in self.eval(n["c"][1], st):
                for l, s1 in self.lval(n["c"][0], s0):
                    x, y = lin(self.load(l, s1).one()), lin(b.one())
                    for v, s in (self.difference(x, y, s1) if x is not None and y is not None else [(VTOP, s1)]):
                        s = s.copy(); self.write(l, v, s, n); out.append((v, s))
            return out
        return Interp.e_CompoundAssignOperator(self, n, st)
    # --- objects
    def e_CXXConstructExpr(self, n, st):
        f = self.p.by_id.get(n.get("id"))
        if n.get("ck") in ("copy", "move") and f is not None and f.get("body") and f.get("q", "").startswith("fastgltf::URI") and self.can_inline(f) and not f.get("defaulted"):
            r = self.cl.on_call(self, n, n["q"] + "::" + n["q"].split("::")[-1], st)
            return r if r is not None else self.construct(f, n, bare(n["t"]), n.get("c", []), st)
        return Interp.e_CXXConstructExpr(self, n, st)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def type_default(self, t):
        t0 = bare(t) if not t.rstrip().endswith("*") else t
        if t0.startswith("std::basic_string_view"): return V([('sv', None, ('c', 0), ('c', 0))])
        if t0.startswith("std::basic_string<"): return V([('str', ('lit', ''))])
        return Interp.type_default(self, t)
    # --- memory
    def index(self, l, i, s, n):
        if isinstance(l[0], tuple) and l[0][0] == 'txt':
            o, x = lin(l[0][2]), lin(i.one())
            if o is None or x is None:
                self.cl.err("bounds", "subscript in " + self.cl.where(self), "an element of a buffer is accessed at a position that is not known", n["l"])
                return [((('anyel',), ()), s)]
            p = add(o, x)
            self.cl.range(self, l[0][1], p, num(1), s, n, "subscript")
            return [((('txt', l[0][1], mk(p)), ()), s)]
        return Interp.index(self, l, i, s, n)
    def write(self, loc, v, st, node=None, weak=False):
        if isinstance(loc[0], tuple) and loc[0][0] == 'txt':
            o = lin(loc[0][2])
            self.cl.range(self, loc[0][1], o, num(1), st, node or {"l": 0}, "write")
            self.cl.stored(self, loc[0], v, st, node)
            return
        if loc[0] == ('anyel',): return
        Interp.write(self, loc, v, st, node, weak)
    # --- loops
    def loop_once(self, n, states, cond, inc, do):
        """One iteration: (states that leave, states at the end of the body, returns)."""
        F, T = [], []
        if do: T = states
        else:
            for s in states:
                if cond is None: T.append(s)
                else:
                    for b, s2 in self.cond(cond, s): (T if b else F).append(s2)
        r = self.exec(n["body"], self.join(T)) if T else Out()
        back = self.join(r.next + r.cont)
        if inc is not None and back: back = self.exec(inc, back).next
        if do and cond is not None:
            nb = []
            for s in back:
                for b, s2 in self.cond(cond, s): (nb if b else F).append(s2)
            back = nb
        elif cond is not None:
            # a state for which the condition is known not to hold leaves at once
            nb = []
            for s in back:
                bs = self.cond(cond, s.copy())
                if bs and not any(b for b, _ in bs): F += [s2 for _, s2 in bs]
                else: nb.append(s)
            back = nb
        return F + r.brk, back, r.ret, T
    def cond_loop(self, n, states, o, cond, inc, do=False):
        for s in states: self.one_loop(n, s, o, cond, inc, do)
    def s_DoStmt(self, n, states):
        o = Out()
        self.cond_loop(n, states, o, n.get("cond"), None, True)
        return o
    def one_loop(self, n, entry, o, cond, inc, do):
        cl = self.cl
        if cond is not None and not do:
            bs = self.cond(cond, entry.copy())
            if len(bs) == 1 and not bs[0][0]: o.next.append(bs[0][1]); return
        if cond is not None and not do:
            # loops that run a known number of times
            cur, ex, rets, ok = [entry.copy()], [], [], True
            quiet = cl.quiet; cl.quiet = True
            for _ in range(9):
                T = []
                for s in cur:
                    bs = self.cond(cond, s.copy())
                    if len(bs) != 1: ok = False; break
                    if bs[0][0]: T.append(s)
                    else: ex.append(s)
                if not ok or not T: break
                cl.quiet = True
                f, cur, r, _ = self.loop_once(n, T, cond, inc, do)
                ex += f; rets += r
            else: ok = False
            cl.quiet = quiet
            if ok:
                cur = [entry.copy()]; o2 = []
                for _ in range(10):
                    f, cur, r, _ = self.loop_once(n, cur, cond, inc, do)
                    o.next += f; o.ret += r
                    if not cur: break
                return
        quiet = cl.quiet; cl.quiet = True
        try:
            mod = set()
            for _ in range(6):
                head, pieces = cl.havoc(self, entry, mod)
                f, back, r, _ = self.loop_once(n, [head.copy()], cond, inc, do)
                new = cl.changed(head, back, entry)
                if new <= mod: break
                mod |= new
            # induction variables
            steps = {}
            for p, cur in pieces.items():
                ds = {ckey(add(cl.piece(s, p), cur, -1)) if cl.piece(s, p) is not None else None for s in back}
                if len(ds) == 1 and None not in ds:
                    d = list(ds)[0]
                    if not d[0] and d[1] != 0 and abs(d[1]) < BOUND: steps[p] = d[1]
            cands = []
            for p in pieces:
                if p not in steps: cands += [(p, 1), (p, -1)]
            # a position that stays within a length
            for p in pieces:
                if p in steps: continue
                for q, k in [(q, k) for q in pieces if q != p for k in (0, -1)]:
                    e0, e1 = cl.piece(entry, p), cl.piece(entry, q)
                    if e0 is not None and e1 is not None and cl.prove(add(add(e1, e0, -1), num(k)), entry): cands.append((p, (q, k)))
            # ... or within something that the loop does not change
            fixed = {}
            for l, v in entry.store.items():
                if l in mod or len(v) != 1: continue
                a0 = next(iter(v))
                for e in ([cl.length(a0[1])] if a0[0] == 'str' else [add(lin(a0[2]), lin(a0[3]))] if a0[0] == 'sv' and lin(a0[2]) is not None and lin(a0[3]) is not None else [lin(a0)] if lin(a0) is not None and (isinstance(l[0], int) or cl.maxfixed > 12) else []):
                    if e[0] and len(fixed) < cl.maxfixed: fixed[ckey(e)] = e
            for p in pieces:
                e0 = cl.piece(entry, p)
                for k in {0, -1, -abs(steps.get(p, 1))} if e0 is not None and steps.get(p, 1) > 0 else ():
                    for e in fixed.values():
                        if cl.prove(add(add(e, e0, -1), num(k)), entry): cands.append((p, ('below', e, k)))
            def claim(c, g):
                p, w = c
                if isinstance(w, tuple) and w[0] == 'below': return add(add(w[1], g(p), -1), num(w[2])) if g(p) is not None else None
                if g(p) is None: return None
                if not isinstance(w, tuple): return mul(add(g(p), cl.piece(entry, p), -1), w)
                return None if g(w[0]) is None else add(add(g(w[0]), g(p), -1), num(w[1]))
            def keeps(c, s):
                e = claim(c, lambda p: cl.piece(s, p))
                return e is not None and cl.prove(e, s)
            while True:
                head, pieces = cl.havoc(self, entry, mod, steps)
                for c in cands:
                    e = claim(c, pieces.get)
                    if e is not None: cl.fact(head, e)
                f, back, r, T = self.loop_once(n, [head.copy()], cond, inc, do)
                bad = [c for c in cands if not all(keeps(c, s) for s in back)]
                if not bad: break
                cands = [c for c in cands if c not in bad]
        finally: cl.quiet = quiet
        # termination: some quantity moves in one direction on every way around
        ps = list(pieces)
        def moves(g): return back and (all(cl.prove(add(g(s, 1), num(1), -1), s) for s in back) or all(cl.prove(add(mul(g(s, 1), -1), num(1), -1), s) for s in back))
        def dif(p):
            return lambda s, _: add(cl.piece(s, p), pieces[p], -1) if cl.piece(s, p) is not None else num(0)
        ok = not back or any(steps.get(p) for p in ps) or any(moves(dif(p)) for p in ps) or any(moves(lambda s, _, p=p, q=q: add(dif(p)(s, 1), dif(q)(s, 1), -1)) for i, p in enumerate(ps) for q in ps[:i])
        cl.loops.setdefault((cl.where(self), n["l"]), [True])[0] &= bool(ok)
        f, back, r, T = self.loop_once(n, [head.copy()], cond, inc, do)
        o.next += f; o.ret += r

class TextClient(interp.Client):
    maxfixed = 12         # how many bounds are tried for a loop's positions
    steps = True
    ptrindex = True
    def __init__(self, p):
        self.p = p
        self.quiet = False
        self.bad = {}
        self.loops = {}
        self.ops = {}
        self.len = {}          # text -> length (linear form)
        self.origin = {}       # text -> (text, offset) it was copied from
        self.n = 0
        self.cache = {}
        self.names = {}
        self.stolen = {}
    def where(self, I): return next((self.p.by_id[i]["q"].split("fastgltf::")[-1] for i in reversed(I.stack) if self.p.by_id[i]["q"].startswith("fastgltf::") and not self.p.by_id[i].get("lambda")), "?")
    def err(self, rule, what, msg, line):
        if not self.quiet: self.bad.setdefault((rule, what), (msg, line))
    def did(self, rule, I, what, line):
        if not self.quiet: self.ops.setdefault((rule, self.where(I), what, line), 0); self.ops[(rule, self.where(I), what, line)] += 1
    # --- terms and texts
    def fresh(self, name): self.n += 1; return ('t', name, self.n)
    def text(self, ln, origin=None, name="text"):
        self.n += 1
        t = (name, self.n)
        self.len[t] = ln
        if origin: self.origin[t] = origin
        return t
    def length(self, T):
        if T is None: return num(0)
        if T[0] == 'lit': return num(len(T[1]))
        return self.len[T]
    # --- proofs
    def fact(self, st, e):
        e = norm(e)
        if not e[0]: return e[1] >= 0
        if self.prove(add(mul(e, -1), num(1), -1), st): return False
        st.facts[('ge', ckey(e))] = ('in', frozenset([True]))
        # a known disequality may become strict
        k = ckey(e)
        for s in (e, mul(e, -1)):
            if ('ne', ckey(s)) in st.facts: st.facts[('ge', ckey(add(e, num(1), -1)))] = ('in', frozenset([True]))
        return True
    def prove(self, e, st):
        if all(v >= 0 for v in e[0].values()) and e[1] >= 0: return True
        if not e[0]: return False
        fs = [(dict(k[1][0]), k[1][1]) for k in st.facts if k[0] == 'ge']
        key = (ckey(e), frozenset(ckey(f) for f in fs))
        if key in self.cache: return self.cache[key]
        cs = fs + [add(mul(e, -1), num(1), -1)]
        cs = divide(cs)
        # only what is connected with the question
        rel = set(e[0]); use = []; rest = cs[:]
        while True:
            nx = [c for c in rest if set(c[0]) & rel]
            if not nx: break
            rest = [c for c in rest if not set(c[0]) & rel]
            for c in nx: rel |= set(c[0])
            use += nx
        if any(abs(c[1]) >= BOUND for c in use): use += [({t: -1}, BOUND) for t in rel]
        r = infeasible(use)
        self.cache[key] = r
        return r
    def le(self, x, y, st): return self.prove(add(y, x, -1), st)
    def eq(self, x, y, st): return self.le(x, y, st) and self.le(y, x, st)
    def decide(self, I, op, a, b, st):
        x, y = lin(a), lin(b)
        if x is not None and y is not None and (x[0] or y[0]):
            if op in ("==", "!="):
                d = add(x, y, -1)
                if self.prove(add(d, num(1), -1), st) or self.prove(add(mul(d, -1), num(1), -1), st): return op == "!="
                if ('ne', ckey(d)) in st.facts or ('ne', ckey(mul(d, -1))) in st.facts: return op == "!="
                if self.prove(d, st) and self.prove(mul(d, -1), st): return op == "=="
                return None
            if op in (">", "<="): x, y = y, x; strict = op == ">"; flip = op == "<="
            else: strict = op == "<"; flip = op == ">="
            # is x < y ?   (for "<=": y < x negated)
            if self.le(add(x, num(1)), y, st): return not flip
            if self.le(y, x, st): return flip
            return None
        if a[0] == 'ptr' and b[0] == 'ptr' and isinstance(a[1], tuple) and isinstance(b[1], tuple) and a[1][0] == b[1][0] == 'txt' and op in ("==", "!="):
            if a[1][1] != b[1][1]: return op == "!="
            return self.decide(I, op, a[1][2], b[1][2], st) if a[1][2] != b[1][2] else op == "=="
        return None
    # --- arithmetic
    def on_binop(self, I, op, va, vb, st, n):
        a, b = va.one(), vb.one()
        if a is None or b is None: return None
        p, q = (len(z) > 1 and isinstance(z[1], tuple) and z[0] == 'ptr' and z[1][0] == 'txt' for z in (a, b))
        if p and q and op == "-":
            if a[1][1] != b[1][1]:
                self.err("pointers", "difference in " + self.where(I), "the difference of pointers into different texts is used", n["l"] if n else 0)
                return VTOP
            x, y = lin(a[1][2]), lin(b[1][2])
            return V([mk(add(x, y, -1))]) if x is not None and y is not None else VTOP
        if p or q:
            if q: a, b = b, a
            x, y = lin(a[1][2]), lin(b)
            if op not in ("+", "-"): return None
            return V([('ptr', ('txt', a[1][1], mk(add(x, y, 1 if op == "+" else -1))), ())]) if x is not None and y is not None else V([('ptr', ('txt', a[1][1], TOP), ())])
        x, y = lin(a), lin(b)
        if x is None or y is None: return None
        t = bare(n.get("t", "")) if n else ""
        if n is None and not x[0] and x[1] in (HUGE - 1, 0) and not y[0]: return C((x[1] + y[1]) % HUGE if x[1] else x[1] + y[1])
        if not x[0] and not y[0]:
            if op in ("+", "*", "-") and t in U64: return C({"+": x[1] + y[1], "*": x[1] * y[1], "-": x[1] - y[1]}[op] % HUGE)
            return None
        if op == "+": return V([mk(add(x, y))])
        if op == "-": return V([mk(add(x, y, -1))])
        if op == "*" and (not x[0] or not y[0]):
            k, z = (x[1], y) if not x[0] else (y[1], x)
            return V([mk(mul(z, k))])
        if op in ("<<",) and not y[0] and y[1] < 32: return V([mk(mul(x, 1 << y[1]))])
        if op == ">>" and not y[0] and 0 < y[1] < 32: op, y = "/", num(1 << y[1])
        if op == "&" and not y[0] and y[1] > 0 and (y[1] & (y[1] + 1)) == 0: op, y = "%", num(y[1] + 1)
        if op in ("/", "%") and not y[0] and y[1] > 0:
            m = y[1]
            whole = {k: v for k, v in x[0].items() if v % m == 0}; part = {k: v for k, v in x[0].items() if v % m}
            c = x[1] % m
            if not part: return V([mk((({k: v // m for k, v in whole.items()}), x[1] // m))]) if op == "/" else C(c)
            key = ckey((part, c))
            if op == "%": return V([('t', 'mod', key, m)])
            return V([mk(add(({k: v // m for k, v in whole.items()}, (x[1] - c) // m), ({('t', 'div', key, m): 1}, 0)))])
        if op == "&" and not y[0] and y[1] & 0xffffffffffffffff in [(~((1 << k) - 1)) & 0xffffffffffffffff for k in range(1, 12)]:
            m = (~y[1] & 0xffffffffffffffff) + 1
            r = self.on_binop(I, "%", va, C(m), st, n)
            return V([mk(add(x, lin(r.one()), -1))])
        return V([('op', op, ('any',), ('c', n["l"] if n else 0))])
    # --- memory accesses
    def range(self, I, T, off, cnt, st, n, what):
        """[off, off + cnt) lies in the text."""
        self.did("access", I, what, n["l"])
        if off is None or cnt is None or T is None: ok = False
        else: ok = self.prove(off, st) and self.le(add(off, cnt), self.length(T), st)
        if not ok: self.err("bounds", "%s in %s" % (what, self.where(I)), "an access may lie outside of %s" % ("the output" if T and T[0] == 'OUT' else "the text"), n["l"])
        return ok
    def stored(self, I, root, v, st, node): pass
    def memory(self, I, root, path, st):
        if isinstance(root, tuple) and root[0] == 'txt': return frozenset([('ch', root[1], root[2])])
        return None
    # --- loops
    def piece(self, st, p):
        loc, k = p
        v = st.store.get(loc)
        if v is None or len(v) != 1: return None
        (a,) = v
        if k == 'n': return lin(a)
        if k == 'p': return lin(a[1][2]) if a[0] == 'ptr' and isinstance(a[1], tuple) and a[1][0] == 'txt' else None
        if k == 'o': return lin(a[2]) if a[0] == 'sv' else None
        if k == 'l': return lin(a[3]) if a[0] == 'sv' else None
        if k == 's': return self.length(a[1]) if a[0] == 'str' else None
    def changed(self, head, back, entry):
        out = set()
        roots = {k[0] for k in entry.store if isinstance(k[0], int) or isinstance(k[0], tuple) and k[0][0] not in ('tmp', 'new')}
        for s in back:
            for k in set(s.store) | {k for k in head.store}:
                if k[0] not in roots: continue
                if s.store.get(k) != head.store.get(k) and (k in head.store or k in s.store): out.add(k)
        return out
    def havoc(self, I, entry, mod, steps=None):
        s = entry.copy(); pieces = {}
        k = self.fresh("iterations")
        for loc in mod:
            v = entry.store.get(loc)
            a = next(iter(v)) if v is not None and len(v) == 1 else None
            def new(key, e):
                if steps and key in steps: r = add(e, ({k: steps[key]}, 0))
                else: r = {self.fresh("loop"): 1}, 0
                pieces[key] = r
                return mk(r)
            if a is not None and lin(a) is not None: r = new((loc, 'n'), lin(a))
            elif a is not None and a[0] == 'ptr' and isinstance(a[1], tuple) and a[1][0] == 'txt' and lin(a[1][2]) is not None: r = ('ptr', ('txt', a[1][1], new((loc, 'p'), lin(a[1][2]))), ())
            elif a is not None and a[0] == 'sv' and a[1] is not None: r = ('sv', a[1], new((loc, 'o'), lin(a[2])), new((loc, 'l'), lin(a[3])))
            elif a is not None and a[0] == 'str':
                e = lin(new((loc, 's'), self.length(a[1])))
                r = ('str', self.text(e))
            elif a is not None and a[0] == 'c': r = ('op', 'loop', self.fresh("value"))
            else: r = TOP
            s.store[loc] = frozenset([r])
        return s, pieces
    # --- strings
    def view_of(self, a, st):
        """(text, offset, length) a string-like value designates."""
        if a is None: return None
        if a[0] == 'sv': return a[1], lin(a[2]), lin(a[3])
        if a[0] == 'str': return a[1], num(0), self.length(a[1])
        if a[0] == 'c' and isinstance(a[1], str): return ('lit', a[1]), num(0), num(len(a[1]))
        if a[0] == 'c' and isinstance(a[1], int): return ('lit', chr(a[1] & 255)), num(0), num(1)
        if a[0] == 'empty': return ('lit', ''), num(0), num(0)
        return None
    def sv(self, T, off, ln): return V([('sv', T, mk(off), mk(ln))])
    def lit(self, v, st):
        """The constant a string-like value is, if known."""
        w = self.view_of(v.one(), st)
        if w is None or w[0] is None: return '' if w else None
        if w[0][0] != 'lit' or w[1] is None or w[2] is None or w[1][0] or w[2][0]: return None
        return w[0][1][w[1][1]:w[1][1] + w[2][1]]
    def bounded(self, I, pos, size, st, n, what):
        """pos <= size, or an exception is thrown."""
        self.did("position", I, what, n["l"])
        if pos is None: ok = False
        else: ok = self.le(pos, size, st)
        if not ok:
            self.err("throws", "%s in %s" % (what, self.where(I)), "the position may lie behind the end of the text, for which %s throws std::out_of_range" % what, n["l"])
            if pos is not None and not self.fact(st, add(size, pos, -1)): return False
        return True
    def clip(self, I, cnt, rest, st):
        """[(min(cnt, rest), state)]"""
        if cnt is None: 
            r = {self.fresh("count"): 1}, 0
            s = st.copy()
            return [(r, s)] if self.fact(s, add(rest, r, -1)) else []
        if self.le(rest, cnt, st): return [(rest, st)]
        if self.le(cnt, rest, st): return [(cnt, st)]
        out = []
        for r, e in ((cnt, add(rest, cnt, -1)), (rest, add(add(cnt, rest, -1), num(1), -1))):
            s = st.copy()
            if self.fact(s, e): out.append((r, s))
        return out
    def same(self, a, b, st):
        """[(equal?, state)] for two string-like values."""
        x, y = self.view_of(a.one(), st), self.view_of(b.one(), st)
        if x is None or y is None or x[2] is None or y[2] is None: return [(True, st.copy()), (False, st.copy())]
        if x[0] == y[0] and x[1:] == y[1:]: return [(True, st)]
        la, lb = self.lit(a, st), self.lit(b, st)
        if la is not None and lb is not None: return [(la == lb, st)]
        if self.decide(None, "==", mk(x[2]), mk(y[2]), st) is False: return [(False, st)]
        d = add(x[2], y[2], -1)
        key = ('same',) + tuple(sorted((repr((w[0], w[1] and mk(w[1]), mk(w[2]))) for w in (x, y))))
        k = st.facts.get(key)
        if k: return [(list(k[1])[0], st)]
        if la == '' or lb == '':
            e = y[2] if la == '' else x[2]
            out = []
            t, f = st.copy(), st.copy()
            if self.fact(t, mul(e, -1)): out.append((True, t))
            if self.fact(f, add(e, num(1), -1)): out.append((False, f))
            return out
        out = []
        t, f = st.copy(), st.copy()
        t.facts[key] = ('in', frozenset([True])); f.facts[key] = ('in', frozenset([False]))
        t.facts[('equal', x[0], x[1] and mk(x[1]), mk(x[2]), lb if lb is not None else la)] = ('in', frozenset([True]))
        if la is not None: t.facts[('equal', y[0], y[1] and mk(y[1]), mk(y[2]), la)] = ('in', frozenset([True]))
        if self.fact(t, d) and self.fact(t, mul(d, -1)): out.append((True, t))
        out.append((False, f))
        return out
    def search(self, I, w, needle, start, st, n, kind):
        """[(position relative to the view, state)] of find and its relatives."""
        T, off, size = w
        NPOS = C(HUGE - 1)
        nl = len(needle) if needle is not None and kind in ("find", "rfind") else 1
        if kind == "rfind" and start is not None and not start[0] and start[1] == 0:
            # starts with
            key = ('starts', T, mk(off), mk(size), needle)
            out = []
            k = st.facts.get(key)
            for val in ((True, False) if not k else tuple(k[1])):
                s = st.copy(); s.facts[key] = ('in', frozenset([val]))
                if val:
                    if not self.fact(s, add(size, num(nl), -1)): continue
                    out.append((C(0), s))
                else: out.append((NPOS, s))
            return out
        t = self.names.setdefault((kind, T, mk(off), mk(size), needle, mk(start)), ('t', 'found', len(self.names))) if start is not None and needle is not None else self.fresh("found")
        out = []
        k = st.facts.get(('found', t))
        for val in ((True, False) if not k else tuple(k[1])):
            s = st.copy(); s.facts[('found', t)] = ('in', frozenset([val]))
            if val:
                x = {t: 1}, 0
                if not self.fact(s, add(size, add(x, num(nl)), -1)): continue
                if start is not None and not kind.startswith(("rfind", "find_last")) and not self.fact(s, add(x, start, -1)): continue
                if needle is not None and nl == 1 and kind in ("find", "rfind", "find_first_of"): s.facts[('at', T, mk(add(off, x)))] = ('in', frozenset([needle]))
                out.append((V([t]), s))
            else: out.append((NPOS, s))
        return out
    def newtext(self, I, loc, T, s, n):
        s.store = dict(s.store); I.clear(loc, s); s.store[loc] = frozenset([('str', T)])
    def member_loc(self, I, o, n, st):
        if n.get("arrow"):
            return [(l, s) for v, s in I.eval(o, st) for l in I.deref(v, s)]
        return I.lval(o, st)
    # --- calls
    def on_call(self, I, n, q, st):
        cls, name = split(q)
        kids = n.get("c", [])
        f = self.p.by_id.get(n.get("id"))
        if f is not None and f.get("body") and (f.get("rec") or "").startswith("fastgltf::URI") and n["k"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr") and not f.get("static") and I.can_inline(f):
            return I.inline(f, n, kids[0], kids[1:], st)
        isview, isstr = cls.startswith("std::basic_string_view"), cls.startswith("std::basic_string") and not cls.startswith("std::basic_string_view")
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (isview or isstr): return self.construct(I, n, isview, kids, st)
        if isview or isstr: return self.member(I, n, name, isview, kids, st)
        if cls == "std" and name in ("operator==", "operator!=") and len(kids) == 2 and any("basic_string" in etype(k) for k in kids):
            out = []
            for a, s0 in I.eval(kids[0], st):
                for b, s1 in I.eval(kids[1], s0):
                    out += [(C(v == (name == "operator==")), s) for v, s in self.same(a, b, s1)]
            return out
        if cls == "std" and name in ("min", "max") and len(kids) == 2:
            out = []
            for vs, s in I.args(kids, st):
                x, y = lin(vs[0].one()), lin(vs[1].one())
                if x is None or y is None: return None
                if name == "max":
                    for m, s2 in self.clip(I, x, y, s): out.append((V([mk(add(add(x, y), m, -1))]) , s2))
                else: out += [(V([mk(m)]), s2) for m, s2 in self.clip(I, x, y, s)]
            return out
        if cls == "std" and name in ("move", "forward", "as_const", "addressof", "exchange"):
            return self.forward(I, n, name, kids, st)
        if (q == "memcpy" or q.endswith(("::memcpy", "::memmove")) or q in ("memmove", "std::copy_n")) and len(kids) == 3:
            out = []
            for vs, s in I.args(kids, st):
                if name == "copy_n": vs, kids = [vs[2], vs[0], vs[1]], [kids[2], kids[0], kids[1]]
                cnt = lin(vs[2].one())
                for i in (0, 1):
                    for a in vs[i].a:
                        if a[0] == 'ptr' and isinstance(a[1], tuple) and a[1][0] == 'txt':
                            self.range(I, a[1][1], lin(a[1][2]), cnt, s, n, "memcpy")
                        elif a[0] == 'ptr': self.local(I, a, kids[i], cnt, s, n, i == 0)
                self.transferred(I, vs[0].one(), vs[1].one(), cnt, s, n)
                out.append((vs[0], s))
            return out
        m = re.fullmatch(r"_mm(\d*)_(load|store|loadu|storeu|lddqu|maskstore|storel|loadl)_(\w+)", name if not cls else "")
        if m and kids:
            size = {"epi64": 8}.get(m.group(3)) or {"si64": 8, "si32": 4, "si16": 2}.get(m.group(3)) or (int(m.group(1) or 128) // 8)
            sm = re.match(r"si(\d+)$", m.group(3))
            if sm and int(sm.group(1)) >= 128: size = int(sm.group(1)) // 8
            out = []
            for vs, s in I.args(kids, st):
                for a in vs[0].a:
                    if a[0] == 'ptr' and isinstance(a[1], tuple) and a[1][0] == 'txt': self.range(I, a[1][1], lin(a[1][2]), num(size), s, n, name)
                out.append((VTOP if "load" in name or "lddqu" in name else VVOID, s))
            return out
        return self.other(I, n, q, cls, name, kids, st)
    def other(self, I, n, q, cls, name, kids, st): return None
    def transferred(self, I, d, b, cnt, s, n): pass
    def local(self, I, a, node, cnt, s, n, written):
        """memcpy to or from a local array."""
        if written:
            path = a[2][:-1] if a[2] and (a[2][-1] == ('[]', 'data') or isinstance(a[2][-1], str) and a[2][-1][0] == '[') else a[2]
            I.clear((a[1], path), s)
            s.store[(a[1], path)] = frozenset([TOP])
    def forward(self, I, n, name, kids, st):
        if name == "exchange" and len(kids) == 2 and "basic_string" in etype(kids[0]):
            out = []
            for l, s in I.lval(kids[0], st):
                old = I.load(l, s)
                for v, s2 in I.eval(kids[1], s): 
                    s2 = s2.copy(); I.write(l, v, s2, n); out.append((old, s2))
            return out
        return None
    def copytext(self, v, st):
        """The text of a copy of a string-like value."""
        w = self.view_of(v.one(), st)
        if w is None or w[2] is None: return self.text(({self.fresh("length"): 1}, 0))
        l = self.lit(v, st)
        if l is not None: return ('lit', l)
        return self.text(w[2], (w[0], w[1]), "copy")
    def steal(self, I, src, loc, st, n):
        """Moving a string: its buffer changes hands, or (short strings) is copied. [(text, state)]"""
        v = I.load(loc, st).one()
        if v is None or v[0] != 'str': return [(self.text(({self.fresh("length"): 1}, 0)), st)]
        T = v[1]
        out = []
        a, b = st.copy(), st.copy()
        a.store[loc] = frozenset([('str', ('lit', ''))])
        out.append((T, a))
        if T[0] != 'lit':
            b.store[loc] = frozenset([('str', ('lit', ''))])
            b.facts[('dead', T)] = ('in', frozenset([True]))
            out.append((self.text(self.length(T), (T, num(0)), "copy"), b))
        return out
    def ismove(self, n):
        while n is not None and n["k"] in ("MaterializeTemporaryExpr", "ImplicitCastExpr", "ExprWithCleanups", "CXXStaticCastExpr") and n.get("c"):
            if n["k"] == "CXXStaticCastExpr" and n.get("t", "").rstrip().endswith("&&"): return n["c"][0]
            n = n["c"][0]
        if n is not None and n["k"] == "CallExpr" and (n.get("q") or "").split("<")[0] in ("std::move", "std::forward") and n.get("c"): return n["c"][0]
        return None
    def construct(self, I, n, isview, kids, st):
        out = []
        if not kids: return [(V([('sv', None, ('c', 0), ('c', 0))]) if isview else V([('str', ('lit', ''))]), st)]
        kids = [k for k in kids if k["k"] != "CXXDefaultArgExpr" and not k.get("t", "").startswith(("std::allocator", "const std::allocator"))]
        if not kids: return [(V([('str', ('lit', ''))]), st)]
        if not isview:
            src = self.ismove(kids[0])
            if src is not None and "basic_string<" in etype(kids[0]):
                for l, s in I.lval(src, st): out += [(V([('str', T)]), s2) for T, s2 in self.steal(I, src, l, s, n)]
                return out
        for vs, s in I.args(kids, st):
            a = vs[0].one()
            if len(vs) == 2 and a is not None and (a[0] == 'ptr' or a == NULL):
                x, ln = (lin(a[1][2]), a[1][1]) if a[0] == 'ptr' and isinstance(a[1], tuple) and a[1][0] == 'txt' else (None, None), lin(vs[1].one())
                if a == NULL:
                    if ln is None or not self.le(ln, num(0), s): self.err("bounds", "view in " + self.where(I), "a view of a null pointer has a length", n["l"])
                    out.append((V([('sv', None, ('c', 0), ('c', 0))]), s)); continue
                off, T = x
                if off is None or ln is None: out.append((self.unknown(isview), s)); continue
                if not (self.prove(off, s) and self.le(add(off, ln), self.length(T), s)): self.err("bounds", "view in " + self.where(I), "a view that reaches outside of the text is made", n["l"])
                self.did("view", I, "view", n["l"])
                if isview: out.append((self.sv(T, off, ln), s))
                else: out.append((V([('str', self.text(ln, (T, off), "copy"))]), s))
                continue
            w = self.view_of(a, s) if len(vs) == 1 else None
            if w is None: out.append((self.unknown(isview), s)); continue
            if isview: out.append((self.sv(*w) if None not in w[1:] else self.unknown(True), s))
            else: out.append((V([('str', self.copytext(vs[0], s))]), s))
        return out
    def unknown(self, isview):
        L = {self.fresh("length"): 1}, 0
        T = self.text(L)
        return self.sv(T, num(0), L) if isview else V([('str', T)])
    def member(self, I, n, name, isview, kids, st):
        out = []
        if name == "operator=":
            for l, s0 in self.member_loc(I, kids[0], n, st):
                if not isview and self.ismove(kids[1]) is not None and "basic_string<" in etype(kids[1]):
                    for l2, s1 in I.lval(self.ismove(kids[1]), s0):
                        if l2 == l: out.append((I.load(l, s1), s1)); continue
                        for T, s in self.steal(I, None, l2, s1, n):
                            old = I.load(l, s).one()
                            if old is not None and old[0] == 'str': s.facts[('dead', old[1])] = ('in', frozenset([True]))
                            self.newtext(I, l, T, s, n); out.append((l, s))
                    continue
                for v, s in I.eval(kids[1], s0):
                    s = s.copy()
                    if isview:
                        w = self.view_of(v.one(), s)
                        I.clear(l, s); s.store[l] = self.sv(*w).a if w and None not in w[1:] else self.unknown(True).a
                    else:
                        old = I.load(l, s).one()
                        T = self.copytext(v, s)
                        if old is not None and old[0] == 'str':
                            if v.one() == old: out.append((l, s)); continue     # assigned to itself
                            s.facts[('dead', old[1])] = ('in', frozenset([True]))
                        self.newtext(I, l, T, s, n)
                    out.append((l, s))
            return out
        obj = []
        if isview:
            for v, s in (I.eval(kids[0], st) if not n.get("arrow") else [(I.load(l, s), s) for v, s0 in I.eval(kids[0], st) for l, s in [(x, s0) for x in I.deref(v, s0)]]): obj.append((v, s, None))
            if name in ("remove_prefix", "remove_suffix", "swap"): obj = [(I.load(l, s), s, l) for l, s in self.member_loc(I, kids[0], n, st)]
        else: obj = [(I.load(l, s), s, l) for l, s in self.member_loc(I, kids[0], n, st)]
        for v, s0, loc in obj:
            w = self.view_of(v.one(), s0)
            if w is None or None in w[1:]:
                for vs, s in I.args([k for k in kids[1:] if k["k"] != "CXXDefaultArgExpr"], s0): out.append((self.unknown(True) if name == "substr" else VTOP, s))
                continue
            for vs, s in I.args([k for k in kids[1:] if k["k"] != "CXXDefaultArgExpr"], s0):
                out += self.method(I, n, name, isview, w, vs, s.copy(), loc, kids)
        return out
    def method(self, I, n, name, isview, w, vs, s, loc, kids):
        T, off, size = w
        if ('dead', T) in s.facts and name in ("operator[]", "at", "front", "back", "find", "substr", "data") and isview and name not in ("data",):
            self.err("dangling", "%s in %s" % (name, self.where(I)), "a view into a text that is gone is read", n["l"])
        arg = lambda i: lin(vs[i].one()) if len(vs) > i else None
        if name in ("size", "length"): return [(V([mk(size)]), s)]
        if name == "empty": return [(V([('cmp', "==", mk(size), ('c', 0))]) if size[0] else C(size[1] == 0), s)]
        if name in ("data", "c_str", "begin", "cbegin"): return [(V([NULL]) if T is None else V([('ptr', ('txt', T, mk(off)), ())]), s)]
        if name in ("end", "cend"): return [(V([NULL]) if T is None else V([('ptr', ('txt', T, mk(add(off, size))), ())]), s)]
        if name.startswith("operator basic_string_view"): return [(self.sv(T, off, size), s)]
        if name in ("operator[]", "at"):
            i = arg(0)
            self.did("access", I, name, n["l"])
            ok = i is not None and self.prove(i, s) and self.le(add(i, num(1)) if isview or name == "at" else i, size, s)
            if not ok: self.err("bounds", "%s in %s" % (name, self.where(I)), "a character is accessed that may lie outside of the text", n["l"])
            return [((('txt', T, mk(add(off, i)) if i is not None else TOP), ()), s)]
        if name in ("front", "back"):
            self.did("access", I, name, n["l"])
            if not self.le(num(1), size, s): self.err("bounds", "%s in %s" % (name, self.where(I)), "a character of a text that may be empty is accessed", n["l"])
            return [((('txt', T, mk(off if name == "front" else add(add(off, size), num(1), -1))), ()), s)]
        if name == "substr":
            pos = arg(0) if vs else num(0)
            if not self.bounded(I, pos, size, s, n, "substr"): return []
            if pos is None: return [(self.unknown(True), s)]
            rest = add(size, pos, -1)
            if len(vs) < 2: return [(self.sv(T, add(off, pos), rest) if isview else V([('str', self.text(rest, (T, add(off, pos)), "copy"))]), s)]
            return [(self.sv(T, add(off, pos), l) if isview else V([('str', self.text(l, (T, add(off, pos)), "copy"))]), s2) for l, s2 in self.clip(I, arg(1), rest, s)]
        if name in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            start = arg(1) if len(vs) > 1 else (num(0) if not name.startswith(("rfind", "find_last")) else num(HUGE - 1))
            return self.search(I, w, self.lit(vs[0], s), start, s, n, name)
        if name in ("starts_with", "ends_with", "contains"):
            l = self.lit(vs[0], s)
            key = ('starts' if name == "starts_with" else name, T, mk(off), mk(size), l)
            out = []
            for val in (True, False):
                q = s.copy(); q.facts[key] = ('in', frozenset([val]))
                if val and l is not None and not self.fact(q, add(size, num(len(l)), -1)): continue
                out.append((C(val), q))
            return out
        if name == "compare":
            sub = [(w, s)]
            if len(vs) >= 3:
                pos = arg(0)
                if not self.bounded(I, pos, size, s, n, "compare"): return []
                sub = [((T, add(off, pos), l), s2) for l, s2 in self.clip(I, arg(1), add(size, pos, -1), s)] if pos is not None else [((None, num(0), num(0)), s)]
            out = []
            for x, s2 in sub:
                for val, s3 in self.same(self.sv(*x), vs[-1] if len(vs) != 2 else vs[0], s2): out.append((C(0) if val else V([('nz',)]), s3))
            return out
        if name in ("remove_prefix", "remove_suffix"):
            k = arg(0)
            self.did("access", I, name, n["l"])
            if k is None or not self.le(k, size, s): self.err("bounds", "%s in %s" % (name, self.where(I)), "more characters are removed from a view than it may have", n["l"])
            if k is None: k = {self.fresh("count"): 1}, 0; self.fact(s, add(size, k, -1))
            s.store[loc] = self.sv(T, add(off, k) if name == "remove_prefix" else off, add(size, k, -1)).a
            return [(VVOID, s)]
        # changes of a string
        if not isview and loc is not None:
            def become(st, ln, origin=None):
                st.facts[('dead', T)] = ('in', frozenset([True]))
                self.newtext(I, loc, self.text(ln, origin), st, n)
                return (loc, st)
            if name == "erase":
                a = vs[0].one() if vs else ('c', 0)
                if a is not None and a[0] == 'ptr':
                    b = vs[1].one() if len(vs) > 1 else None
                    x = lin(a[1][2]) if a[1][0] == 'txt' else None
                    y = (lin(b[1][2]) if b is not None and b[0] == 'ptr' and b[1][0] == 'txt' else None) if len(vs) > 1 else (add(x, num(1)) if x is not None else None)
                    self.did("access", I, name, n["l"])
                    if x is None or y is None or not (self.le(x, y, s) and self.le(y, size, s)): self.err("bounds", "erase in " + self.where(I), "characters outside of the text may be erased", n["l"])
                    if x is None or y is None: return [become(s, ({self.fresh("length"): 1}, 0))]
                    return [become(s, add(size, add(y, x, -1), -1))]
                pos = arg(0) if vs else num(0)
                if not self.bounded(I, pos, size, s, n, "erase"): return []
                if pos is None: return [become(s, ({self.fresh("length"): 1}, 0))]
                rest = add(size, pos, -1)
                return [become(s2, add(size, l, -1)) for l, s2 in (self.clip(I, arg(1), rest, s) if len(vs) > 1 else [(rest, s)])]
            if name in ("clear",): return [become(s, num(0))]
            if name == "resize": return [become(s, arg(0) if arg(0) is not None else ({self.fresh("length"): 1}, 0))]
            if name in ("push_back",): return [become(s, add(size, num(1)))]
            if name == "pop_back":
                if not self.le(num(1), size, s): self.err("bounds", "pop_back in " + self.where(I), "a character of a text that may be empty is removed", n["l"])
                return [become(s, add(size, num(1), -1))]
            if name in ("append", "operator+=", "insert", "replace", "assign"):
                if name == "assign" and len(vs) == 1:
                    s.facts[('dead', T)] = ('in', frozenset([True])); self.newtext(I, loc, self.copytext(vs[0], s), s, n); return [(loc, s)]
                if name in ("insert", "replace") and arg(0) is not None and not self.bounded(I, arg(0), size, s, n, name): return []
                x = self.view_of(vs[0].one(), s) if len(vs) == 1 else None
                return [become(s, add(size, x[2]) if x and x[2] is not None else ({self.fresh("length"): 1}, 0))]
            if name in ("reserve", "shrink_to_fit"): 
                s.facts[('dead', T)] = ('in', frozenset([True])); self.newtext(I, loc, self.text(size, (T, num(0)), "copy"), s, n); return [(VVOID, s)]
        return [(VTOP, s)]
