"""String-scanning functions as transducers.

A function that walks over one string is interpreted in a domain that keeps only the characters around its cursors: every character is drawn from the
given alphabet when the function first looks at it, everything left of the cursors is handed to an oracle at each loop head, and loop heads are memoised.
So one abstract iteration per character class covers strings of every length.  Nothing of /repo is executed and no solver is used.
"""
from interp import bare, CMP
from builtins_ import split, STR
from tree import walk

class Unsupported(Exception): pass
class Bad(Exception): pass
UNK = ('?',)
MASK = {"unsigned char": (8, False), "char": (8, True), "signed char": (8, True), "unsigned short": (16, False), "short": (16, True), "unsigned int": (32, False), "int": (32, True),
        "std::byte": (8, False), "unsigned long": (64, False), "long": (64, True), "unsigned long long": (64, False)}
def wrap(v, t):
    if isinstance(v, bool) or not isinstance(v, int): return int(v) if isinstance(v, bool) else v
    m = MASK.get(bare(t))
    if m is None: return v
    v &= (1 << m[0]) - 1
    return v - (1 << m[0]) if m[1] and v >> (m[0] - 1) else v
def text(v):
    if isinstance(v, tuple) and v and v[0] == 's': return v[1]
    if isinstance(v, tuple) and v and v[0] == 'arr' and all(isinstance(x, int) for x in v[1]): return ''.join(chr(x & 255) for x in v[1])
    return None

class St:
    __slots__ = ("env", "cells", "end", "q", "orc", "out", "abs")
    def __init__(self): self.env, self.cells, self.end, self.q, self.orc, self.out, self.abs = {}, (), False, None, None, None, 0
    def copy(self):
        s = St(); s.env = dict(self.env); s.cells, s.end, s.q, s.orc, s.out, s.abs = self.cells, self.end, self.q, self.orc, self.out, self.abs
        return s
    def key(self): return (tuple(sorted(self.env.items(), key=repr)), self.cells, self.end, self.q, self.orc, self.out, self.abs)

class Scan:
    """alphabet(q) -> [(char, q')] and whether the string may end in q; oracle: step(state, cells, out) -> state."""
    MAXSTEPS = 3000000
    def __init__(self, prog, oracle, nul_at_end=True):
        self.p, self.o = prog, oracle
        self.nul = nul_at_end
        self.bad = {}
        self.steps = self.heads = 0
        self.posvars, self.posrefs = set(), False
        self.back = 0
        self.depth = 0
    def fail(self, n, msg): self.bad.setdefault(msg, n.get("l"))
    # ---- characters
    def char(self, k, st, n, what="read"):
        """Character at cell k: [(code or None for 'at the end', state)]."""
        if k < 0: return [(UNK, st)] if not st.abs == 0 else (self.fail(n, "a character before the beginning of the string is accessed"), [])[1]
        work, out = [st], []
        while work:
            s = work.pop()
            if k < len(s.cells): out.append((ord(s.cells[k][0]) if isinstance(s.cells[k][0], str) else s.cells[k][0], s)); continue
            if s.end: out.append((None, s)); continue
            self.steps += 1
            if self.steps > self.MAXSTEPS: raise Unsupported("too many states")
            if self.o.may_end(s.q):
                e = s.copy(); e.end = True
                out.append((None, e)) if True else None
            for c, q in self.o.alphabet(s.q):
                e = s.copy(); e.cells = s.cells + ((c, ((c, s.q),)),); e.q = q
                work.append(e)
        return out
    def read(self, k, st, n):
        out = []
        for c, s in self.char(k, st, n):
            if c is None:
                if self.nul and k == len(s.cells): out.append((0, s))
                else: self.fail(n, "a character past the end of the string is read")
            elif c is UNK: out.append((UNK, s))
            else: out.append((c, s))
        return out
    def pos(self, v, st):
        if isinstance(v, tuple) and v[0] == 'r': return v[1]
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int) and st.abs is not None: return v - st.abs
        if isinstance(v, int): raise Unsupported("constant position")
        raise Unsupported("position %r" % (v,))
    # ---- expressions
    def ev(self, n, st):
        k = n["k"]
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Unsupported("too many states")
        if "cv" in n and k not in ("DeclRefExpr",):
            try: return [(int(n["cv"]), st)]
            except ValueError: pass
        m = getattr(self, "x_" + k, None)
        if m: return m(n, st)
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ConstantExpr", "CXXReinterpretCastExpr", "SubstNonTypeTemplateParmExpr"):
            return [(wrap(v, n.get("t", "")) if n.get("ck") in ("IntegralCast", "NoOp") else (v != 0 if n.get("ck") == "IntegralToBoolean" and isinstance(v, int) else v), s) for v, s in self.ev(n["c"][0], st)]
        raise Unsupported(k)
    def x_IntegerLiteral(self, n, st): return [(int(n["v"]), st)]
    def x_CharacterLiteral(self, n, st): return [(wrap(int(n["v"]), n["t"]), st)]
    def x_CXXBoolLiteralExpr(self, n, st): return [(int(n["v"] in (True, "true", 1, "1")), st)]
    def x_StringLiteral(self, n, st): return [(('s', n["v"]), st)]
    def x_CXXNullPtrLiteralExpr(self, n, st): return [(0, st)]
    def x_CXXDefaultArgExpr(self, n, st): return [(UNK, st)]
    def x_LambdaExpr(self, n, st):
        for c in n.get("caps", []):
            if c.get("init") is not None:
                nx = self.ev(c["init"], st)
                if len(nx) != 1: raise Unsupported("capture")
                st = nx[0][1].copy(); st.env[c["id"]] = nx[0][0]
        return [(('lam', n["ops"][0]), st)]
    def x_DeclRefExpr(self, n, st):
        i = n.get("id")
        v = st.env.get(i)
        while isinstance(v, tuple) and v and v[0] == '&': v = st.env.get(v[1])
        if v is not None: return [(v, st)]
        if "cv" in n: return [(int(n["cv"]), st)]
        if "sv" in n: return [(('s', n["sv"]), st)]
        g = self.p.globals.get(i) if isinstance(self.p.globals, dict) else None
        if g and g.get("init"): return self.ev(g["init"], st)
        return [(UNK, st)]
    def x_MemberExpr(self, n, st):
        if n.get("n") in st.env: return [(st.env[n["n"]], st)]
        return [(UNK, st)]
    def x_CXXThisExpr(self, n, st): return [(UNK, st)]
    def lv(self, n, st):
        while n["k"] in ("ImplicitCastExpr", "ParenExpr") and n.get("c"): n = n["c"][0]
        i = n.get("id") if n["k"] == "DeclRefExpr" else n.get("n") if n["k"] == "MemberExpr" else None
        while isinstance(st.env.get(i), tuple) and st.env[i][:1] == ('&',): i = st.env[i][1]
        return i
    def x_UnaryOperator(self, n, st):
        op = n["op"]
        if op in ("++", "--"):
            i = self.lv(n["c"][0], st)
            out = []
            for v, s in self.ev(n["c"][0], st):
                if i is None: raise Unsupported("++")
                w = self.plus(v, 1 if op == "++" else -1, n)
                s = s.copy(); s.env[i] = wrap(w, n["t"])
                if op == "--" and isinstance(v, int) and v == 0 and "unsigned" in n["t"]: self.fail(n, "an unsigned counter is decremented below zero")
                out.append((v if n.get("post") else s.env[i], s))
            return out
        if op == "*":
            out = []
            for v, s in self.ev(n["c"][0], st):
                if isinstance(v, tuple) and v[0] == 'r': out += self.read(v[1], s, n)
                else: out.append((UNK if not (isinstance(v, tuple) and v[0] in ('S', 'O')) else v, s))
            return out
        out = []
        for v, s in self.ev(n["c"][0], st):
            if op == "&" or op == "+": out.append((v, s))
            elif not isinstance(v, int): out.append((UNK, s))
            elif op == "!": out.append((int(not v), s))
            elif op == "-": out.append((wrap(-v, n["t"]), s))
            elif op == "~": out.append((wrap(~v, n["t"]), s))
            else: raise Unsupported(op)
        return out
    def plus(self, v, d, n):
        if isinstance(v, int) and isinstance(d, int): return int(v) + int(d)
        if isinstance(v, tuple) and v[0] in ('r', 'size') and isinstance(d, int): return (v[0], v[1] + d)
        return UNK
    def x_BinaryOperator(self, n, st):
        op = n["op"]
        a, b = n["c"]
        if op in ("&&", "||"):
            out = []
            for t, s in self.truth(a, st):
                if t == (op == "&&"): out += self.bools(b, s)
                else: out.append((int(t), s))
            return out
        if op == "=":
            out = []
            for v, s in self.ev(b, st):
                out += self.assign(a, v, s, n)
            return out
        if op == ",": return [x for _, s in self.ev(a, st) for x in self.ev(b, s)]
        out = []
        for x, s in self.ev(a, st):
            for y, s2 in self.ev(b, s): out += self.bin(op, x, y, s2, n)
        return out
    def bools(self, n, st): return [(int(t), s) for t, s in self.truth(n, st)]
    def assign(self, a, v, s, n):
        i = self.lv(a, s)
        if i is not None:
            s = s.copy(); s.env[i] = self.conv(i, wrap(v, a.get("t", "")), s)
            return [(v, s)]
        if a["k"] in ("CXXOperatorCallExpr",) and a.get("op") == "[]":
            out = []
            for o, s1 in self.ev(a["c"][0], s):
                for p, s2 in self.ev(a["c"][1], s1):
                    if o == ('S',): out += [(v, s3) for s3 in self.edit(s2, p, 1, self.chars(v), n)]
                    else: raise Unsupported("element assignment")
            return out
        raise Unsupported("assignment")
    def chars(self, v):
        if isinstance(v, int): return chr(v & 255)
        raise Unsupported("unknown character")
    def conv(self, i, v, st):
        if i in self.posvars and isinstance(v, int) and st.abs is not None: return ('r', v - st.abs)
        return v
    def x_CompoundAssignOperator(self, n, st):
        i = self.lv(n["c"][0], st)
        out = []
        for v, s in self.ev(n["c"][0], st):
            for d, s2 in self.ev(n["c"][1], s):
                for w, s3 in self.bin(n["op"][:-1], v, d, s2, n):
                    if i is None: raise Unsupported("compound assignment")
                    s3 = s3.copy(); s3.env[i] = wrap(w, n["t"]); out.append((s3.env[i], s3))
        return out
    def bin(self, op, x, y, st, n):
        if isinstance(x, bool): x = int(x)
        if isinstance(y, bool): y = int(y)
        if isinstance(x, int) and isinstance(y, int):
            if op in CMP:
                return [(int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]), st)]
            if op in ("/", "%"):
                if y == 0: return [(UNK, st)]
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return [(q if op == "/" else x - q * y, st)]
            if op in ("<<", ">>") and y < 0: return [(UNK, st)]
            return [(wrap({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y}[op](), n.get("t", "")), st)]
        if op in ("+", "-"):
            px, py = isinstance(x, tuple) and x[0] == 'r', isinstance(y, tuple) and y[0] == 'r'
            if px and py and op == "-": return [(x[1] - y[1], st)]
            if op == "+" and isinstance(x, int): x, y = y, x
            if isinstance(y, int): return [(self.plus(x, y if op == "+" else -y, n), st)]
            if x == ('size', 0) or (isinstance(x, tuple) and x[0] == 'size'):
                if py and op == "-": return [(('rest', y[1] - x[1]), st)]  # size - pos
            return [(UNK, st)]
        if op in CMP: return self.cmp(op, x, y, st, n)
        return [(UNK, st)]
    def cmp(self, op, x, y, st, n):
        SW = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
        if isinstance(x, tuple) and x[0] in ('size', 'rest') and not (isinstance(y, tuple) and y[0] in ('size', 'rest')): x, y, op = y, x, SW[op]
        if isinstance(x, tuple) and x[0] == 'r' and isinstance(y, tuple) and y[0] == 'r':
            a, b = x[1], y[1]
            return [(int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]), st)]
        k = None
        if isinstance(y, tuple) and y[0] == 'size':
            if isinstance(x, tuple) and x[0] == 'r': k = x[1] - y[1]
            elif isinstance(x, int) and st.abs is not None: k = x - st.abs - y[1]
        if isinstance(y, tuple) and y[0] == 'rest' and isinstance(x, int): k = x + y[1]
        if isinstance(y, tuple) and y[0] == 'npos' or isinstance(x, tuple) and x[0] == 'npos': k = None
        if k is not None: return self.cmp_size(op, k, st, n)
        return [(0, st), (1, st)]
    def cmp_size(self, op, k, st, n):
        """k op number of characters."""
        out = []
        idx = k if op in ("<", ">=", "==", "!=") else k - 1
        for c, s in (self.char(idx, st, n) if idx >= 0 else [(UNK, st)]):
            if c is None: m = len(s.cells); r = {"<": k < m, ">": k > m, "<=": k <= m, ">=": k >= m, "==": k == m, "!=": k != m}[op]
            else:
                r = {"<": True, "<=": True, ">=": False, ">": False, "==": False, "!=": True}[op]
            out.append((int(r), s))
        return out
    def x_ConditionalOperator(self, n, st):
        c = n["c"]
        cond = n.get("cond") or c[0]
        out = []
        for t, s in self.truth(cond, st): out += self.ev(c[1] if t else c[2], s)
        return out
    def truth(self, n, st):
        g = {}
        for v, s in self.ev(n, st):
            for t in ([True, False] if not isinstance(v, (int, bool)) else [bool(v)]):
                g.setdefault((t, s.key()), (t, s))
        return list(g.values())
    def x_InitListExpr(self, n, st):
        out = [((), st)]
        for c in n.get("c", []): out = [(vs + (v,), s2) for vs, s in out for v, s2 in self.ev(c, s)]
        return [((vs[0] if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][:1] == ('arr',) else ('arr', vs)), s) for vs, s in out]
    def x_CXXTemporaryObjectExpr(self, n, st): return self.x_CXXConstructExpr(n, st)
    def x_CXXConstructExpr(self, n, st):
        t = bare(n.get("t", ""))
        kids = [c for c in n.get("c", []) if not (c["k"] == "CXXTemporaryObjectExpr" and c.get("q", "").startswith("std::allocator"))]
        kids = [c for c in kids if c["k"] != "CXXDefaultArgExpr"]
        if t.startswith(STR):
            if not kids: return [(('new',), st)]
            if len(kids) == 1: return self.ev(kids[0], st)
            out = []
            for vs, s in self.args(kids, st):
                tx = text(vs[0])
                if tx is not None and isinstance(vs[1], int): out.append((('s', tx[:vs[1]]), s))
                elif isinstance(vs[0], int) and isinstance(vs[1], int): out.append((('s', chr(vs[1] & 255) * vs[0]), s))
                else: out.append((UNK, s))
            return out
        if len(kids) == 1: return self.ev(kids[0], st)
        return [(UNK, s) for _, s in self.args(kids, st)]
    def args(self, kids, st):
        out = [((), st)]
        for c in kids: out = [(vs + (v,), s2) for vs, s in out for v, s2 in self.ev(c, s)]
        return out
    def x_CallExpr(self, n, st):
        kids = [c for c in n.get("c", []) if c["k"] != "CXXDefaultArgExpr"]
        q = n.get("q", "")
        out = []
        if q in ("std::move", "std::forward", "std::as_const"): return self.ev(kids[0], st)
        f = self.p.by_id.get(n.get("id"))
        for vs, s in self.args(kids, st):
            if f is not None and f.get("body") and self.depth < 6 and (any(isinstance(v, tuple) and v[0] in ('S', 'O', 'r') for v in vs) or all(isinstance(v, int) or text(v) is not None for v in vs)):
                out += self.call(f, self.bind(f, kids, vs, s), s); continue
            r = self.o.call(self, n, q, vs, s)
            if r is not None: out += r; continue
            if any(isinstance(v, tuple) and v[0] in ('S', 'O') for v in vs): raise Unsupported("call of %s" % q)
            out.append((UNK, s))
        return out
    def bind(self, f, kids, vs, st):
        """Parameters of a call; references to variables are bound as aliases."""
        b = {}
        for p, k, v in zip(f["params"], kids, vs):
            i = self.lv(k, st) if p["t"].rstrip().endswith("&") else None
            b[p["id"]] = ('&', i) if i is not None and i in st.env and not (isinstance(v, tuple) and v[0] == 'S') else v
        return b
    def call(self, f, binds, s):
        s = s.copy(); old = {k: s.env.get(k) for k in binds}
        s.env.update(binds)
        self.depth += 1
        try: rs = self.body(f["body"], s)
        finally: self.depth -= 1
        ids = {x["id"] for x in walk(f["body"]) if x["k"] in ("Var", "VarDecl") and "id" in x} | set(binds)
        g = {}
        for v, s2 in rs:
            for i in ids: s2.env.pop(i, None)
            for k, v0 in old.items():
                if v0 is not None: s2.env[k] = v0
            g.setdefault((v, s2.key()), (v, s2))
        return list(g.values())
    def x_CXXOperatorCallExpr(self, n, st):
        op, kids = n.get("op"), n.get("c", [])
        if op == "()":
            out = []
            for fv, s in self.ev(kids[0], st):
                if not (isinstance(fv, tuple) and fv[0] == 'lam'): raise Unsupported("call")
                f = self.p.by_id.get(fv[1])
                if f is None or not f.get("body"): raise Unsupported("lambda")
                for vs, s2 in self.args(kids[1:], s): out += self.call(f, self.bind(f, kids[1:], vs, s2), s2)
            return out
        if op == "=": return [r for v, s in self.ev(kids[1], st) for r in self.assign(kids[0], v, s, n)]
        if op in ("++", "--"): return self.x_UnaryOperator(dict(n, k="UnaryOperator", op=op, c=kids[:1], post=len(kids) > 1), st)
        if op == "*" and len(kids) == 1: return self.x_UnaryOperator(dict(n, k="UnaryOperator"), st)
        out = []
        for vs, s in self.args(kids, st):
            o = vs[0]
            if op == "[]":
                if o == ('S',): out += self.read(self.pos(vs[1], s), s, n)
                elif text(o) is not None or isinstance(o, tuple) and o[0] == 'arr':
                    tx = text(o)
                    if isinstance(vs[1], int) and tx is not None:
                        if 0 <= vs[1] < len(tx): out.append((wrap(ord(tx[vs[1]]), n["t"]), s))
                        elif vs[1] == len(tx) and split(n.get("q", ""))[0].startswith("std::basic_string<"): out.append((0, s))
                        else: self.fail(n, "a table is accessed out of bounds")
                    else: out.append((UNK, s))
                else: out.append((UNK, s))
            elif op == "+=":
                if o == ('S',): out += [(o, s2) for s2 in self.append(s, vs[1], n)]
                elif isinstance(o, tuple) and o[0] == 'O': out += [(o, s2) for s2 in self.out_append(s, vs[1], n)]
                else:
                    i = self.lv(kids[0], s); w = self.plus(o, vs[1], n)
                    if i is None: raise Unsupported("+=")
                    s2 = s.copy(); s2.env[i] = w; out.append((w, s2))
            elif op in ("==", "!=") and text(o) is not None and text(vs[1]) is not None: out.append((int((text(o) == text(vs[1])) == (op == "==")), s))
            elif op in CMP: out += self.bin(op, o, vs[1], s, n)
            elif op == "+" and (text(o) is not None or isinstance(o, int)) and (text(vs[1]) is not None or isinstance(vs[1], int)) and n["t"].startswith("std::basic_string"):
                out.append((('s', (text(o) if text(o) is not None else chr(o & 255)) + (text(vs[1]) if text(vs[1]) is not None else chr(vs[1] & 255))), s))
            elif op in ("+", "-", "&", "|", ">>", "<<"): out += self.bin(op, o, vs[1], s, n)
            else: raise Unsupported("operator" + str(op))
        return out
    def x_ArraySubscriptExpr(self, n, st):
        return self.x_CXXOperatorCallExpr(dict(n, op="[]", q=""), st)
    def x_CXXMemberCallExpr(self, n, st):
        cls, m = split(n.get("q", ""))
        kids = [c for c in n.get("c", []) if c["k"] != "CXXDefaultArgExpr"]
        out = []
        for vs, s in self.args(kids, st):
            o, a = vs[0], vs[1:]
            if o == ('S',):
                if m in ("size", "length"): out.append((('size', 0), s))
                elif m == "empty": out += self.cmp_size("==", self.pos(0, s), s, n) if s.abs is not None else [(0, s), (1, s)]
                elif m == "at": out += [x for x in self.read(self.pos(a[0], s), s, n)]
                elif m in ("begin", "cbegin", "data", "c_str"):
                    if s.abs is None: raise Unsupported("begin() inside a loop")
                    out.append((('r', -s.abs), s))
                elif m in ("end", "cend"): out.append((('size', 0), s))
                elif m in ("reserve", "shrink_to_fit"): out.append((0, s))
                elif m in ("replace", "insert", "erase"): out += self.string_edit(m, o, a, s, n)
                elif m in ("push_back", "append"): out += [(o, s2) for s2 in self.append(s, a[0], n)]
                else:
                    r = self.o.method(self, n, m, a, s)
                    if r is None: raise Unsupported("string::" + m)
                    out += r
            elif isinstance(o, tuple) and o[0] == 'O':
                if m == "push_back" or m == "append" and len(a) == 1: out += [(o, s2) for s2 in self.out_append(s, a[0], n)]
                elif m == "append" and isinstance(a[0], int) and isinstance(a[1], int): out += [(o, s2) for s2 in self.out_append(s, ('s', chr(a[1] & 255) * a[0]), n)]
                elif m == "append" and text(a[0]) is not None and isinstance(a[1], int): out += [(o, s2) for s2 in self.out_append(s, ('s', text(a[0])[:a[1]]), n)]
                elif m in ("reserve", "clear"): out.append((0, s))
                else: raise Unsupported("output string::" + m)
            elif text(o) is not None:
                if m in ("size", "length"): out.append((len(text(o)), s))
                elif m in ("data", "c_str"): out.append((o, s))
                elif m == "find" and len(a) == 1 and isinstance(a[0], int): out.append((text(o).find(chr(a[0] & 255)) if chr(a[0] & 255) in text(o) else (1 << 64) - 1, s))
                elif m == "empty": out.append((int(not text(o)), s))
                else: out.append((UNK, s))
            else: out.append((UNK, s))
        return out
    # ---- edits of the subject
    def string_edit(self, m, o, a, s, n):
        if m == "insert":
            if len(a) == 3: cnt, tx = (a[1], a[2]) if isinstance(a[1], int) else (1, a[1])
            else: cnt, tx = 1, a[1]
            if not isinstance(cnt, int): raise Unsupported("insert")
            t = (chr(tx & 255) if isinstance(tx, int) else text(tx))
            if t is None: raise Unsupported("insert")
            if len(a) == 3 and not isinstance(a[1], int): t = t[:a[2]]
            if not 0 <= cnt <= 64: self.fail(n, "the number of added characters wraps around"); return []
            return [(o, s2) for s2 in self.edit(s, a[0], 0, t * cnt, n)]
        if m == "erase":
            if len(a) < 2: raise Unsupported("erase")
            return [(o, s2) for s2 in self.edit(s, a[0], a[1], '', n)]
        if len(a) < 3 or not isinstance(a[1], int): raise Unsupported("replace")
        t = text(a[2])
        if isinstance(a[2], int) and len(a) == 4 and isinstance(a[3], int): t = chr(a[3] & 255) * a[2]
        elif t is not None and len(a) == 4 and isinstance(a[3], int): t = t[:a[3]]
        if t is None: raise Unsupported("replace %r" % (a,))
        return [(o, s2) for s2 in self.edit(s, a[0], a[1], t, n)]
    def edit(self, st, p, cnt, t, n):
        p = self.pos(p, st)
        if isinstance(cnt, tuple): raise Unsupported("edit of unknown length")
        work = [st]
        for k in range(p - 1, p + cnt):
            if k >= 0: work = [s for w in work for _, s in self.char(k, w, n)]
        out = []
        for s in work:
            if p > len(s.cells): self.fail(n, "the string is changed past its end"); continue
            if p < 0: raise Unsupported("edit behind the cursor")
            e = min(p + cnt, len(s.cells))
            orig = tuple(x for c in s.cells[p:e] for x in c[1])
            new = tuple((ch, ()) for ch in t)
            before, after = s.cells[:p], s.cells[e:]
            if new: new = ((new[0][0], orig),) + new[1:]
            elif orig:
                if before: before = before[:-1] + ((before[-1][0], before[-1][1] + orig),)
                elif after: after = ((after[0][0], orig + after[0][1]),) + after[1:]
                else: raise Unsupported("erase of everything known")
            s = s.copy(); s.cells = before + new + after
            out.append(s)
        return out
    def append(self, st, v, n): raise Unsupported("append to the scanned string")
    def out_append(self, st, v, n):
        t = text(v) if not isinstance(v, int) else chr(v & 255)
        if t is None: raise Unsupported("append of unknown text")
        s = st.copy(); s.out = (s.out or '') + t
        return [s]
    # ---- statements
    def body(self, n, st):
        """[(return value, state)] of a function body."""
        ex = self.run(n, [st])
        return ex["ret"] + [(None, s) for s in ex["next"]]
    def dd(self, ss):
        g = {}
        for s in ss: g.setdefault(s.key(), s)
        return list(g.values())
    def run(self, n, states):
        out = {"next": [], "brk": [], "cont": [], "ret": []}
        if n is None: out["next"] = states; return out
        k = n["k"]
        if k == "CompoundStmt":
            cur = states
            for c in n.get("c", []):
                if not cur: break
                r = self.run(c, cur)
                for x in ("brk", "cont", "ret"): out[x] += r[x]
                cur = self.dd(r["next"])
            out["next"] = cur
        elif k == "DeclStmt":
            cur = states
            for d in n.get("c", []) or n.get("decls", []):
                if d.get("k") not in ("Var", "VarDecl"): continue
                nx = []
                for s in cur:
                    for v, s2 in (self.ev(d["init"], s) if d.get("init") else [(UNK if not d["t"].startswith(STR) else ('new',), s)]):
                        s2 = s2.copy()
                        if v == ('new',) or (bare(d["t"]).startswith("std::basic_string<") and text(v) == ''): v = ('O', d["id"]); s2.out = ''
                        s2.env[d["id"]] = self.conv(d["id"], wrap(v, d["t"]), s2)
                        nx.append(s2)
                cur = nx
            out["next"] = cur
        elif k == "IfStmt":
            cur = states
            for x in ("init", "var"):
                if n.get(x) and n[x]["k"] == "DeclStmt": cur = self.run(n[x], cur)["next"]
            T, F = [], []
            for s in cur:
                for t, s2 in self.truth(n["cond"], s): (T if t else F).append(s2)
            for br, ss in ((n["then"], T), (n.get("else"), F)):
                if ss:
                    r = self.run(br, ss)
                    for x in out: out[x] += r[x]
        elif k == "SwitchStmt":
            self.switch(n, states, out)
        elif k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"): self.loop(n, states, out)
        elif k == "ReturnStmt":
            for s in states:
                if n.get("c"): out["ret"] += self.ev(n["c"][0], s)
                else: out["ret"].append((None, s))
        elif k == "BreakStmt": out["brk"] = states
        elif k == "ContinueStmt": out["cont"] = states
        elif k == "NullStmt": out["next"] = states
        elif k == "AttributedStmt": return self.run(n["c"][-1], states)
        else:
            for s in states: out["next"] += [s2 for _, s2 in self.ev(n, s)]
        out["next"] = self.dd(out["next"])
        return out
    def switch(self, n, states, out):
        if n.get("init"): states = self.run(n["init"], states)["next"]
        items = []
        for b in n["body"].get("c", []):
            labels = []
            while b is not None and b["k"] in ("CaseStmt", "DefaultStmt"): labels.append(b); b = b["c"][0] if b.get("c") else None
            items.append((labels, b))
        entry, rest = {}, []
        for st in states:
            for v, s in self.ev(n["cond"], st):
                hit = False
                dflt = None
                for i, (labels, b) in enumerate(items):
                    for lb in labels:
                        if lb["k"] == "DefaultStmt": dflt = i
                        elif not isinstance(v, int) or int(lb["cv"]) == v:
                            entry.setdefault(i, []).append(s); hit = hit or isinstance(v, int)
                if not hit:
                    if dflt is not None: entry.setdefault(dflt, []).append(s)
                    else: rest.append(s)
        flow = []
        for i, (labels, b) in enumerate(items):
            flow = self.dd(flow + entry.get(i, []))
            if not flow or b is None: continue
            r = self.run(b, flow)
            out["ret"] += r["ret"]; out["cont"] += r["cont"]; out["next"] += r["brk"]
            flow = r["next"]
        out["next"] += flow + rest
    def norm(self, s):
        """Hands everything behind the cursors to the oracle."""
        ks = [v[1] for v in s.env.values() if isinstance(v, tuple) and v and v[0] == 'r']
        if not ks: return s
        b = min(ks) - self.back
        s = s.copy()
        if b > 0:
            if b > len(s.cells):
                b = len(s.cells)
            s.orc = self.o.flush(s.orc, s.cells[:b], s.out)
            if s.out is not None: s.out = ''
            s.cells = s.cells[b:]
            s.env = {k: (('r', v[1] - b) if isinstance(v, tuple) and v and v[0] == 'r' else v) for k, v in s.env.items()}
            s.abs = None
        elif s.abs is not None and self.looping: pass
        return s
    looping = True
    def loop(self, n, states, out):
        k = n["k"]
        self.heads += 1
        hid = None
        if k == "ForStmt" and n.get("init"): states = self.run(n["init"], states)["next"]
        if k == "CXXForRangeStmt":
            rng = n.get("range") or n["c"][0]
            hid = ('rf', id(n))
            nx = []
            for s in states:
                for v, s2 in self.ev(rng, s):
                    if v != ('S',): raise Unsupported("range-for")
                    s2 = s2.copy(); s2.env[hid] = ('r', -(s2.abs or 0)); nx.append(s2)
            states = nx
        seen = set()
        work = states
        first = k == "DoStmt"
        while work:
            cur = []
            for s in work:
                try: s = self.norm(s)
                except Bad as e: self.fail(n, str(e)); continue
                kk = (first, s.key())
                if kk in seen: continue
                seen.add(kk); cur.append(s)
            if len(seen) > 60000: raise Unsupported("too many loop states")
            T = []
            if first: T = cur
            elif k == "CXXForRangeStmt":
                d = n.get("var") or n.get("decl")
                for s in cur:
                    for c, s2 in self.char(s.env[hid][1], s, n):
                        s2 = s2.copy()
                        if c is None: out["next"].append(s2)
                        else: s2.env[self.rvar(n)] = wrap(c, "char"); T.append(s2)
            elif n.get("cond") is None: T = cur
            else:
                for s in cur:
                    for t, s2 in self.truth(n["cond"], s): (T if t else out["next"]).append(s2)
            r = self.run(n["body"], self.dd(T)) if T else {"next": [], "brk": [], "cont": [], "ret": []}
            out["ret"] += r["ret"]; out["next"] += r["brk"]
            back = self.dd(r["next"] + r["cont"])
            if k == "ForStmt" and n.get("inc"): back = [s2 for s in back for _, s2 in self.ev(n["inc"], s)]
            if k == "CXXForRangeStmt":
                b2 = []
                for s in back: s = s.copy(); s.env[hid] = ('r', s.env[hid][1] + 1); b2.append(s)
                back = b2
            ids = [x["id"] for x in walk(n["body"]) if x["k"] in ("Var", "VarDecl") and "id" in x]
            for s in back:
                for i in ids: s.env.pop(i, None)
            if k == "DoStmt":
                nb = []
                for s in back:
                    for t, s2 in self.truth(n["cond"], s): (nb if t else out["next"]).append(s2)
                back = nb
            work = self.dd(back)
        for s in out["next"]: s.env.pop(hid, None)
        out["next"] = self.dd(out["next"])
    def rvar(self, n):
        d = n.get("var") or n.get("decl") or n.get("loopvar")
        if isinstance(d, dict) and "id" in d: return d["id"]
        raise Unsupported("range-for variable")
    # ---- entry
    def analyse(self, f, env=None):
        """Interprets f with its (only) string parameter as the scanned string."""
        fs, todo = [], [f]
        while todo:
            g = todo.pop()
            if g in fs: continue
            fs.append(g)
            for x in walk(g["body"]):
                for i in x.get("ops", []) if x["k"] == "LambdaExpr" else [x.get("id")] if x["k"] == "CallExpr" else []:
                    h = self.p.by_id.get(i)
                    if h is not None and h.get("body"): todo.append(h)
        for g in fs:
            strs = {p["id"] for p in g.get("params", []) if bare(p["t"]).startswith(STR)} | {x["id"] for x in walk(g["body"]) if x["k"] == "Var" and bare(x.get("t", "")).startswith(STR)}
            isS = lambda x: x["k"] == "DeclRefExpr" and x.get("id") in strs and "sv" not in x or x["k"] == "MemberExpr" and bare(x.get("t", "")).startswith(STR)
            for x in walk(g["body"]):
                if x["k"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr") and x.get("c") and isS(x["c"][0]) and (x.get("op") == "[]" or split(x.get("q", ""))[1] in ("replace", "insert", "erase", "at")):
                    for y in walk(x["c"][1]):
                        if y["k"] == "DeclRefExpr" and y.get("dk") in ("Var", "ParmVar") and bare(y.get("t", "")) in MASK: self.posvars.add(y["id"])
                        if y["k"] == "BinaryOperator" and y["op"] == "-": self.back = 1
                    # only the first argument is a position
            for x in walk(g["body"]):
                if x["k"] == "CXXOperatorCallExpr" and x.get("op") == "[]": pass
        st = St()
        st.q = self.o.start; st.orc = self.o.init
        st.env = {p["id"]: ('S',) if bare(p["t"]).startswith(STR) else UNK for p in f.get("params", [])}
        st.env.update(env or {})
        ends = self.body(f["body"], st)
        for v, s in ends:
            try:
                if isinstance(v, tuple) and v[0] == 'O' or v is None and s.out: res = 'out'
                else: res = 'S'
                self.finish(f, v, s)
            except Bad as e: self.fail(f, str(e))
        return ends
    def finish(self, f, v, s):
        out = s.out if isinstance(v, tuple) and v[0] == 'O' else None
        orc = self.o.flush(s.orc, s.cells, out)
        if not s.end: self.o.rest(orc, s.q)
        else: self.o.end(orc)

ESC = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
def unescape(t):
    """Decodes the characters between the quotes of a JSON string: (text, remainder that is an unfinished escape sequence); raises Bad."""
    o, i = '', 0
    while i < len(t):
        c = t[i]
        if c == '"': raise Bad("an unescaped quote is left in the text")
        if ord(c) < 32: raise Bad("the unescaped control character %d is left in the text" % ord(c))
        if c != '\\': o += c; i += 1; continue
        if i + 1 >= len(t): return o, t[i:]
        e = t[i + 1]
        if e in ESC: o += ESC[e]; i += 2; continue
        if e != 'u': raise Bad("the escape sequence \\%s is written" % e)
        h = t[i + 2:i + 6]
        if any(x not in "0123456789abcdefABCDEF" for x in h): raise Bad("the escape sequence \\u%s is written" % h)
        if len(h) < 4: return o, t[i:]
        o += chr(int(h, 16)); i += 6
    return o, ''
class EscapeOracle:
    """The result, decoded as JSON string content, is the scanned text."""
    start, init = 0, ('', '')
    SMALL = [0, 1, 8, 9, 10, 12, 13, 15, 16, 31, 32, 33, 34, 35, 47, 91, 92, 93, 97, 110, 117, 127, 128, 255]
    def __init__(self, small=False): self.seen = set(); self.chars = [(chr(c), 0) for c in (self.SMALL if small else range(256))]
    def alphabet(self, q): return self.chars
    def may_end(self, q): return True
    def call(self, sc, n, q, vs, s): return None
    def method(self, sc, n, m, a, s): return None
    def flush(self, orc, cells, out):
        O = orc[0] + ''.join(c for cell in cells for c, _ in cell[1])
        T = orc[1] + (out if out is not None else ''.join(cell[0] for cell in cells))
        self.seen |= {c for cell in cells for c, _ in cell[1]}
        try: d, rem = unescape(T)
        except Bad as e: raise Bad("%s (characters %s become %s)" % (e, [ord(c) for c in O], T.encode()))
        if O.startswith(d) and rem: return (O[len(d):], rem)
        if d != O: raise Bad("the characters %s become %s" % ([ord(c) for c in O], T.encode()))
        return ('', '')
    def rest(self, orc, q): raise Bad("the text after the last character looked at is not escaped")
    def end(self, orc):
        if orc != ('', ''): raise Bad("the text ends inside an escape sequence")

class PrettyOracle:
    """The result is the scanned JSON text with whitespace added next to structural characters only."""
    start, init = (0, 'v'), ('', False)
    STRUCT = '{}[],:'
    def __init__(self, deepest=3): self.deepest = deepest; self.ins = set(); self.seen = set()
    def alphabet(self, q):
        d, m = q
        if m == 's': return [('"', (d, 'q')), ('\\', (d, 'e')), ('{', q), (']', q), (',', q), ('x', q)]
        if m == 'e': return [('"', (d, 's')), ('\\', (d, 's')), ('n', (d, 's'))]
        out = []
        if m != 'v' and d == 0: return []
        if m in ('v', 'k', 'a'):  # a value, a member name or (after '[') a value or ']'
            if d < self.deepest: out += [('{', (d + 1, 'k')), ('[', (d + 1, 'a'))]
            if d: out += [('"', (d, 's')), ('1', (d, 'n'))]
        if m in ('k', 'a', 'q', 'n', 'c') and d: out += [('}', (d - 1, 'c')), (']', (d - 1, 'c'))]
        if m in ('q', 'n', 'c') and d: out.append((',', (d, 'v')))
        if m == 'q': out.append((':', (d, 'v')))
        if m == 'n': out += [('.', q)]
        return out
    def may_end(self, q): return q == (0, 'c')
    def call(self, sc, n, q, vs, s): return None
    def method(self, sc, n, m, a, s): return None
    def flush(self, orc, cells, out):
        prev, need = orc
        if out is not None: raise Unsupported("output string")
        for ch, orig in cells:
            if len(orig) > 1 or orig and orig[0][0] != ch: raise Bad("the character %r of the text is changed to %r" % (orig[0][0], ch))
            if orig:
                if need and ch not in self.STRUCT: raise Bad("whitespace is added inside a token")
                prev, need = ch, False
                self.seen.add(orig[0])
                if orig[0][1][1] in 'se' : prev = 's' if not (ch == '"' and orig[0][1][1] == 's') else 'Q'
                elif ch == '"': prev = 's'
            else:
                if ch not in ' \t\r\n': raise Bad("the character %r is added to the text" % ch)
                if prev == 's': raise Bad("whitespace is added inside a string")
                if prev and prev not in self.STRUCT and prev != 'Q': need = True
                self.ins.add(ch)
        return (prev if prev in ('s', 'Q') or prev in self.STRUCT else 'x', need)
    def rest(self, orc, q): pass
    def end(self, orc): pass
