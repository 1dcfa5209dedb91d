"""The exporter as a JSON automaton: what writeJson and the functions it calls can append to the output, over every asset.

Every text appended to the output string is fed to a push-down JSON automaton; the state of the automaton is part of the abstract state.  Constants are
fed character by character, everything else is a piece with a known role: a formatted number, an escaped string, a constant table's entry, the text an
extras callback returned (one JSON value), or raw text of the asset.
"""
import re
import tree, interp
from interp import *
from interp import V, C, VVOID, State, Client, Interp, comp
import builtins_
from builtins_ import split, STR, strval

ROOT = ('asset',)
EXPORTER = "fastgltf::Exporter"
NUMCONST = re.compile(r"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?$")
ENDS = {'}': '}', ']': ']', '"': '"', '0': '0', 'e': 'e', 'l': 'l'}

def fpath(stack):
    p = '$'
    for kind, phase, cur in stack: p += ("." + cur if cur is not None else '') if kind == 'o' else '[]'
    return p
def piece(a):
    """Role of a piece of text."""
    if a[0] in ('numstr', 'fp', 'esc', 'ext'): return a[0]
    if a[0] == 'm' and isinstance(a[1], tuple) and a[1][0] == 'g': return 'table'
    if a[0] == 'el' and a[1][0] in ('c', 'ctor'): return 'table'
    if a[0] in ('top', 'uninit'): return 'top'
    if a[0] == 'op' and len(a) > 1 and a[1] == 'num': return 'top'
    if find_ext(a): return 'ext'
    return 'raw'
def find_ext(a):
    if not isinstance(a, tuple): return False
    if a[:2] == ('call', 'extrasWriteCallback'): return True
    return any(find_ext(x) for x in a if isinstance(x, tuple))

class Unclosed(Exception): pass
class Writer:
    """The JSON automaton.  ctl = (stack, lexical state, last character, flags)."""
    def __init__(self): self.errors, self.raw, self.values, self.nfed, self.dups, self.texts = {}, {}, {}, 0, {}, {}
    def err(self, n, ctl, msg):
        self.errors.setdefault((msg, fpath(ctl[0])), n.get("l"))
    # events
    def on_value(self, st, path, idx, kind, pieces, n, ctl): return ctl
    def on_open(self, st, path, n, ctl): return ctl
    def on_key(self, st, path, pieces, n, ctl): return ctl

    def value_pos(self, stack):
        if not stack: return True
        k, ph, _ = stack[-1]
        return ph == 'colon' if k == 'o' else ph in ('start', 'comma')
    def begin_value(self, x, n, what):
        """Checks that a value may start here; returns the stack with the value accounted for."""
        ctl, keys = x
        stack = ctl[0]
        if not self.value_pos(stack):
            k, ph, _ = stack[-1]
            self.err(n, ctl, "%s is written where %s is expected" % (what, {'after': "',' or the end of the %s" % ("object" if k == 'o' else "array"), 'start': "a member name", 'comma': "a member name", 'key': "':'"}.get(ph, "no value")))
        elif not stack and ctl[2] is not None: self.err(n, ctl, "more than one value is written")
    def done(self, stack):
        if not stack: return stack
        k, ph, cur = stack[-1]
        return stack[:-1] + ((k, 'after', cur if k == 'a' else None),)
    def scalar(self, x, n, kind, pieces, st):
        """A complete scalar value was written."""
        ctl, keys = x
        stack, lex, last, fl = ctl
        idx = None
        if stack and stack[-1][0] == 'a': idx = stack[-1][2] or 0
        ctl = self.on_value(st, fpath(stack), idx, kind, pieces, n, (stack, None, last, fl))
        stack = self.done(ctl[0])
        if idx is not None: stack = stack[:-1] + (('a', 'after', min(idx + 1, 16 if kind == 'num' and self.fixed else 4)),)
        return ((stack, None, ctl[2], ctl[3]), keys)
    fixed = False
    def end_num(self, x, n, st):
        ctl, keys = x
        stack, lex, last, fl = ctl
        ps = lex[1]
        if len(ps) == 1 and isinstance(ps[0], str) and not (NUMCONST.match(ps[0]) or ps[0] in ("true", "false", "null")):
            self.err(n, ctl, "%r is no JSON value" % ps[0])
        elif len(ps) > 1: self.err(n, ctl, "two values follow each other without ','")
        return self.scalar(((stack, None, last, fl), keys), n, 'num', ps, st)
    def feed_text(self, x, text, n, st):
        for c in text: x = self.feed_char(x, c, n, st)
        return x
    def feed_char(self, x, c, n, st):
        ctl, keys = x
        stack, lex, last, fl = ctl
        if lex is not None and lex[0] == 's':
            _, ps, esc, iskey = lex
            if esc:
                if c not in '"\\/bfnrtu': self.err(n, ctl, "the escape sequence \\%s is no JSON" % c)
                return ((stack, ('s', add(ps, '\\' + c), False, iskey), c, fl), keys)
            if c == '\\': return ((stack, ('s', ps, True, iskey), c, fl), keys)
            if c == '"':
                x = ((stack, None, '"', fl), keys)
                return self.member(x, ps, n, st) if iskey else self.scalar(x, n, 'str', ps, st)
            if ord(c) < 32: self.err(n, ctl, "a control character is written inside a string")
            return ((stack, ('s', add(ps, c), False, iskey), c, fl), keys)
        if lex is not None:
            if c.isalnum() or c in "+-.":
                return ((stack, ('n', add(lex[1], c)), c, fl), keys)
            x = self.end_num(x, n, st)
            ctl, keys = x
            stack, lex, last, fl = ctl
        if c in " \t\r\n": return x
        if c in '{[':
            self.begin_value(x, n, "an object" if c == '{' else "an array")
            ctl = self.on_open(st, fpath(stack), n, ctl)
            stack = ctl[0]
            if len(stack) > 16: raise Unclosed()
            return ((stack + (('o', 'start', None) if c == '{' else ('a', 'start', 0),), None, c, ctl[3]), keys + (frozenset(),))
        if c in '}]':
            want = 'o' if c == '}' else 'a'
            if not stack or stack[-1][0] != want:
                self.err(n, ctl, "%r closes nothing" % c)
                if stack and len(stack) > 1 and stack[-2][0] == want: stack, keys = stack[:-1], keys[:-1]
                else: return x
            if stack[-1][1] == 'comma': self.err(n, ctl, "',' is followed by %r" % c)
            elif stack[-1][1] in ('key', 'colon'): self.err(n, ctl, "a member has no value")
            ctl = self.on_close(st, (stack, None, c, fl), n)
            stack = ctl[0][:-1]
            return ((self.done(stack), None, c, ctl[3]), keys[:-1])
        if c == ',':
            if not stack or stack[-1][1] != 'after': self.err(n, ctl, "',' is written where %s" % ("a value is expected" if stack and stack[-1][1] in ('colon',) else "nothing precedes it"))
            return ((stack[:-1] + ((stack[-1][0], 'comma', stack[-1][2] if stack[-1][0] == 'a' else None),) if stack else stack, None, c, fl), keys)
        if c == ':':
            if not stack or stack[-1][1] != 'key': self.err(n, ctl, "':' is written where no member name precedes it"); return x
            return ((stack[:-1] + (('o', 'colon', stack[-1][2]),), None, c, fl), keys)
        if c == '"':
            if stack and stack[-1][0] == 'o' and stack[-1][1] != 'colon':
                if stack[-1][1] not in ('start', 'comma'): self.err(n, ctl, "a member follows another one without ','")
                return ((stack, ('s', (), False, True), c, fl), keys)
            self.begin_value(x, n, "a string")
            return ((stack, ('s', (), False, False), c, fl), keys)
        self.begin_value(x, n, "a number" if c in "-0123456789" else "text")
        return ((stack, ('n', (c,)), c, fl), keys)
    def on_close(self, st, ctl, n): return ctl
    def member(self, x, ps, n, st):
        ctl, keys = x
        stack, _, last, fl = ctl
        k = ps[0] if len(ps) == 1 and isinstance(ps[0], str) else '' if not ps else '*'
        if stack:
            if k != '*':
                if keys and k in keys[-1]: self.dups.setdefault((fpath(stack[:-1] + (('o', 'key', k),)),), n.get("l"))
                keys = keys[:-1] + (keys[-1] | {k},)
            stack = stack[:-1] + (('o', 'key', k),)
        ctl = self.on_key(st, fpath(stack), ps, n, (stack, None, last, fl))
        return (ctl, keys)
    def feed_piece(self, x, a, n, st):
        self.nfed += 1
        if a[0] == 'empty': return x
        if a[0] == 'c':
            v = a[1]
            return self.feed_text(x, v if isinstance(v, str) else chr(v) if isinstance(v, int) else str(v), n, st)
        if a[0] == 'cat':
            for p in a[1:]: x = self.feed_piece(x, p, n, st)
            return x
        if a[0] == 'op' and a[1] == '+' and len(a) == 4:
            return self.feed_piece(self.feed_piece(x, a[2], n, st), a[3], n, st)
        role = piece(a)
        ctl, keys = x
        stack, lex, last, fl = ctl
        if lex is not None and lex[0] == 's':
            if role == 'raw': self.raw.setdefault((fpath(stack), interp_name(a)), n.get("l"))
            elif role != 'ext': self.texts.setdefault((fpath(stack), role), n.get("l"))
            if role == 'ext': self.err(n, ctl, "the text of an extras callback is written inside a string")
            return ((stack, ('s', add(lex[1], a), False, lex[3]), None, fl), keys)
        if role == 'top' : 
            self.unknown = getattr(self, "unknown", 0) + 1
            if not self.value_pos(stack): return ((stack, lex, None, fl), keys)
        if lex is not None:
            if role in ('numstr', 'fp') and lex[1] == ('-',): return ((stack, ('n', (a,)), '0', fl), keys)
            self.err(n, ctl, "two values follow each other without ','"); return x
        self.begin_value(x, n, "a number" if role in ('numstr', 'fp') else "an extras value" if role == 'ext' else "text")
        if role in ('numstr', 'fp'): return ((stack, ('n', (a,)), '0', fl), keys)
        if role in ('raw', 'esc', 'table'): self.err(n, ctl, "text (%s) is written outside of a string" % interp_name(a))
        return self.scalar(((stack, None, None, fl), keys), n, 'ext', (a,), st)
    def last_chars(self, ctl):
        """Possible last characters of the text written so far."""
        if ctl[2] is not None: return [ctl[2]]
        if ctl[1] is not None and ctl[1][0] == 's': return ['x', '\\']
        return list(ENDS)

def add(ps, c):
    if isinstance(c, str) and ps and isinstance(ps[-1], str): return ps[:-1] + (ps[-1] + c,)
    return ps + (c,) if len(ps) < 6 else ps
def interp_name(a):
    if a[0] == 'm': return canon('', a[2]).lstrip('.') if a[1] == ROOT else canon(a[1] if isinstance(a[1], str) else '.'.join(map(str, a[1])), a[2])
    for x in a:
        if isinstance(x, tuple):
            for y in subterms(x):
                if y[0] == 'm' and y[1] == ROOT: return canon('', y[2]).lstrip('.')
    return str(a[1]) if len(a) > 1 else a[0]
def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str): yield t
        for x in t: yield from subterms(x)

APPEND = ("operator+=", "append", "push_back")
class WriteClient(Writer, Client):
    def __init__(self, prog, units=()):
        Writer.__init__(self)
        self.p = prog
        self.sinks = set()
        self.units = {f["id"] for f in units}
        self.summaries = {}
        self.contexts = {}
        self.calls = {}
        self.extras = {}
        self.inline_units = False
        self.limit = 4000000
    def key(self, I, st): return st.x[0] if st.x else None
    def join_x(self, a, b):
        if a is None or b is None: return a or b
        return (a[0], tuple(p | q for p, q in zip(a[1], b[1])))
    def sink_loc(self, I, n, st):
        """State list and whether the expression denotes the output."""
        l = I.simple_loc(n, st)
        if l is not None: return l if l[0] in self.sinks and not l[1] else None
        return None
    def is_sink_expr(self, I, n, st):
        while n["k"] in ("ImplicitCastExpr", "ParenExpr") and n.get("c"): n = n["c"][0]
        if n["k"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr") and n.get("c") and split(n.get("q", ""))[1] in APPEND and split(n["q"])[0].startswith(STR): return self.is_sink_expr(I, n["c"][0], st)
        if n["k"] == "UnaryOperator" and n.get("op") == "*": return self.is_ptr_sink(I, n["c"][0], st)
        return self.sink_loc(I, n, st) is not None
    def is_ptr_sink(self, I, n, st):
        l = I.simple_loc(n, st)
        if l is None: return False
        v = I.load(l, st).one()
        return v is not None and v[0] == 'ptr' and v[1] in self.sinks
    def strip(self, n):
        while n["k"] in ("ImplicitCastExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and n.get("c"): n = n["c"][0]
        return n
    def on_call(self, I, n, q, st):
        if not q: return self.indirect(I, n, st)
        cls, m = split(q)
        kids = n.get("c", [])
        if cls.startswith(STR) and n["k"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr") and kids and (self.is_ptr_sink(I, kids[0], st) if n.get("arrow") else self.is_sink_expr(I, kids[0], st)):
            return self.sink_op(I, n, m, kids, st)
        if q == "fastgltf::escapeString" and kids:
            f = I.p.by_id.get(n.get("id"))
            if f is not None and f.get("params") and is_ref(f["params"][0]["t"]) and not f["params"][0]["t"].startswith("const"):
                out = []
                for l, s in I.lval(kids[0], st):
                    s = s.copy(); v = I.load(l, s)
                    I.write(l, V([self.escaped(a) for a in v.a]), s, n); out.append((VVOID, s))
                return out
            return [(V([self.escaped(a) for a in v.a]), s) for v, s in I.eval(kids[0], st)]
        if m == "to_string_fp" or m in ("to_string_fp<float>",): return [(V([('fp', a) for a in v.a]), s) for v, s in I.eval(kids[0], st)]
        if q == "std::to_string":
            t = bare(kids[0].get("t", ""))
            return [(V([('numstr', a, 'float') if t in ("float", "double") else ('numstr', a) for a in v.a]), s) for v, s in I.eval(kids[0], st)]
        if cls.startswith("fastgltf::AccessorBoundsArray") and m.startswith("isType"):
            ta = (n.get("ta") or [""])[0]
            out = []
            for l, s in builtins_.objs(I, n, st):
                a = [x for x in I.read((l[0], l[1] + ('.dbl',)), s)]
                out.append((V([x if ta == "double" else ('not', x) for x in a]), s))
            return out
        if cls.startswith("fastgltf::AccessorBoundsArray") and m.startswith("get") and len(kids) == 2:
            out = []
            for l, s0 in builtins_.objs(I, n, st):
                for i, s in I.eval(kids[1], s0): out += [(V(I.read(x, s2)), s2) for x, s2 in I.index(l, i, s, n)]
            return out
        if n.get("id") in self.units and not self.inline_units and I.depth > 0: return self.unit_call(I, n, st)
        return None
    def escaped(self, a):
        if a[0] == 'c': return ('c', a[1].replace('\\', '\\\\').replace('"', '\\"')) if isinstance(a[1], str) else a
        if a[0] == 'empty': return a
        return ('esc', a)
    def indirect(self, I, n, st):
        """A call through a function pointer: the extras callback."""
        fn = n.get("fn")
        if fn is None or n.get("k") != "CallExpr" or len(n.get("c", [])) != 3: return None
        name = I.fname(fn, VTOP)
        if 'xtras' not in str(name) and not (I.p.by_id.get(n.get("id")) is None and "Category" in etype(n["c"][1])): return None
        out = []
        for vs, s in I.args(n["c"], st):
            self.extra_call(I, n, vs, s)
            at = ('call', 'extrasWriteCallback', tuple(v.one() or TOP for v in vs), n["l"])
            I.refresh(at, s)
            out.append((V([at]), s))
        return out
    def extra_call(self, I, n, vs, st):
        p = fpath(st.x[0][0])
        for i in vs[0].a:
            for c in vs[1].a:
                for u in vs[2].a: self.extras.setdefault((p, i, c, u), n["l"])
    def sink_op(self, I, n, m, kids, st):
        out = []
        if self.errors and I.steps > self.limit: raise Unclosed()
        obj = [(None, st)]
        inner = self.strip(kids[0])
        if inner["k"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr"): obj = I.lval(inner, st)
        loc = None
        for l0, s00 in obj:
            if l0 is None: l0 = (next(iter(self.sinks)), ())
            if m in APPEND:
                args = kids[1:]
                for vs, s0 in I.args(args, s00):
                    if len(args) == 2:
                        if vs[0].const() == 1 or isinstance(vs[0].const(), int): vals = [(strval(vs[1], args[1]), vs[0].const())]
                        elif strval(vs[0], args[0]).one() is not None and strval(vs[0], args[0]).one()[0] == 'c': vals = [(vs[0], 1)]
                        else: vals = [(VTOP, 1)]
                    else: vals = [(strval(vs[0], args[0]), 1)]
                    v, rep = vals[0]
                    g = {}
                    for a in v.a:
                        s = s0.copy()
                        x = s.x
                        for _ in range(rep): x = self.feed_piece(x, a, n, s)
                        s.x = x
                        k = x[0]
                        if k in g: g[k] = I.merge2(g[k], s)
                        else: g[k] = s
                    out += [(l0, s) for s in g.values()]
            elif m == "back" or m == "front":
                for c in self.last_chars(s00.x[0]):
                    s = s00.copy()
                    ctl = s.x[0]
                    s.x = ((ctl[0], ctl[1], c, ctl[3]), s.x[1])
                    out.append((C(ord(c)), s))
            elif m == "empty": out.append((C(s00.x[0][2] is None and not s00.x[0][0]), s00))
            elif m == "pop_back":
                s = s00.copy(); ctl, keys = s.x
                stack = ctl[0]
                if stack and stack[-1][1] == 'comma' and ctl[1] is None: s.x = ((stack[:-1] + ((stack[-1][0], 'after', stack[-1][2]),), None, None, ctl[3]), keys)
                elif ctl[2] is not None: self.err(n, ctl, "the character %r is taken back" % ctl[2])
                out.append((VVOID, s))
            elif m in ("reserve", "shrink_to_fit"):
                for vs, s in I.args(kids[1:], s00): out.append((VVOID, s))
            elif m in ("size", "length", "capacity"): out.append((V([('call', 'sinksize', (), n["l"])]), s00))
            else:
                for vs, s in I.args(kids[1:], s00): out.append((VTOP, s))
        return out
    # ---- units (writeX(asset, json)) are summarised per automaton state
    def unit_call(self, I, n, st):
        out = []
        for k in n["c"]:
            if I.simple_loc(k, st) is None and k["k"] != "CXXThisExpr": return None
        if not any(self.sink_loc(I, k, st) for k in n["c"]): return None
        f = I.p.by_id[n["id"]]
        ctl, keys = st.x
        for c in self.entries(ctl):
            for c2, k2 in self.summary(I, f, c, keys, st):
                s = st.copy(); s.x = (c2, k2); out.append((VVOID, s))
        return out
    def entries(self, ctl):
        return [ctl] if ctl[2] is not None or ctl[1] is not None else [(ctl[0], ctl[1], ch, ctl[3]) for ch in self.last_chars(ctl)]
    def summary(self, I, f, ctl, keys, st):
        k = (f["id"], ctl)
        outer, keys = keys, tuple(frozenset() for _ in keys)
        if k not in self.summaries:
            self.contexts.setdefault(f["id"], []).append((ctl, keys))
            self.summaries[k] = []
            s = State(); s.store = {l: v for l, v in st.store.items() if l[0] == I.this[0]}
            d, stk, this, sinks, limit = I.depth, list(I.stack), I.this, self.sinks, self.limit
            try: r = self.run_unit(I, f, s, ctl, keys)
            except Unclosed:
                I.depth, I.stack, I.this, self.sinks, self.limit = d, stk, this, sinks, limit
                self.err(f, ctl, "%s does not close what it opens" % f["q"].split("::")[-1])
                s.x = ((self.done(ctl[0]), None, ']', ctl[3]), keys)
                r = [s]
            g = {}
            for s2 in r:
                c2, k2 = s2.x
                g[c2] = tuple(a | b for a, b in zip(g[c2], k2)) if c2 in g else k2
            self.summaries[k] = list(g.items())
        for c, ks in self.summaries[k]:
            for i, (a, b) in enumerate(zip(outer, ks)):
                for d in a & b: self.dups.setdefault((fpath(ctl[0][:i] + (('o', 'key', d),)),), f["l"])
        return [(c, tuple(a | b for a, b in zip(outer, ks))) for c, ks in self.summaries[k]]
    def run_unit(self, I, f, st, ctl, keys):
        sink = ('out', f["id"])
        old = self.sinks
        self.sinks = self.sinks | {sink}
        for p in f["params"]:
            t = bare(p["t"])
            if t == "fastgltf::Asset": st.store[(p["id"], ('&',))] = frozenset([('ptr', ROOT, ())]); st.store[(p["id"], ())] = frozenset()
            elif t.startswith("std::basic_string<"): st.store[(p["id"], ('&',))] = frozenset([('ptr', sink, ())]); st.store[(p["id"], ())] = frozenset()
            else: st.store[(p["id"], ())] = frozenset([('m', ('arg', p["n"]), ())])
        st.x = (ctl, keys)
        limit, self.limit = self.limit, I.steps + 400000
        rs = I.run(f, st, this=I.this)
        self.limit = limit
        self.sinks = old
        return [s for v, s in rs if I.decide("==", self.errcode(I, s), ('c', 0), s) is not False]
    def errcode(self, I, s):
        a = I.read((I.this[0], I.this[1] + ('errorCode',)), s)
        return next(iter(a)) if len(a) == 1 else TOP

def is_unit(f):
    t = [x["t"] for x in f.get("params", [])]
    return f.get("rec") == EXPORTER and f.get("body") and any(bare(x) == "fastgltf::Asset" for x in t) and any(x.startswith("std::basic_string<") and x.rstrip().endswith("&") for x in t)

class Export:
    def __init__(self, prog):
        self.p = prog
        self.units = [f for f in prog.functions if is_unit(f)]
        c = [f for f in prog.functions if f.get("rec") == EXPORTER and f.get("body") and bare(f["ret"]).startswith("std::basic_string<") and any(bare(x["t"]) == "fastgltf::Asset" for x in f["params"])]
        if not c: raise tree.AnalysisError("the exporter has no function that returns the JSON text of an asset")
        self.root = c[0]
    def sink_of(self, f):
        """The string variable that the units are called with."""
        ids = {u["id"] for u in self.units}
        for x in tree.walk(f["body"]):
            if x["k"] == "CXXMemberCallExpr" and x.get("id") in ids:
                for k in x["c"]:
                    if k["k"] == "DeclRefExpr" and k.get("dk") in ("Var", "ParmVar") and bare(k["t"]).startswith("std::basic_string<"): return k["id"]
        raise tree.AnalysisError("%s does not call the write functions with a string" % f["q"])
    def init(self, cl, I):
        st = State()
        st.store[("this", ('errorCode',))] = frozenset([('c', 0)])
        return st
    def run_root(self, cl, positions=True):
        I = Interp(self.p, cl, positions=positions)
        I.valid_enums = True
        cl.sinks = {self.sink_of(self.root)}
        st = self.init(cl, I)
        for p in self.root["params"]:
            if bare(p["t"]) == "fastgltf::Asset": st.store[(p["id"], ('&',))] = frozenset([('ptr', ROOT, ())]); st.store[(p["id"], ())] = frozenset()
        st.x = (((), None, None, ()), ())
        cl.sinkvar = next(iter(cl.sinks))
        I.depth = 1
        rs = I.run(self.root, st)
        return I, [s for v, s in rs if I.decide("==", cl.errcode(I, s), ('c', 0), s) is not False]
