"""Models of the library calls (std, simdjson, the wrapper templates of fastgltf) for interp.py."""
from interp import *
from interp import V, C, VTOP, VVOID, NULL, UNINIT, TOP, bare, etype, is_ref, canon, comp, State

OK, NSF, TYPE, RANGE, OOB = 0, 19, 16, 17, 18
MULTI = ("std::vector<", "fastgltf::SmallVector<", "fastgltf::StaticVector<", "std::array<", "fastgltf::span<", "std::span<", "fastgltf::math::vec<", "fastgltf::math::mat<",
         "fastgltf::math::quat<", "fastgltf::AccessorBoundsArray", "std::map<", "std::unordered_map<", "std::initializer_list<")
STR = ("std::basic_string<", "std::basic_string_view<")
OPT = ("std::optional<", "std::unique_ptr<", "std::shared_ptr<", "std::__shared_ptr<", "fastgltf::OptionalWithFlagValue<", "std::__unique_ptr", "std::__shared_ptr_access", "std::_Optional")

_split = {}
def split(q):
    """(class or namespace, name) of a qualified name."""
    r = _split.get(q)
    if r is not None: return r
    d = 0; pos = -1; k = 0
    while k < len(q):
        ch = q[k]
        if d == 0 and q.startswith("operator", k) and (k == 0 or q[k - 1] == ':'): break
        if ch in "<(": d += 1
        elif ch in ">)": d -= 1
        elif d == 0 and q.startswith("::", k): pos = k; k += 1
        k += 1
    r = (q[:pos], q[pos + 2:]) if pos >= 0 else ("", q)
    _split[q] = r
    return r

def targs(t):
    """Template arguments of a type name."""
    i = t.find("<")
    if i < 0: return []
    d = 0; out = []; cur = ""
    for ch in t[i + 1:]:
        if ch in "<(": d += 1
        if ch in ">)":
            if d == 0 and ch == ">": break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def chartype(n):
    return bare(etype(n)) in ("char",)
def strval(v, n):
    """Character constants as one-character strings."""
    if chartype(n): return V([('c', chr(a[1])) if a[0] == 'c' and isinstance(a[1], int) and 0 <= a[1] < 256 else a for a in v.a])
    return v
def cat(a, b):
    if a[0] == 'empty': a = ('c', '')
    if b[0] == 'empty': b = ('c', '')
    if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], str) and isinstance(b[1], str): return ('c', a[1] + b[1])
    if a == ('c', ''): return b
    if b == ('c', ''): return a
    la = a[1:] if a[0] == 'cat' else (a,)
    lb = b[1:] if b[0] == 'cat' else (b,)
    l = list(la)
    for x in lb:
        if l and l[-1][0] == 'c' and x[0] == 'c' and isinstance(l[-1][1], str) and isinstance(x[1], str): l[-1] = ('c', l[-1][1] + x[1])
        else: l.append(x)
    if len(l) > 24: return TOP
    return ('cat',) + tuple(l)
def concat(va, vb):
    out = {cat(a, b) for a in va.a for b in vb.a}
    return V(out) if len(out) <= CAP else VTOP

def objs(I, n, st, k=0):
    """Locations of the object argument."""
    o = n["c"][k]
    if n.get("arrow"):
        out = []
        for v, s in I.eval(o, st): out += [(l, s) for l in I.deref(v, s)]
        return out
    return I.lval(o, st)

def invalidate_size(I, loc, s):
    s.facts.pop(('szc', loc[0], loc[1]), None)
    for t in [t for t in s.facts if has_sz(t, loc)]: del s.facts[t]
def has_sz(t, loc):
    if not isinstance(t, tuple): return False
    if t[:1] == ('sz',) and t[1:3] == (loc[0], loc[1]): return True
    return any(has_sz(x, loc) for x in t if isinstance(x, tuple))

def container_of(I, loc, s):
    """Canonical location of a container: a copy/alias that still holds the initial content maps to it."""
    a = s.store.get(loc)
    if a is not None and len(a) == 1:
        (x,) = a
        if x[0] == 'm': return (x[1], x[2])
    return loc

# ------------------------------------------------------------------ JSON
def jread(I, n, p, kind, field, st):
    """Outcomes of a typed read: [(code, V or None, state)]"""
    num = kind in ("uint64", "int64")
    f = st.facts.get(('jt', p, kind))
    outs = [OK]
    pres = st.facts.get(('present', p))
    if field and not (pres and pres[1] == frozenset([True])): outs.append(NSF)
    if pres and pres[1] == frozenset([False]): outs = [NSF]
    elif kind != "element":
        outs.append(TYPE)
        if num: outs.append(RANGE)
    if f: outs = [o for o in outs if o in f[1]]
    if I.cl is not None:
        r = I.cl.json_outcomes(I, p, kind, n, st, outs) if outs else None
        if r is not None: outs = r
    res = []
    for o in outs:
        s = st.copy()
        s.facts[('jt', p, kind)] = ('in', frozenset([o]))
        if o != OOB: s.facts[('present', p)] = ('in', frozenset([o != NSF]))
        v = None
        if o == OK:
            if kind in ("object", "array", "element"): v = V([('j', p)])
            else: v = I.cl.json_value(I, p, kind, s) if I.cl is not None and hasattr(I.cl, "json_value") else None
            if o == OK and v is None: v = V([('v', p, kind)])
        res.append((o, v, s))
    return res

KINDS = {"get_object": "object", "get_array": "array", "get_string": "string", "get_uint64": "uint64", "get_int64": "int64", "get_double": "double", "get_bool": "bool", "get_c_str": "string"}
TK = {"simdjson::dom::object": "object", "dom::object": "object", "simdjson::dom::array": "array", "dom::array": "array", "std::basic_string_view<char>": "string", "unsigned long": "uint64", "long": "int64",
      "double": "double", "bool": "bool", "simdjson::dom::element": "element", "dom::element": "element", "std::string_view": "string"}

def json_builtin(I, n, cls, m, st):
    kids = n.get("c", [])
    out = []
    if m in ("operator[]", "at_key", "at", "at_pointer"):
        for v, s0 in I.eval(kids[0], st):
            for k, s in I.eval(kids[1], s0):
                for a in v.a:
                    base = jpath(a, s)
                    if base is None: out.append((VTOP, s)); continue
                    for x in k.a:
                        if x[0] == 'c' and isinstance(x[1], str): p = base + "." + x[1]; f = 'f'
                        elif x[0] == 'c': p = base + "[%d]" % x[1]; f = 'i'
                        elif m == "at" : p = base + "[]"; f = 'i'
                        else: p = base + ".*"; f = 'f'
                        out.append((V([('jf', p, f)]), s))
        return out
    if m in KINDS:
        for v, s in I.eval(kids[0], st):
            for a in v.a:
                p = jpath(a, s)
                if p is None: out.append((VTOP, s)); continue
                out.append((V([('jr', p, KINDS[m], a[2] if a[0] == 'jf' else '')]), s))
        return out
    if m in ("get", "tie") and len(kids) == 2:
        for v, s0 in I.eval(kids[0], st):
            for l, s in I.lval(kids[1], s0):
                for a in v.a:
                    p = jpath(a, s)
                    if p is None:
                        I.write(l, VTOP, s, n); out.append((VTOP, s)); continue
                    kind = a[2] if a[0] == 'jr' else TK.get(bare(etype(kids[1])), "element")
                    fl = a[3] if a[0] == 'jr' else a[2] if a[0] == 'jf' else ''
                    for o, val, s2 in jread(I, n, p, kind, fl == 'f', s):
                        if fl == 'i' and o == NSF: o = OOB
                        if val is not None: I.write(l, val, s2, n)
                        out.append((C(o), s2))
                    if fl == 'i':
                        s2 = s.copy(); r = I.cl.json_outcomes(I, p, kind, n, s2, [OOB]) if I.cl is not None else None
                        if r is None or OOB in r or NSF in r: out.append((C(OOB), s2))
        return out
    if m == "error":
        for v, s in I.eval(kids[0], st):
            for a in v.a:
                p = jpath(a, s)
                if p is None: out.append((VTOP, s)); continue
                kind = a[2] if a[0] == 'jr' else "element"
                fl = a[3] if a[0] == 'jr' else a[2] if a[0] == 'jf' else ''
                for o, val, s2 in jread(I, n, p, kind, fl == 'f', s): out.append((C(o), s2))
                if fl == 'i': out.append((C(OOB), s.copy()))
        return out
    if cls.endswith("::iterator") and m in ("key", "value", "operator*"):
        for l, s in objs(I, n, st):
            v = I.load(l, s)
            if any(a[0] == 'kv' for a in v.a): out.append((v if m == "operator*" else V((v.sub or {}).get((m,), ())), s))
            else: out.append((v, s))
        return out
    if m in ("value", "value_unsafe", "operator*", "first", "take_value", "value_or") or m.startswith("operator simdjson") or m.startswith("operator "):
        for v, s in I.eval(kids[0], st):
            for a in v.a:
                p = jpath(a, s)
                if p is None: out.append((VTOP, s)); continue
                kind = a[2] if a[0] == 'jr' else "element"
                if kind in ("object", "array", "element"): out.append((V([('j', p)]), s))
                else:
                    val = I.cl.json_value(I, p, kind, s) if I.cl is not None and hasattr(I.cl, "json_value") else None
                    out.append((val or V([('v', p, kind)]), s))
        return out
    if m == "size":
        for v, s in I.eval(kids[0], st): out.append((V([('call', 'jsize', (('j', jpath(a, s)) if jpath(a, s) else a,), 0) for a in v.a]), s))
        return out
    if m == "type":
        for v, s in I.eval(kids[0], st): out.append((V([('jtype', a) for a in v.a]), s))
        return out
    if m.startswith("is_") or m == "is":
        for v, s in I.eval(kids[0], st): out.append((V([('op', m, a) for a in v.a]), s))
        return out
    return None
def jpath(a, s):
    return resolve(a[1], s) if a[0] in ('j', 'jf', 'jr') else None

# ------------------------------------------------------------------ dispatch
def builtin(I, n, q, st):
    kids = n.get("c", [])
    if not q: return None
    cls, m = split(q)
    if cls.startswith("simdjson::") or cls == "simdjson":
        r = json_builtin(I, n, cls, m, st)
        if r is not None: return r
    # plain functions
    if q in ("std::move", "std::forward", "std::as_const", "std::addressof", "std::launder", "fastgltf::to_underlying", "__builtin_expect", "std::ref", "std::cref"):
        if q == "std::addressof": return [(V([('ptr',) + l]), s) for l, s in I.lval(kids[0], st)]
        if n.get("lv") is not None or True:
            if kids[0].get("lv") or n["k"] == "CallExpr" and q != "fastgltf::to_underlying" and kids[0]["k"] in ("DeclRefExpr", "MemberExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr", "UnaryOperator"):
                return [(l, s) for l, s in I.lval(kids[0], st)]
        return I.eval(kids[0], st)
    if q == "std::exchange":
        out = []
        for v, s0 in I.eval(kids[1], st):
            for l, s in I.lval(kids[0], s0):
                s = s.copy(); old = I.load(l, s); I.write(l, v, s, n); out.append((old, s))
        return out
    if q == "std::swap":
        out = []
        for a, s0 in I.lval(kids[0], st):
            for b, s in I.lval(kids[1], s0):
                s = s.copy(); va, vb = I.load(a, s), I.load(b, s); I.write(a, vb, s, n); I.write(b, va, s, n); out.append((VVOID, s))
        return out
    if q in ("std::make_unique", "std::make_shared", "std::make_optional", "std::allocate_shared"):
        t = n.get("ta", [""])[0]
        if len(kids) == 1 and q == "std::make_optional" or len(kids) == 1 and bare(etype(kids[0])) == t:
            return I.eval(kids[0], st)
        out = []
        for vs, s in I.args(kids, st):
            if t.endswith("[]") or len(vs) and t not in I.p.records: out.append((V([('new', t, n["l"])]), s))
            else: out.append((V([('obj', t, 'z')]) if not vs else V([I.callatom('ctor', t, vs)]), s))
        return out
    if m == "crcStringFunction" or (not q.strip() and False): pass
    if not n.get("q") : return None
    if q in ("fastgltf::crc32c", "fastgltf::sse_crc32c", "fastgltf::armv8_crc32c", "fastgltf::hwcrc32c"):
        return [(V([('c', crc32c(a[1])) if a[0] == 'c' and isinstance(a[1], str) else ('crc', a) for a in v.a]), s) for v, s in I.eval(kids[0], st)] if len(kids) == 1 else None
    if q in ("std::distance",):
        out = []
        for a, s0 in I.eval(kids[0], st):
            for b, s in I.eval(kids[1], s0): out.append((I.arith("-", b, a, s), s))
        return out
    if q in ("std::next", "std::prev"):
        out = []
        d = 1 if q.endswith("next") else -1
        for a, s in I.eval(kids[0], st):
            r = [(C(1), s)] if len(kids) < 2 or kids[1]["k"] == "CXXDefaultArgExpr" else I.eval(kids[1], s)
            for b, s2 in r: out.append((I.arith("+" if d > 0 else "-", a, b, s2) if b.const() is not None else VTOP, s2))
        return out
    if q in ("fastgltf::uabs", "std::abs", "abs", "std::labs"): return I.eval(kids[0], st)
    if q in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::data", "std::empty"):
        return container(I, n, m, st, etype(kids[0]))
    if q in ("std::get", "std::get_if", "std::holds_alternative"): return variant_get(I, n, m, st)
    if q == "std::visit": return visit(I, n, st)
    if q == "std::make_pair":
        out = []
        for vs, s in I.args(kids, st):
            sub = {}
            for nm, v in zip(("first", "second"), vs):
                sub[(nm,)] = v.a
                for k, a in (v.sub or {}).items(): sub[(nm,) + k] = a
            out.append((V([('obj', 'std::pair')], sub), s))
        return out
    if q in ("std::min", "std::max") and len(kids) == 2:
        out = []
        for a, s0 in I.eval(kids[0], st):
            for b, s in I.eval(kids[1], s0): out.append((a.join(b) if a.a != b.a else a, s))
        return out
    if q == "std::to_string": return [(V([('numstr', a) for a in v.a]), s) for v, s in I.eval(kids[0], st)]
    if q.startswith("std::numeric_limits<") and q.endswith("::infinity"): return [(C(float("inf")), st)]
    if q.startswith("std::numeric_limits<"): return [(V([('const', q)]) if "cv" not in n else C(int(n["cv"])), st)]
    if q == "std::any_of" or q in ("std::all_of", "std::none_of", "std::find_if"): return any_of(I, n, m, st)
    if q in ("std::operator+",) and len(kids) == 2:
        if any(etype(k).replace("const ", "").startswith(("std::basic_string",)) for k in kids):
            out = []
            for a, s0 in I.eval(kids[0], st):
                for b, s in I.eval(kids[1], s0): out.append((concat(strval(a, kids[0]), strval(b, kids[1])), s))
            return out
        return None
    if q.startswith("__gnu_cxx::") or q.startswith("std::move_iterator"):
        return iterator(I, n, cls, m, st)
    if n["k"] in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and kids:
        t = bare(etype(kids[0])) if not n.get("arrow") else bare(etype(kids[0]).rstrip(" *"))
        c = cls
        if c.startswith("std::initializer_list"): return container(I, n, m, st, c)
        if m == "operator=" and len(kids) == 2:
            g = I.p.by_id.get(n.get("id"))
            if g is None or not g.get("body") or c.startswith(OPT + MULTI + STR + ("std::variant<", "fastgltf::URI", "fastgltf::math::")) or not I.can_inline(g):
                if c.startswith("fastgltf::Expected<"): return None
                return assign_op(I, n, c, st)
            return None
        if c.startswith(STR): return string(I, n, m, st)
        if c.startswith(OPT): return optional(I, n, c, m, st)
        if c.startswith(MULTI): return container(I, n, m, st, c)
        if c.startswith("std::variant<"): return variant_member(I, n, c, m, st)
        if c.startswith("fastgltf::Expected<"): return expected(I, n, m, st)
        if c.startswith("std::function<"): return None
        if c.startswith("fastgltf::URI") and m in ("operator basic_string_view", "string", "raw", "valid", "isDataUri", "isLocalPath", "path", "fspath", "scheme", "c_str"):
            out = []
            for v, s in I.eval(kids[0], st) if not n.get("arrow") else [(I.load(l, s1), s1) for l, s1 in objs(I, n, st)]:
                at = V([('uri', m, a) for a in v.a]); out.append((at, s))
            return out
    if q in ("std::operator==", "std::operator!=") and len(kids) == 2: return [(C(b), s) for b, s in I.compare(n, st)]
    return None

def assign_op(I, n, c, st):
    kids = n["c"]
    out = []
    for v, s0 in I.eval(kids[1], st):
        if c.startswith(STR): v = strval(v, kids[1])
        for l, s in I.lval(kids[0], s0):
            s = s.copy()
            if c.startswith("std::variant<"):
                alt = bare(etype(kids[1]))
                if not alt.startswith("std::variant<"):
                    sub = {('<%s>' % alt,): v.a}
                    for k, a in (v.sub or {}).items(): sub[('<%s>' % alt,) + k] = a
                    v2 = V([('alt', alt)], sub)
                else: v2 = v
                I.write(l, v2, s, n)
            else:
                I.write(l, v, s, n)
            invalidate_size(I, l, s)
            out.append((l, s))
    return out

# ------------------------------------------------------------------ optional, unique_ptr
def optional(I, n, c, m, st):
    out = []
    kids = n["c"]
    smart = c.startswith(("std::unique_ptr", "std::shared_ptr", "std::__shared", "std::__unique"))
    if smart and m in ("get",) or (smart and m == "release"):
        for l, s in objs(I, n, st):
            at = I.read(l, s)
            r = set()
            for a in at:
                if a[0] == 'null': r.add(NULL)
                else: r.add(('ptr', l[0], l[1]))
                if a[0] in ('m',) and I.truth_has(a, s) is None: r.add(NULL)
            if NULL in r and len(r) > 1: out.append((V([('mptr', l[0], l[1])]), s))
            else: out.append((V(r), s))
        return out
    if m in ("has_value", "operator bool"):
        for l, s in objs(I, n, st): out.append((V([('has', a) for a in I.read(l, s)]), s))
        return out
    if m in ("value", "operator*", "operator->", "get"):
        for l, s in objs(I, n, st):
            if m in ("value", "operator*", "operator->", "get") and I.cl is not None: I.cl.on_deref_opt(I, l, n, s)
            at = I.read(l, s)
            if NULL in at and len(at) > 1:
                s = s.copy(); s.store[l] = at - {NULL}
            if m == "operator->" and True: out.append((V([('ptr', l[0], l[1])]), s))
            else: out.append((l, s))
        return out
    if m == "value_or":
        for d, s0 in I.eval(kids[1], st):
            for l, s in objs(I, n, s0):
                v = I.load(l, s)
                at = v.a
                r = set(at - {NULL})
                if NULL in at or any(I.truth_has(a, s) is not True for a in at): r |= d.a
                out.append((V(r), s))
        return out
    if m == "reset":
        for l, s in objs(I, n, st):
            s = s.copy(); I.write(l, V([NULL]), s, n); out.append((VVOID, s))
        return out
    if m == "emplace":
        return emplace_at(I, n, kids[1:], objs(I, n, st), targs(c)[0] if targs(c) else "", st, lambda l: l)
    return None

def emplace_at(I, n, args, locs, t, st, f):
    """Constructs a T from args at f(loc)."""
    out = []
    for l, s0 in locs:
        for v, s in construct_value(I, n, t, args, s0):
            s = s.copy()
            el = f(l)
            I.write(el, v, s, n)
            invalidate_size(I, l, s)
            out.append((el, s))
    return out
def construct_value(I, n, t, args, st):
    bt = bare(t)
    if not args: 
        return [(I.zeroed(t), st)]
    if len(args) == 1:
        at = bare(etype(args[0]))
        if bt.startswith("std::variant<") and not at.startswith("std::variant<"):
            return [(V([('alt', at)], dict([(('<%s>' % at,), v.a)] + [(('<%s>' % at,) + k, a) for k, a in (v.sub or {}).items()])), s) for v, s in I.eval(args[0], st)]
        return I.eval(args[0], st)
    r = I.p.records.get(bt)
    out = []
    for vs, s in I.args(args, st):
        if bt.startswith("std::pair<"):
            sub = {}
            for nm, v in zip(("first", "second"), vs):
                sub[(nm,)] = v.a
                for k, a in (v.sub or {}).items(): sub[(nm,) + k] = a
            out.append((V([('obj', bt)], sub), s))
        else: out.append((V([I.callatom('ctor', bt, vs)]), s))
    return out

# ------------------------------------------------------------------ variants
def alts_of(I, l, s, t):
    a = I.read(l, s)
    names = set()
    all_ = [x for x in targs(t)]
    f = s.facts.get(('altf',) + l)
    if f:
        al = [x for x in all_ if x in f[1]]
        return I.cl.alts(I, l, s, al) if I.cl is not None else al
    for x in a:
        if x[0] in ('alt', 'alt0'): names.add(x[1])
        elif x[0] == 'uninit': pass
        elif x[0] == 'm':
            # a copy of an untouched variant shares the original's facts
            f = s.facts.get(('altf', x[1], x[2]))
            if f: names |= set(f[1])
            else: names |= set(all_)
        else: names |= set(all_)
    al = [x for x in all_ if x in names] or all_
    return I.cl.alts(I, l, s, al) if I.cl is not None else al
def assume_alt(I, l, s, alts):
    a = I.read(l, s)
    s.facts[('altf',) + l] = ('in', frozenset(alts))
    if len(a) == 1:
        (x,) = a
        if x[0] == 'm': s.facts[('altf', x[1], x[2])] = ('in', frozenset(alts))
    keep = frozenset(x for x in a if x[0] not in ('alt', 'alt0') or x[1] in alts)
    if keep and keep != a and l in s.store: s.store[l] = keep
def vartype(n):
    t = bare(etype(n))
    return t
def variant_get(I, n, m, st):
    kids = n["c"]
    ta = n.get("ta") or [""]
    out = []
    if m == "get_if":
        for v, s0 in I.eval(kids[0], st):
            for l in I.deref(v, s0):
                t = "std::variant" + ta[1] if len(ta) > 1 and ta[1].startswith("<") else vartype(kids[0])
                al = alts_of(I, l, s0, t)
                want = ta[0]
                if want in al:
                    s = s0.copy(); assume_alt(I, l, s, [want]); out.append((V([('ptr', l[0], l[1] + ('<%s>' % want,))]), s))
                rest = [x for x in al if x != want]
                if rest:
                    s = s0.copy(); assume_alt(I, l, s, rest); out.append((V([NULL]), s))
        return out
    for l, s0 in I.lval(kids[0], st):
        t = vartype(kids[0])
        if t.startswith(("std::pair<", "std::array<", "std::tuple<")):
            i = ta[0]
            nm = ({'0': 'first', '1': 'second'}.get(i, '<%s>' % i) if t.startswith("std::pair<") else '[%s]' % i)
            out.append(((l[0], l[1] + (nm,)), s0)); continue
        if not t.startswith("std::variant<"): return None
        want = ta[0]
        if want.isdigit(): want = targs(t)[int(want)]
        if m == "get":
            s = s0.copy(); out.append(((l[0], l[1] + ('<%s>' % want,)), s)); continue
        al = alts_of(I, l, s0, t)
        if want in al:
            s = s0.copy(); assume_alt(I, l, s, [want]); out.append((C(True), s))
        rest = [x for x in al if x != want]
        if rest:
            s = s0.copy(); assume_alt(I, l, s, rest); out.append((C(False), s))
    return out
def variant_member(I, n, c, m, st):
    kids = n["c"]
    out = []
    if m == "emplace":
        want = (n.get("ta") or [""])[0]
        if want.isdigit(): want = targs(c)[int(want)]
        for l, s0 in objs(I, n, st):
            for v, s in construct_value(I, n, want, kids[1:], s0):
                s = s.copy()
                sub = {('<%s>' % want,): v.a}
                for k, a in (v.sub or {}).items(): sub[('<%s>' % want,) + k] = a
                s.facts.pop(('altf',) + l, None)
                I.write(l, V([('alt', want)], sub), s, n)
                out.append(((l[0], l[1] + ('<%s>' % want,)), s))
        return out
    if m == "index":
        for l, s in objs(I, n, st):
            al = alts_of(I, l, s, c); ts = targs(c)
            for x in al:
                s2 = s.copy(); assume_alt(I, l, s2, [x]); out.append((C(ts.index(x)), s2))
        return out
    return None
def visit(I, n, st):
    kids = n["c"]
    out = []
    if len(kids) != 2: return None
    t = vartype(kids[1])
    for fv, s0 in I.eval(kids[0], st):
        ids = [i for a in fv.a if a[0] == 'lam' for i in a[1]]
        fns = [I.p.by_id[i] for i in ids if i in I.p.by_id and I.p.by_id[i].get("params")]
        for l, s1 in I.lval(kids[1], s0):
            for alt in alts_of(I, l, s1, t):
                exact = [f for f in fns if bare(f["params"][0]["t"]) == alt and not f.get("inst")]
                cand = exact or [f for f in fns if bare(f["params"][0]["t"]) == alt] or [f for f in fns if len(f["params"]) == 1 and f["params"][0].get("t", "").startswith("auto")]
                s = s1.copy(); assume_alt(I, l, s, [alt])
                if not cand: out.append((VTOP, s)); continue
                f = cand[0]
                p = f["params"][0]
                el = (l[0], l[1] + ('<%s>' % alt,))
                I.clear((p["id"], ()), s)
                if is_ref(p["t"]):
                    s.store[(p["id"], ('&',))] = frozenset([('ptr',) + el]); s.store[(p["id"], ())] = frozenset()
                else:
                    v = I.load(el, s); s.store[(p["id"], ())] = v.a
                    for k, a in (v.sub or {}).items(): s.store[(p["id"], k)] = a
                if I.depth >= I.MAXDEPTH or f["id"] in I.stack: out.append((VTOP, s)); continue
                I.inlined[f["q"]] = I.inlined.get(f["q"], 0) + 1
                rs = I.run(f, s)
                out += rs
    return out

# ------------------------------------------------------------------ containers
def container(I, n, m, st, c):
    kids = n.get("c", [])
    out = []
    free = n["k"] == "CallExpr"
    if m in ("push_back", "emplace_back"):
        el = targs(c)[0] if targs(c) else ""
        return emplace_at(I, n, kids[1:], objs(I, n, st), el, st, lambda l: (l[0], l[1] + (('[]', 'new'),)))
    if m in ("operator==", "operator!=") and len(kids) == 2 and c.startswith(("fastgltf::math::vec<", "fastgltf::math::quat<")):
        N = int(targs(bare(c))[1]) if "vec<" in c else 4
        def comps(k, s):
            l = I.simple_loc(k, s)
            if l is not None: return [([I.read((l[0], l[1] + ('[%d]' % i,)), s) for i in range(N)], s)]
            return [([(v.sub or {}).get(('[%d]' % i,)) or frozenset(z for a in v.a for y in I.project(a, ('[%d]' % i,), s2) for z in (I.read((y[1], y[2]), s2) if y[0] == 'm' else (y,))) for i in range(N)], s2) for v, s2 in I.eval(k, s)]
        for x, s0 in comps(kids[0], st):
            for y, s in comps(kids[1], s0):
                r = []
                for p, q in zip(x, y):
                    ds = {I.decide("==", a, b, s) for a in p for b in q}
                    r.append(ds.pop() if len(ds) == 1 else None)
                eq = False if False in r else True if all(z is True for z in r) else None
                out += [(C(b == (m == "operator==")), s.copy()) for b in ((eq,) if eq is not None else (True, False))]
        return out
    loclist = I.lval(kids[0], st) if free else objs(I, n, st)
    fixed = c.startswith(("std::array<", "fastgltf::math::"))
    for l, s in loclist:
        src = container_of(I, l, s)
        if m in ("size", "length"):
            if fixed:
                ta = targs(bare(c))
                try: out.append((C(int(ta[1])), s)); continue
                except Exception: pass
            out.append((sizeval(I, l, src, s), s))
        elif m == "empty": out.append((V([('not', a) for a in sizeval(I, l, src, s).a]), s))
        elif m in ("begin", "cbegin", "data"):
            if m == "data": out.append((V([('ptr', src[0], src[1] + (('[]', 'data'),))]), s))
            else: out.append((V([('begin', src[0], src[1])]), s))
        elif m in ("end", "cend"): out.append((V([('sz', src[0], src[1], 0)]), s))
        elif m in ("operator[]", "at"):
            for i, s2 in I.eval(kids[1], s): out += I.index(l, i, s2, n)
        elif m in ("front", "back"): out.append(((l[0], l[1] + ('[0]' if m == "front" else ('[]', 'back'),)), s))
        elif m in ("clear", "pop_back"):
            s = s.copy()
            if m == "clear": I.write(l, V([('empty',)]), s, n)
            invalidate_size(I, l, s); out.append((VVOID, s))
        elif m in ("reserve", "shrink_to_fit"):
            for vs, s2 in I.args(kids[1:], s): out.append((VVOID, s2))
        elif m in ("resize", "assign", "insert", "erase", "fill", "set"):
            for vs, s2 in I.args(kids[1:], s):
                s2 = s2.copy()
                if I.cl is not None: I.cl.on_resize(I, l, m, vs, s2, n)
                if m in ("assign", "set", "fill") and vs: I.write((l[0], l[1] + (('[]', m),)), vs[-1], s2, n)
                invalidate_size(I, l, s2); out.append((VTOP, s2))
        else:
            return None
    return out
def sizeval(I, l, src, s):
    a = I.read(l, s)
    if a == frozenset([('empty',)]) and not any(k[0] == l[0] and len(k[1]) > len(l[1]) and k[1][:len(l[1])] == l[1] for k in s.store): return C(0)
    return V([('sz', src[0], src[1], 0)])

def iterator(I, n, cls, m, st):
    kids = n.get("c", [])
    out = []
    if m == "operator*":
        for v, s in I.eval(kids[0], st):
            for l in itderef(I, v, s): out.append((l, s))
        return out
    if m == "operator->":
        for v, s in I.eval(kids[0], st):
            for l in itderef(I, v, s): out.append((V([('ptr',) + l]), s))
        return out
    if m == "operator[]": 
        for v, s in I.eval(kids[0], st):
            for i, s2 in I.eval(kids[1], s):
                for l in itderef(I, v, s2): out.append((l, s2))
        return out
    if m in ("operator++", "operator--"):
        for l, s in I.lval(kids[0], st):
            v = I.load(l, s)
            for nv, s2 in I.step(v, 1 if m == "operator++" else -1, s):
                s2 = s2.copy() if s2 is s else s2
                I.write(l, nv, s2, n)
                out.append((v if len(kids) > 1 else l, s2))
        return out
    if m in ("operator+", "operator-") and len(kids) == 2:
        for a, s0 in I.eval(kids[0], st):
            for b, s in I.eval(kids[1], s0): out.append((I.arith(m[-1], a, b, s), s))
        return out
    if m in ("operator+=", "operator-="):
        for b, s0 in I.eval(kids[1], st):
            for l, s in I.lval(kids[0], s0):
                s = s.copy(); v = I.arith(m[8], I.load(l, s), b, s); I.write(l, v, s, n); out.append((l, s))
        return out
    if m == "base": return I.eval(kids[0], st)
    return None
def itderef(I, v, s):
    out = []
    for a in v.a:
        if a[0] == 'pos': out.append((a[1], a[2] + (('[]', a[6]),)))
        elif a[0] == 'begin': out.append((a[1], a[2] + (('[]', 'it'),)))
        elif a[0] == 'iter': out.append((a[1], a[2] + (('[]', 'it'),)))
        elif a[0] == 'iter1': out.append((a[1], a[2] + (('[]', a[3]),)))
        elif a[0] == 'ptr': out.append((a[1], a[2]))
        else: out.append((('deref', a), ()))
    return out

# ------------------------------------------------------------------ strings
def string(I, n, m, st):
    kids = n.get("c", [])
    out = []
    if m == "operator+=" or m in ("append", "push_back"):
        for b, s0 in I.eval(kids[1], st):
            b = strval(b, kids[1])
            for l, s in I.lval(kids[0], s0) if not n.get("arrow") else objs(I, n, s0):
                s = s.copy()
                I.write(l, concat(I.load(l, s), b), s, n); out.append((l, s))
        return out
    if m.startswith("operator basic_string") or m.startswith("operator std::basic_string") or m in ("c_str", "data", "operator string_view", "string"):
        return [(I.load(l, s), s) for l, s in objs(I, n, st)]
    if m in ("size", "length"):
        for l, s in objs(I, n, st): out.append((V([('strlen', a) if a[0] != 'c' else ('c', len(str(a[1]).encode())) for a in I.read(l, s)]), s))
        return out
    if m == "empty":
        for l, s in objs(I, n, st): out.append((V([('op', 'strempty', a) if a[0] not in ('c', 'empty') else ('c', a[0] == 'empty' or a[1] == "") for a in I.read(l, s)]), s))
        return out
    if m in ("back", "front"):
        for l, s in objs(I, n, st): out.append((V([('op', m, a) for a in I.read(l, s)]), s))
        return out
    if m in ("operator[]", "at"):
        for l, s0 in objs(I, n, st):
            for i, s in I.eval(kids[1], s0):
                c = i.const()
                r = set()
                for a in I.read(l, s0):
                    if a[0] == 'c' and isinstance(a[1], str) and isinstance(c, int) and 0 <= c < len(a[1]): r.add(('c', ord(a[1][c])))
                    else: r.add(I.opatom('char', a, i.one() or TOP))
                out.append((V(r), s))
        return out
    if m in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
        for l, s in objs(I, n, st): out.append((V([('op', m, a) for a in I.read(l, s)]), s))
        return out
    if m == "clear":
        for l, s in objs(I, n, st):
            s = s.copy(); I.write(l, C(""), s, n); out.append((VVOID, s))
        return out
    if m in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "substr", "compare", "starts_with", "ends_with", "remove_prefix", "remove_suffix", "insert", "erase", "replace", "resize", "reserve", "assign", "pop_back"):
        for l, s0 in objs(I, n, st):
            for vs, s in I.args(kids[1:], s0):
                a = I.callatom('call', 'str::' + m, [V(I.read(l, s))] + [strval(v, k) for v, k in zip(vs, kids[1:])], n["l"])
                if m in ("insert", "erase", "replace", "resize", "assign", "remove_prefix", "remove_suffix", "pop_back"):
                    s = s.copy(); I.write(l, V([a]), s, n); out.append((l, s))
                elif m == "reserve": out.append((VVOID, s))
                else: out.append((V([a]), s))
        return out
    return None

# ------------------------------------------------------------------ Expected
def expected(I, n, m, st):
    kids = n["c"]
    out = []
    if m == "error":
        for l, s in objs(I, n, st): out.append((V(I.read((l[0], l[1] + ('.err',)), s)), s))
        return out
    if m in ("operator bool",):
        for l, s in objs(I, n, st):
            out.append((V([('cmp', '==', a, ('c', 0)) for a in I.read((l[0], l[1] + ('.err',)), s)]), s))
        return out
    if m in ("get", "operator*", "get_if"):
        for l, s in objs(I, n, st):
            el = (l[0], l[1] + ('.val',))
            if m == "get_if": out.append((V([('ptr',) + el]), s))
            else: out.append((el, s))
        return out
    if m == "operator->":
        for l, s in objs(I, n, st): out.append((V([('ptr', l[0], l[1] + ('.val',))]), s))
        return out
    return None

def any_of(I, n, m, st):
    """Predicate over a container's elements (any_of/all_of/none_of); the predicate is inlined on an arbitrary element."""
    kids = n["c"]
    out = []
    for b, s0 in I.eval(kids[0], st):
        for e, s1 in I.eval(kids[1], s0):
            for f, s2 in I.eval(kids[2], s1):
                fns = [I.p.by_id[i] for a in f.a if a[0] == 'lam' for i in a[1] if i in I.p.by_id]
                bl = b.one()
                r = table_find(I, n, m, [b, e, f], s2)
                if r is not None: out += r; continue
                if not fns or bl is None or bl[0] not in ('begin',): out.append((VTOP, s2)); continue
                l = (bl[1], bl[2])
                el = (l[0], l[1] + (('[]', 'any%d' % n["l"]),))
                fn = fns[0]; p = fn["params"][0]
                force = I.cl is not None and I.cl.must_iterate(I, l, s2)
                neutral = C(m != "any_of") if m != "find_if" else V([('sz', l[0], l[1], 0)])
                if not force: out.append((neutral, s2.copy()))
                s = s2.copy(); I.kill(s, el[0], el[1]); I.clear((p["id"], ()), s)
                if is_ref(p["t"]): s.store[(p["id"], ('&',))] = frozenset([('ptr',) + el]); s.store[(p["id"], ())] = frozenset()
                else:
                    v = I.load(el, s); s.store[(p["id"], ())] = v.a
                    for k, a in (v.sub or {}).items(): s.store[(p["id"], k)] = a
                for v, s3 in I.run(fn, s):
                    c = v.consts()
                    for x in (set(c) if c is not None else {True, False}):
                        x = bool(x)
                        if m == "find_if": out.append((V([('ptr',) + el]) if x else neutral, s3.copy())); continue
                        if m == "none_of": x = not x
                        out.append((C(x), s3.copy()))
    return out

def table_find(I, n, m, vs, st):
    """find_if/any_of/... over a constant table: the predicate is run on every element in turn."""
    bl = vs[0].one()
    fns = [I.p.by_id[i] for a in vs[2].a if a[0] == 'lam' for i in a[1] if i in I.p.by_id]
    if not fns or bl is None or bl[0] != 'begin': return None
    tab = I.const_table((bl[1], bl[2]), st)
    if tab is None: return None
    fn = fns[0]; p = fn["params"][0]
    out, cur = [], [st]
    for i, v in enumerate(tab):
        el = (bl[1], bl[2] + ('[%d]' % i,))
        nx = []
        for s in cur:
            s = s.copy(); I.clear((p["id"], ()), s)
            if is_ref(p["t"]): s.store[(p["id"], ('&',))] = frozenset([('ptr',) + el]); s.store[(p["id"], ())] = frozenset()
            else:
                s.store[(p["id"], ())] = v.a
                for k, a in (v.sub or {}).items(): s.store[(p["id"], k)] = a
            for r, s2 in I.run(fn, s):
                c = r.consts()
                for x in (set(c) if c is not None else {True, False}):
                    hit = bool(x) if m != "all_of" else not x
                    if not hit: nx.append(s2.copy()); continue
                    out.append((V([('ptr',) + el]) if m == "find_if" else C(m == "any_of"), s2.copy()))
        cur = I.join(nx)
    for s in cur: out.append((V([('sz', bl[1], bl[2], 0)]) if m == "find_if" else C(m != "any_of"), s))
    return out
