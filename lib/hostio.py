"""Typestate of what the library does with the operating system and with the user's buffer callbacks: streams, descriptors,
mappings, error codes, mapped memory. The items of a path live in State.x (a frozenset that keeps states apart)."""
import re
import tree, interp
from interp import *
from interp import V, State, C, NULL, bare, etype
from parsemodel import ParseClient
from builtins_ import split as split_name

STREAMS = ("std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream", "std::basic_istream", "std::basic_ostream", "std::basic_ios", "std::ios_base", "std::basic_iostream")
CTOR = re.compile(r"std::basic_(i|o|)fstream(<[^>]*>+)?::basic_(i|o|)fstream$")
DECODE = ("fastgltf::base64::decode_inplace",)

def items(s): return s.x if isinstance(s.x, frozenset) else frozenset()
def put(s, *new):
    s.x = items(s) | frozenset(new)
def drop(s, pred): s.x = frozenset(i for i in items(s) if not pred(i))
def strip(a):
    """A term without conversions."""
    while isinstance(a, tuple) and a and a[0] in ('cast', 'conv') and len(a) >= 2: a = a[-1]
    if isinstance(a, tuple): return tuple(strip(x) for x in a)
    return a
def has(t, pred):
    if isinstance(t, tuple):
        if pred(t): return True
        return any(has(x, pred) for x in t)
    if isinstance(t, frozenset): return any(has(x, pred) for x in t)
    return False

class HostClient(ParseClient):
    def __init__(self, fail=True, force=None, **kw):
        ParseClient.__init__(self, **kw)
        self.failing = fail          # host operations may fail
        self.force = force or {}     # last component of a called function -> constant
        self.bad = {}                # (rule, construct) -> (message, line)
        self.events = {}             # (kind, line) -> info
        self.delivered = {}          # kind of delivery -> line
        self.openpaths = {}          # line of a stream opening -> atoms of the path
        self.decoder = None
        self.opens = 0
    def key(self, I, st): return items(st)
    def join_x(self, a, b): return a
    def err(self, rule, what, msg, line): self.bad.setdefault((rule, what), (msg, line))
    def where(self, I): return I.stack and I.p.by_id[I.stack[-1]]["q"] or "?"
    def ev(self, kind, n, info=None): self.events.setdefault((kind, n["l"]), info)
    # --- failing operations: at most one per path
    def failed(self, s): return any(i[0] == 'F' for i in items(s))
    def flag(self, s, I, n, what): put(s, ('F', what, self.where(I), n["l"]))
    def outcomes(self, I, st, n, what):
        """[(fails, state)]"""
        a = st.copy()
        self.ev("op " + what, n)
        if not self.failing or self.failed(st): return [(False, a)]
        b = st.copy(); self.flag(b, I, n, what)
        return [(False, a), (True, b)]
    # --- streams
    def status(self, s, v):
        for a in v.a:
            if a[0] == 'stream':
                for i in items(s):
                    if i[0] == 's' and i[1] == a[1]: return a[1], i[2], i[3]
                return a[1], None, False
        return None, None, False
    def setst(self, s, i, status, dirty=False):
        drop(s, lambda t: t[0] == 's' and t[1] == i)
        put(s, ('s', i, status, dirty))
    def opened(self, I, n, path, st, cls, site):
        self.ev("open " + cls, n)
        self.openpaths.setdefault((self.where(I), n["l"]), []).append((path.a if path is not None else frozenset(), st))
        self.on_open(I, n, st)
        out = []
        for i in items(st):
            if i[0] == 's' and i[1] == site and i[3]: put(st, ('D', self.where(I), n["l"]))
        for fl, s in self.outcomes(I, st, n, "open"):
            self.setst(s, site, 'closed' if fl else 'ok')
            out.append((V([('stream', site)]), s))
        return out
    def on_open(self, I, n, st): pass
    def stream(self, I, n, m, st):
        kids = n.get("c", [])
        out = []
        for v, s in I.eval(kids[0], st):
            for vs, s2 in I.args(kids[1:], s):
                out += self.stream_op(I, n, m, v, vs, s2)
        return out
    def stream_op(self, I, n, m, v, vs, s):
        i, status, dirty = self.status(s, v)
        if i is None: return [(V([('call', 'stream::' + m, tuple(x.one() or ('top',) for x in vs), n["l"])]), s)]
        good = status == 'ok'
        unk = status is None
        if m == "is_open":
            return [(C(0 if status == 'closed' else 1), s)]
        if m in ("good", "operator bool"): return [(C(int(good)), s)]
        if m in ("fail", "operator!"): return [(C(int(not good)), s)]
        if m == "bad": return [(C(int(status == 'wbad')), s)]
        if m == "eof": return [(C(int(status == 'rbad')), s)]
        if m == "rdstate": return [(C(0 if good else 4), s)]
        if m == "clear": s = s.copy(); self.setst(s, i, 'ok', dirty); return [(VVOID, s)]
        if m == "gcount":
            if status == 'ok': 
                r = [t for t in items(s) if t[0] == 'last' and t[1] == i]
                return [(V([r[0][2]]) if r else VTOP, s)]
            return [(V([('short', i)]), s)]
        if m == "open":
            return [(VVOID, s2) for _, s2 in self.opened(I, n, vs[0] if vs else None, s, "stream", i)]
        if m in ("read", "readsome", "get", "getline", "operator>>"):
            ptr = vs[0] if vs else None; size = vs[1] if len(vs) > 1 else None
            out = []
            for fl, s2 in (self.outcomes(I, s, n, "read") if good else [(False, s.copy())]):
                if fl: self.setst(s2, i, 'rbad')
                if good and size is not None and size.one() is not None:
                    drop(s2, lambda t: t[0] == 'last' and t[1] == i); put(s2, ('last', i, size.one()))
                if ptr is not None: self.written(I, n, ptr, size, s2)
                out.append((v, s2))
            return out
        if m in ("write", "put", "operator<<"):
            out = []
            for fl, s2 in (self.outcomes(I, s, n, "write") if good else [(False, s.copy())]):
                if fl: self.setst(s2, i, 'wbad')
                elif good: self.setst(s2, i, 'ok', True)
                out.append((v, s2))
            return out
        if m in ("flush", "close", "sync"):
            out = []
            for fl, s2 in (self.outcomes(I, s, n, m) if good and dirty else [(False, s.copy())]):
                self.setst(s2, i, 'wbad' if fl else 'ok' if good else status)
                out.append((v, s2))
            return out
        return [(V([('call', 'stream::' + m, (('stream', i),) + tuple(x.one() or ('top',) for x in vs), n["l"])]), s)]
    # --- calls
    def on_call(self, I, n, q, st):
        i = n.get("id")
        kids = n.get("c", [])
        if i in self.opaque: return ParseClient.on_call(self, I, n, q, st)
        if not q: return self.indirect_call(I, n, st)
        m = q.split("::")[-1]
        cls, name = split_name(q)
        if cls.startswith("fastgltf::"):
            if cls in ("fastgltf::URI", "fastgltf::URIView"):
                if cls.endswith("::" + name) and len(kids) == 1: return [(vs[0], s) for vs, s in I.args(kids, st)]
                if name in ("raw", "string", "view", "operator basic_string_view", "operator std::basic_string_view") and kids: return I.eval(kids[0], st) if not n.get("arrow") else None
            if name in self.force: return [(C(self.force[name]), s) for _, s in I.args(kids, st)]
            if q in DECODE: return self.decode(I, n, None, kids, st)
            return self.library(I, n, q, cls, name, st)
        if CTOR.match(q):
            if n.get("ck") in ("copy", "move"): return None
            out = []
            for vs, s in I.args(kids, st):
                site = ('s', n["l"])
                if not vs:
                    s = s.copy(); self.setst(s, site, 'closed'); out.append((V([('stream', site)]), s))
                else: out += self.opened(I, n, vs[0], s, q, site)
            return out
        if cls.split("<")[0] in STREAMS: return self.stream(I, n, name, st)
        if q.startswith("std::operator<<") and kids and "stream" in etype(kids[0]): return self.stream(I, n, "operator<<", st)
        if q.startswith("std::getline") and kids and "stream" in etype(kids[0]): return self.stream(I, n, "read", st)
        if cls == "std::filesystem": return self.filesystem(I, n, name, st)
        if cls == "std::error_code" and name in ("operator bool", "value", "error_code", "clear"):
            if name == "error_code": return [(C(0), st)] if not kids else None
            if name == "clear":
                out = []
                for l, s in I.lval(kids[0], st): s = s.copy(); I.write(l, C(0), s, n); out.append((VVOID, s))
                return out
            return I.eval(kids[0], st)
        if not cls and name in ("open", "close", "fstat", "mmap", "munmap", "madvise", "read", "pread", "lseek"): return self.posix(I, n, name, st)
        if q in ("memcpy", "std::memcpy", "memmove", "std::memmove", "__builtin_memcpy") and len(kids) == 3:
            out = []
            for vs, s in I.args(kids, st):
                s = s.copy(); self.written(I, n, vs[0], vs[2], s); self.ev("memcpy", n, (vs, s)); out.append((vs[0], s))
            return out
        return self.other(I, n, q, cls, name, st)
    def library(self, I, n, q, cls, name, st): return None
    def other(self, I, n, q, cls, name, st): return None
    # --- filesystem
    def filesystem(self, I, n, m, st):
        kids = n.get("c", [])
        ec = kids and bare(etype(kids[-1])) == "std::error_code"
        if m not in ("exists", "file_size", "create_directory", "create_directories", "is_directory", "is_regular_file", "remove", "resize_file", "copy_file", "rename", "status", "canonical", "absolute", "weakly_canonical"): return None
        self.ev("fs " + m, n)
        self.on_fs(I, n, m, st)
        out = []
        for vs, s0 in I.args(kids[:-1] if ec else kids, st):
            locs = I.lval(kids[-1], s0) if ec else [(None, s0)]
            for l, s in locs:
                t = bare(n.get("t", ""))
                res = []
                if m in ("file_size", "resize_file", "copy_file", "rename"):
                    for fl, s2 in (self.outcomes(I, s, n, m) if ec else [(False, s.copy())]):
                        res.append((V([('c', -1)]) if fl else V([('call', 'std::filesystem::' + m, tuple(x.one() or ('top',) for x in vs), n["l"])]), int(fl), s2))
                elif t == "bool":
                    res = [(C(1), 0, s.copy()), (C(0), 0, s.copy())]
                    if ec and self.failing: res.append((C(0), 1, s.copy()))
                else: res = [(V([('call', 'std::filesystem::' + m, tuple(x.one() or ('top',) for x in vs), n["l"])]), 0, s.copy())]
                for v, e, s2 in res:
                    if l is not None: I.write(l, C(e), s2, n)
                    out.append((v, s2))
        return out
    def on_fs(self, I, n, m, st): pass
    # --- POSIX
    def posix(self, I, n, m, st):
        kids = n.get("c", [])
        out = []
        for vs, s in I.args(kids, st):
            if m == "open":
                for fl, s2 in self.outcomes(I, s, n, "open"):
                    if not fl: put(s2, ('fd', n["l"], 'open'))
                    out.append((V([('c', -1)]) if fl else V([('fd', n["l"])]), s2))
                self.ev("open descriptor", n)
            elif m == "close":
                s = s.copy()
                for a in vs[0].a:
                    if a[0] == 'fd':
                        if ('fd', a[1], 'open') not in items(s): self.err("descriptor", "closed twice in " + self.where(I), "the descriptor opened at line %d is closed although it is not open on this path" % a[1], n["l"])
                        drop(s, lambda t: t == ('fd', a[1], 'open'))
                out.append((C(0), s))
            elif m == "fstat":
                for fl, s2 in self.outcomes(I, s, n, "fstat"): out.append((C(-1 if fl else 0), s2))
            elif m == "mmap":
                for fl, s2 in self.outcomes(I, s, n, "mmap"):
                    if not fl: put(s2, ('map', n["l"], 'live'))
                    out.append((V([('c', -1)]) if fl else V([('map', n["l"])]), s2))
                self.ev("mmap", n, vs)
            elif m == "munmap":
                s = s.copy()
                self.ev("munmap", n, (vs, s))
                for a in vs[0].a:
                    if a[0] == 'map':
                        if ('map', a[1], 'live') not in items(s): self.err("mapping", "released twice in " + self.where(I), "the mapping is released although it is not live on this path", n["l"])
                        drop(s, lambda t: t == ('map', a[1], 'live'))
                        put(s, ('unmapped', a[1]))
                out.append((C(0), s))
            elif m in ("read", "pread"):
                for fl, s2 in self.outcomes(I, s, n, "read"):
                    self.written(I, n, vs[1], vs[2], s2)
                    out.append((V([('short', n["l"])]) if fl else vs[2], s2))
            else: out.append((V([('call', m, (), n["l"])]), s))
        return out
    # --- the user's callbacks
    def indirect_call(self, I, n, st):
        kids = n.get("c", [])
        ts = [etype(k) for k in kids]
        fn = n.get("fn")
        if fn is None: return None
        if bare(n.get("t", "")) == "fastgltf::BufferInfo": return self.map_call(I, n, st)
        if any(t.replace("const ", "").replace(" ", "") == "fastgltf::BufferInfo*" for t in ts): return self.unmap_call(I, n, st)
        if len(ts) >= 3 and "string_view" in ts[0] and ts[1].replace(" ", "") in ("std::uint8_t*", "unsignedchar*", "uint8_t*"): return self.decode(I, n, fn, kids, st)
        return None
    def callee(self, I, n, st, what):
        """Evaluates the function pointer; the call must be under a check for null."""
        out = []
        for fv, s in I.eval(n["fn"], st):
            for a in fv.a:
                t = I.truth(a, s)
                if t is None: t = I.decide("!=", a, NULL, s)
                if t is not True:
                    self.err("callback", "%s callback unchecked in %s" % (what, self.where(I)), "the %s callback may be null where it is called" % what, n["l"])
            out.append((fv, s))
        return out
    def userptr(self, I, n, v, what):
        ok = v.a and all(a[0] == 'm' and a[1] == ("this",) and a[2] and "ser" in a[2][-1] for a in v.a) if self.userpath is None else v.a == frozenset([('m', ("this",), self.userpath)])
        self.ev("user pointer " + what, n)
        if not ok: self.err("callback", "%s callback gets another user pointer in %s" % (what, self.where(I)), "the %s callback is not given the user pointer set on the parser" % what, n["l"])
    userpath = None
    def map_call(self, I, n, st):
        out = []
        self.ev("map", n)
        for fv, s0 in self.callee(I, n, st, "map"):
            for vs, s in I.args(n["c"], s0):
                self.userptr(I, n, vs[-1], "map")
                size = vs[0].one()
                mid = n["l"]
                for null in (True, False):
                    s2 = s.copy()
                    drop(s2, lambda t: t[0] in ('mem', 'w', 'u') and t[1] == mid)
                    put(s2, ('mem', mid, 'null' if null else 'mem', size))
                    sub = {('mappedMemory',): frozenset([NULL] if null else [('ptr', ('mem', mid), ())]), ('customId',): frozenset([('cid', mid)])}
                    out.append((V([('obj', 'fastgltf::BufferInfo')], sub), s2))
        return out
    def unmap_call(self, I, n, st):
        out = []
        self.ev("unmap", n)
        k = [j for j, c in enumerate(n["c"]) if "BufferInfo" in etype(c)][0]
        for fv, s0 in self.callee(I, n, st, "unmap"):
            for vs, s in I.args(n["c"], s0):
                self.userptr(I, n, vs[-1], "unmap")
                s = s.copy()
                ids = set()
                for a in vs[k].a:
                    if a[0] == 'ptr':
                        for b in I.read((a[1], a[2] + ('mappedMemory',)), s):
                            if b[0] == 'ptr' and isinstance(b[1], tuple) and b[1][0] == 'mem': ids.add(b[1][1])
                if not ids: self.err("callback", "unmap callback gets other memory in " + self.where(I), "the unmap callback is not given the buffer info the map callback returned", n["l"])
                for i in ids:
                    if ('w', i) not in items(s): self.err("callback", "unmapped before it was written in " + self.where(I), "the unmap callback is called before the data was written to the mapped memory", n["l"])
                    if ('u', i) in items(s): self.err("callback", "unmapped twice in " + self.where(I), "the unmap callback is called twice for the same memory", n["l"])
                    put(s, ('u', i))
                    self.unmapfn = fv.one()
                out.append((VVOID, s))
        return out
    unmapfn = None
    def written(self, I, n, ptr, size, s):
        """`size` bytes are written through ptr."""
        for a in ptr.a:
            while a[0] in ('cast', 'conv'): a = a[-1]
            if a[0] == 'ptr' and isinstance(a[1], tuple) and a[1][0] == 'mem':
                i = a[1][1]
                self.ev("written mapped", n)
                if ('u', i) in items(s): self.err("callback", "written after it was unmapped in " + self.where(I), "the mapped memory is written after the unmap callback was called", n["l"])
                put(s, ('w', i))
                want = [t[3] for t in items(s) if t[0] == 'mem' and t[1] == i]
                if size is not None and want and want[0] is not None and size.one() is not None and self.sizes_differ(I, want[0], size.one(), s):
                    self.err("callback", "mapped size differs from written size in " + self.where(I), "the map callback is asked for %s bytes, but %s are written" % (show(want[0]), show(size.one())), n["l"])
            elif a[0] == 'ptr' and a[2] and isinstance(a[2][-1], tuple) and a[2][-1][1] == 'data':
                loc = (a[1], a[2][:-1])
                self.ev("written own", n)
                s.store[(loc[0], loc[1] + ('#w',))] = frozenset([('c', 1)])
                at = I.read(loc, s)
                if not any(c[0] == 'obj' and str(c[1]).startswith("std::array<") for c in at): put(s, ('own',))
                for c in at:
                    if c[0] == 'ctor' and len(c[2]) >= 1 and size is not None and size.one() is not None and self.sizes_differ(I, c[2][0], size.one(), s):
                        self.err("size", "allocated size differs from written size in " + self.where(I), "%s bytes are allocated, but %s are written" % (show(c[2][0]), show(size.one())), n["l"])
    def sizes_differ(self, I, a, b, s):
        a, b = strip(a), strip(b)
        for x in (a, b):
            if has(x, lambda t: t and t[0] in ('top', 'any', 'el', 'loop')): return False
        if a == b or ('sz' in (a[0], b[0])): return False
        return True
    def decode(self, I, n, fn, kids, st):
        out = []
        self.ev("decode user" if fn is not None else "decode own", n)
        pre = self.callee(I, n, st, "base64 decode") if fn is not None else [(None, st)]
        for fv, s0 in pre:
            if fv is not None: self.decoder = fv.one()
            for vs, s in I.args(kids, s0):
                s = s.copy()
                if fn is None and self.decodepath is not None:
                    d = ('m', ("this",), self.decodepath)
                    if not (I.decide("==", d, NULL, s) is True or I.truth(d, s) is False):
                        self.err("callback", "own decoder used although a user decoder may be set in " + self.where(I), "base64 data is decoded by the library without checking that no user decoder is set", n["l"])
                if fn is not None:
                    self.userptr(I, n, vs[-1], "base64 decode")
                self.written(I, n, vs[1], vs[3] if len(vs) > 3 else None, s)
                self.on_decode(I, n, vs, s, fn is not None)
                out.append((VVOID, s))
        return out
    decodepath = None
    def on_decode(self, I, n, vs, s, user): pass
    # --- delivery of data sources into the asset
    def on_store(self, I, loc, v, st, node):
        glb = self.paths.get("glb")
        if glb and loc[0] == ("this",) and loc[1][:len(glb)] == glb and v.a and any(a[0] == 'alt' for a in v.a) and v.sub: pass
        elif loc[0] != ('asset',) or not v.sub: return
        if True:
            alts = {}
            for k in v.sub:
                for j, c in enumerate(k):
                    if isinstance(c, str) and c.startswith("<fastgltf::sources::"): alts.setdefault(k[:j + 1], None)
            for a in alts:
                if any(x[0] in ('obj', 'ctor') and bare(x[1]) == a[-1][1:-1] for x in v.sub.get(a, ())): self.deliver(I, a[-1][1:-1], {k[len(a):]: x for k, x in v.sub.items() if k[:len(a)] == a}, loc[1] + a[:-1], st, node)
    def deliver(self, I, alt, sub, path, st, node):
        name = alt.split("::")[-1]
        line = node["l"] if node else 0
        mem = [t for t in items(st) if t[0] == 'mem']
        live = [t for t in mem if t[2] == 'mem']
        fn = self.where(I)
        ids = {a for a in sub.get(('id',), ())}
        what = None
        if name == "CustomBuffer":
            what = "user memory"
            for a in ids:
                if a[0] != 'cid': self.err("delivery", "custom id in " + fn, "the asset does not store the custom id returned by the map callback", line); continue
                if ('w', a[1]) not in items(st): self.err("delivery", "mapped memory never written in " + fn, "the mapped memory is handed out without having been written", line)
                if ('u', a[1]) not in items(st):
                    u = self.unmappath and ('m', ("this",), self.unmappath)
                    if u and not (I.decide("==", u, NULL, st) is True or I.truth(u, st) is False):
                        self.err("delivery", "unmap callback not called in " + fn, "the unmap callback is not called although it may be set", line)
        elif name in ("Array", "Vector"):
            own = [t for t in items(st) if t[0] == 'own']
            filled = own and any('#w' in k for k in sub)
            if own or mem or any('#w' in k for k in sub):
                what = "own memory after null" if mem else "own memory"
                if live: self.err("delivery", "mapped memory unused in " + fn, "the map callback returned memory, but the data is delivered in library-owned memory", line)
                if not filled: self.err("delivery", "own memory never written in " + fn, "the data source is delivered without having been filled", line)
        if what:
            self.delivered.setdefault((what, tuple(comp(c) for c in path)), line)
            drop(st, lambda t: t[0] in ('mem', 'w', 'u', 'last', 'own'))
        self.on_deliver(I, name, sub, path, st, line, what)
    unmappath = None
    def on_deliver(self, I, name, sub, path, st, line, what): pass
    def decide(self, I, op, a, b, st):
        if a[0] in ('fd', 'map') and b[0] == 'c': return {"==": False, "!=": True, "<": False, ">=": True, ">": b[1] < 0 or None, "<=": False if b[1] < 0 else None}.get(op)
        if a[0] in ('fd', 'map') and b[0] == 'null': return {"==": False, "!=": True}.get(op)
        if a[0] == 'short': return {"==": False, "!=": True, "<": True, "<=": True, ">": False, ">=": False}.get(op)
        if b[0] == 'short' : return {"==": False, "!=": True, ">": True, ">=": True, "<": False, "<=": False}.get(op)
        return ParseClient.decide(self, I, op, a, b, st)

def show(a):
    if not isinstance(a, tuple): return str(a)
    if not a or not isinstance(a[0], str): return str(a)
    if a[0] == 'm': return ".".join(str(x) for x in a[2]) or str(a[1])
    if a[0] == 'c': return str(a[1])
    if a[0] in ('call',): return a[1].split("::")[-1] + "(" + ", ".join(show(x) for x in a[2][:3]) + ")"
    return a[0] + "(" + ", ".join(show(x) for x in a[1:4]) + ")"

def config_paths(M):
    """Member paths of the callbacks and of the user pointer, by their types."""
    p = M.p
    out = {}
    def rec(q, pre, d):
        r = p.records.get(q)
        if r is None or d > 2: return
        for f in r["fields"]:
            t = f["t"].replace(" ", "")
            for nm, pat in (("map", "fastgltf::BufferInfo(*)("), ("unmap", "void(*)(fastgltf::BufferInfo*"), ("decode", "void(*)(std::basic_string_view<char>,unsignedchar*"), ("extras", "void(*)(simdjson::dom::object*")):
                if t.startswith(pat): out[nm] = pre + (f["n"],)
            if t == "void*": out["user"] = pre + (f["n"],)
            if bare(f["t"]) == "std::filesystem::path": out["dir"] = pre + (f["n"],)
            if bare(f["t"]) == "fastgltf::Options": out["options"] = pre + (f["n"],)
            if bare(f["t"]) == "fastgltf::DataSource" or (f["t"].startswith("std::variant<") and "sources::" in f["t"]): out["glb"] = pre + (f["n"],)
            rec(bare(f["t"]), pre + (f["n"],), d + 1)
    rec("fastgltf::Parser", (), 0)
    return out
def setup(cl, M):
    c = config_paths(M)
    cl.userpath, cl.decodepath, cl.unmappath = c.get("user"), c.get("decode"), c.get("unmap")
    cl.paths = c
    return cl
