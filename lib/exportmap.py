"""C04: every member of an asset, forced to a value the parser does not assume, is written at the JSON location it is read from.

One run of the exporter per member: every collection on the member's path holds one element under study, the optionals and variants on the path hold
the value, and the member itself holds the hot value.  Every path of the exporter must then have written the hot value at the member's location.
"""
import re
import tree, interp, writer, mapping, enums
from interp import *
from interp import V, C, State
from parsemodel import parse_canon
from writer import ROOT, WriteClient, Export, fpath
from validate import short
from multiprocessing import Pool

HOT = ('hot',)
# members that only mean something in one mode
WHEN = {"materials[].alphaCutoff": "$.materials[].alphaMode=MASK"}
# a member that is only written without another one, which would take its place
INSTEAD = {"geometry.node": "geometry.shape"}
# members that only mean something when a collection has an element
NEEDS = {"defaultScene": "scenes"}
def conditions(prog):
    """JSON path -> (member, text -> value) of the enumerated properties."""
    return {r.path: (r.member[6:], {t: prog.enums[r.enum][n] for t, n in r.pairs}) for r in enums.load()}
class HotClient(WriteClient):
    """member: canonical member name without 'asset.'; value: the atom it holds; want: JSON path its value has to be written at."""
    def __init__(self, prog, units, relevant, job):
        WriteClient.__init__(self, prog, units)
        self.relevant = relevant
        self.j = job
        self.mname = job["m"]
        self.fixed = job.get("idx") is not None
        self.anc, self.alt = set(), {}
        cs = parse_canon("asset." + self.mname)
        for i in range(1, len(cs) + (1 if job["form"] in ("object", "absent") else 0)):
            p = canon('', tuple(cs[:i])).lstrip('.')
            self.anc.add(p)
            if i < len(cs) and cs[i].startswith('<'): self.alt[p] = cs[i][1:-1]
        if self.mname in NEEDS: self.anc |= {NEEDS[self.mname], NEEDS[self.mname] + "[]"}
        self.ncoll = sum(1 for c in cs if c == '[]')
        self.force = {}
        when = WHEN.get(self.mname) or job.get("when")
        if when and "=" in when:
            p, t = when.split("=")
            m, vals = conditions(prog).get(p, (None, {}))
            if t in vals: self.force[m] = ('c', vals[t])
        self.instead = next((self.mname[:-len(k)] + v for k, v in INSTEAD.items() if self.mname.endswith("." + k)), None)
        self.places, self.reads = {}, 0
        self.used = False
    # ---- the asset under study
    def here(self, I, path, s, prefixes):
        if short(path) not in prefixes: return False
        return all(I.is_bad(c[1], s) for c in path if isinstance(c, tuple))
    def inbad(self, st):
        return sum(1 for k, v in st.store.items() if isinstance(k[0], tuple) and k[0][0] == 'bad' and v == frozenset([('c', 1)])) >= self.ncoll
    def memory(self, I, root, path, st):
        if root != ROOT: return None
        if self.j["value"] is not None and self.here(I, path, st, (self.mname,)):
            self.reads += 1
            return frozenset([self.j["value"]])
        sp = short(path)
        if sp in self.force and self.here(I, path, st, self.force): return frozenset([self.force[sp]])
        return None
    def must_iterate(self, I, l, st):
        if l[0] != ROOT: return False
        s = short(l[1])
        return s in self.anc and (s + "[]" in self.anc or s + "[]" == self.mname) and all(I.is_bad(c[1], st) for c in l[1] if isinstance(c, tuple))
    def present(self, I, a, st):
        return a[0] == 'm' and a[1] == ROOT and self.here(I, a[2], st, self.anc)
    def absent(self, I, a, st):
        return self.j["form"] == "absent" and a[0] == 'm' and a[1] == ROOT and self.here(I, a[2], st, (self.mname,))
    def truth(self, I, a, st):
        x = a[1] if a[0] == 'has' else a
        if self.absent(I, x, st): return False
        if self.instead and x[0] == 'm' and x[1] == ROOT and self.here(I, x[2], st, (self.instead,)): return False
        if a[0] == 'has' and (a[1] == HOT or self.present(I, a[1], st)): return True
        if self.present(I, a, st): return True
        if a == HOT and self.j.get("default") in (0, False): return True
        if a[0] == 'op' and a[1] == 'strempty' and a[2] == HOT: return False if self.j.get("default") == '' else None
        return None
    def alts(self, I, l, st, al):
        if l[0] == ROOT and short(l[1]) in self.alt and self.here(I, l[1], st, self.alt):
            return [x for x in al if x == self.alt[short(l[1])]] or al
        return al
    def decide(self, I, op, a, b, st):
        if a == HOT:
            if b[0] in ('null', 'empty'): return {"==": False, "!=": True}.get(op)
            if b[0] == 'c':
                d = self.j.get("default")
                if d is not None and isinstance(b[1], (int, float, bool, str)) and not isinstance(d, str) and not isinstance(b[1], str) and (d == b[1] or abs(d - b[1]) < 1e-6) or d == b[1] == '': return {"==": False, "!=": True}.get(op)
        if a[0] == 'c' and self.j["value"] == a and b[0] == 'null': return {"==": False, "!=": True}.get(op)
        if b[0] == 'null':
            if self.absent(I, a, st): return {"==": True, "!=": False}.get(op)
            if self.present(I, a, st): return {"==": False, "!=": True}.get(op)
        if a[0] == 'sz' and a[1] == ROOT and b[0] == 'c' and a[3] == 0 and isinstance(b[1], int) and self.must_iterate(I, (a[1], a[2]), st):
            return interp.decide_range(SWAP[op], b[1], 1, 10 ** 9, True)
        return None
    # ---- the text: commas and member names are of no interest here
    def err(self, n, ctl, msg): pass
    def value_pos(self, stack): return True
    def feed_char(self, x, c, n, st):
        ctl, keys = x
        stack, lex, last, fl = ctl
        if c == ',' and (lex is None or lex[0] != 's'):
            if lex is not None: ctl, keys = self.end_num(x, n, st)
            return ((ctl[0], None, c, ctl[3]), keys)
        if c == '"' and lex is None and stack and stack[-1][0] == 'o' and stack[-1][1] != 'colon': return ((stack, ('s', (), False, True), c, fl), keys)
        if c == ':' and lex is None and stack and stack[-1][0] == 'o': return ((stack[:-1] + (('o', 'colon', stack[-1][2]),), None, c, fl), keys)
        (ctl, keys) = WriteClient.feed_char(self, x, c, n, st)
        return ((self.plain(ctl[0]), ctl[1], ctl[2], ctl[3]), tuple(frozenset() for _ in keys))
    def plain(self, stack):
        """The automaton's stack without what does not matter here: commas, and positions in other arrays."""
        if not stack or stack[-1][1] not in ('start', 'comma', 'after'): return stack
        k, ph, cur = stack[-1]
        return stack[:-1] + ((k, 'after', None if k != 'a' else cur if self.fixed and fpath(stack) == self.j["path"] else 0),)
    def scalar(self, x, n, kind, pieces, st):
        ctl, keys = WriteClient.scalar(self, x, n, kind, pieces, st)
        return ((self.plain(ctl[0]),) + ctl[1:], keys)
    def feed_piece(self, x, a, n, st):
        lex = x[0][1]
        if lex is not None and lex[0] == 'n' and lex[1] != ('-',) and a[0] not in ('c', 'cat', 'op', 'empty'): x = self.end_num(x, n, st)
        return WriteClient.feed_piece(self, x, a, n, st)
    def mark(self, ctl, path, idx, form, line, bad):
        """A place where the member under study was written."""
        ok = path == self.j["path"] and (self.j.get("idx") is None or idx == self.j["idx"]) and (form == self.j["form"] or (self.j["form"] == 'num' and form == 'fp'))
        self.places.setdefault((path, idx if self.fixed else None, form), line)
        return ctl[:3] + ((True,),) if ok else ctl
    def on_value(self, st, path, idx, kind, pieces, n, ctl):
        v = self.j["value"]
        if self.j["form"] == "absent":
            if path == self.j["path"] and self.inbad(st): self.places.setdefault((path, None, 'value'), n.get("l"))
            return ctl
        if v is None: return ctl
        if v == HOT:
            if not any(has_atom(a, HOT) for a in pieces): return ctl
            form = 'other'
            if len(pieces) == 1:
                a = pieces[0]
                if kind == 'num' and a == ('numstr', HOT): form = 'num'
                elif kind == 'num' and a == ('numstr', HOT, 'float'): form = 'short'
                elif kind == 'num' and a == ('fp', HOT): form = 'fp'
                elif kind == 'str' and a in (('esc', HOT), HOT): form = 'str'
            return self.mark(ctl, path, idx, form, n.get("l"), True)
        if path == self.j["path"] and self.inbad(st):
            text = pieces[0] if len(pieces) == 1 and isinstance(pieces[0], str) else None
            a = pieces[0] if len(pieces) == 1 else None
            if text is None and a is not None and a[0] in ('numstr', 'table', 'c'): 
                text = str(a[1][1]) if a[0] == 'numstr' and a[1][0] == 'c' else str(a[1]) if a[0] == 'c' else None
            if self.j.get("text") == text and kind == self.j["form"]: return ctl[:3] + ((True,),)
            self.places.setdefault((path, None, "the text %s" % (text if text is not None else ''.join(x if isinstance(x, str) else '<%s>' % writer.interp_name(x) for x in pieces))), n.get("l"))
        return ctl
    def on_open(self, st, path, n, ctl):
        if path == self.j["path"] and self.inbad(st):
            if self.j["form"] == "object": return ctl[:3] + ((True,),)
            if self.j["form"] == "absent": self.places.setdefault((path, None, 'object'), n.get("l"))
        return ctl
    def on_key(self, st, path, pieces, n, ctl):
        if self.j["form"] == "key" and any(has_atom(a, HOT) for a in pieces):
            return self.mark(ctl, path, None, "key" if len(pieces) == 1 and pieces[0] in (('esc', HOT), HOT) else "other", n.get("l"), True)
        return ctl
    def entries(self, ctl): return [(ctl[0], ctl[1], None, ctl[3])]
    # ---- only functions that read the collection are interpreted
    def unit_call(self, I, n, st):
        if n["id"] not in self.relevant and any(self.sink_loc(I, k, st) for k in n["c"]): return [(VVOID, st)]
        return WriteClient.unit_call(self, I, n, st)

def jobs():
    """One job per member and location."""
    rows = mapping.load_rows()
    arrays = {r.path: r for r in rows if r.kind == "array"}
    objs = {}
    for r in rows:
        if r.kind == "object" and r.members: objs[r.members[0]] = r
    seen, out = set(), []
    def add(**j):
        k = (j["m"], j["path"], j["form"], j.get("text"), j.get("idx"), str(j["value"]))
        if k in seen: return
        seen.add(k); out.append(j)
    for r in rows:
        if not r.members: continue
        conv = {"True": True, "False": False, "null": None, "empty": ''}
        def dflt(k):
            d = r.default[k] if isinstance(r.default, list) else r.default
            return conv[d] if d in conv else float(d) if d is not None else None
        for k, m in enumerate(r.members):
            mm = m[6:]
            if r.kind == "object":
                if r.default == "null":
                    add(m=mm, path=r.path, form="object", value=None, when=r.when)
                    add(m=mm, path=r.path, form="absent", value=None, when=r.when)
                continue
            if r.kind == "array":
                if len(r.members) > 1: add(m=mm, path=r.path + "[]", form="fp", value=HOT, default=dflt(k), idx=k, when=r.when)
                elif r.default == "null": add(m=mm, path=r.path, form="absent", value=None, when=r.when)
                continue
            idx = k if len(r.members) > 1 else None
            if r.kind == "bool":
                d = r.default
                if d is None: d = objs[m].default if m in objs else None
                for b in (True, False):
                    if d is not None and str(b) == d: continue
                    add(m=mm, path=r.path, form="num", value=('c', b), text=str(b).lower(), when=r.when)
                continue
            if r.pres == "elem" and idx is not None:
                a = arrays.get(r.path[:-2])
                if a is not None and len(a.members) > 1: continue
            form = {"string": "str", "double": "fp"}.get(r.kind, "num")
            if r.kind == "uint64" and m.endswith("Filter") or r.path.endswith((".wrapS", ".wrapT", ".target")): continue    # enumerations, see C05
            add(m=mm, path=r.path, form=form, value=HOT, default=dflt(k), idx=idx, when=r.when)
            if r.default == "null": add(m=mm, path=r.path, form="absent", value=None, when=r.when)
            if r.key: add(m=r.key[6:], path=r.path, form="key", value=HOT, when=r.when)
    return out

def top(m): return re.match(r"\w+", m).group(0)
def readers(p, E):
    """Function -> names of the Asset members it or anything it calls reads."""
    own, calls = {}, {}
    for f in p.functions:
        if not f.get("body"): continue
        o, c = set(), set()
        for x in tree.walk(f["body"]):
            if x["k"] == "MemberExpr" and x.get("c") and bare(x["c"][0].get("t", "")).replace("const ", "") in ("fastgltf::Asset",): o.add(x.get("n") or x.get("q", "").split("::")[-1])
            if x.get("id") in p.by_id and x["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): c.add(x["id"])
            if x["k"] == "LambdaExpr" and x.get("id"): c.add(x["id"])
        own[f["id"]], calls[f["id"]] = o, c
    reach = {}
    for u in E.units:
        seen, work = set(), [u["id"]]
        while work:
            i = work.pop()
            if i in seen: continue
            seen.add(i); work += [x for x in calls.get(i, ())]
        reach[u["id"]] = set().union(*[own.get(i, set()) for i in seen])
    return reach

_S = {}
def run(j):
    E, p = _S["E"], _S["p"]
    rel = {u for u, r in _S["reach"].items() if top(j["m"]) in r}
    cl = HotClient(p, E.units, rel, j)
    try: I, ends = E.run_root(cl, positions=False)
    except (tree.AnalysisError, interp.BudgetExceeded) as e: return j, None, str(e)
    miss = [s for s in ends if not (s.x[0][3])]
    return j, (len(ends), len(miss), cl.reads, cl.places, I.steps), None

def prepare():
    p = tree.load("src/fastgltf.cpp")
    E = Export(p)
    _S.update(p=p, E=E, reach=readers(p, E))
    return p, E

def check(ctx):
    p, E = prepare()
    js = jobs()
    allowed = {}
    for j in js: allowed.setdefault(j["m"], set()).add((j["path"], j.get("idx")))
    with Pool(8) as P: res = P.map(run, js, chunksize=1)
    skipped = []
    for j, r, err in res:
        if err: raise tree.AnalysisError("%s: %s" % (j["m"], err))
        ends, miss, reads, places, steps = r
        if not ends: raise tree.AnalysisError("no export of an asset with %s succeeds" % j["m"])
        name = "%s -> %s" % (j["m"], j["path"]) + ("[%d]" % j["idx"] if j.get("idx") is not None else "")
        pl = sorted("%s%s as %s (line %s)" % (a, "" if b is None else "[%d]" % b, c, l) for (a, b, c), l in places.items())
        if j["form"] == "absent":
            ctx.ob("R3 nothing is written for an empty member", name, not places, "%s is written although %s is empty: %s" % (j["path"], j["m"], "; ".join(pl)), "src/fastgltf.cpp:%s" % (sorted(places.values()) or [0])[0])
            continue
        ctx.ob("R1 written at its location", name + (" (%s)" % j["text"] if j.get("text") else ""), not miss, ("a value of %s that the parser does not assume is not written to %s on some path" % (j["m"], j["path"])) + ("; it is written to " + "; ".join(pl) if pl else ""))
        if j["value"] == HOT:
            for (a, b, c), l in places.items():
                if (a, b) not in allowed[j["m"]]: ctx.ob("R2 written nowhere else", "%s at %s" % (j["m"], a), False, "the value of %s is written to %s" % (j["m"], a), "src/fastgltf.cpp:%s" % l)
    ctx.need(len(js), "members", 100)
    ctx.analysed = {"members": len(js), "exporter functions": len(E.units), "steps": sum(r[1][4] for r in res)}
