"""Compile-time witnesses: files of W("id", constant expression) lines that must all hold when compiled against the current headers."""
import re, os, subprocess
import tree

def expand(path):
    """Line number -> witness ids of a file (a W per line)."""
    out = {}
    for i, l in enumerate(open(path), 1):
        m = re.match(r'\s*W\("([^"]+)"', l)
        if m: out[i] = m.group(1)
    return out

def compile_file(ctx, rule, path, least, flags=(), std="c++17", only=""):
    ids = expand(path)
    fl = [f for f in tree.BASE if not f.startswith("-std")]
    r = subprocess.run(["clang++-18", "-std=" + std, "-fsyntax-only", "-ferror-limit=0", "-fconstexpr-steps=100000000", "-w"] + fl + list(flags) + [path], capture_output=True, text=True)
    bad, other = {}, []
    for m in re.finditer(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M):
        if os.path.basename(m.group(1)) == os.path.basename(path) and int(m.group(2)) in ids: bad.setdefault(ids[int(m.group(2))], m.group(3))
        else: other.append(m.group(0))
    if other and not bad: raise tree.AnalysisError("%s does not compile: %s" % (os.path.basename(path), other[0]))
    if r.returncode and not bad and not other: raise tree.AnalysisError("%s: %s" % (path, r.stderr[-300:]))
    for l, i in ids.items():
        if not i.startswith(only): continue
        ctx.ob(rule, i, i not in bad, "static assertion does not hold: " + bad.get(i, ""))
    ctx.need(sum(i.startswith(only) for i in ids.values()), rule, least)
