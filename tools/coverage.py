#!/usr/bin/env python3
"""Source lines of /repo that the harnesses of a crate reach, and those they do not.

usage: coverage.py [CRATE ...]      (all harnesses of the crates, 20 s each)
Prints, for every file of /repo with code in the module, the lines compiled into the harness that no
symbolic path executed.  A development aid: no check reads it."""
import os, re, subprocess, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import glob
sys.argv[1:] = sys.argv[1:] or ["json", "lexer", "lsp", "render", "source", "tree", "vfs"]
def field(s, f):
    m = re.search(r"\b%s: (?:!(\d+)|\"([^\"]*)\"|(\d+))" % f, s)
    return None if not m else (m[1] and int(m[1])) or m[2] or m[3]
def file_of(md, scope):
    while scope is not None:
        f = field(md[scope][1], "file")
        if f is not None:
            s = md[f][1]
            return os.path.normpath(os.path.join(field(s, "directory") or "", field(s, "filename")))
        scope = field(md[scope][1], "scope")
locs, hit, all_ = {}, set(), set()
for crate in sys.argv[1:]:
    d = os.path.join(V, "h", crate, "src")
    args = sorted({n + ":20" for n in re.findall(r"extern \"C\" fn (h_\w+)", "".join(open(os.path.join(d, f)).read() for f in os.listdir(d)))})
    cov = "/tmp/cov_%s" % crate
    if os.environ.get("REUSE"):
        args = []
    elif os.path.exists(cov):
        os.unlink(cov)
    args and subprocess.run([os.path.join(V, "bin/check.py"), "--one", crate] + args, env=dict(os.environ, VX_COV=cov), stdout=subprocess.DEVNULL)
    ll = max(glob.glob(os.path.join(V, ".build/target/debug/deps/h_%s-*.ll" % crate)), key=os.path.getmtime)
    md = {}
    for line in open(ll):
        m = re.match(r"!(\d+) = (?:distinct )?!DI(\w+)\((.*)\)", line)
        if m:
            md[int(m[1])] = (m[2], m[3])
    locs = {}
    for i, (k, s) in md.items():
        if k == "Location":
            f = file_of(md, field(s, "scope"))
            if f and f.startswith("/repo/"):
                locs[i] = (f, int(field(s, "line") or 0))
    for l in open(cov):
        l = int(l)
        while l in md:
            if l in locs:
                hit.add(locs[l])
            l = field(md[l][1], "inlinedAt")
    all_ |= set(locs.values())
per = collections.defaultdict(set)
for f, l in all_:
    per[f].add(l)
for f in sorted(per):
    miss = sorted(l for l in per[f] if (f, l) not in hit)
    print("== %s: %d of %d lines" % (f, len(per[f]) - len(miss), len(per[f])))
    src = open(f).read().split("\n")
    for l in miss:
        if l:
            print("   %5d %s" % (l, src[l - 1].strip()[:110]))
if os.environ.get("ABSENT"):
    # functions of the same projects with no line in any harness
    for f in sorted(glob.glob("/repo/projects/*/src/**/*.rs", recursive=True) + glob.glob("/repo/examples/oak-json/src/**/*.rs", recursive=True)):
        src = open(f).read().split("\n")
        starts = [(i + 1, l) for i, l in enumerate(src) if re.match(r"\s*(pub(\(\w+\))? )?(const |async |unsafe )*fn \w+", l)]
        out = []
        for k, (i, l) in enumerate(starts):
            end = starts[k + 1][0] if k + 1 < len(starts) else len(src)
            if not any(x in per[f] for x in range(i, end)):
                out.append("   %5d %s" % (i, l.strip()[:120]))
        if out:
            print("-- %s" % f)
            print("\n".join(out))
