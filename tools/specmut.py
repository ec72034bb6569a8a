#!/usr/bin/env python3
"""Development aid: break the specification itself and see whether TLC notices (laws and invariants
of Machine.tla / MCGrad.tla), i.e. whether the oracle's own properties have teeth."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MUT = [  # file, old, new, module, mode, depth, mod
    ("Core.tla", "IN Gather(Swap(sh, i, j), 0, Swap(CStr(sh), i, j))", "IN Gather(Swap(sh, i, j), 0, CStr(Swap(sh, i, j)))", "MCArr", "view", 1, 1),
    ("Core.tla", "o == IF off >= 0 THEN off * st[j] ELSE (-off) * st[i]", "o == IF off >= 0 THEN off * st[i] ELSE (-off) * st[j]", "MCArr", "view", 1, 1),
    ("Core.tla", "off == SeqSum([i \\in I |-> SliceStart(full[i]) * st[i]])", "off == SeqSum([i \\in I |-> IF full[i][1] = 0 THEN 0 ELSE SliceStart(full[i]) * st[i]])", "MCArr", "view", 1, 1),
    ("Core.tla", "IF ps[i] = 1 THEN 0 ELSE pst[i]])", "IF ps[i] = 1 /\\ i = 1 THEN 0 ELSE pst[i]])", "MCArr", "bcast", 1, 1),
    ("Core.tla", "SeqSum([k \\in 1..Len(ls) |-> IF ls[k] = l THEN st[k] ELSE 0])", "LET K == {k \\in 1..Len(ls) : ls[k] = l} IN IF K = {} THEN 0 ELSE st[CHOOSE k \\in K : TRUE]", "MCArr", "einsum", 1, 1),
    ("Core.tla", "IF l \\in ToSet(acc) \\/ l \\in ToSet(out) THEN acc", "IF l \\in ToSet(acc) \\/ l \\in ToSet(out) \\/ l > 2 THEN acc", "MCArr", "einsum", 1, 1),
    ("Core.tla", "IN Gather(Sel(len, keep), off, Sel(st, keep))", "IN Gather(Sel(len, keep), off, CStr(Sel(len, keep)))", "MCArr", "view", 1, 1),
    ("Grad.tla", "[a EXCEPT ![ix[k] + 1] = (@ + g[k]) % P]", "[a EXCEPT ![ix[k] + 1] = g[k]]", "MCGrad", "graph", 1, 1),
    ("Grad.tla", "Shrink(MapQ(NegP, g), n.sh, n.sb)>>", "Shrink(g, n.sh, n.sb)>>", "MCGrad", "graph", 1, 1),
    ("Grad.tla", "Shrink(MapQ(NegP, ZipQ(MulP, ZipQ(DivP, G, B), A)), n.sh, n.sb)>>", "Shrink(MapQ(NegP, ZipQ(MulP, G, A)), n.sh, n.sb)>>", "MCGrad", "graph", 1, 1),
    ("Grad.tla", "IF n.in[i] \\in DOMAIN p THEN [p EXCEPT ![n.in[i]] = ZipQ(AddP, @, cs[i])]", "IF n.in[i] \\in DOMAIN p THEN [p EXCEPT ![n.in[i]] = cs[i]]", "MCGrad", "graph", 1, 1),
    ("Grad.tla", "<<L.o, L.i[1]>>, L.i[2])>>", "<<L.o, Rev(L.i[1])>>, L.i[2])>>", "MCGrad", "graph", 1, 1),
    ("Grad.tla", "[A EXCEPT !.rg = FALSE, !.nd = 0]", "[A EXCEPT !.rg = FALSE]", "MCGrad", "life", 2, 1),
    ("Redstone.tla", "FreedExp(arr, e) ==", "FreedExp(arr, e) == {} \nFreedExp0(arr, e) ==", "MCOwn", "own", 2, 1),
    ("Machine.tla", "IF ok /\\ x.k = \"view\" /\\ x.own /\\ e.d # 0 THEN {x.buf} ELSE {}", "{}", "MCOwn", "own", 2, 1),
]
only = sys.argv[1:]
D = "/tmp/specmut"
for i, (f, old, new, mod, mode, depth, md) in enumerate(MUT):
    if only and str(i) not in only:
        continue
    shutil.rmtree(D, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "spec"), D)
    s = open(os.path.join(D, f)).read()
    assert s.count(old) == 1, (i, s.count(old))
    open(os.path.join(D, f), "w").write(s.replace(old, new))
    e = dict(os.environ, MODE=mode, DEPTH=str(depth), MOD=str(md), SEED="1")
    try: subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss64m", "-cp", CP, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-workers", "1", "-metadir", D + "/md", "-config", mod + ".cfg", mod + ".tla"],
                       cwd=D, env=e, stdout=open(D + "/out", "w"), stderr=subprocess.STDOUT, text=True, timeout=100)
    except subprocess.TimeoutExpired: print('timeout', open(D + '/out').read()[-300:])
    out = open(D + "/out").read()
    ok = "No error has been found" in out
    why = next((l for l in out.splitlines() if '"law"' in l or '"step"' in l or '"frame"' in l or "is violated" in l or l.startswith("Error")), "")
    print(i, f, "MISSED" if ok else "noticed", why[:110])
shutil.rmtree(D, ignore_errors=True)
