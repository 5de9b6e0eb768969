#!/usr/bin/env python3
"""Writes q/src/queries_gen.rs: the fixed set of statically typed queries the simulator may run."""
import itertools, os, random
N = ["P4", "Hp", "Tr24", "Big", "Al32", "Zd", "Zp", "U8", "U24", "Za", "Tr12", "U16"]
qs = []
def add(t):
    t = tuple(t)
    if t not in qs:
        qs.append(t)
add(["E"])
for k in range(12):
    add([("R", k)]); add([("M", k)])
for k in range(12):
    add(["E", ("R", k)])
hot = [0, 2, 10]
acc = lambda a, k: (a, k)
for a, b in itertools.permutations(hot, 2):
    for x in "RM":
        for y in "RM":
            add([(x, a), (y, b)])
for p in itertools.permutations(hot):
    add([("R", p[0]), ("M", p[1]), ("R", p[2])])
    add([("M", p[0]), ("M", p[1]), ("M", p[2])])
rng = random.Random(7)
for _ in range(14):
    a, b = rng.sample(range(12), 2)
    add([(rng.choice("RM"), a), (rng.choice("RM"), b)])
for _ in range(10):
    ks = rng.sample(range(12), 3)
    t = [(rng.choice("RM"), k) for k in ks]
    t[rng.randrange(3)] = "E" if rng.random() < .6 else t[0]
    add(t)
for n in range(4, 11):
    for i in range(5):
        ks = rng.sample(range(12), n)
        if rng.random() < .8:
            # keep it likely to match something: prefer the hot kinds
            pref = [0, 2, 10, 1, 7, 5] + [k for k in range(12) if k not in (0, 2, 10, 1, 7, 5)]
            ks = pref[:n]; rng.shuffle(ks)
        t = [(rng.choice("RRM"), k) for k in ks]
        if i == 0:
            t = [("R", k) for k in ks[:-1]] + [("M", ks[-1])]
        elif i == 1:
            t = [("R", k) for k in ks]
        elif rng.random() < .5:
            t[rng.randrange(n)] = "E"
        add(t)
        if i == 2 and n in (5, 8, 10):
            # in conflict with itself at the far ends
            a = [("R", k) for k in ks]; a[0] = ("M", ks[n - 1]); add(a)
            a = [("R", k) for k in ks]; a[n - 1] = ("R", ks[0]); add(a)
add(["E", "E"])
add([("M", 0), "E"]); add([("M", 2), "E", ("R", 0)])
# a query in conflict with itself, and harmless repetitions
for k in [0, 2]:
    add([("M", k), ("M", k)]); add([("M", k), ("R", k)]); add([("R", k), ("M", k)])
    add([("R", k), ("R", k)])
add([("R", 0), ("M", 2), ("R", 0)]); add([("R", 2), ("R", 0), ("R", 2)])
add([("M", 0), ("R", 2), ("M", 0)]); add([("R", 10), ("M", 0), ("M", 10)])

def ty(x):
    if x == "E": return "EcsIds"
    return ("&'static mut " if x[0] == "M" else "&'static ") + N[x[1]]
out = ["// Written by gen_queries.py\n"]
for i, q in enumerate(qs):
    out.append("sq!(Q%d; %s);\n" % (i, ", ".join("v%d: %s" % (j, ty(x)) for j, x in enumerate(q))))
out.append("pub const QUERIES: [&[Acc]; %d] = [\n" % len(qs))
for q in qs:
    out.append("    &[%s],\n" % ", ".join("Acc::E" if x == "E" else "Acc::%s(%d)" % (x[0], x[1]) for x in q))
out.append("];\npub fn open(i: usize, w: &World) -> Box<dyn LiveQuery + '_> {\n    match i {\n")
for i in range(len(qs)):
    out.append("        %d => Box::new(Q%d::open(w)),\n" % (i, i))
out.append("        _ => panic!(\"harness: no query {i}\"),\n    }\n}\n")
out.append("/// (&mut T,) by kind\npub const STATIC_M: [usize; 12] = %r;\n" % [qs.index((("M", k),)) for k in range(12)])
out.append("/// (EcsIds, &T) by kind\npub const STATIC_ER: [usize; 12] = %r;\n" % [qs.index(("E", ("R", k))) for k in range(12)])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "q/src/queries_gen.rs"), "w").write("".join(out))
print(len(qs))
