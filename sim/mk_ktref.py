"""Development-time: reads 'homfly|nf|cr,ind,sym|...' lines (a dump of the knot table) and prints sim/ktdb_ref.inc:
per polynomial the number of knot types carrying it and a hash of their names."""
import sys
M = (1 << 64) - 1
def fnv(s):
    h = 1469598103934665603
    for c in s.encode(): h = ((h ^ c) * 1099511628211) & M
    return h
def parse(s):
    rows = s.split("N")[:-1]; zero = [i for i, r in enumerate(rows) if r.count("[") == 2][0]; P = {}
    for i, r in enumerate(rows):
        if i == zero: a, b = r.index("["), r.rindex("]"); r = r[:a] + " " + r[a+1:b] + " " + r[b+1:]
        t = r.replace("[", " [").replace("]", " ").split(); at = [k for k, x in enumerate(t) if x.startswith("[")][0]
        # a bracket may stand apart from its number
        v = [x.lstrip("[") for x in t]
        if "" in v: v.remove("")
        for j, x in enumerate(v):
            if int(x): P[(j - at, i - zero)] = int(x)
    return " ".join("%+d*a^%d*z^%d" % (c, a, z) for (a, z), c in sorted(P.items()))
T = {}
for line in sys.stdin:
    f = line.rstrip("\n").split("|")
    if not f[0].strip(): continue
    T.setdefault(parse(f[0]), []).append("|".join(f[1:]))
for p in sorted(T): print("{%dull, %d, %dull}," % (fnv(p), len(T[p]), sum(fnv(x) for x in T[p]) & M))
