"""Fonts with tables as large as the format allows, given by formulas: see spec/Bulk.tla."""
from math import gcd

EDGES = [0, 1, 2, 254, 255, 256, 257, 5461, 10922, 16383, 16384, 21844, 21845, 21846, 32766, 32767, 32768, 32769, 43690, 43691, 65534, 65535, 65536]
COUNTS = [1, 255, 256, 257, 21846, 32767, 32768, 32769, 40000, 43691, 65535]

def coprime(rng, n):
    k = rng.randint(1, 30000)
    while gcd(k, n) != 1:
        k = rng.randint(1, 30000)
    return k

def empty_kern():
    return dict(n=0, m=1, ps=1, cs=1)

def rand_kern(rng, ng, n):
    n = min(n, ng * ng)
    m = rng.randint(max(1, -(-n // ng)), min(ng, max(1, 2 * int(n ** 0.5) + 3, -(-n // ng))))
    rows = -(-n // m)
    return dict(n=n, m=m, ps=rng.choice([1, ng // rows, rng.randint(1, ng // rows)]), cs=rng.choice([1, ng // m, rng.randint(1, ng // m)]))

def desc(rng, ng, names=0, codes=0, ur=0, gr=0, kern=0, vkern=0, pk=1, top=0x10FFFF):
    w = rng.choice([4, 5])
    step = rng.choice([1, rng.randint(1, 26 ** 4 // max(1, names))])
    first = rng.choice([32, 33, rng.randint(32, 40000)])
    cstep = rng.choice([1, 2, (top - first) // max(1, codes), rng.randint(1, (top - first) // max(1, codes))])
    return dict(ng=ng, am=rng.randint(1, 250), pm=rng.randint(1, 30000), pk=pk,
                names=dict(n=names, w=w, step=step, mul=coprime(rng, ng), add=rng.randrange(ng)),
                map=dict(n=codes, first=first, step=cstep, mul=coprime(rng, ng), add=rng.randrange(ng)),
                ur=dict(n=ur), gr=dict(n=gr), kern=rand_kern(rng, ng, kern) if kern else empty_kern(), vkern=rand_kern(rng, ng, vkern) if vkern else empty_kern())

def spots(rng, n, extra=12):
    """numbers of entries: the edges, the ends, the middle, and some more"""
    s = {x + d for x in EDGES for d in (0,)} | {n // 2 + d for d in (-1, 0, 1)} | {n - 1, n - 2, n - 3, n // 3, 2 * n // 3}
    s |= {rng.randrange(n) for _ in range(extra)} if n else set()
    return sorted(x for x in s if 0 <= x < n)

def digits(v, w):
    out = []
    for _ in range(w):
        out.append(97 + v % 26)
        v //= 26
    return out[::-1]

def ask(rng, d, extra=12):
    nm, mp = d["names"], d["map"]
    names = []
    for i in spots(rng, nm["n"], extra):
        t = digits(i * nm["step"], nm["w"])
        names.append(t)
        r = rng.random()
        if r < 0.2:
            names.append(digits(i * nm["step"] + 1, nm["w"]))
        elif r < 0.3:
            names.append(t[:-1])
        elif r < 0.4:
            names.append(t + [97])
        elif r < 0.5:
            names.append(t[:-1] + [rng.choice([64, 96, 123, 200])])
    names += [digits(nm["n"] * nm["step"], nm["w"]), [], [122] * nm["w"]]
    cps = []
    for i in spots(rng, mp["n"], extra):
        c = mp["first"] + i * mp["step"]
        cps.append(c)
        if rng.random() < 0.4:
            cps.append(c + rng.choice([-1, 1]))
    cps += [mp["first"] - 1, mp["first"] + mp["n"] * mp["step"], 0, 0x10FFFF, 0x7FFFFFF]
    pairs = []
    for k in (d["kern"], d["vkern"]):
        for i in spots(rng, k["n"], extra):
            a, b = i // k["m"] * k["ps"], i % k["m"] * k["cs"]
            pairs.append([a, b])
            if rng.random() < 0.3:
                pairs.append(rng.choice([[b, a], [a, b + 1], [a + 1, b], [a, (b + k["cs"]) % 65536]]))
    pairs += [[d["ng"] - 1, d["ng"] - 1], [0, 0], [65535, 65535]]
    return dict(op="bask", names=names, cps=[c for c in cps if c >= 0], pairs=pairs, glyphs=spots(rng, d["ng"], extra),
                urules=spots(rng, d["ur"]["n"], extra), grules=spots(rng, d["gr"]["n"], extra))

def run(rng, d, built=False):
    op = dict(op="bulk", d=d)
    if built:
        op.update(built=True, seed=rng.randint(1, 1 << 30))
    return dict(ops=[op, ask(rng, d), ask(rng, d)], tag="bulk-built" if built else "bulk")

def go(ctx, descs, built=False):
    rng = ctx.rng
    runs = [run(rng, d, built) for d in descs]
    ctx.validate("Trace_Bulk", ctx.drive("world", runs), kind="bulk", mem="4g")

def codes(ctx):
    """C05: code points"""
    rng = ctx.rng
    go(ctx, [desc(rng, rng.choice([3, 300, 5000]), codes=n + rng.choice([0, 0, -1])) for n in COUNTS for _ in range(ctx.n(1, 6))])

def lookups(ctx):
    """C16: names and kerning pairs"""
    rng = ctx.rng
    ds = [desc(rng, max(n, 2) + rng.choice([0, 1]) if n < 60000 else n, names=n, kern=rng.choice([0, n])) for n in COUNTS for _ in range(ctx.n(1, 4))]
    ds += [desc(rng, ng, kern=n, vkern=v) for ng, n, v in [(300, 90000, 65537), (2000, 70000, 5), (40000, 65535, 65536), (56000, 200000, 131073)]]
    if not ctx.quick:
        ds += [desc(rng, ng, kern=n) for ng, n in [(3000, 1000000), (60000, 3000000), (60000, 6000000)]]
        ds += [desc(rng, ng, vkern=n) for ng, n in [(60000, 4200000), (5000, 2097153)]]
    go(ctx, ds)

def fonts(ctx):
    """C02: everything at once"""
    rng = ctx.rng
    ds = [desc(rng, ng, names=rng.randint(0, ng), codes=rng.choice(COUNTS), ur=u, gr=g, kern=rng.choice([0, 300, 70000]), vkern=rng.choice([0, 70000]), pk=pk)
          for ng, u, g, pk in [(300, 65535, 255, 9), (1000, 256, 65535, 3), (32769, 4000, 6000, 2), (56789, 40000, 33000, 5), (65535, 0, 1, 1), (30000, 1, 0, 500)]
          for _ in range(ctx.n(1, 4))]
    go(ctx, ds)

def built(ctx):
    """C01: the same fonts from the builder"""
    rng = ctx.rng
    ds = [desc(rng, ng, names=min(ng, rng.choice([ng, 32769, 100])), codes=c, ur=u, gr=g, kern=k, pk=pk)
          for ng, c, u, g, k, pk in [(300, 56789, 65535, 0, 0, 4), (56789, 300, 10, 0, 40000, 3), (40000, 40000, 0, 65535, 0, 2), (600, 100, 30000, 30000, 200000, 700)]
          for _ in range(ctx.n(1, 3))]
    go(ctx, ds, built=True)
    brims = [dict(op="brim", kind=k, rem=r, limit=33554432 if k == "font" else 16777215, slow=20)
             for k in ("masks", "map", "urules", "grules", "font") for r in (0, -1) if (k, r) != ("masks", -1)]
    ctx.validate("Trace_Bulk", ctx.drive("world", [dict(ops=[o], tag="brim") for o in brims]), kind="bulk")

def rules(ctx):
    """C18: rules"""
    rng = ctx.rng
    go(ctx, [desc(rng, rng.choice([3, 300, 50000]), ur=u, gr=g) for u, g in [(65535, 0), (0, 65535), (255, 257), (32768, 21846)] for _ in range(ctx.n(1, 4))])

def cuts(ctx):
    """C03: large fonts, whole and with another end"""
    rng = ctx.rng
    runs = []
    for i in range(ctx.n(4, 16)):
        ng = rng.choice([300, 3000, 56789, 65535])
        d = desc(rng, ng, names=rng.choice([0, ng]), codes=rng.choice(COUNTS), ur=rng.choice([0, 65535]), gr=rng.choice([0, 65535]),
                 kern=rng.choice([0, 70000]), vkern=rng.choice([0, 70000]))
        ops = [dict(op="bulk", d=d)]
        for k in (1, 2, 5, -1, -3, rng.randint(1, 4 * ng), rng.randint(1, 100000), -rng.randint(1, 70000)):
            ops.append(dict(op="bulk", d=d, cut=k))
        runs.append(dict(ops=ops, tag="bulk-cut"))
    ctx.validate("Trace_Bulk", ctx.drive("world", runs), kind="bulk", mem="4g")

def caches(ctx):
    """C06: large caches, and many drops"""
    rng = ctx.rng
    ctx.model_check("MC_Bulk", ctx.n("MC_Bulk.cfg", "MC_Bulk_T.cfg"))
    runs = []
    for size, n in [(3, 7), (255, 600), (257, 600), (32767, 32768), (32769, 33000), (40000, 65535), (65000, 65535)] + ctx.n([], [(1, 5), (1000, 3000), (32768, 65535), (64999, 65535)]):
        d = desc(rng, rng.choice([700, 50000]), codes=n)
        d["map"]["sw"] = True
        drops = [1, 2, 127, 128, 254, 255, 256, 257, 65535, 65536, 65537, 131072]
        rng.shuffle(drops)
        k = min(n, 300)
        ops = [dict(op="bulk", d=d), dict(op="bcache", size=size), dict(op="pass", **{"from": 0, "to": min(n, size) - 1}, drops=0, val=0)]
        for j in range(ctx.n(14, 40)):
            a = rng.choice([0, max(0, size - k // 2), rng.randrange(n), n - k, max(0, n - size), 0])
            b = rng.choice([a + rng.randrange(k), a + rng.randrange(k), a, n - 1 if j % 5 == 0 else a + k])
            dr = drops.pop() if drops and rng.random() < 0.7 else rng.choice([0, 0, 1])
            ops.append(dict(op="pass", **{"from": a, "to": min(b, n - 1)}, drops=dr, val=rng.randrange(2)))
        runs.append(dict(ops=ops, tag="large-cache"))
        if n > size + 60:   # some entries near the end of the cache go first; then all those after them are evicted
            d = dict(d)
            k = min(size // 4, (n - size) // 3)
            t = size - 1 - 2 * k
            ps = [(0, size - 1), (t, t + k - 1), (0, t - 1), (size, size + k), (t, t + k - 1), (t + k, size - 1)]
            runs.append(dict(tag="large-cache-touch", ops=[dict(op="bulk", d=d), dict(op="bcache", size=size)] +
                             [dict(op="pass", **{"from": a, "to": b}, drops=0, val=0) for a, b in ps]))
    ctx.validate("Trace_Bulk", ctx.drive("world", runs), kind="bulk-cache", mem="4g")
