"""Random font descriptions (for ggwriter) and the matching abstract tables (for Trace_Values)."""
import ggwriter as gg

def rand_formula(rng, ns, nopts, depth):
    """a random formula and its encoding"""
    if depth == 0 or rng.random() < 0.35:
        a = rng.randrange(ns)
        if rng.random() < 0.4:
            o = rng.randint(0, 3)
            b = rng.choice([0, 1, min(31, nopts[a] - 1), 31, rng.randint(0, 31)])
            return bytes([(o + 3) << 5 | b, a])
        o = rng.randint(0, 5)
        if rng.random() < 0.5:
            return bytes([0x50 | o, a, rng.choice([0, 1, nopts[a] - 1, rng.randint(0, 255)])])
        return bytes([0x40 | o, a, rng.randrange(ns)])
    n = rng.choice([2, 2, 2, 3, 4, 5])
    if rng.random() < 0.03:
        n, depth = 31, 1
    return bytes([rng.choice([0, 32]) | n]) + b"".join(rand_formula(rng, ns, nopts, depth - 1) for _ in range(n))

def rand_settings(rng, lo=0, hi=6, big=False):
    ns = rng.randint(lo, hi)
    return [rng.choice([1, 2, 2, 3, 4, 5] + ([30, 100, 254, 255] if big else [])) for _ in range(ns)]

def rand_switches(rng, nopts, n, maxcases=254):
    out = []
    for _ in range(n):
        keys = list(range(len(nopts)))
        rng.shuffle(keys)
        sw, cases = [], 1
        for k in keys[:rng.randint(1, max(1, len(keys)))]:
            if cases * nopts[k] <= maxcases:
                sw.append(k)
                cases *= nopts[k]
        if sw:
            out.append(sw)
    return out

def cases_of(sw, nopts):
    n = 1
    for k in sw:
        n *= nopts[k]
    return n

def rand_group(rng, gmax, multi=0.5, maxlen=5):
    n = 1 if rng.random() > multi else rng.randint(2, maxlen)
    if rng.random() < 0.05:
        n = rng.choice([127, 128, 64, 65])
    flags = rng.choice([0, 0, 1, 2, 4, 15, 200, 255]) if n > 1 else 0
    if rng.random() < 0.35:
        b = rng.randint(0, gmax - n)
        return dict(glyphs=list(range(b, b + n)), range=True, flags=flags)
    return dict(glyphs=[rng.choice([rng.randint(0, gmax - 1), rng.randint(0, 300)]) for _ in range(n)], range=False, flags=flags)

CPS = [32, 33, 47, 65, 66, 90, 97, 122, 126, 127, 128, 160, 255, 256, 0x3B1, 0x4E00, 0xD7FF, 0xE000, 0xFFFC, 0xFFFF,
       0x10000, 0x1F600, 0x10FFFE, 0x10FFFF]

def rand_mapping(rng, switches, nopts, n, gmax, maxlen=5):
    cps = set(rng.sample(CPS, min(len(CPS), max(0, n // 3))))
    base = rng.choice([32, 65, 250, 0x3000, 0x10000])
    while len(cps) < n:
        cps.add(rng.choice([base + rng.randint(0, 3 * n), rng.randint(32, 0x10FFFF)]))
    out = {}
    for cp in cps:
        r = rng.random()
        if r < 0.25 or (r < 0.75 and not switches):
            out[cp] = dict(type=255, groups=[dict(glyphs=[rng.randint(0, gmax - 1)])])
        elif r < 0.4:
            out[cp] = dict(type=254, groups=[rand_group(rng, gmax, 0.8, maxlen)])
        elif switches:
            k = rng.randrange(len(switches))
            out[cp] = dict(type=k, groups=[rand_group(rng, gmax, rng.choice([0, 0.5, 1]), maxlen) for _ in range(cases_of(switches[k], nopts))])
        else:
            out[cp] = dict(type=255, groups=[dict(glyphs=[rng.randint(0, gmax - 1)])])
    return out

def desc(nopts, switches=(), mapping=None, conds=(), **kw):
    """the description for the writer"""
    d = dict(settings=[["s%d" % i, list(range(min(n, 250))) + [0] * (n - min(n, 250))] for i, n in enumerate(nopts)],
             words=["w"], switches=[list(s) for s in switches], mapping=mapping or {}, conds=list(conds))
    d.update(kw)
    return d

def table(d):
    """the abstract font of Trace_Values"""
    return dict(nopts=[len(s[1]) for s in d.get("settings", [])], switches=d.get("switches", []),
                mapping=[[cp, list(gg.mapping(e))] for cp, e in sorted(d.get("mapping", {}).items())],
                conds=[list(c) for c in d.get("conds", [])])

def rand_vals(rng, nopts):
    return [rng.choice([0, n - 1, rng.randrange(n)]) for n in nopts]
