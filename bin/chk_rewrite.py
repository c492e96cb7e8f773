"""C09, C10, C11, C12: rewriting testers."""
import ggwriter as gg, fontgen as fg
from chk_values import open_op

# --- helpers -----------------------------------------------------------------------------
def rtable(d):
    t = fg.table(d)
    del t["mapping"], t["switches"]
    enc = lambda xs, f: [list(x) if isinstance(x, (bytes, list)) else list(f(x)) for x in xs]
    t["gsets"] = enc(d.get("gsets", []), lambda s: gg.elemset(s, False))
    t["rsets"] = enc(d.get("rsets", []), lambda s: gg.elemset(s, True))
    t["grules"] = enc(d.get("grules", []), lambda r: gg.rule(r, False))
    t["urules"] = enc(d.get("urules", []), lambda r: gg.rule(r, True))
    return t

class Alphabet:
    """a few elements that rules and inputs share, spread over the value range"""
    def __init__(self, rng, wide):
        self.rng, self.wide = rng, wide
        k = rng.choice([2, 3, 3, 4, 6])
        if wide:
            base = rng.choice([97, 97, 0x4E00, 0xFFFE, 0x1F600, 0x10FFF0])
            self.base = [base + i for i in range(k)]
            self.base = [x for x in self.base if x != 0xFFFD]
            if rng.random() < 0.3:
                self.base[-1] = rng.choice([0, 33, 0xFFFF, 0x10000, 0x10FFFF, 0xFFFC, 0x10061, 0x61])
        else:
            base = rng.choice([0, 0, 1, 250, 254, 5000, 56780])
            self.base = [base + i for i in range(k)]
            if rng.random() < 0.3:
                self.base[-1] = rng.choice([256, 511, 32768, 56788])
        self.extra = rng.choice([9, 255, 256, 1000, 40000]) if not wide else rng.choice([9, 0x3B1, 0x10001, 0xE000])

    def el(self):
        return self.rng.choice(self.base)

    def out(self):
        return self.rng.choice(self.base) if self.rng.random() < 0.3 else self.extra + self.rng.randint(0, 5)

    def inp(self):
        r = self.rng.random()
        if r < 0.93:
            return self.el()
        if r < 0.97:
            return self.extra + self.rng.randint(0, 5)
        return 56789 if not self.wide else 0x10FFFF

def rand_set(rng, al):
    lim = 0x10FFFF if al.wide else 56788
    ranges, lst = [], []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        a = al.el() + rng.choice([0, 0, 0, -1, 1])
        a = max(0, min(lim, a))
        n = rng.choice([0, 1, 1, 2, 3, 255])
        if al.wide and a <= 0xFFFD <= a + n:
            n = 0
        ranges.append([a, min(n, lim - a)])
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        x = al.el()
        lst.append(x)
    if not ranges and not lst:
        lst = [al.el()]
    return dict(ranges=ranges, list=lst)

def rand_rule(rng, al, nsets, nconds, maxlen=3):
    h = rng.choice([0, 0, 0, 1, 1, 2, maxlen])
    b = rng.choice([1, 1, 1, 2, 2, 3, maxlen])
    t = rng.choice([0, 0, 0, 1, 1, 2, maxlen])
    els = []
    for _ in range(h + b + t):
        if nsets and rng.random() < 0.35:
            els.append(["s", rng.randrange(nsets)])
        else:
            els.append(["e", al.el()])
    o = rng.randint(1, b)
    c = 255 if not nconds or rng.random() < 0.6 else rng.randrange(nconds)
    return dict(cond=c, head=h, body=b, tail=t, out=[al.out() for _ in range(o)], els=els)

def related_rule(rng, al, r, nsets, nconds):
    """a variation of a rule: longer, shorter, split differently, under another condition"""
    els = [list(e) for e in r["els"]]
    k = rng.random()
    if k < 0.3:
        els.append(["e", al.el()])
    elif k < 0.5 and len(els) > 1:
        els.pop()
    elif k < 0.7:
        els[rng.randrange(len(els))] = ["e", al.el()]
    elif k < 0.8 and nsets:
        els[rng.randrange(len(els))] = ["s", rng.randrange(nsets)]
    n = len(els)
    h = rng.randint(0, n - 1)
    b = rng.randint(1, n - h)
    c = r["cond"] if rng.random() < 0.6 or not nconds else rng.choice([255, rng.randrange(nconds)])
    return dict(cond=c, head=h, body=b, tail=n - h - b, out=[al.out() for _ in range(rng.randint(1, b))], els=els)

def feeds(rng, t, al, n, bad=0.02):
    """n elements in feeds of one or several elements"""
    ops, i = [], 0
    seq = [al.inp() for _ in range(n)]
    if rng.random() < 0.3:      # a repeated motif
        m = seq[:rng.randint(1, 4)]
        seq = (m * n)[:n]
    while i < n:
        k = rng.choice([1, 1, 1, 2, 3, 8])
        xs = seq[i:i + k]
        i += k
        if rng.random() < bad:
            xs.insert(rng.randint(0, len(xs)), rng.choice([56790, 56790, 56791, 60000, 65535]) if not al.wide
                      else rng.choice([0xFFFD, 0xD800, 0xDFFF, -1, 0x110000]))
        ops.append(dict(op="t.feed", t=t, xs=xs))
    return ops

def random_world(rng, wide, nconds, nrules, nsets, maxlen=3):
    al = Alphabet(rng, wide)
    nopts = fg.rand_settings(rng, 1, 3) if nconds else []
    conds = [fg.rand_formula(rng, len(nopts), nopts, rng.choice([0, 1])) for _ in range(nconds)]
    sets = [rand_set(rng, al) for _ in range(nsets)]
    rules = []
    for _ in range(nrules):
        if rules and rng.random() < 0.5:
            rules.append(related_rule(rng, al, rng.choice(rules), nsets, nconds))
        else:
            rules.append(rand_rule(rng, al, nsets, nconds, maxlen))
    d = fg.desc(nopts, conds=conds)
    d["rsets" if wide else "gsets"] = sets
    d["urules" if wide else "grules"] = rules
    return d, al, nopts

def kind(wide):
    return "u" if wide else "g"

# --- C09, C10 -----------------------------------------------------------------------------
CATALOG = [  # the catalog of MC_Rewriter: cond, head, body, tail, out, els
    (255, 0, 1, 0, [7], "1"), (255, 0, 2, 0, [8], "12"), (255, 1, 1, 0, [9], "21"), (255, 0, 1, 1, [6], "11"),
    (0, 0, 1, 2, [5], "a2b"), (255, 2, 1, 0, [4], "ab1"), (0, 1, 1, 1, [3], "1a1"), (255, 0, 3, 0, [1, 2], "12b"),
    (0, 1, 2, 0, [2, 2], "b22"), (255, 0, 1, 3, [1], "2aa1"), (0, 1, 1, 0, [1], "aa"), (255, 2, 1, 1, [7], "1212")]

def model_worlds(ctx, wide):
    """behaviours generated from the model, performed on the real testers"""
    rng = ctx.rng
    shift = 0x10000 if wide else 0
    off = lambda x: x + shift
    d = fg.desc([2], conds=[bytes([0x60 | 1, 0])])
    d["rsets" if wide else "gsets"] = [dict(ranges=[[off(1), 1]], list=[]), dict(ranges=[], list=[off(3), off(1)])]
    d["urules" if wide else "grules"] = [
        dict(cond=c, head=h, body=b, tail=t, out=[off(o) for o in out],
             els=[["s", 0] if e == "a" else ["s", 1] if e == "b" else ["e", off(int(e))] for e in els])
        for c, h, b, t, out, els in CATALOG]
    gen = ctx.generate("MC_Rewriter", cfg="Gen_Rewriter.cfg") + ctx.generate("MC_Rewriter", cfg="Gen_Rewriter_2.cfg")
    by = {}
    for g in gen:
        by.setdefault((tuple(g["rules"]), g["sat"]), []).append(g["xs"])
    runs = []
    total = 0
    for (rules, sat), seqs in sorted(by.items()):
        seqs = list(seqs)
        rng.shuffle(seqs)
        seqs = seqs[:ctx.n(24, 400)]
        total += len(seqs)
        ops = [open_op(d), dict(op="s.new", s=1, f=0), dict(op="s.set", s=1, k=0, v=1 if sat else 0), dict(op="t.new", t=1, kind=kind(wide))]
        ops += [dict(op="t.add", t=1, f=0, rule=r - 1) for r in rules]
        ops.append(dict(op="t.begin", t=1, f=0, s=1))
        for xs in seqs:
            if rng.random() < 0.3:
                ops += [dict(op="t.feed", t=1, xs=[off(x)]) for x in xs]
            else:
                ops.append(dict(op="t.feed", t=1, xs=[off(x) for x in xs]))
            ops.append(dict(op="t.break", t=1))
        ops.append(dict(op="t.finish", t=1))
        runs.append(dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="model"))
    ctx.cov["model_behaviours"] = total
    return runs

def begin_ops(rng, nopts, nrules):
    ops = [dict(op="s.new", s=1, f=0)]
    for k, n in enumerate(nopts):
        ops.append(dict(op="s.set", s=1, k=k, v=rng.randrange(n)))
    ops += [dict(op="t.add", t=1, f=0, rule=i) for i in range(nrules)]
    ops.append(dict(op="t.begin", t=1, f=0, s=1))
    return ops

def random_rewrites(ctx, wide, n):
    rng = ctx.rng
    runs = []
    for i in range(n):
        nconds = rng.choice([0, 0, 1, 2, 3])
        nr = rng.choice([1, 2, 3, 4, 6, 9])
        d, al, nopts = random_world(rng, wide, nconds, nr, rng.choice([0, 1, 2, 4]), rng.choice([2, 3, 3, 5]))
        ops = [open_op(d), dict(op="t.new", t=1, kind=kind(wide))] + begin_ops(rng, nopts, nr)
        for _ in range(rng.choice([2, 4])):
            if nopts and rng.random() < 0.4:
                k = rng.randrange(len(nopts))
                ops += [dict(op="s.set", s=1, k=k, v=rng.randrange(nopts[k])), dict(op="t.refresh", t=1, f=0, s=1)]
            ops += feeds(rng, 1, al, rng.choice([6, 15, 30]))
            ops.append(dict(op="t.break", t=1))
        ops.append(dict(op="t.finish", t=1))
        runs.append(dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="random"))
    # long rules: blocks over several fragments
    EDGES = [0, 1, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 200, 255]
    shapes = [None] * ctx.n(12, 120)
    for o in EDGES:     # every block and the output at the lengths where a byte, a nibble or a shift overflows
        for b in [x for x in EDGES if x >= max(o, 1)][:ctx.n(1, 9)]:
            h = rng.choice([0] + [x for x in EDGES if x <= 255 - b])
            shapes.append((h, b, rng.choice([0, 0] + [x for x in EDGES if x <= 255 - b - h]), o))
    for h in EDGES[2:-1]:
        t = rng.choice([x for x in EDGES if x <= 254 - h])
        shapes += [(h, 1, t, 1), (t, 1, h, rng.choice([0, 1]))]
    for shape in shapes:
        al = Alphabet(rng, wide)
        m = sum(shape[:3]) if shape else rng.choice([14, 15, 16, 17, 30, 31, 33, 60, 120])
        els = []
        style = rng.choice(["e", "mixed", "sets"])
        sets = [dict(ranges=[[al.base[0], 0]], list=[]), dict(ranges=[], list=list(al.base))] if style != "e" else []
        for _ in range(m):
            if sets and (style == "sets" or rng.random() < 0.4):
                els.append(["s", 0])
            else:
                els.append(["e", al.base[0]])
        h = rng.choice([0, 1, rng.randint(0, m - 1), min(15, m - 1), min(16, m - 1)])
        b = rng.choice([1, rng.randint(1, m - h), m - h])
        no = rng.randint(1, b)
        if shape:
            h, b, _, no = shape
        r = dict(cond=255, head=h, body=b, tail=m - h - b, out=[al.out() for _ in range(no)], els=els)
        d = fg.desc([])
        d["rsets" if wide else "gsets"] = sets
        d["urules" if wide else "grules"] = [r]
        ops = [open_op(d), dict(op="t.new", t=1, kind=kind(wide))] + begin_ops(rng, [], 1)
        a = al.base[0]
        for n in (m - 1, m, m + 1, 2 * m + 3):
            ops += [dict(op="t.feed", t=1, xs=[a] * n), dict(op="t.feed", t=1, xs=[al.base[1], a]), dict(op="t.break", t=1)]
        ops.append(dict(op="t.finish", t=1))
        runs.append(dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="long-rules"))
    # many rules
    for n in ([40, 254, 255] if ctx.quick else [40, 120, 200, 254, 255]):
        al = Alphabet(rng, wide)
        rules = []
        for k in range(n):
            rules.append(dict(cond=255, head=0, body=1, tail=0, out=[al.extra], els=[["e", 300 + k]]))
        d = fg.desc([])
        d["urules" if wide else "grules"] = rules
        ops = [open_op(d), dict(op="t.new", t=1, kind=kind(wide))] + begin_ops(rng, [], n)
        ops += [dict(op="t.feed", t=1, xs=[300 + rng.randrange(n) for _ in range(6)] + [299, 300 + n, 300, 299 + n]), dict(op="t.break", t=1), dict(op="t.finish", t=1)]
        if n > 254:
            ops = ops[:-3]
            ops[-1] = dict(op="t.resync", t=1, f=0, s=1)
        runs.append(dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="many-rules"))
    return runs

def big_worlds(ctx, wide):
    """sets of many ranges and elements, up to and beyond what a state can hold; many conditions"""
    rng = ctx.rng
    runs = []
    env = dict(f=0, s=1)
    key = ("rsets", "urules") if wide else ("gsets", "grules")
    first = rng.choice([10, 0x10000, 0xF0000]) if wide else rng.choice([0, 10, 40000])
    mid = first + 3000
    def world(d, ops, tag):
        runs.append(dict(ops=[open_op(d), dict(op="t.new", t=1, kind=kind(wide)), dict(op="s.new", s=1, f=0)] + ops, cfg=dict(fonts=[rtable(d)]), tag=tag))
    def feed(xs):
        return [dict(op="t.feed", t=1, xs=xs[i:i + 5]) for i in range(0, len(xs), 5)]
    for nr, nl in ((255, 0), (254, 0), (253, 0), (0, 255), (0, 254), (0, 253), (255, 255), (127, 127), (127, 128), (128, 127), (1, 100), (100, 1), (129, 0), (0, 129)):
        d = fg.desc([])
        ranges, lst = [[first + 5 * i, i % 3] for i in range(nr)], [mid + 3 * i for i in range(nl)]
        if rng.random() < 0.5:
            rng.shuffle(ranges)
            rng.shuffle(lst)
        one = lst[-1] if nl else ranges[-1][0]
        d[key[0]] = [dict(ranges=ranges, list=lst)]
        d[key[1]] = [dict(cond=255, head=0, body=1, tail=0, out=[7], els=[["s", 0]]), dict(cond=255, head=0, body=1, tail=0, out=[9], els=[["e", one]]),
                     dict(cond=255, head=1, body=1, tail=0, out=[8], els=[["s", 0], ["e", one]])]
        ids = sorted({0, 1, 126, 127, 128, nr - 1, nl - 1, rng.randrange(255), rng.randrange(255)})
        xs = [first + 5 * i + j for i in ids if 0 <= i < nr for j in (-1, 0, 1, 2, 3)] + [mid + 3 * i + j for i in ids if 0 <= i < nl for j in (-1, 0, 1)] + [one, one, first, one]
        xs = [x for x in xs if x >= 0]
        ops = []
        for adds in ([0], [1], [2]):
            ops += [dict(op="t.add", t=1, f=0, rule=i) for i in adds] + [dict(op="t.begin", t=1, **env)] + feed(xs) + [dict(op="t.finish", t=1)]
        for i in (0, 2, 1):
            ops += [dict(op="t.del", t=1, f=0, rule=i), dict(op="t.begin", t=1, **env)] + feed(xs[::3]) + [dict(op="t.finish", t=1)]
        world(d, ops, "big-sets")
    for j in range(ctx.n(20, 200)):     # sets that overlap in every way
        lo = rng.choice([0, 250, 0xFFC0, 0x10FF00] if wide else [0, 100, 250, 56600])
        span = rng.choice([30, 80, 180])
        n = rng.choice([3, 8, 20, 50])
        sets = []
        for _ in range(rng.choice([1, 2, 3])):
            ranges = []
            for _ in range(rng.randint(0, n)):
                a = lo + rng.randrange(span)
                k = min(rng.choice([0, 1, 2, 5, 17]), lo + span - a)
                ranges.append([a, 0 if wide and a < 0xFFFD <= a + k else k])
            lst = [lo + rng.randrange(span) for _ in range(rng.randint(0 if ranges else 1, n))]
            sets.append(dict(ranges=[r for r in ranges if r[0] != 0xFFFD], list=[x for x in lst if x != 0xFFFD] or [lo]))
        rules = []
        for _ in range(rng.choice([1, 2, 4])):
            h, b, t = rng.choice([(0, 1, 0), (0, 1, 0), (0, 2, 0), (1, 1, 0), (0, 1, 1)])
            els = [["s", rng.randrange(len(sets))] if rng.random() < 0.7 else ["e", lo + rng.randrange(span)] for _ in range(h + b + t)]
            els = [e if e[0] == "s" or e[1] != 0xFFFD else ["e", lo] for e in els]
            rules.append(dict(cond=255, head=h, body=b, tail=t, out=[40000 + len(rules)], els=els))
        d = fg.desc([])
        d[key[0]], d[key[1]] = sets, rules
        xs = [x for x in [lo + rng.randrange(span + 1) for _ in range(60)] if not wide or x != 0xFFFD]
        ops = [dict(op="t.add", t=1, f=0, rule=i) for i in range(len(rules))] + [dict(op="t.begin", t=1, **env)] + feed(xs) + [dict(op="t.finish", t=1)]
        world(d, ops, "overlapping-sets")
    for lens in ([253], [127, 127], [64, 64, 64, 64], [13] * 21, [4] * 84, [2] * 252, [2] * 253, [128, 127], [254], [3] * 127, [255], [250, 9], [250, 7], [250, 6], [128, 129], [128, 131], [2] * 254, [3] * 130, [4] * 90):   # as many states as there are
        al = Alphabet(rng, wide)
        d = fg.desc([])
        d[key[1]] = [dict(cond=255, head=0, body=n - 1, tail=1, out=[first + 1 + i], els=[["e", first + 100 + i]] + [["e", first + (j + i) % 7] for j in range(n - 1)]) for i, n in enumerate(lens)]
        ops = [dict(op="t.add", t=1, f=0, rule=i) for i in range(len(lens))] + [dict(op="t.begin", t=1, **env)]
        for i in sorted({0, len(lens) - 1, rng.randrange(len(lens)), len(lens) // 2}):
            ops += feed([first + 100 + i] + [first + (j + i) % 7 for j in range(lens[i] - 1)] + [first])
        ops += [dict(op="t.finish", t=1), dict(op="t.del", t=1, f=0, rule=0), dict(op="t.begin", t=1, **env)] + feed([first + 100, first + 101, first + 1, first]) + [dict(op="t.finish", t=1)]
        world(d, ops, "many-states")
    for n in (30, 90):                 # many conditions
        nopts = [2, 3, 2]
        d = fg.desc(nopts, conds=[fg.rand_formula(rng, 3, nopts, 0) for _ in range(n)])
        d[key[1]] = [dict(cond=i, head=0, body=1 + (i % 7 == 3), tail=0, out=[500 + i], els=[["e", 10 + i % 5]] * (1 + (i % 7 == 3))) for i in range(n)]
        order = list(range(n))
        rng.shuffle(order)
        ops = [dict(op="t.add", t=1, f=0, rule=i) for i in order] + [dict(op="t.begin", t=1, **env)]
        for _ in range(5):
            ops += feed([10 + rng.randrange(6) for _ in range(15)]) + [dict(op="t.break", t=1)]
            k = rng.randrange(3)
            ops += [dict(op="s.set", s=1, k=k, v=rng.randrange(nopts[k])), dict(op="t.refresh", t=1, **env)]
        ops += feed([10, 11, 12, 13, 14]) + [dict(op="t.finish", t=1)]
        for i in rng.sample(order, 10):
            ops += [dict(op="t.del", t=1, f=0, rule=i), dict(op="t.begin", t=1, **env)] + feed([10, 11, 12, 13, 14]) + [dict(op="t.finish", t=1)]
        world(d, ops, "many-conditions")
    return runs

def rewriting(ctx, wide):
    ctx.model_check("MC_Rewriter")
    if not ctx.quick:
        ctx.model_check("MC_Rewriter", "MC_Rewriter_T.cfg")
    runs = model_worlds(ctx, wide) + random_rewrites(ctx, wide, ctx.n(500, 6000)) + big_worlds(ctx, wide)
    ctx.validate("Trace_Rewriter", ctx.drive("world", runs), kind="rewriting", mem="4g")
    ctx.assumptions.append("conditions are refreshed after changing settings, while nothing is pending, as the tester requires")

def C09(ctx):
    rewriting(ctx, False)

def C10(ctx):
    rewriting(ctx, True)

# --- C11 ----------------------------------------------------------------------------------
def history(rng, wide, length, illegal=0.0, badrules=0.0):
    nconds = rng.choice([0, 1, 2, 3])
    nr = rng.choice([3, 5, 8])
    d, al, nopts = random_world(rng, wide, nconds, nr, rng.choice([0, 1, 3]), 3)
    t = 1
    ops = [open_op(d), dict(op="t.new", t=1, kind=kind(wide)), dict(op="s.new", s=1, f=0)]
    rules, on, pristine = [], False, True
    enc = [list(gg.rule(r, wide)) for r in d["urules" if wide else "grules"]]
    env = dict(f=0, s=1)
    while len(ops) < length:
        r = rng.random()
        if rng.random() < illegal:      # a call in the wrong state
            bad = ["t.feed", "t.break", "t.finish"] if not on else ["t.begin", "t.resync", "t.add", "t.del", "t.delall"]
            o = rng.choice(bad)
            op = dict(op=o, t=t)
            if o == "t.feed":
                op["xs"] = [al.inp()]
            elif o in ("t.begin", "t.resync"):
                op.update(env)
            elif o in ("t.add", "t.del"):
                op.update(f=0, rule=rng.randrange(nr))
            ops.append(op)
            continue
        if on:
            if r < 0.6:
                ops += feeds(rng, t, al, rng.choice([1, 2, 5]), 0.1 if illegal else 0.03)
            elif r < 0.72:
                ops.append(dict(op="t.break", t=t))
            elif r < 0.87 and nopts:
                k = rng.randrange(len(nopts))
                if rng.random() < 0.3:
                    ops.append(dict(op="t.break", t=t))
                ops += [dict(op="s.set", s=1, k=k, v=rng.randrange(nopts[k])), dict(op="t.refresh", t=t, **env)]
            else:
                ops.append(dict(op="t.finish", t=t))
                on = False
        else:
            if r < 0.3:
                if badrules and rng.random() < badrules:
                    data = bad_rule(rng, enc, wide, len(d["rsets" if wide else "gsets"]), nconds)
                    ops.append(dict(op="t.add", t=t, data=data))
                    if rng.random() < 0.8:
                        ops += [dict(op=rng.choice(["t.begin", "t.resync"]), t=t, **env), dict(op="t.del", t=t, data=data)]
                        if rng.random() < 0.5:   # the refused compilation may have left it operating only if it was accepted
                            ops.append(dict(op="t.finish", t=t))
                            ops.append(dict(op="t.del", t=t, data=data))
                    continue
                ops.append(dict(op="t.add", t=t, f=0, rule=rng.randrange(nr)))
            elif r < 0.45:
                ops.append(dict(op="t.del", t=t, f=0, rule=rng.randrange(nr)))
            elif r < 0.48:
                ops.append(dict(op="t.delall", t=t))
            elif r < 0.56 and nopts:
                k = rng.randrange(len(nopts))
                ops += [dict(op="s.set", s=1, k=k, v=rng.randrange(nopts[k])), dict(op="t.refresh", t=t, **env)]
            elif r < 0.62:
                ops.append(dict(op="t.resync", t=t, **env))
            else:
                ops.append(dict(op="t.begin", t=t, **env))
                on = True
        pristine = False
    if on:
        ops.append(dict(op="t.finish", t=t))
    ops += [dict(op="t.begin", t=t, **env)] + feeds(rng, t, al, 12) + [dict(op="t.finish", t=t)]
    return dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="history")

def bad_rule(rng, enc, wide, nsets, nconds):
    """a rule that cannot be used, or a damaged one that perhaps still can"""
    data = list(rng.choice(enc))
    k = rng.random()
    if k < 0.15:
        return data[:rng.randint(0, len(data) - 1)]
    if k < 0.25:
        return data + [rng.randint(0, 255) for _ in range(rng.choice([1, 2, 5]))]
    if k < 0.4:
        data[0] = rng.choice([nconds, 254, 200, nconds + 1])
        return data
    if k < 0.55:
        w = 4 if wide else 2
        s = rng.choice([255, nsets, 254, 200])
        return [255, 0, 1, 0, 1] + ([97, 0, 0, 0] if wide else [3, 0]) + [0, 16, s, 0]
    if k < 0.65:
        e = [0xFD, 0xFF, 0, 0] if wide else rng.choice([[0xD5, 0xDD], [0xD6, 0xDD], [255, 255]])
        return [255, 0, 1, 0, 1] + ([97, 0, 0, 0] if wide else [3, 0]) + [0, 1] + e + [0]
    j = rng.randint(1, len(data) - 1)
    data[j] = rng.choice([0, 1, 255, 15, 16, data[j] ^ (1 << rng.randint(0, 7)), (data[j] + 1) % 256])
    return data

def rivals(rng, wide):
    """the same few rules, many of which match the same elements, added and removed several times"""
    al = Alphabet(rng, wide)
    nc = rng.choice([1, 2])
    nopts = [2]
    d = fg.desc(nopts, conds=[bytes([0x60 | i, 0]) for i in range(nc)])
    sets = [dict(ranges=[], list=list(al.base))]
    rules = []
    for k in range(rng.choice([2, 3, 4])):
        h, b, t = rng.choice([(0, 1, 0), (0, 1, 0), (0, 2, 0), (1, 1, 0), (0, 1, 1)])
        els = [rng.choice([["e", al.base[0]], ["e", al.base[0]], ["s", 0]]) for _ in range(h + b + t)]
        rules.append(dict(cond=rng.choice([255, 255, rng.randrange(nc)]), head=h, body=b, tail=t, out=[200 + k], els=els))
    d["rsets" if wide else "gsets"], d["urules" if wide else "grules"] = sets, rules
    ops = [open_op(d), dict(op="t.new", t=1, kind=kind(wide)), dict(op="s.new", s=1, f=0)]
    for _ in range(rng.choice([4, 8])):
        for _ in range(rng.choice([1, 2, 4, 6])):
            ops.append(dict(op=rng.choice(["t.add", "t.add", "t.add", "t.del", "t.del"]), t=1, f=0, rule=rng.randrange(len(rules))))
        if rng.random() < 0.2:
            ops += [dict(op="s.set", s=1, k=0, v=rng.randrange(2)), dict(op="t.refresh", t=1, f=0, s=1)]
        ops += [dict(op="t.begin", t=1, f=0, s=1), dict(op="t.feed", t=1, xs=[rng.choice(al.base[:2]) for _ in range(6)]), dict(op="t.finish", t=1)]
    return dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="rivals")

def C11(ctx):
    ctx.model_check("MC_Rewriter", ctx.n("MC_Tester.cfg", "MC_Tester_T.cfg"))
    rng = ctx.rng
    runs = [history(rng, rng.random() < 0.4, rng.choice([20, 40, 80])) for _ in range(ctx.n(600, 6000))]
    runs += [rivals(rng, i % 2 == 1) for i in range(ctx.n(200, 3000))]
    ctx.validate("Trace_Rewriter", ctx.drive("world", runs), kind="tester-history", mem="4g")

# --- C12 ----------------------------------------------------------------------------------
def C12(ctx):
    ctx.model_check("MC_Rewriter", ctx.n("MC_Tester.cfg", "MC_Tester_T.cfg"))
    rng = ctx.rng
    runs = [history(rng, rng.random() < 0.5, rng.choice([20, 40]), 0.25, 0.5) for _ in range(ctx.n(700, 7000))]
    # every call as the first, and every pair of calls
    for wide in (False, True):
        d, al, nopts = random_world(rng, wide, 1, 2, 1)
        calls = [dict(op="t.feed", xs=[al.el()]), dict(op="t.break"), dict(op="t.finish"), dict(op="t.begin", f=0, s=1),
                 dict(op="t.resync", f=0, s=1), dict(op="t.add", f=0, rule=0), dict(op="t.add", f=0, rule=1),
                 dict(op="t.del", f=0, rule=0), dict(op="t.delall"), dict(op="t.refresh", f=0, s=1)]
        for a in calls:
            for b in calls:
                for c in calls:
                    ops = [open_op(d), dict(op="t.new", t=1, kind=kind(wide)), dict(op="s.new", s=1, f=0)]
                    ops += [dict(x, t=1) for x in (a, b, c)]
                    runs.append(dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="call-triples"))
        # damaged rules, one per tester: first each way to cut or change one byte of some rules
        enc = [list(gg.rule(r, wide)) for r in d["urules" if wide else "grules"]]
        x, y, z = [al.el() for _ in range(3)]
        some = [list(gg.rule(dict(cond=0, head=2, body=3, tail=1, out=[y, x], els=[["s", 0], ["e", x], ["e", y], ["s", 0], ["e", x], ["e", z]]), wide)),
                list(gg.rule(dict(cond=255, head=0, body=17, tail=0, out=[], els=[["e", x]] * 17), wide)),
                list(gg.rule(dict(cond=255, head=0, body=1, tail=2, out=[z], els=[["s", 0], ["e", x], ["s", 0]]), wide))]
        damaged = []
        for r in some if not ctx.quick else [some[0], some[1 + wide]]:
            damaged += [r[:j] for j in range(len(r) + 1)]
            for j in range(len(r)):
                vs = {0, 1, 255, (r[j] + 1) % 256, (r[j] - 1) % 256, r[j] ^ 16, r[j] ^ 128} - {r[j]}
                damaged += [r[:j] + [v] + r[j + 1:] for v in sorted(vs) if len(r) < 40 or not wide or v in (0, r[j] ^ 16)]
                damaged += [r[:j] + r[j + 1:], r[:j] + [r[j]] + r[j:]]
        for i in range(len(damaged) + ctx.n(300, 4000)):
            data = damaged[i] if i < len(damaged) else bad_rule(rng, enc, wide, 1, 1)
            ops = [open_op(d), dict(op="t.new", t=1, kind=kind(wide)), dict(op="s.new", s=1, f=0),
                   dict(op="t.add", t=1, f=0, rule=0), dict(op="t.add", t=1, data=data), dict(op="t.resync", t=1, f=0, s=1),
                   dict(op="t.begin", t=1, f=0, s=1), dict(op="t.feed", t=1, xs=[al.el()]), dict(op="t.finish", t=1),
                   dict(op="t.del", t=1, data=data), dict(op="t.add", t=1, f=0, rule=1), dict(op="t.begin", t=1, f=0, s=1)]
            ops += feeds(rng, 1, al, 8) + [dict(op="t.finish", t=1)]
            runs.append(dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="damaged-rules"))
        # without font and settings
        for data in enc + [[255, 0, 1, 0, 1] + ([98, 0, 0, 0] if wide else [3, 0]) + [0, 1] + ([97, 0, 0, 0] if wide else [5, 0]) + [0]]:
            ops = [dict(op="t.new", t=1, kind=kind(wide)), dict(op="t.add", t=1, data=data), dict(op="t.begin", t=1),
                   dict(op="t.feed", t=1, xs=[97, 5]), dict(op="t.finish", t=1)]
            runs.append(dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="no-font"))
        # as many rules as a tester takes
        d = fg.desc([])
        d["urules" if wide else "grules"] = [dict(cond=255, head=0, body=1, tail=0, out=[7], els=[["e", 300 + k]]) for k in range(256)]
        begin = [dict(op="t.begin", t=1, f=0, s=1), dict(op="t.feed", t=1, xs=[300, 552, 553, 554, 555]), dict(op="t.finish", t=1)]
        ops = [open_op(d), dict(op="t.new", t=1, kind=kind(wide)), dict(op="s.new", s=1, f=0)] + [dict(op="t.add", t=1, f=0, rule=i) for i in range(256)] + begin
        ops += [dict(op="t.del", t=1, f=0, rule=255), dict(op="t.del", t=1, f=0, rule=7), dict(op="t.add", t=1, f=0, rule=255), dict(op="t.add", t=1, f=0, rule=7)] + begin
        ops += [dict(op="t.delall", t=1), dict(op="t.add", t=1, f=0, rule=254)] + begin
        runs.append(dict(ops=ops, cfg=dict(fonts=[rtable(d)]), tag="full-tester"))
    ctx.validate("Trace_Rewriter", ctx.drive("world", runs), kind="tester-calls", mem="4g")
