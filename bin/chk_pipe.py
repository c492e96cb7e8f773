"""C22: whole pipelines from text to measured glyphs."""
import random
import ggwriter as gg, fontgen as fg
import chk_values, chk_font, chk_bulk, chk_share
import chk_rewrite as cr
from chk_values import open_op

def table(d):
    t = dict(cr.rtable(d), **fg.table(d))
    t["adv"] = [m[0] for m in d["masks"]]
    t["kern"] = [[a, b, v] for (a, b), v in sorted(d.get("kern", {}).items())]
    t["vkern"] = [[a, b, v] for (a, b), v in sorted(d.get("vkern", {}).items())]
    return t

class Codes(cr.Alphabet):
    def inp(self):
        r = self.rng.random()
        return self.el() if r < 0.8 else self.extra + self.rng.randint(0, 5) if r < 0.95 else self.rng.choice([9, 0x10FFFF, self.base[0] + 40])

class Glyphs(cr.Alphabet):
    def __init__(self, rng, ng):
        cr.Alphabet.__init__(self, rng, False)
        k = rng.choice([2, 3, 4, 6])
        b = rng.choice([0, 0, 1, max(0, min(250, ng - k)), ng - k])
        self.base = list(range(b, b + k))
        self.extra = rng.choice([0, 3, max(0, ng - 6)])

def kernings(rng, gs, ng):
    out = {}
    for _ in range(rng.choice([0, 1, 4, 12, 40])):
        a, b = (rng.choice(gs), rng.choice(gs)) if rng.random() < 0.7 else (rng.randrange(ng), rng.randrange(ng))
        out[a, b] = rng.choice([-128, -5, -1, 1, 2, 127, rng.randint(-128, 127)])
    return out

def world(rng, build=False):
    """a font whose every table has a part in what is drawn; one that the builder can make"""
    ng = rng.choice([12, 20, 260, 600] if not build else [12, 20, 260])
    al, ga = Codes(rng, True), Glyphs(rng, ng)
    nopts = fg.rand_settings(rng, 1, 4)
    switches = fg.rand_switches(rng, nopts, rng.choice([1, 2, 3]), 40)
    nconds = 0 if build else rng.choice([0, 1, 2, 4])
    conds = [fg.rand_formula(rng, len(nopts), nopts, rng.choice([0, 1, 2])) for _ in range(nconds)]
    reach = sorted({g for g in ga.base + list(range(ga.extra, ga.extra + 6)) if g < ng})
    def group(multi):
        n = 1 if rng.random() > multi else rng.randint(2, 4)
        flags = rng.choice([0, 1, 15, 200]) if n > 1 else 0
        if rng.random() < 0.3:
            b = min(rng.choice(reach), ng - n)
            return dict(glyphs=list(range(b, b + n)), range=True, flags=flags)
        return dict(glyphs=[rng.choice(reach) for _ in range(n)], range=False, flags=flags)
    mapping = {}
    noise = [rng.randint(32, 0x10FFFF) for _ in range(rng.choice([0, 3, 20]))]
    for cp in sorted(set(al.base) | set(range(al.extra, al.extra + 6)) | set(noise)):
        r = rng.random()
        if r < 0.1 or 0xD800 <= cp <= 0xDFFF or cp == 0xFFFD or cp > 0x10FFFF:
            continue
        if r < 0.35 or (r > 0.6 and not switches):
            mapping[cp] = dict(type=255, groups=[dict(glyphs=[rng.choice(reach)])])
        elif r < 0.5:
            mapping[cp] = dict(type=254, groups=[group(0.8)])
        else:
            k = rng.randrange(len(switches)) if switches else -1
            mapping[cp] = dict(type=k, groups=[group(0.4) for _ in range(fg.cases_of(switches[k], nopts))]) if switches else dict(type=254, groups=[group(0.5)])
    vert = rng.random() < 0.3
    d = fg.desc(nopts, switches, mapping, conds, glyphs=ng, metrics=dict(vert=1 if vert else 0))
    d["masks"] = [bytes([rng.randrange(256)]) + (bytes([rng.randrange(200), 9, 3]) if vert else b"") for _ in range(ng)]
    for (sk, rk, a) in (("rsets", "urules", al), ("gsets", "grules", ga)):
        d[sk] = [cr.rand_set(rng, a) for _ in range(rng.choice([0, 1, 3]))]
        rules = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
            rules.append(cr.related_rule(rng, a, rng.choice(rules), len(d[sk]), nconds) if rules and rng.random() < 0.5
                         else cr.rand_rule(rng, a, len(d[sk]), nconds, rng.choice([2, 3])))
        d[rk] = rules
    if build:       # no code point sets, only plain rules for them, and glyphs of the font
        d["rsets"] = []
        for cp in [cp for cp in mapping if cp < 32]:
            del mapping[cp]
        d["urules"] = [dict(cond=255, head=0, body=n, tail=0, out=[al.out()], els=[["e", al.el()] for _ in range(n)]) for n in [rng.choice([1, 2, 2, 3]) for _ in d["urules"]]]
        own = lambda x: x if x < ng else rng.randrange(ng)
        for s in d["gsets"]:
            s["list"] = sorted({own(x) for x in s["list"]})
            s["ranges"] = [[a, min(n, ng - 1 - a)] for a, n in {own(a): n for a, n in s["ranges"]}.items()]
        for r in d["grules"]:
            r["out"], r["els"] = [own(x) for x in r["out"]], [[k, v if k == "s" else own(v)] for k, v in r["els"]]
    d["kern"], d["vkern"] = kernings(rng, reach, ng), kernings(rng, reach, ng)
    return d, al, nopts

def calls(rng, d):
    """the calls that build the font, glyphs first, the rest in any order that the builder accepts"""
    px = dict(outer=[0, 0, 1, 1], rect=[0, 0, 1, 1], px=[])
    first = []
    for i, mk in enumerate(d["masks"]):
        first += [dict(op="b.glyph", **px), dict(op="b.place", g=i + 1, v=[mk[0], 0, 0, 0])]
    name = lambda i: [97 + i % 26, 97 + i // 26]
    a = [dict(op="b.setting", s=name(i), opts=[name(j) for j in range(len(o[1]))]) for i, o in enumerate(d["settings"])]
    a += [dict(op="b.switch", keys=s) for s in d["switches"]]
    maps = []
    for cp, e in d["mapping"].items():
        gs = [[g + 1 for g in x["glyphs"]] for x in e["groups"]]
        fl = [x.get("flags", 0) for x in e["groups"] if len(x["glyphs"]) > 1]
        if e["type"] == 255:
            maps.append(dict(op="b.map", cp=cp, g=gs[0][0]))
        elif e["type"] == 254 and len(gs[0]) == 1:
            maps.append(dict(op="b.map", cp=cp, g=gs[0][0]))
        elif e["type"] == 254:
            maps.append(dict(op="b.mapg", cp=cp, flags=fl[0], gs=gs[0]))
        elif all(len(x) == 1 for x in gs):
            maps.append(dict(op="b.maps", cp=cp, sw=e["type"], gs=[x[0] for x in gs]))
        else:
            maps.append(dict(op="b.mapsw", cp=cp, sw=e["type"], groups=gs, flags=fl))
    rng.shuffle(maps)
    r = []
    for i, s in enumerate(d["gsets"]):
        r += [dict(op="b.gset")] + [dict(op="b.glist", h=i + 1, v=x + 1) for x in s["list"]] + [dict(op="b.grange", h=i + 1, a=x + 1, c=x + n + 1) for x, n in s["ranges"]]
    r += [dict(op="b.urule", v=u["out"][0], seq=[e[1] for e in u["els"]]) for u in d["urules"]]
    r += [dict(op="b.grule", lens=[u["head"], u["body"], u["tail"]], els=[-e[1] - 1 if e[0] == "s" else e[1] + 1 for e in u["els"]],
               out=[x + 1 for x in u["out"]]) for u in d["grules"]]
    k = [dict(op="b.kern", a=x + 1, c=y + 1, v=v) for (x, y), v in d["kern"].items()]
    parts = [a + maps, r, k]
    rng.shuffle(parts)
    return first + sum(parts, [])

def pieces(rng, al, pl, n):
    """the feeds of one piece of text"""
    xs = [al.inp() for _ in range(n)]
    if rng.random() < 0.3:
        xs = (xs[:rng.randint(1, 4)] * n)[:n]
    xs = [x for x in xs if x != 0xFFFD and not 0xD800 <= x <= 0xDFFF and x <= 0x10FFFF]
    ops = []
    while xs:
        k = rng.choice([1, 2, 3, 8, 20])
        ops.append(dict(op="p.feed", pl=pl, xs=xs[:k]))
        xs = xs[k:]
    return ops

def user(rng, d, al, nopts, pl, f, rounds):
    """the steps of one pipeline: a list of lists of operations that may not be split"""
    su = [2 * pl, 2 * pl + 1]
    nu, ng = len(d["urules"]), len(d["grules"])
    pick = lambda n: rng.sample(range(n), rng.choice([n, n, n, rng.randint(0, n)]))
    sets = lambda s: [dict(op="s.set", s=s, k=k, v=rng.randrange(n)) for k, n in enumerate(nopts) if rng.random() < 0.6]
    steps = [[dict(op="s.new", s=s, f=f)] for s in su] + [[o] for s in su for o in sets(s)]
    s = su[0]
    steps.append([dict(op="p.new", pl=pl, f=f, s=s, size=rng.choice([-1, 0, 1, 2, 3, 8, 64]), urules=pick(nu), grules=pick(ng))])
    for _ in range(rounds):
        steps.append([dict(op="p.begin", pl=pl)])
        for i in range(rng.choice([1, 2, 3])):
            if i and rng.random() < 0.7:     # between two pieces
                if rng.random() < 0.2:
                    s = su[1] if s == su[0] else su[0]
                steps.append(sets(s) + [dict(op="p.refresh", pl=pl, s=s)])
            for o in pieces(rng, al, pl, rng.choice([3, 8, 20])):
                steps.append([o])
                if rng.random() < 0.12:      # in the middle of a piece
                    if rng.random() < 0.2:
                        s = su[1] if s == su[0] else su[0]
                    steps.append(sets(s) + [dict(op="p.refresh", pl=pl, s=s)])
            steps.append([dict(op="p.break", pl=pl)])
        steps[-1] = [dict(op="p.finish", pl=pl)] if rng.random() < 0.5 else steps[-1] + [dict(op="p.finish", pl=pl)]
        if rng.random() < 0.7:
            if rng.random() < 0.2:
                s = su[1] if s == su[0] else su[0]
            steps.append(sets(s) + [dict(op="p.refresh", pl=pl, s=s)])
    return steps

def mingle(rng, todo):
    out = []
    while any(todo):                  # their steps in any order
        out += rng.choice([t for t in todo if t]).pop(0)
    return out

def sharing(rng, d, al, nopts, rounds):
    """pipelines over one settings cache: each is told when it changes"""
    nu, ng = len(d["urules"]), len(d["grules"])
    pls = [1, 2, 3][:rng.choice([2, 3])]
    pick = lambda n: rng.sample(range(n), rng.choice([n, n, rng.randint(0, n)]))
    sets = lambda: [dict(op="s.set", s=1, k=k, v=rng.randrange(n)) for k, n in enumerate(nopts) if rng.random() < 0.6]
    ops = [dict(op="s.new", s=1, f=0)] + sets()
    ops += [dict(op="p.new", pl=pl, f=0, s=1, size=rng.choice([-1, 0, 0, 1, 3, 64]), urules=pick(nu), grules=pick(ng)) for pl in pls]
    ops += [dict(op="p.begin", pl=pl) for pl in pls]
    for _ in range(rounds):
        change = lambda: sets() + [dict(op="p.refresh", pl=pl, s=1) for pl in pls]
        steps = mingle(rng, [[[o] for o in pieces(rng, al, pl, rng.choice([3, 8])) + [dict(op="p.break", pl=pl)]] for pl in pls])
        for o in steps:
            ops.append(o)
            if rng.random() < 0.08:
                ops += change()
        ops += change()
    return ops + [dict(op="p.finish", pl=pl) for pl in pls]

def random_runs(ctx, n):
    rng, runs = ctx.rng, []
    for i in range(n):
        nf = rng.choice([1, 1, 1, 2])
        build = rng.random() < 0.25
        ws = [world(rng, build) for _ in range(nf)]
        if build:
            for w in ws:
                w[0]["vkern"] = {}
            ops = [dict(op="p.built", f=f, parse=rng.random() < 0.5, calls=calls(rng, w[0])) for f, w in enumerate(ws)]
        else:
            ops = [open_op(w[0], f) for f, w in enumerate(ws)]
        if rng.random() < 0.2:
            ops += sharing(rng, *ws[0], rng.choice([3, 5]))
        else:
            todo = []
            for pl in range(1, rng.choice([1, 1, 2, 3]) + 1):
                f = rng.randrange(nf)
                todo.append(user(rng, *ws[f], pl, f, rng.choice([2, 3])))
            ops += mingle(rng, todo)
        runs.append(dict(ops=ops, cfg=dict(fonts=[table(w[0]) for w in ws]), tag="built" if build else "random"))
    return runs

E = lambda x: ["e", x]
S = lambda x: ["s", x]
def R(c, h, b, t, out, els):
    return dict(cond=c, head=h, body=b, tail=t, out=out, els=els)
UCAT = [[], [R(255, 0, 2, 0, [3], [E(1), E(2)]), R(0, 1, 1, 0, [1], [E(2), S(0)])], [R(0, 0, 1, 0, [2], [E(1)]), R(255, 0, 1, 1, [3], [S(0), E(1)])],
        [R(255, 1, 1, 1, [9], [S(0), E(2), S(0)])]]
GCAT = [[], [R(255, 0, 2, 0, [5], [E(1), E(2)]), R(0, 1, 1, 0, [6], [S(0), E(3)])], [R(0, 0, 1, 1, [7], [S(0), S(0)]), R(255, 0, 1, 0, [1], [E(4)])]]

def model_runs(ctx):
    """the behaviours of MC_Pipeline, performed with its font"""
    rng = ctx.rng
    off = rng.choice([0x60, 0x4E00, 0x1F600])
    shift = lambda e: E(e[1] + off) if e[0] == "e" else e
    g1 = lambda *gs: dict(glyphs=list(gs), range=False, flags=0)
    d = fg.desc([2], [[0]], {off + 1: dict(type=0, groups=[g1(1), g1(2, 3)]), off + 2: dict(type=255, groups=[g1(2)]),
                             off + 3: dict(type=254, groups=[dict(glyphs=[3, 4], range=True, flags=0)])}, [bytes([0x60 | 1, 0])], glyphs=9)
    d["masks"] = [bytes([10 + i]) for i in range(9)]
    d["rsets"], d["gsets"] = [dict(ranges=[[off + 1, 1]], list=[])], [dict(ranges=[[2, 1]], list=[])]
    d["urules"] = [dict(r, out=[x + off for x in r["out"]], els=[shift(e) for e in r["els"]]) for rs in UCAT for r in rs]
    d["grules"] = [r for rs in GCAT for r in rs]
    d["kern"], d["vkern"] = {(a, b): a * 10 + b - 40 for a in range(8) for b in range(8) if (a + b) % 3}, {(1, 2): 5, (3, 4): -5}
    at = lambda cat, i: list(range(sum(map(len, cat[:i - 1])), sum(map(len, cat[:i]))))
    by = {}
    gen = ctx.generate("MC_Pipeline", cfg=ctx.n("Gen_Pipeline.cfg", "Gen_Pipeline_T.cfg"))
    for g in gen:
        by.setdefault((g["u"], g["g"]), []).append((g["v"], tuple(g["xs"])))
    runs, total = [], 0
    for (u, g), texts in sorted(by.items()):
        texts = sorted(set(texts))
        rng.shuffle(texts)
        texts = texts[:ctx.n(250, 4000)]
        total += len(texts)
        for i in range(0, len(texts), 100):
            ops = [open_op(d), dict(op="s.new", s=1, f=0), dict(op="p.new", pl=1, f=0, s=1, size=rng.choice([-1, 0, 1, 2, 5]), urules=at(UCAT, u), grules=at(GCAT, g)),
                   dict(op="p.begin", pl=1)]
            now = 0
            for v, xs in texts[i:i + 100]:
                if v != now:
                    ops += [dict(op="s.set", s=1, k=0, v=v), dict(op="p.refresh", pl=1, s=1)]
                    now = v
                ops += [dict(op="p.feed", pl=1, xs=[off + x for x in xs]), dict(op="p.break", pl=1)]
            ops.append(dict(op="p.finish", pl=1))
            runs.append(dict(ops=ops, cfg=dict(fonts=[table(d)]), tag="model"))
    ctx.cov["model_behaviours"] = total
    return runs

class Links:
    """the context of the checks of the single links: their runs, at the size of a quick check
    and from seeds of their own; their models are checked under their own properties"""
    def __init__(self, ctx, salt):
        self.ctx, self.quick, self.rng, self.cov, self.assumptions = ctx, True, random.Random(ctx.seed * 77 + salt), {}, []
    def n(self, q, t):
        return q
    def model_check(self, *a, **k):
        pass
    def __getattr__(self, name):
        return getattr(self.ctx, name)

def alone(ctx, pipes, n):
    """texts drawn by several users, concurrently and in turns: each draws what it would alone"""
    turns = ctx.generate("Gen_Share", cfg="Gen_Share.cfg")
    pool = {("Trace_Pipeline", "C22"): [dict(r, ops=r["ops"]) for r in pipes]}
    out = []
    for race, t, k in ((True, None, n), (False, None, 3 * n), (False, turns, 3 * n)):
        runs, mods = chk_share.groups(ctx, pool, k, t)
        for rs in chk_share.split(ctx.drive("conc", runs, race=race, shards=4), mods).values():
            out += rs
    ctx.validate("Trace_Pipeline", out, kind="pipelines-shared")

def C22(ctx):
    ctx.model_check("MC_Pipeline", ctx.n("MC_Pipeline.cfg", "MC_Pipeline_T.cfg"))
    pipes = random_runs(ctx, ctx.n(500, 6000))
    runs = ctx.drive("world", model_runs(ctx) + pipes)
    ctx.validate("Trace_Pipeline", runs, kind="pipeline")
    ctx.cov["glyphs_drawn"] = sum(len(e["r"]["advs"]) for r in runs for e in r.get("evs", ()) if isinstance(e.get("r"), dict) and "advs" in e["r"])
    if not isinstance(ctx, chk_share.Collect):
        alone(ctx, random_runs(ctx, 60), ctx.n(12, 200))
        for i, link in enumerate((cr.C09, cr.C10, cr.C11, chk_values.C05, chk_values.C06, chk_values.C07, chk_values.C08, chk_font.C16)):
            link(Links(ctx, i))
