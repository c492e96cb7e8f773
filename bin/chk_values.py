"""C05, C06, C07, C08: settings, conditions, mappings and mapping caches of parsed fonts."""
import chk_bulk
import itertools
import ggwriter as gg, fontgen as fg

def open_op(d, f=0):
    return dict(op="open", f=f, raw=gg.hexraw(d))

def vecs_of(rng, nopts, limit):
    total = 1
    for n in nopts:
        total *= n
    if total <= limit:
        return [list(v) for v in itertools.product(*[range(n) for n in nopts])]
    return [fg.rand_vals(rng, nopts) for _ in range(limit)]

# ---------------------------------------------------------------- C08
def C08(ctx):
    ctx.model_check("MC_Cond", ctx.n("MC_Cond.cfg", "MC_Cond_T.cfg"))
    rng = ctx.rng
    runs = []
    gen = ctx.generate("MC_Cond", cfg="Gen_Cond.cfg")
    conds = [bytes(g["d"]) for g in gen]
    for g in gen:
        if g["q"] and g["d"][2] < 32:
            conds.append(bytes([((g["d"][0] & 15) + 3) << 5 | g["d"][2], g["d"][1]]))
    ctx.cov["generated_conditions"] = len(conds)
    vecs = [[a, b] for a in (0, 1, 2, 31) for b in (0, 1, 31)]
    order = list(conds)
    rng.shuffle(order)
    if ctx.quick:
        order = order[:3000]
    for i in range(0, len(order), 250):
        part = order[i:i + 250]
        d = fg.desc([32, 32], conds=part)
        ops = [open_op(d)] + [dict(op="evalconds", c=k, vecs=vecs) for k in range(len(part))]
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="every-formula"))
    for i in range(ctx.n(60, 700)):
        nopts = fg.rand_settings(rng, 1, rng.choice([1, 3, 8, 40]), True)
        if rng.random() < 0.1:
            nopts = [2] * rng.choice([254, 255])
        nc = rng.choice([1, 2, 5, 20, 60])
        depth = rng.choice([1, 2, 3, 4])
        cs = []
        while len(cs) < nc:
            c = fg.rand_formula(rng, len(nopts), nopts, depth)
            if len(c) < 300:
                cs.append(c)
        d = fg.desc(nopts, conds=cs)
        ops = [open_op(d)]
        for k in range(nc):
            vs = vecs_of(rng, nopts, 12)
            # values around the constants of the formula
            c = cs[k]
            for _ in range(4):
                v = fg.rand_vals(rng, nopts)
                if len(c) >= 3:
                    v[rng.randrange(len(v))] = max(0, min(255, c[rng.randrange(len(c))] + rng.choice([-1, 0, 1])))
                vs.append(v)
            if len(nopts) > 100:
                vs = vs[:3]
            ops.append(dict(op="evalconds", c=k, vecs=vs))
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="random-formulas"))
    # long tables: end offsets beyond 255 and 32767 bytes, and indices beyond 127
    for n, size in [(255, 3), (200, 7), (130, 270)] + ([] if ctx.quick else [(200, 250)]):
        nopts = [3, 4, 5]
        cs = []
        for i in range(n):
            c = fg.rand_formula(rng, 3, nopts, 1)
            while len(c) < size:
                c = bytes([rng.choice([2, 34])]) + c + fg.rand_formula(rng, 3, nopts, rng.choice([1, 1, 2]))
            cs.append(c)
        d = fg.desc(nopts, conds=cs)
        ops = [open_op(d)] + [dict(op="evalconds", c=k, vecs=[fg.rand_vals(rng, nopts) for _ in range(6)]) for k in range(n)]
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="long-table"))
    # as long as a table can be
    left, cs = 65535, []
    for i in range(255):
        size = left - 260 * (254 - i)        # what the others leave; never more than 65535 altogether
        c = fg.rand_formula(rng, 3, nopts, 1)
        while len(c) < max(size, 253) - 8:
            c = bytes([rng.choice([2, 34])]) + c + fg.rand_formula(rng, 3, nopts, 1)
        while len(c) < max(size, 253) - 3:
            c = bytes([rng.choice([2, 34])]) + c + bytes([0x60 | rng.randrange(4), rng.randrange(3)])
        cs.append(c)
        left -= len(c)
    while sum(map(len, cs)) > 65535:
        cs[rng.randrange(len(cs) - 1)] = fg.rand_formula(rng, 3, nopts, 1)
    ctx.cov["longest_table_conds"] = sum(map(len, cs))
    d = fg.desc(nopts, conds=cs)
    ops = [open_op(d)] + [dict(op="evalconds", c=k, vecs=[fg.rand_vals(rng, nopts) for _ in range(3)]) for k in sorted(rng.sample(range(250), ctx.n(20, 200))) + list(range(250, 255))]
    runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="longest-table"))
    # deep nesting
    for depth in (40, 120, 250):
        c = bytes([0x70 | 0, 0][:2])
        for i in range(depth):
            c = bytes([rng.choice([2, 34])]) + (c + bytes([(3 + rng.randint(0, 3)) << 5 | rng.randint(0, 3), rng.randrange(2)])
                                                if rng.random() < 0.5 else bytes([(3 + rng.randint(0, 3)) << 5 | rng.randint(0, 3), rng.randrange(2)]) + c)
        d = fg.desc([4, 4], conds=[c])
        ops = [open_op(d), dict(op="evalconds", c=0, vecs=[[a, b] for a in range(4) for b in range(4)])]
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="deep"))
    ctx.validate("Trace_Values", ctx.drive("world", runs), kind="conditions", mem="4g")

# ---------------------------------------------------------------- C05
def lookup_font(rng, big=False):
    nopts = fg.rand_settings(rng, 0, 5)
    if big:
        nopts = rng.choice([[254], [2, 127], [127, 2], [6, 42], [2, 3, 6, 7]])
    sws = fg.rand_switches(rng, nopts, rng.choice([0, 1, 2, 4]) if not big else 2) if nopts else []
    if big:
        sws.append(list(range(len(nopts))))
    gmax = rng.choice([300, 5000, 56000])
    mp = fg.rand_mapping(rng, sws, nopts, rng.choice([0, 1, 2, 3, 5, 9, 17, 40]) if not big else 3, gmax)
    return fg.desc(nopts, sws, mp)

def lookups(rng, d, limit, caches=True):
    nopts = [len(s[1]) for s in d["settings"]]
    cps = sorted(d["mapping"])
    probe = list(cps)
    for c in cps:
        probe += [c - 1, c + 1]
    probe += [-1, 0, 31, 32, 255, 256, 0x10FFFF, 2147483647, -2147483648, rng.randint(0, 0x10FFFF)]
    probe = sorted(set(p for p in probe if -2147483648 <= p <= 2147483647))
    if len(probe) > limit:
        probe = rng.sample(probe, limit) + [cps[0], cps[-1]]
    ops = []
    cur = [0] * len(nopts)
    for vals in vecs_of(rng, nopts, 8 if limit > 20 else 4):
        for k, v in enumerate(vals):
            if v != cur[k]:
                ops.append(dict(op="s.set", s=1, k=k, v=v))
        cur = list(vals)
        for cp in probe:
            ops.append(dict(op="utf8", cp=cp, vals=vals))
            ops.append(dict(op="utf8c", cp=cp, s=1))
            if rng.random() < 0.2:
                ops.append(dict(op="utf8c", cp=cp, s=1))
            if 0 <= cp < 256:
                ops.append(dict(op="ascii", cp=cp, vals=vals))
        for k in range(len(d["switches"])):
            ops.append(dict(op="evalswitch", sw=k, vals=vals))
    return ops

def C05(ctx):
    ctx.model_check("MC_Mapping")
    rng = ctx.rng
    runs = []
    for i in range(ctx.n(120, 1200)):
        d = lookup_font(rng)
        ops = [open_op(d), dict(op="s.new", s=1)] + lookups(rng, d, 40)
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="lookup"))
    for i in range(ctx.n(6, 40)):
        d = lookup_font(rng, True)
        ops = [open_op(d), dict(op="s.new", s=1)] + lookups(rng, d, 12)
        nopts = [len(s[1]) for s in d["settings"]]
        k = len(d["switches"]) - 1
        for v in vecs_of(rng, nopts, 260):
            ops.append(dict(op="evalswitch", sw=k, vals=v))
            e = [cp for cp in d["mapping"] if d["mapping"][cp]["type"] == k]
            if e:
                ops.append(dict(op="utf8", cp=e[0], vals=v))
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="many-cases"))
    # data beyond 64 KiB, and many entries
    mp = {}
    for j in range(6):
        mp[0x2000 + 7 * j] = dict(type=0, groups=[dict(glyphs=[rng.randint(0, 9999) for _ in range(rng.choice([1, 3, 128]))], flags=rng.randint(0, 255)) for _ in range(60)])
        for g in mp[0x2000 + 7 * j]["groups"]:
            if len(g["glyphs"]) == 1:
                g["flags"] = 0
    d = fg.desc([60], [[0]], mp)
    ops = [open_op(d), dict(op="s.new", s=1)]
    for v in (0, 1, 30, 58, 59):
        ops.append(dict(op="s.set", s=1, k=0, v=v))
        for cp in mp:
            ops += [dict(op="utf8", cp=cp, vals=[v]), dict(op="utf8c", cp=cp, s=1)]
    runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="big-data"))
    for n in [255, 256, 257] + ([] if ctx.quick else [1500]):
        mp = {40 + 3 * j: dict(type=255, groups=[dict(glyphs=[j])]) for j in range(n)}
        d = fg.desc([], [], mp)
        ops = [open_op(d)] + [dict(op="utf8", cp=cp, vals=[]) for cp in rng.sample(range(38, 43 + 3 * n), 200)]
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="many-entries"))
    # many switches: offsets of the switch table
    for ns, nsw in [(8, 254), (20, 200)]:
        nopts = [rng.randint(1, 3) for _ in range(ns)]
        sws = [rng.sample(range(ns), rng.randint(1, 4)) for _ in range(nsw)]
        mp = {100 + k: dict(type=k, groups=[fg.rand_group(rng, 5000, 0.3) for _ in range(fg.cases_of(sws[k], nopts))]) for k in rng.sample(range(nsw), 25)}
        d = fg.desc(nopts, sws, mp)
        ops = [open_op(d), dict(op="s.new", s=1)]
        for v in [fg.rand_vals(rng, nopts) for _ in range(4)]:
            ops += [dict(op="s.set", s=1, k=k, v=x) for k, x in enumerate(v)]
            ops += [dict(op="evalswitch", sw=k, vals=v) for k in rng.sample(range(nsw), 60)]
            for cp in mp:
                ops += [dict(op="utf8", cp=cp, vals=v), dict(op="utf8c", cp=cp, s=1)]
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="many-switches"))
    ctx.validate("Trace_Values", ctx.drive("world", runs), kind="mapping", mem="4g")
    chk_bulk.codes(ctx)

# ---------------------------------------------------------------- C07
def C07(ctx):
    ctx.model_check("SettingsCache")
    rng = ctx.rng
    runs = []
    for i in range(ctx.n(250, 2500)):
        nopts = fg.rand_settings(rng, 1, rng.choice([1, 2, 4, 9, 20]))
        if rng.random() < 0.06:
            nopts = [2] * rng.choice([64, 65, 200, 255])
        sws = fg.rand_switches(rng, nopts, rng.choice([0, 1, 2, 3, 9, 70]), 20)
        conds = [fg.rand_formula(rng, len(nopts), nopts, rng.choice([0, 1, 2])) for _ in range(rng.choice([0, 1, 2, 5, 9, 70]))]
        mp = fg.rand_mapping(rng, sws, nopts, rng.choice([0, 3, 8]), 500)
        d = fg.desc(nopts, sws, mp, conds)
        ops = [open_op(d), dict(op="s.new", s=1), dict(op="s.new", s=2)]
        cps = sorted(mp)
        for _ in range(rng.choice([20, 60, 120])):
            s = rng.choice([1, 1, 1, 2])
            r = rng.random()
            if r < 0.2:
                k = rng.randrange(len(nopts))
                ops.append(dict(op="s.set", s=s, k=k, v=rng.randrange(nopts[k])))
            elif r < 0.28:
                ops.append(dict(op="s.get", s=s, k=rng.randint(0, len(nopts))))
            elif r < 0.45 and sws:
                ops.append(dict(op="s.evalcase", s=s, sw=rng.randrange(len(sws))))
            elif r < 0.62 and conds:
                ops.append(dict(op="s.evalcond", s=s, c=rng.randrange(len(conds))))
            elif r < 0.75 and sws:
                ops.append(dict(op="s.case", s=s, sw=rng.randrange(len(sws))))
            elif r < 0.88 and conds:
                ops.append(dict(op="s.cond", s=s, c=rng.randrange(len(conds))))
            elif cps:
                ops.append(dict(op="utf8c", s=s, cp=rng.choice(cps)))
        # every decision at the end
        for s in (1, 2):
            ops += [dict(op="s.case", s=s, sw=k) for k in range(len(sws))] + [dict(op="s.cond", s=s, c=k) for k in range(len(conds))]
            ops += [dict(op="s.get", s=s, k=k) for k in range(len(nopts))]
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="settings"))
    ctx.validate("Trace_Values", ctx.drive("world", runs), kind="settings", mem="4g")

# ---------------------------------------------------------------- C06
def C06(ctx):
    ctx.model_check("MappingCache")
    if not ctx.quick:
        ctx.model_check("MappingCache", "MC_MappingCache_T.cfg")
    rng = ctx.rng
    runs = []
    for i in range(ctx.n(300, 3000)):
        nf = rng.choice([1, 1, 2])
        ds = []
        for _ in range(nf):
            nopts = fg.rand_settings(rng, 1, 3)
            sws = fg.rand_switches(rng, nopts, rng.choice([1, 2]), 12) or [[0]]
            mp = fg.rand_mapping(rng, sws, nopts, rng.choice([3, 6, 10]), 500)
            if rng.random() < 0.5:
                for c in (0, 1, 65, 66):
                    mp[c] = dict(type=0, groups=[fg.rand_group(rng, 500) for _ in range(fg.cases_of(sws[0], nopts))])
            ds.append(fg.desc(nopts, sws, mp))
        ops = [open_op(d, f) for f, d in enumerate(ds)]
        for f in range(nf):
            ops.append(dict(op="s.new", s=f, f=f))
        size = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 8, 64])
        f = 0
        ops.append(dict(op="c.new", c=1, f=0, size=size))
        pool = [rng.choice(sorted(ds[0]["mapping"])) for _ in range(size + 2)]
        allcps = sorted(set(sum((sorted(d["mapping"]) for d in ds), [])))
        for _ in range(rng.choice([30, 80, 150])):
            r = rng.random()
            nopts = [len(x[1]) for x in ds[f]["settings"]]
            if r < 0.78:
                cp = rng.choice(pool) if rng.random() < 0.6 else rng.choice(allcps) if rng.random() < 0.9 else rng.choice([0, 7, 0x110000, -1])
                e = dict(op="c.get", c=1, cp=cp, s=f, f=f)
                m = ds[f]["mapping"].get(cp)
                if rng.random() < 0.6 and (m is None or m["type"] < 254):
                    e["sw"] = m["type"] if m else 0
                ops.append(e)
            elif r < 0.9:
                for _ in range(rng.choice([1, 1, 2])):
                    k = rng.randrange(len(nopts))
                    ops.append(dict(op="s.set", s=f, k=k, v=rng.randrange(nopts[k])))
                ops.append(dict(op="c.drop", c=1))
            elif r < 0.95:
                ops.append(dict(op="c.drop", c=1))
            elif r < 0.975:
                f = rng.randrange(nf)
                ops.append(dict(op="c.reset", c=1, f=f))
            else:
                k = rng.choice(allcps)
                ops.append(dict(op="utf8c", cp=k, s=f, f=f))
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d) for d in ds]), tag="cache"))
    # large caches, more entries than capacity
    for size, n in [(255, 300), (256, 300), (300, 300)] + ([] if ctx.quick else [(1000, 1300)]):
        mp = {40 + 2 * j: dict(type=0, groups=[dict(glyphs=[j]), dict(glyphs=[j + 1])]) for j in range(n)}
        d = fg.desc([2], [[0]], mp)
        ops = [open_op(d), dict(op="s.new", s=0), dict(op="c.new", c=1, size=size)]
        keys = sorted(mp)
        ops += [dict(op="c.get", c=1, cp=k, s=0, sw=0) for k in keys]
        ops += [dict(op="c.get", c=1, cp=k, s=0, sw=0) for k in keys[:20] + keys[-20:]]
        ops += [dict(op="s.set", s=0, k=0, v=1), dict(op="c.drop", c=1)]
        ops += [dict(op="c.get", c=1, cp=rng.choice(keys), s=0, sw=0) for _ in range(200)]
        runs.append(dict(ops=ops, cfg=dict(fonts=[fg.table(d)]), tag="large-cache"))
    ctx.validate("Trace_Values", ctx.drive("world", runs), kind="mapping-cache", mem="4g")
    chk_bulk.caches(ctx)
