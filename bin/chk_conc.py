"""C13: independent testers, concurrent or interleaved."""
import copy
import ggwriter as gg, fontgen as fg
import chk_rewrite as cr
from chk_values import open_op

def flatten(evs):
    """nested operations become events of their own, right after the one they happened in"""
    out = []
    for e in evs:
        sub = e.get("r", {}).pop("sub", None) if isinstance(e.get("r"), dict) else None
        out.append(e)
        if sub:
            out += flatten(sub)
    return out

def script(rng, d, al, nopts, wide, t, f, length, s):
    """one user of a tester: edits rules, compiles and runs sequences, legally"""
    nr = len(d["urules" if wide else "grules"])
    env = dict(f=f, s=s)
    ops = [dict(op="t.new", t=t, kind=cr.kind(wide)), dict(op="s.new", s=s, f=f)]
    for k, n in enumerate(nopts):
        ops.append(dict(op="s.set", s=s, k=k, v=rng.randrange(n)))
    ops += [dict(op="t.add", t=t, f=f, rule=rng.randrange(nr)) for _ in range(rng.randint(1, 4))]
    while len(ops) < length:
        r = rng.random()
        if r < 0.35:
            ops.append(dict(op="t.add", t=t, f=f, rule=rng.randrange(nr)))
        elif r < 0.5:
            ops.append(dict(op="t.del", t=t, f=f, rule=rng.randrange(nr)))
        elif r < 0.6:
            ops.append(dict(op="t.resync", t=t, **env))
            continue
        elif r < 0.65:   # cannot be compiled
            data = [255, 0, 1, 0, 1] + ([97, 0, 0, 0] if wide else [3, 0]) + [0, 16, 254, 0]
            ops += [dict(op="t.add", t=t, data=data), dict(op="t.begin", t=t, **env), dict(op="t.del", t=t, data=data)]
        elif r < 0.72 and nopts:
            k = rng.randrange(len(nopts))
            ops += [dict(op="s.set", s=s, k=k, v=rng.randrange(nopts[k])), dict(op="t.refresh", t=t, **env)]
        ops.append(dict(op="t.begin", t=t, **env))
        for _ in range(rng.choice([1, 2])):
            ops += cr.feeds(rng, t, al, rng.choice([4, 10]))
            ops.append(dict(op="t.break", t=t))
        ops += cr.feeds(rng, t, al, rng.choice([3, 6]))
        ops.append(dict(op="t.finish", t=t))
    return ops

def worlds(rng, n):
    out = []
    for _ in range(n):
        wide = rng.random() < 0.4
        d, al, nopts = cr.random_world(rng, wide, rng.choice([0, 1, 2]), rng.choice([4, 6, 9]), rng.choice([0, 2, 3]), rng.choice([2, 3, 5]))
        out.append((d, al, nopts, wide))
    return out

def concurrent(ctx, n):
    """several goroutines, each with testers of its own, sharing fonts and the compilers"""
    rng = ctx.rng
    runs = []
    for i in range(n):
        ws = worlds(rng, rng.choice([1, 2, 3]))
        if rng.random() < 0.5:       # everybody uses the same compiler
            ws = [w for w in ws if w[3] == ws[0][3]]
        users = rng.choice([2, 4, 8])
        scripts = []
        for u in range(users):
            d, al, nopts, wide = ws[u % len(ws)]
            scripts.append(script(rng, d, al, nopts, wide, 1, u % len(ws), rng.choice([20, 40, 60]), 1))
        ops = [dict(open_op(w[0]), f=k) for k, w in enumerate(ws)] + [dict(op="par", scripts=scripts)]
        runs.append(dict(ops=ops, cfg=dict(fonts=[cr.rtable(w[0]) for w in ws]), tag="concurrent"))
    return runs

def split(runs):
    """one run per goroutine: each must be what the tester would have done alone"""
    out = []
    for r in runs:
        users = sorted({e["w"] for e in r["evs"] if "w" in e})
        head = [e for e in r["evs"] if "w" not in e]
        if not users:
            out.append(r)
        for u in users:
            evs = head + [{k: v for k, v in e.items() if k != "w"} for e in r["evs"] if e.get("w") == u]
            f = next(e["f"] for e in evs if e["op"] == "s.new")
            out.append(dict(id=r["id"], tag=r["tag"], cfg=dict(r["cfg"], fx={"1": f}), evs=evs))
    return out

def interleaved(ctx, n):
    """several testers used in turns, and from within the callbacks of each other"""
    rng = ctx.rng
    runs = []
    for i in range(n):
        ws = worlds(rng, rng.choice([1, 2]))
        users = rng.choice([2, 3, 4])
        queues, fx = [], {}
        for u in range(users):
            d, al, nopts, wide = ws[u % len(ws)]
            fx[str(u + 1)] = u % len(ws)
            queues.append(script(rng, d, al, nopts, wide, u + 1, u % len(ws), rng.choice([20, 35]), u + 1))
        ops = [dict(open_op(w[0]), f=k) for k, w in enumerate(ws)]
        nested = rng.random() < 0.6
        while any(queues):
            k = rng.choice([k for k in range(users) if queues[k]])
            op = queues[k].pop(0)
            if nested and op["op"] in ("t.feed", "t.break", "t.finish") and rng.random() < 0.5:
                op = dict(op, via=[])
                for _ in range(rng.choice([1, 2, 4])):
                    others = [j for j in range(users) if j != k and queues[j]]
                    if others:
                        op["via"].append(queues[rng.choice(others)].pop(0))
            ops.append(op)
        runs.append(dict(ops=ops, cfg=dict(fonts=[cr.rtable(w[0]) for w in ws], fx=fx), tag="interleaved"))
    return runs

def C13(ctx):
    ctx.model_check("Pool")
    if not ctx.quick:
        ctx.model_check("Pool", "MC_Pool_T.cfg")
    # the pool itself
    runs = [dict(ops=[dict(op=o, w=w) for o, w in b], tag="pool-behaviour") for b in ctx.generate("Gen_Pool")]
    for _ in range(ctx.n(50, 500)):
        held, ops = set(), []
        for _ in range(rng_len(ctx)):
            w = ctx.rng.randint(1, 9)
            ops.append(dict(op="put" if w in held else "get", w=w))
            held ^= {w}
        runs.append(dict(ops=ops, tag="pool-history"))
    recorded = ctx.drive("pool", runs, cmd="intern")
    storms = [dict(ops=[dict(op="storm", workers=w, rounds=ctx.n(300, 3000))], tag="pool-storm")
              for w in [2, 3, 4, 8, 16] for _ in range(ctx.n(2, 6))]
    for race in (True, False):
        for r in ctx.drive("pool", copy.deepcopy(storms), cmd="intern", race=race, shards=1):
            evs = r["evs"]
            if evs and evs[0]["p"] == "":
                evs = [dict(op=k, w=w, p="", r=dict(inst=i)) for k, w, i in evs[0]["r"]]
            recorded.append(dict(r, evs=evs))
    ctx.validate("Trace_Pool", recorded, kind="pool")
    # testers
    runs = [dict(r, evs=flatten(r["evs"])) for r in ctx.drive("world", interleaved(ctx, ctx.n(200, 2500)))]
    for race, n in ((True, ctx.n(60, 500)), (False, ctx.n(100, 800))):
        runs += split(ctx.drive("conc", concurrent(ctx, n), race=race, shards=2))
    ctx.validate("Trace_Rewriter", runs, kind="testers", mem="4g")
    ctx.assumptions.append("goroutine schedules of the real code are those the Go scheduler produced in this run, watched by the race detector; "
                           "all interleavings are covered in the model of the pool only")

def rng_len(ctx):
    return ctx.rng.choice([10, 40, 100])
