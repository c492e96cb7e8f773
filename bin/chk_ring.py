"""C17: the pending-glyph queue."""

OPS = ["push", "push", "push", "push", "pophead", "pophead", "poptail", "head", "tail", "peek", "peek", "peek",
       "confirm", "discard", "clear", "setcap", "setmincap"]

def rand_op(rng, k, maxcap):
    o = rng.choice(OPS)
    if o == "clear" and rng.random() < 0.6:
        o = "push"
    if o == "push":
        return dict(op=o, x=k)
    if o in ("setcap", "setmincap"):
        return dict(op=o, n=rng.randint(0, maxcap))
    return dict(op=o)

def C17(ctx):
    ctx.model_check("Ring")
    ctx.model_check("RingImpl")
    rng = ctx.rng
    runs = []
    for s in ctx.generate("Gen_Ring", cfg=ctx.n("Gen_Ring.cfg", "Gen_Ring_T.cfg")):
        tail = [rand_op(rng, 1000 + i, 5) for i in range(rng.randint(2, 6))]
        tail += [dict(op="peek"), dict(op="pophead"), dict(op="peek"), dict(op="poptail"), dict(op="pophead"), dict(op="pophead")]
        runs.append(dict(ops=s + tail, tag="transition"))
    for i in range(ctx.n(300, 4000)):
        maxcap = rng.choice([1, 2, 3, 5, 8, 16, 40])
        n = rng.choice([20, 60, 120])
        ops = [dict(op="setcap", n=maxcap)] if rng.random() < 0.8 else []
        ops += [rand_op(rng, k + 1, maxcap) for k in range(n)]
        runs.append(dict(ops=ops, tag="random"))
    # large capacities: positions close to the 16-bit limit
    for cap in [255, 256, 257, 32767, 32768, 32769, 40000, 65534, 65535]:
        for back in [1, 2, 5]:
            ops = [dict(op="setcap", n=cap), dict(op="spin", n=cap - back, x=7)]
            ops += [dict(op="push", x=100 + i) for i in range(8)]
            ops += [dict(op="tail"), dict(op="peek"), dict(op="peek"), dict(op="peek"), dict(op="confirm"), dict(op="peek"), dict(op="poptail")]
            if cap < 65535:
                ops += [dict(op="setcap", n=cap + 1)]
            ops += [dict(op="head"), dict(op="peek"), dict(op="discard"), dict(op="setcap", n=rng.choice([6, 300, 65535]))]
            ops += [dict(op="pophead")] * 5
            runs.append(dict(ops=ops, tag="large"))
    traces = ctx.drive("ring", runs, cmd="intern")
    ctx.validate("Trace_Ring", traces, kind="ring")
    ctx.assumptions += ["capacity and contents are observed through Size/Capacity/IsEmpty and the returned elements only"]
