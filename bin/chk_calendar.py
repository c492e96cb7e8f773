"""C19: dates."""

def C19(ctx):
    ctx.model_check("Calendar")
    rng = ctx.rng
    runs = []
    step = 512
    for y in range(0, 65536, step):
        runs.append(dict(ops=[dict(op="years", **{"from": y, "to": y + step - 1})], tag="all-years"))
    special_y = [0, 1, 4, 99, 100, 400, 1900, 1999, 2000, 2023, 2024, 2100, 4095, 4096, 9999, 10000, 32767, 32768, 65534, 65535]
    ops = []
    for y in special_y:
        for m in [0, 1, 2, 3, 4, 6, 11, 12, 13, 14, 127, 128, 254, 255]:
            for d in [0, 1, 27, 28, 29, 30, 31, 32, 127, 128, 255]:
                ops.append(dict(op="date", y=y, m=m, d=d))
    for _ in range(ctx.n(2000, 40000)):
        ops.append(dict(op="date", y=rng.choice([rng.randint(0, 65535), rng.randint(1, 3000)]),
                        m=rng.choice([rng.randint(0, 13), rng.randint(0, 255)]),
                        d=rng.choice([rng.randint(0, 32), rng.randint(27, 32), rng.randint(0, 255)])))
    for i in range(0, len(ops), 200):
        runs.append(dict(ops=ops[i:i + 200], tag="date-values"))
    runs.append(dict(ops=[dict(op="now")] * 3, tag="now"))
    def rdate():
        y = rng.choice([0, rng.randint(1, 65535), rng.randint(1, 65535), rng.choice(special_y)])
        m = rng.choice([0, 2, 2, rng.randint(1, 12), rng.randint(0, 15), rng.randint(0, 255)])
        d = rng.choice([0, rng.randint(1, 28), rng.randint(28, 32), rng.randint(0, 255)])
        return y, m, d
    for i in range(ctx.n(300, 3000)):
        ops = [dict(op="hnew", date=[2001, 2, 3])]
        for _ in range(rng.randint(1, 6)):
            y, m, d = rdate()
            ops.append(dict(op="hset", k=rng.randint(1, 3), y=y, m=m, d=d))
            if rng.random() < 0.3:
                ops.append(dict(op="hbuild"))
        ops.append(dict(op="hbuild"))
        runs.append(dict(ops=ops, tag="header-dates"))
    traces = ctx.drive("world", runs)
    ctx.validate("Trace_Calendar", traces, kind="calendar")
    ctx.cov["years"] = "0..65535, every month and day value"
