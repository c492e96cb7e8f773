"""C14 and C15: glyph masks and raster operation streams."""

def rand_op(rng, big, undef):
    """a random operation (control byte and operands)"""
    while True:
        c = rng.choice([rng.randint(0, 255), rng.choice([2, 4, 8, 32, 64, 96, 128, 48, 112, 130, 132, 136, 129, 131, 39])])
        und = ((c & 12) == 12) or ((c & 144) == 144) or (c & 16 and not c & 32) or (not c & 16 and c & 128 and c & 96)
        if und and not (undef and rng.random() < 0.5):
            continue
        break
    lens = [0, 1, 2, 3, 5, 9] if not big else [0, 1, 7, 40, 254, 255]
    moves = [0, 1, 2, 4, 251, 252, 253, 254, 255, 0, 3] if not big else [126, 127, 128, 129, 0, 255, 60]
    out = [c]
    if c & 1:
        out.append(rng.choice([1, 2, 77, 254, 255]) if rng.random() < 0.97 else 0)
    if c & 2:
        out.append(rng.choice(moves))
    if c & 4:
        out.append(rng.choice(moves))
    rect = not c & 16 and c & 32 and c & 64
    if c & 32:
        out.append(rng.choice(lens) if not (big and rect) else rng.choice([0, 3, 255]))
    if not c & 16 and c & 64:
        out.append(rng.choice(lens) if not (big and rect) else rng.choice([0, 2]))
    return out

def streams(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.n(3000, 30000)):
        code = []
        big = rng.random() < 0.06
        for _ in range(rng.randint(1, 4 if big else rng.choice([2, 6, 14]))):
            code += rand_op(rng, big, rng.random() < 0.1)
        if rng.random() < 0.15:
            code = code[:rng.randint(0, len(code))]
        out.append(code)
    # one rectangle as large as an operation can draw, and far moves
    out += [[96, 255, 255], [97, 9, 255, 255, 130, 128, 48, 255], [112, 255], [48, 255], [103, 5, 128, 128, 255, 0]]
    out.append([2, 127] * 40 + [128] + [4, 128] * 40 + [129, 3])
    out.append([6, 128, 128] * 30 + [48, 255] + [6, 127, 127] * 60 + [113, 8, 255])
    return out

def C15(ctx):
    ctx.model_check("Raster")
    ctx.model_check("Raster", "MC_Raster_2.cfg")
    if not ctx.quick:
        ctx.model_check("Raster", "MC_Raster_T.cfg")
    codes = ctx.generate("Gen_Raster", cfg=ctx.n("Gen_Raster.cfg", "Gen_Raster_T.cfg"))
    ngen = len(codes)
    codes = codes + streams(ctx)
    runs = []
    for i in range(0, len(codes), 40):
        runs.append(dict(ops=[dict(op="rasterize", data=c) for c in codes[i:i + 40]], tag="generated" if i < ngen else "random"))
    ctx.validate("Trace_Raster", ctx.drive("world", runs), kind="raster")
    ctx.cov["streams"] = len(codes)
    ctx.assumptions.append("palette value 0 in a stream is reserved: the drawn image is not judged, only that nothing panics")

def mask_runs(ctx):
    rng = ctx.rng
    masks = []
    def add(rect, pts, outer=None, prefix=(), fill=0):
        px = sorted(((y, x, a) for (x, y), a in pts.items() if a and rect[0] <= x < rect[2] and rect[1] <= y < rect[3]))
        masks.append(dict(op="encode", outer=list(outer or rect), rect=list(rect), px=[[x, y, a] for y, x, a in px],
                          prefix=list(prefix), fill=fill, room=(0, 0, 40, 600)[len(masks) % 4]))
    # every mask of a small area, at several positions
    for w, h in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)]:
        for bits in range(2 ** (w * h)):
            x0, y0 = rng.choice([(0, 0), (-1, -2), (3, 1), (-5, 4), (0, -1), (130, -130)])
            pts = {(x0 + i % w, y0 + i // w): 255 for i in range(w * h) if bits >> i & 1}
            add((x0, y0, x0 + w, y0 + h), pts)
    for bits in range(0, 512, ctx.n(3, 1)):
        x0, y0 = rng.choice([(0, 0), (-1, -1), (-3, -9)])
        add((x0, y0, x0 + 3, y0 + 3), {(x0 + i % 3, y0 + i // 3): rng.choice([255, 255, 8]) for i in range(9) if bits >> i & 1})
    # many small images, from few to nearly all pixels drawn
    for _ in range(ctx.n(4000, 40000)):
        w, h = rng.randint(2, 7), rng.randint(2, 7)
        x0, y0 = rng.choice([(0, 0), (0, 0), (-2, -3), (0, -h), (-130, 127), (4, 1)])
        d = rng.choice([0.3, 0.5, 0.6, 0.7, 0.8, 0.9])
        vals = rng.choice([[255], [255], [255, 8], [1, 2, 3]])
        pts = {(x0 + i % w, y0 + i // w): rng.choice(vals) for i in range(w * h) if rng.random() < d}
        add((x0, y0, x0 + w, y0 + h), pts)
    alph = [[255], [1, 255], [1, 2, 3, 254, 255], list(range(1, 256))]
    for _ in range(ctx.n(700, 7000)):
        w, h = rng.choice([(4, 4), (8, 8), (12, 6), (3, 20), (20, 3), (1, 30), (30, 1), (16, 16)])
        x0, y0 = rng.choice([(0, 0), (0, -h), (-w, -h), (-w // 2, -h // 2), (rng.randint(-300, 300), rng.randint(-300, 300)), (1, 1)])
        vals = rng.choice(alph)
        style = rng.choice(["noise", "sparse", "rects", "diag", "rows", "cols", "full", "frame"])
        pts = {}
        R = range
        if style in ("noise", "sparse"):
            d = 0.5 if style == "noise" else 0.12
            pts = {(x, y): rng.choice(vals) for x in R(x0, x0 + w) for y in R(y0, y0 + h) if rng.random() < d}
        elif style == "full":
            v = rng.choice(vals)
            pts = {(x, y): v for x in R(x0, x0 + w) for y in R(y0, y0 + h)}
        elif style == "frame":
            v = rng.choice(vals)
            pts = {(x, y): v for x in R(x0, x0 + w) for y in R(y0, y0 + h) if x in (x0, x0 + w - 1) or y in (y0, y0 + h - 1)}
        else:
            for _ in range(rng.randint(1, 6)):
                v = rng.choice(vals)
                ax, ay = rng.randint(x0, x0 + w - 1), rng.randint(y0, y0 + h - 1)
                n, k = rng.randint(1, w), rng.randint(1, h)
                if style == "rects":
                    cells = [(ax + i, ay + j) for i in R(n) for j in R(k)]
                elif style == "rows":
                    cells = [(ax + i, ay) for i in R(n)]
                elif style == "cols":
                    cells = [(ax, ay + j) for j in R(k)]
                else:
                    s = rng.choice([1, -1])
                    cells = [(ax + i, ay + s * i) for i in R(max(n, k))]
                for c in cells:
                    if x0 <= c[0] < x0 + w and y0 <= c[1] < y0 + h:
                        pts[c] = v
        rect = (x0, y0, x0 + w, y0 + h)
        outer = rect
        fill = 0
        if rng.random() < 0.5:
            outer = (x0 - rng.randint(0, 5), y0 - rng.randint(0, 5), x0 + w + rng.randint(0, 5), y0 + h + rng.randint(0, 5))
            fill = rng.choice([0, 255, 9])
        add(rect, pts, outer, [rng.randint(0, 255) for _ in range(rng.choice([0, 0, 1, 5]))], fill)
    # long distances and long draws
    for _ in range(ctx.n(60, 400)):
        span = rng.choice([127, 128, 129, 130, 255, 256, 257, 258, 300, 512, 513])
        sx, sy = rng.choice([1, -1]), rng.choice([1, -1])
        k = rng.choice(["two", "row", "col", "diag", "adiag", "four"])
        v, v2 = rng.choice([255, 3]), rng.choice([255, 7])
        ox, oy = rng.choice([(0, 0), (5, -7), (-200, 100)])
        if k == "two":
            dx, dy = rng.choice([(span, 0), (0, span), (span, span), (span, 3)])
            pts = {(ox, oy): v, (ox + sx * dx, oy + sy * dy): v2}
        elif k == "four":
            pts = {(ox + a, oy + b): rng.choice([v, v2]) for a in (0, span) for b in (0, span)}
        elif k == "row":
            pts = {(ox + i, oy): v for i in range(span)}
        elif k == "col":
            pts = {(ox, oy + i): v for i in range(span)}
        elif k == "diag":
            pts = {(ox + i, oy + i): v for i in range(span)}
        else:
            pts = {(ox + i, oy - i): v for i in range(span)}
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        pad = rng.choice([0, 0, 2])
        add((min(xs) - pad, min(ys) - pad, max(xs) + 1 + pad, max(ys) + 1), pts)
    # a filled block over the draw limits, and the far corners of the format
    for w, h in [(257, 3), (3, 257), (260, 258)] if not ctx.quick else [(257, 3), (3, 257)]:
        add((-1, -1, w - 1, h - 1), {(x, y): 200 for x in range(-1, w - 1) for y in range(-1, h - 1)})
    for (x, y) in [(3000, 0), (0, -3000), (-3000, 3000), (32000, 2)]:
        add((x, y, x + 2, y + 2), {(x, y): 255, (x + 1, y + 1): 255})
    add((0, 0, 0, 0), {})
    add((5, 5, 9, 9), {})
    runs = []
    for i in range(0, len(masks), 12):
        runs.append(dict(ops=masks[i:i + 12], tag="encode"))
    return runs

def C14(ctx):
    ctx.model_check("Raster")
    runs = mask_runs(ctx)
    ctx.validate("Trace_Raster", ctx.drive("world", runs), kind="mask")
    ctx.cov["masks"] = sum(len(r["ops"]) for r in runs)
