"""Scenarios for apertures (A01-A04)."""
KINDS = ("circ", "rect", "ell", "rectell", "oct")
TILTS = ([1, 0, 1], [1, 0, 1], [4, 3, 5], [3, 4, 5], [4, -3, 5], [0, 1, 1], [12, 5, 13])
P2 = (1, 2, 4, 8, 16, 32)

def octp(r, a, b):
    """tangents for which the octagon is convex"""
    c = min(40, r.randint(0, (4 * b) // a)); d = min(40, r.randint(0, (4 * a) // b))
    if a * c == 4 * b and b * d == 4 * a: c -= 1 # its corners are not cut at all: nothing can be told
    return [a, b, c, d]

def params(r, k, m=30):
    a, b = r.randint(1, m), r.choice([r.randint(1, m), r.choice([v for v in P2 if v <= m])])
    if k == "circ": return [a, a, a, a]
    if k in ("rect", "ell"): return [a, b, 0, 0]
    if k == "rectell": return [a, b, r.randint(1, m), r.choice([r.randint(1, m), 4, 8])]
    return octp(r, a, b)

def points(r, p, n, zs, m=None):
    """points on, beside and around the edges"""
    m = m or max(p) + 3; res = []
    for _ in range(n):
        k = r.random(); a, b = (p[0], p[1]) if k < .5 or not p[2] else (p[2], p[3])
        if k < .2: x, y = a + r.choice([-1, 0, 0, 1]), r.randint(0, b + 1)
        elif k < .4: x, y = r.randint(0, a + 1), b + r.choice([-1, 0, 0, 1])
        elif k < .55: x, y = r.choice([(0, b), (a, 0), (0, 0), (0, b - 1), (a - 1, 0), (a, b)])
        else: x, y = r.randint(0, m), r.randint(0, m)
        res.append([x * r.choice([1, -1]), y * r.choice([1, -1]), r.choice(zs)])
    return res

def shape(r, th=False):
    ops = []
    for _ in range(r.randint(1, 3)):
        k = r.choice(KINDS); p = params(r, k); how = r.choice(["ctor", "row", "row", "short"] if k in ("circ", "rect") else ["ctor", "row"])
        row = list(p)
        if how == "row":
            if k == "circ" and r.random() < .6: row = r.choice([[p[0], 0, 0, 0], [r.randint(1, 30), 5, p[0], 9], [p[0]] * 4])
            if k == "ell" and r.random() < .6: row = r.choice([[p[0], p[1], 0, 0], [r.randint(1, 9), 3, p[0], p[1]]])
        else:
            row = p[:1] if k == "circ" else p[:2] if k in ("rect", "ell") else p
        op = dict(op="new", how=how, k=k, p=row, s=r.randint(0, 400), pos=r.randint(0, 1))
        ops.append(op)
        if how == "row" and r.random() < .04: op["k"] = r.choice(["NONE", "RACETRACK", "circle", ""]); ops.append(dict(op="pts", q=[[0, 0, 0]])); continue
        q = points(r, p, 40 if th else 24, [0, 0, 3, -2, 1000])
        ops.append(dict(op="pts", q=q))
        if r.random() < .3: # the same point along the element
            ops.append(dict(op="pts", q=[[x, y, z] for x, y, _ in q[:5] for z in (-5, 0, 1, 7, 500)]))
    return ops

def collim(r, v=None, fixed=False):
    w, h = r.randint(2, 30), r.randint(2, 30)
    c = dict(v=v or r.choice(["plain", "plain", "unal", "one"]), w=w, h=h, wx=0, hx=0, ox=0, oy=0, oxe=0, oye=0, len=r.choice([1, 2, 4, 8, 3, 5, 12]), t=r.choice(TILTS), side=r.random() < .5)
    if r.random() < .6: c["ox"], c["oy"] = r.randint(-6, 6), r.choice([0, r.randint(-6, 6)])
    return c

def collset(r, c, fixed=False):
    """exit sizes and offsets; the entrance may be set again"""
    ops = []; s = dict(wx=c["w"], hx=c["h"], oxe=c["ox"], oye=c["oy"])
    if not fixed:
        if r.random() < .7: s["wx"] = max(1, c["w"] + r.randint(-6, 6)); s["hx"] = max(1, c["h"] + r.randint(-6, 6))
        if r.random() < .5: s["oxe"] = c["ox"] + r.randint(-4, 4); s["oye"] = c["oy"] + r.randint(-4, 4)
    for f in r.sample(sorted(s), 4): ops.append(dict(op="set", f=f, v=s[f])); c[f] = s[f]
    return ops

def colpoints(r, c, n, zin=True):
    ct, st, nn = c["t"]; res = []
    for _ in range(n):
        z = r.randint(0, c["len"]) if zin else r.choice([0, -3, c["len"], 100, r.randint(0, c["len"])])
        f = z / c["len"] if c["v"] == "plain" else 0
        if c["v"] == "plain" and not 0 <= f <= 1: f = 0 if c["w"] == c["wx"] else f
        W = c["w"] + (c["wx"] - c["w"]) * f; H = c["h"] + (c["hx"] - c["h"]) * f; X = c["ox"] + (c["oxe"] - c["ox"]) * f; Y = c["oy"] + (c["oye"] - c["oy"]) * f
        if r.random() < .6: u, v = r.choice([(r.choice([1, -1]) * W / 2 + r.choice([0, 0, 1, -1]), (r.random() - .5) * H), ((r.random() - .5) * W, r.choice([1, -1]) * H / 2 + r.choice([0, 0, 1, -1]))])
        else: u, v = (r.random() * 2 - 1) * W, (r.random() * 2 - 1) * H
        res.append([round(X + u * ct / nn - v * st / nn), round(Y + u * st / nn + v * ct / nn), z])
    return res

def coll(r, fixed=False):
    c = collim(r); ops = [dict(op="coll", c=dict(c))]
    ops += collset(r, c, fixed) + [dict(op="get")]
    ops.append(dict(op="pts", q=colpoints(r, c, 30, not fixed or c["v"] == "plain")))
    for _ in range(r.randint(0, 2)):
        f = r.choice(["w", "h", "wx", "hx", "oxe", "oye", "side"])
        if f == "side":
            if c["v"] != "one": continue
            c["side"] = not c["side"]; ops.append(dict(op="set", f=f, v=int(c["side"])))
        else:
            if fixed and f not in ("w", "h"): continue
            v = r.randint(1, 30) if f[0] in "wh" else r.randint(-5, 5)
            ops.append(dict(op="set", f=f, v=v)); c[f] = v
            if fixed: ops.append(dict(op="set", f=f + "x", v=v)); c[f + "x"] = v
        ops += [dict(op="get"), dict(op="pts", q=colpoints(r, c, 20))]
    return ops

def prof(r, th=False):
    k = r.choice(["circ", "ell", "rectell", "oct"]); n = r.randint(2, 5); s = r.choice([0, 0, 0, -3, -6]); ks = []
    first = params(r, k, 12)
    if k == "oct": # the same corners' angles all along
        while True:
            first = params(r, k, 12); rs = [first]
            for _ in range(n - 1):
                f = [max(1, first[0] + r.randint(-3, 3)), max(1, first[1] + r.randint(-3, 3)), first[2], first[3]]
                if f[0] * f[2] <= 4 * f[1] and f[1] * f[3] <= 4 * f[0] and (f[0] * f[2] < 4 * f[1] or f[1] * f[3] < 4 * f[0]): rs.append(f)
            if len(rs) == n: break
    else:
        rs = [first]
        for _ in range(n - 1):
            q = list(rs[-1])
            if r.random() < .3 and k != "circ": i = r.randrange(2 if k == "ell" else 4); q[i] = r.randint(1, 12) # one size only
            elif r.random() < .7: q = params(r, k, 12)
            rs.append(q)
    if k == "circ" and r.random() < .5: rs = [[x[0], 0, 0, 0] for x in rs]
    if k == "ell" and r.random() < .5: rs = [[x[0], x[1], x[0], x[1]] for x in rs]
    for i in range(n):
        ks.append(dict(s=s, p=rs[i])); s += r.choice([0, 1, 2, 3, 4, 6, 6]) if i < n - 2 and i else r.choice([1, 2, 4, 6])
    if ks[-1]["s"] <= 0: ks[-1]["s"] = 4
    if ks[-1]["s"] - ks[-2]["s"] > 6: ks = [dict(k, s=k["s"] + 3) for k in ks]; ks[-1]["s"] = ks[-2]["s"] + 5
    zs = list(range(max(0, ks[0]["s"]), ks[-1]["s"] + 1)) + ([-1] if ks[0]["s"] <= 0 else [])
    q = []
    for x in ks: q += points(r, [v or 0 for v in x["p"]] if k == "rectell" else x["p"][:2] + [0, 0] if k != "circ" else [x["p"][0]] * 2 + [0, 0], 12 if th else 8, zs, 14)
    return [dict(op="prof", k=k, ks=ks), dict(op="pts", q=q)]

# machines and tables
TY = ("Drift", "Drift", "Drift", "Quadrupole", "SectorBend", "Marker", "Monitor", "Collimator")
NOAP = dict(k="none")
def machine(r, n, owns=True):
    els = []
    for i in range(n):
        ty = r.choice(TY); L = 0 if ty == "Marker" else r.randint(0, 2) if ty == "Monitor" else r.choice([1, 2, 3, 4, 6, 8])
        own = dict(NOAP)
        if owns and r.random() < (.5 if ty == "Collimator" else .1):
            if L and r.random() < .6:
                c = collim(r, "plain"); c["len"] = L; c["t"] = [1, 0, 1]; c["w"], c["h"] = r.randint(16, 30), r.randint(16, 30)
                c.update(wx=c["w"] - r.randint(0, 3), hx=c["h"] - r.randint(0, 3), oxe=c["ox"] // 2, oye=c["oy"]); own = dict(c, k="coll")
            else:
                k = r.choice(KINDS); p = params(r, k, 20); own = dict(k=k, p=p[:1] if k == "circ" else p[:2] if k in ("rect", "ell") else p)
        els.append(dict(ty=ty, len=L, nm="e%d" % (i + 1), own=own))
    return els

def rowp(r, k, rect, oct_):
    if k == "rect": return rect[:]
    if k == "oct":
        for _ in range(50):
            f = [r.randint(3, 12), r.randint(3, 12)] + oct_[2:]
            if f[0] * f[2] <= 4 * f[1] and f[1] * f[3] <= 4 * f[0] and (f[0] * f[2] < 4 * f[1] or f[1] * f[3] < 4 * f[0]): return f
        return oct_[:]
    p = params(r, k, 12)
    if k == "circ" and r.random() < .5: return [p[0], 0, 0, 0]
    if k == "ell" and r.random() < .5: return [p[0], p[1], p[0], p[1]]
    return p

def next_(r, kinds, k, p, rect, oct_):
    """the next row: another one, or one that differs in a single size, or in its kind only"""
    x = r.random()
    if x < .25 and k in ("rectell", "ell") and "rectell" in kinds + [k]:
        i = r.randrange(4 if k == "rectell" else 2); q = list(p); q[i] = max(1, q[i] + r.choice([-3, -1, 1, 3, 5])) if q[i] < 9 else q[i] - 4
        if k == "ell" and q[2]: q[2:] = q[:2]
        return k, q
    if x < .35 and k in ("rect", "ell") and "rect" in kinds and "ell" in kinds: return "ell" if k == "rect" else "rect", rect[:]
    k = r.choice(kinds); return k, rowp(r, k, rect, oct_)

def table(r, total, els=None):
    """a table without wide gaps (the specification computes with 32-bit integers)"""
    while True:
        rows = table1(r, total, els); k = [0] + [v for x in rows if x["k"] != "blank" for v in (x["s"] - x["len"], x["s"])] + [total]
        if k[1] <= 8 and k[-1] - k[-2] <= 8 and all(b - a <= 12 for a, b in zip(k[1:-1], k[2:-1])): return rows

def table1(r, total, els=None):
    """rows in order along the machine, as MAD-X writes them"""
    rect = params(r, "rect", 12); oc = octp(r, r.randint(4, 12), r.randint(4, 12))
    kinds = r.choice([["circ"], ["ell"], ["rectell"], ["rect"], ["oct"], ["circ", "ell", "rectell"], ["circ", "ell", "rectell"], ["circ", "rect", "ell", "rectell"], ["rectell", "rect"]])
    rows = []; s = r.choice([0, 0, 0, 1, 2]); k = r.choice(kinds); p = rowp(r, k, rect, oc)
    ends = []; z = 0
    for e in els or []: z += e["len"]; ends.append((z, e["len"]))
    if els and r.random() < .5: # a row for each element
        for s, L in ends:
            if r.random() < .6: k, p = next_(r, kinds, k, p, rect, oc)
            rows.append(dict(s=s, len=L, k="blank" if r.random() < .15 else k, p=p))
        if any(x["k"] != "blank" for x in rows): return rows
    while s < total + r.choice([0, 0, 3]):
        L = r.choice([0, 0, 1, 2, 3, 4]); s += L
        if r.random() < .55: k, p = next_(r, kinds, k, p, rect, oc)
        rows.append(dict(s=s, len=L, k="blank" if r.random() < .1 else k, p=p))
        s += r.choice([0, 0, 0, 1, 2, 4])
        if len(rows) > 14 or r.random() < .05: break
    if all(x["k"] == "blank" for x in rows): rows.append(dict(s=s, len=0, k="circ", p=[5, 5, 5, 5]))
    return rows

def probes(r, els, n):
    q = []
    live = [i for i in range(len(els)) if els[i]["len"]] or [0]
    for _ in range(n):
        i = r.choice(live); q.append([i + 1, r.randint(-13, 13), r.randint(-13, 13), r.randint(0, els[i]["len"])])
    return q

def config(r, th=False):
    els = machine(r, r.randint(1, 10 if th else 7)); total = sum(e["len"] for e in els)
    ops = [dict(op="machine", elems=els), dict(op="table", rows=table(r, total, els)), dict(op="conf", log=r.random() < .2), dict(op="types"), dict(op="apts", q=probes(r, els, 50 if th else 30))]
    if r.random() < .3: ops += [dict(op="conf", log=False), dict(op="types"), dict(op="apts", q=probes(r, els, 10))]
    if r.random() < .3: # another table changes nothing until the apertures are deleted
        ops += [dict(op="table", rows=table(r, total, els))] + ([dict(op="delall"), dict(op="types")] if r.random() < .6 else []) + [dict(op="conf", log=False), dict(op="types"), dict(op="apts", q=probes(r, els, 30))]
    return ops

def survey(r, th=False):
    els = machine(r, r.randint(1, 6)); total = sum(e["len"] for e in els)
    ops = [dict(op="machine", elems=els)]
    if r.random() < .85: ops += [dict(op="table", rows=table(r, total, els)), dict(op="conf", log=False)]
    for _ in range(r.randint(1, 3)):
        mode = r.choice(["points", "dist", "abs"])
        step = r.choice([1, 2]) if mode == "points" else r.choice([1, 2, 3, 5])
        if mode == "points" and all(e["len"] % 2 == 0 for e in els) and r.random() < .7: step = 3
        ops.append(dict(op="survey", mode=mode, step=step, file=r.random() < .3))
    return ops
