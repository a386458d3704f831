"""Scenarios for collimation, loss reports, loss maps and the non-finite check (L01-L04)."""
TY = ("Drift", "Drift", "Quadrupole", "Marker", "Monitor", "Collimator", "Collimator")
NOAP = dict(k="none", a=0, b=0, c=0, d=0)

def ap(r, ty, small=False):
    k = r.choice(["none", "rect", "rect", "circ", "jaw", "taper"] if ty == "Collimator" else ["none", "none", "rect", "rect", "circ", "circ"])
    if k == "none": return dict(NOAP)
    s = r.choice([5, 12, 20])
    a, b = r.randint(2, s), r.randint(2, s)
    if k == "jaw": return dict(k=k, a=a, b=b, c=r.randint(-3, 3), d=r.randint(-3, 3))
    if k == "taper": return dict(k=k, a=a, b=b, c=max(1, a + r.randint(-6, 6)), d=max(1, b + r.randint(-6, 6)))
    return dict(k=k, a=a, b=b, c=0, d=0)

def elems(r, n, taper=True):
    res = []
    for i in range(n):
        ty = r.choice(TY)
        L = 0 if ty == "Marker" else 2 * r.choice([1, 2, 3, 4, 5, 10]) if ty != "Monitor" else 2 * r.randint(0, 2)
        x = ap(r, ty)
        if L == 0 and x["k"] in ("jaw", "taper"): x["k"] = "rect"
        if x["k"] == "taper" and not taper: x.update(k="jaw", c=0, d=0)
        res.append(dict(ty=ty, len=L, nm="e%d" % (i + 1), ap=x))
    if r.random() < .15: # like names
        for x in res: x["nm"] = r.choice(["a", "b", "c"])
    return res

def parts(r, n, wide=12):
    ids = list(range(1, n + 1)); r.shuffle(ids)
    return [[i, r.randint(-wide, wide), r.choice([0, 0, 1, -1, 2, -2]), r.randint(-wide, wide), r.choice([0, 0, 1, -1])] for i in ids]

def settings(r): return dict(op="settings", bin=r.choice([1, 2, 3, 4, 7]), thr=r.choice([100, 50, 25, 101]))

def proc(r, how=None, pats=None, el=None, **kw):
    how = how or r.choice(["no", "no", "all", "odd", "none"])
    pats = r.choice([["*"], ["e1*", "e3"], ["e2"], [], ["a|e4"]]) if pats is None else pats
    p = dict(mode=r.choice([1, 2, 3, 4, 4, 5, 6, 7, 7]), bin=r.choice([1, 1, 2, 3, 4, 100]), thr=r.choice([100, 101, 101, 101, 50, 30, 10]), index=r.random() < .6, how=how, pats=pats)
    d = dict(op="proc", pr=p, prio=r.choice([1, 2, 5]), six=r.random() < .5, own=r.random() < .6, limit=r.choice([0, 0, 1, 3, 4]))
    p.update(kw); return d

def hist(r, th=False):
    n = r.randint(1, 8 if th else 5); el = elems(r, n)
    ring = r.random() < .5
    ops = [dict(op="machine", elems=el, place=r.random() < .7), dict(op="sim", src=parts(r, r.randint(1, 10 if th else 6)), off=r.randint(0, n - 1) if ring else 0, ring=ring), proc(r)]
    have = left = 0; thr = False
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < .3: ops.append(dict(op="run")); have = 1; left = 0
        elif k < .6 and have: ops.append(dict(op="cont"))
        elif k < .7: ops.append(dict(op="track", ps=parts(r, r.randint(1, 6)))); have = left = 0
        elif k < .8: ops.append(settings(r))
        elif not ring:
            ops.append(dict(op="begin", ps=parts(r, r.randint(1, 6)))); ops += [dict(op="step")] * n; have = 1
    return ops

def clean(ops):
    return ops

def protons(r, th=False):
    n = r.randint(1, 3); el = []
    for i in range(n):
        a = r.randint(1, 4); b = r.randint(1, 4); tap = r.random() < .3
        el.append(dict(ty="Collimator", len=r.choice([2, 4, 8]), nm="e%d" % (i + 1), ap=dict(k="taper" if tap else "jaw", a=a, b=b, c=a + r.randint(-1, 1) if tap else 0, d=b if tap else 0)))
        if r.random() < .5: el.append(dict(ty="Drift", len=4, nm="d%d" % i, ap=dict(NOAP)))
    ps = [[i + 1, r.randint(-6, 6), r.choice([0, 0, 1, -1]), r.randint(-6, 6), 0] for i in range(40)]
    return [dict(op="machine", elems=el, place=True), dict(op="sim", src=ps, off=0, ring=False), proc(r, "proton", ["*"], thr=101, bin=r.choice([1, 2, 3, 8]))] + \
           [dict(op="proton", ps=ps, seed=r.randint(1, 10**6), P0=r.choice([7000, 7000, 450, 1, 0.2])) for _ in range(2)]

def lossmap(r, th=False):
    n = r.randint(1, 8); s = r.choice([0, 0, 1000]); el = []
    for i in range(n):
        L = r.choice([0, 0, 1, 25, 37, 100, 333])
        coll = r.random() < .3
        el.append(dict(nm="m%d" % (i + 1), s=s, len=L, coll=coll)); s += L + r.choice([0, 0, 0, 7])
    if r.random() < .2:
        for x in el: x["nm"] = r.choice(["a", "b"])
        # like names only at different places
        seen = set(); el = [x for x in el if not ((x["nm"], x["s"], x["coll"]) in seen or seen.add((x["nm"], x["s"], x["coll"])))]
    ops = [dict(op="lmap", elems=el, mode=r.choice(["near", "precise", "tencm"]))]
    starts = [x["s"] for x in el]
    def warm():
        a = r.choice(starts) + r.choice([0, -5, 3]); return dict(op="warm", r=[a, a + r.choice([0, 2, 40, 300])])
    for _ in range(r.randint(0, 3)): ops.append(warm())
    def loss():
        e = r.randint(1, len(el)); L = el[e - 1]["len"]
        p = r.choice([0, L, r.randint(0, L)])
        if p % 10 == 0 and p: p = p - 1
        return dict(op="dispose", e=e, p=p)
    pool = [loss() for _ in range(r.randint(1, 15))]
    for _ in range(r.randint(0, 60 if th else 30)): ops.append(dict(r.choice(pool)))
    ops.append(dict(op="final"))
    for _ in range(r.randint(0, 2)):
        if r.random() < .3: ops.append(dict(op="nowarm"))
        if r.random() < .3: ops.append(warm())
        if r.random() < .7: ops += [dict(r.choice(pool + [loss()])) for _ in range(r.randint(0, 8))] + [dict(op="final")]
    return ops + [dict(op="final")]

def nans(r, th=False):
    ops = [dict(op="nproc", cull=r.random() < .7, detailed=r.random() < .3)]
    for _ in range(r.randint(1, 3)):
        n = r.randint(1, 8); uniq = r.random() < .5
        ids = r.sample(range(1, 50), n) if uniq else [r.choice([0, 0, 1, 2]) for _ in range(n)]
        ops.append(dict(op="nbunch", ids=ids))
        spare = {t: r.choice([0, 2, 5]) for t in range(1, n + 1)} # the coordinate by which the driver knows the particle
        def hit(cs):
            t = r.randint(1, n); return t, r.choice([c for c in cs if c != spare[t]])
        for i in range(r.randint(1, 6)):
            how = r.choice(["direct", "run"]) if i == 0 else r.choice(["direct", "again"])
            for _ in range(r.randint(0, 2) if how != "run" else 0):
                t, c = hit(range(6)); ops.append(dict(op="npoison", tag=t, c=c, v=r.choice(["nan", "inf", "-inf"])))
            q = [list(hit((0, 2, 4) if how == "run" else range(6))) for _ in range(r.choice([0, 0, 1, 2]))]
            ops.append(dict(op="ncheck", how=how, e=r.randint(0, 2), q=q, g=r.choice([0, 1])))
            if how == "run": break
    return ops
