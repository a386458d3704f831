"""Scenarios for tracking (T01-T04)."""
import geom as gg
TY = ("Drift", "Drift", "Quadrupole", "Monitor", "Marker")
def rects(r, t):
    """give types to the field-free components; patches only translate or turn about the axis"""
    for n in t.ids():
        x = t[n]
        if x["k"] == "rect":
            x["ty"] = r.choice(TY)
            if x["ty"] == "Marker": x["len"] = 0
        if x["k"] == "patch":
            x["ops"] = [dict(t="shift", v=[r.randint(-2, 2) for _ in range(3)])] if r.random() < .7 else []
            if r.random() < .5 or not x["ops"]: x["ops"].append(dict(t="z", k=r.choice([1, 2, -1])))
    return t

def inner_patches(t):
    return all(t[t[n]["kids"][0]]["k"] != "patch" and t[t[n]["kids"][-1]]["k"] != "patch" for n in t.ids() if t.cont(n))

def tree(r, depth=3, maxn=18, kinds=("seq", "seq", "mover", "simple", "girder"), patches=True):
    while True:
        t = gg.Tree(); t.add(0, k="seq", org=0); t[1]["kids"] = []
        gg.fill(r, t, 1, r.randint(0, depth), patches, kinds, arcs=False)
        if len(t.nodes) > maxn: continue
        rects(r, t)
        if t.valid() and inner_patches(t) and t.comps(): return t

def xf(r):
    res = []
    for _ in range(r.randint(1, 2)):
        if r.random() < .6: res.append(dict(t="shift", v=[r.randint(-2, 2) for _ in range(3)]))
        else: res.append(dict(t="z", k=r.choice([1, 2, 3])))
    return res

def misalign(r, t, k):
    ops = []
    c = [n for n in t.ids() if n != 1 and t[n]["k"] != "patch"]
    mv = [n for n in c if t[n]["k"] == "mover"]
    for _ in range(k):
        if mv and r.random() < .4:
            w = r.choice(["x", "y", "roll", "reset"]); ops.append(dict(op="move", n=r.choice(mv), w=w, v=r.randint(-1, 2)))
        elif r.random() < .15: ops.append(dict(op="clear", n=r.choice(c)))
        else: ops.append(dict(op="apply", n=r.choice(c), ops=xf(r)))
    return ops

def rays(r, k=None): return [[r.randint(-5, 5), r.randint(-1, 1), r.randint(-5, 5), r.randint(-1, 1)] for _ in range(k or r.randint(1, 3))]

def proc(r, i, t=None, thr=False):
    lim = r.choice(["none", "none", "max", "grid", "ent"])
    c = [n for n in t.comps()] if t else [1]
    return dict(id=i, pr=r.choice([0, 1, 1, 2, 3]), act=r.choice(["always", "always", "never", "quad", "long", "once"]),
                lim=lim, g=r.choice([1, 2, 3]), thr=r.choice(c) if thr else 0)

def sim(r, t, ring=None, **kw):
    n = len(t.atoms(1))
    ring = (r.random() < .4) if ring is None else ring
    at = t.atoms(1)
    a = r.randint(0, n - 1); b = r.randint(a, n - 1)
    if not ring and r.random() < .5: a, b = 0, n - 1
    comps = t.comps()
    pats = []
    for _ in range(r.randint(0, 2)):
        pats.append(r.choice(["Drift.*", "Quadrupole.*", "*", "*.n1*", "*.n%d" % r.choice(comps), "Monitor.n*", "Marker.*|Drift.n2*", "n%d" % r.choice(comps)]))
    d = dict(op="sim", how=r.choice(["ctor", "ctor", "late", "particle"]), ring=ring, a=a, b=b, flat=r.random() < .25, inj=r.random() < .25, handle=False, log=r.random() < .2,
             out=r.random() < .7, oall=r.random() < .3, oini=r.random() < .5, ofin=r.random() < .5, pats=pats, rays=rays(r))
    d.update(kw); return d

def startable(t, a):
    return True

def run01(r, thorough=False):
    t = tree(r, maxn=24 if thorough else 16)
    ops = [gg.mk(t)] + misalign(r, t, r.randint(0, 5))
    thr = r.random() < .15
    s = sim(r, t, handle=thr and r.random() < .5); ops.append(s)
    for i in range(1, r.randint(1, 4)): ops.append(dict(op="addp", p=proc(r, i, t, thr and r.random() < .6)))
    ops.append(dict(op="run"))
    if not thr:
        for _ in range(r.randint(0, 2)): ops.append(dict(op="cont"))
        if r.random() < .3: ops += misalign(r, t, 1) + [dict(op="run")]
        if r.random() < .3: ops += [dict(op="option", flat=r.random() < .5, inj=r.random() < .5), dict(op="run")]
        if r.random() < .3: ops += [dict(op="track", rays=rays(r), t0=r.randint(0, 9))]
    return ops + [dict(op="source")]

def hist03(r, thorough=False):
    t = tree(r, maxn=20 if thorough else 14)
    n = len(t.atoms(1))
    ops = [gg.mk(t)] + misalign(r, t, r.randint(0, 4)) + [sim(r, t)]
    ring = ops[-1]["ring"]; N = n if ring else ops[-1]["b"] - ops[-1]["a"] + 1
    npid, live = 1, []
    for _ in range(r.randint(0, 2)): ops.append(dict(op="addp", p=proc(r, npid, t))); live.append(npid); npid += 1
    have = False; left = 0; removed = set()
    for _ in range(r.randint(4, 30 if thorough else 14)):
        k = r.random()
        if k < .2: ops.append(dict(op="run")); have = True
        elif k < .35 and have: ops.append(dict(op="cont"))
        elif k < .5 and not ring: ops.append(dict(op="initstep", fresh=r.random() < .7)); left = N; have = True
        elif k < .55 and not ring: ops.append(dict(op="initbunch", rays=rays(r))); left = N; have = True
        elif k < .8 and left and have:
            for _ in range(r.choice([1, 2, left])):
                if left: ops.append(dict(op="step")); left -= 1
        elif k < .85: ops.append(dict(op="track", rays=rays(r), t0=r.randint(0, 9))); have = False; left = 0
        elif k < .9:
            a = r.randint(0, n - 1); b = r.randint(a, n - 1); ring = r.random() < .2
            ops.append(dict(op="range", ring=ring, a=a, b=b)); N = b - a + 1
        elif k < .93: ops.append(dict(op="option", flat=r.random() < .4, inj=r.random() < .4))
        elif k < .96: ops.append(dict(op="addp", p=proc(r, npid, t))); live.append(npid); npid += 1
        elif live: ops.append(dict(op="remp", id=r.choice(live)))
    return ops + [dict(op="source")]

def split03(r):
    """the whole beamline, then its parts one after the other"""
    t = tree(r, maxn=16, patches=r.random() < .7); n = len(t.atoms(1))
    ops = [gg.mk(t)] + misalign(r, t, r.randint(0, 4)) + [sim(r, t, ring=False, a=0, b=n - 1, inj=False), dict(op="run")]
    cuts = sorted(set([0, n] + [r.randint(0, n) for _ in range(2)])); first = True
    for a, b in zip(cuts, cuts[1:]):
        ops += [dict(op="range", ring=False, a=a, b=b - 1), dict(op="run" if first else "cont")]; first = False
    ops += [dict(op="range", ring=False, a=0, b=n - 1), dict(op="initstep", fresh=True)] + [dict(op="step")] * n
    return ops

def procs02(r, thorough=False):
    comps = []
    for _ in range(r.randint(1, 3)):
        ty = r.choice(["Drift", "Quadrupole", "Marker"]); comps.append(dict(ty=ty, len=0 if ty == "Marker" else r.choice([0, 1, 2, 3, 4, 5, 7, 10, 30])))
    ops = [dict(op="pnew", comps=comps)]
    P = {}; inn = []
    for _ in range(r.randint(3, 25 if thorough else 14)):
        k = r.random()
        if k < .35:
            i = len(P) + 1; P[i] = proc(r, i); P[i]["g"] = r.choice([1, 2, 3, 4, 7]); ops.append(dict(op="padd", p=P[i])); inn.append(i)
        elif k < .5 and P:
            i = r.choice(list(P)); ops.append(dict(op="prem", id=i))
            if i in inn: inn.remove(i)
        elif k < .57 and P:
            i = r.choice(list(P))
            if i not in inn: ops.append(dict(op="padd", p=P[i])); inn.append(i)
        elif k < .67: ops.append(dict(op="pinit"))
        elif k < .7 : ops.append(dict(op="plog", on=r.random() < .5))
        elif k < .72: ops.append(dict(op="pclear")); P = {}; inn = []
        else: ops.append(dict(op="ptrack", c=r.randint(1, len(comps))))
    for c in range(len(comps)): ops.append(dict(op="ptrack", c=c + 1))
    return ops

def mk02(comps, ops): return [dict(op="pnew", comps=comps)] + ops

def tracker04(r, k):
    ops = [dict(op="tnew")]
    for _ in range(k):
        ty = "Drift" if r.random() < .85 else "Marker"; L = r.choice([0, 1, 2, 3, 5, 10, 40]) if ty == "Drift" else 0
        ops.append(dict(op="tprep", ty=ty, len=L))
        if r.random() < .2: ops.append(dict(op="tall"))
        elif r.random() < .1: ops.append(dict(op="treset")); continue
        else:
            p = 0; n = 0
            while True:
                if r.random() < .15: ops.append(dict(op="tstep", ds=L - p + r.randint(1, 4)))
                ds = r.choice([0, 1, 1, 2, 3, L - p]); ds = min(ds, L - p)
                ops.append(dict(op="tstep", ds=ds)); p += ds; n += 1
                if p == L: break
                if r.random() < .05: ops.append(dict(op="treset")); break
    return ops

def compose(r, L, k):
    st, p = [], 0
    for _ in range(k - 1): d = r.choice([0, 0, 1, 2, 3]); d = min(d, max(0, L - p - 1)); st.append(d); p += d
    return st + [L - p]

def subdivs(r, k):
    ops = []
    for _ in range(k):
        ty = r.choice(["Drift", "Quadrupole", "SkewQuadrupole", "Solenoid", "Monitor", "Monitor", "SectorBend", "SectorBend"])
        st = r.choice(["thin", "tran", "symp"]); tol = 12; dp = True
        L = r.choice([2, 4, 10, 20]); kk = r.choice([1, 2, 3, -2])
        if "Quad" in ty: dp = False
        if ty == "SectorBend" and st == "tran": tol = 7
        if ty == "Monitor": kk = r.randint(-(L // 2), L // 2)
        rs = [[r.randint(-20, 20), r.choice([-7, -3, 4, 9]), r.randint(-20, 20), r.randint(-9, 9), r.randint(-9, 9), r.randint(-50, 50) if dp else 0] for _ in range(2)]
        if ty == "Monitor": rs = rs[:1]
        if ty == "Monitor" and r.random() < .15: L = kk = 0; steps = [0]
        else: steps = compose(r, L, r.randint(1, 5))
        ops.append(dict(op="subdiv", ty=ty, set=st, len=L, k=kk, pole=r.random() < .6, rays=rs, steps=steps, tol=tol))
    return ops
