"""Maps: magnets and cavities, tracked in the ways of the integrator sets. Numbers are integers in units of 1e-6"""
import random
U = 10**6
def u(x): return int(round(x * U))
ANG = [(U, 0), (U, 0), (U, 0), (800000, 600000), (600000, 800000), (0, U), (-U, 0), (800000, -600000), (923077, 384615)]
def direction(r, six=True):
    v = [r.choice([0, 0, U, -U, U // 2, U]) for _ in range(4)] + [r.choice([0, 0, U // 2]), r.choice([0, 0, U, -U // 2]) if six else 0]
    if not any(v): v[r.randrange(4)] = U
    return v
def steps(r, L):
    if r.random() < .65: return []
    n = r.randint(1, 3)
    s = [u(round(L / U / (n + r.choice([0, 1])), 2)) for _ in range(n)]
    return s if sum(s) + 20000 < L + s[-1] else []
def coef(r, m=1.5): return u(round(r.uniform(-m, m), 2))
def mult(r, what=None):
    what = what or r.choice(["quad", "quad", "skew", "rotq", "sext", "rots", "oct", "dip", "q+s", "q+d", "rq+d", "rq+s", "s+d", "s+o", "thin", "all"])
    L = u(r.choice([.2, .5, .8, 1]))
    g = lambda n, t: [n, coef(r) if "n" in t else 0, coef(r) if "s" in t else 0]
    d = lambda t: [0, u(round(r.uniform(-.005, .005), 5)) if "n" in t else 0, u(round(r.uniform(-.005, .005), 5)) if "s" in t else 0]
    f = dict(quad=lambda: [g(1, "n")], skew=lambda: [g(1, "s")], rotq=lambda: [g(1, "ns")], sext=lambda: [g(2, "n")], rots=lambda: [g(2, r.choice(["s", "ns"]))], oct=lambda: [g(3, "ns")], dip=lambda: [d(r.choice(["n", "s", "ns"]))])
    F = {"q+s": lambda: f["quad"]() + f["rots"](), "q+d": lambda: f["quad"]() + f["dip"](), "rq+d": lambda: f["rotq"]() + f["dip"](), "rq+s": lambda: f["rotq"]() + f["rots"](), "s+d": lambda: f["rots"]() + f["dip"](),
         "s+o": lambda: f["rots"]() + f["oct"](), "all": lambda: f["dip"]() + f["rotq"]() + f["rots"]() + f["oct"](), "thin": lambda: r.choice([f["dip"], f["rotq"], f["rots"], lambda: f["dip"]() + f["rotq"]()])()}
    F["thinq"] = lambda: r.choice([f["dip"], f["rotq"], F["rq+d"]])()
    fs = F[what]() if what in F else f[what]()
    if what in ("thin", "thinq"): L = 0
    return dict(k="mult", L=L, f=fs, steps=steps(r, L) if L else [])
def bend(r, q, set_, faces=True):
    h = r.choice([1, -1, .5, .2, -.3, .1, .8]); L = u(r.choice([.2, .5, 1]))
    ratio = 1 if set_ == "symp" or r.random() < .8 else r.choice([1.02, .97, 1.005])
    b0 = u(q * h * ratio)
    w = r.random(); fs = []
    if w < .35: fs = [[1, coef(r, 1), 0]]
    elif w < .45: fs = [[1, coef(r, 1), 0], [2, coef(r), coef(r)]]
    elif w < .5: fs = [[2, coef(r), 0]]
    elif w < .55: fs = [[0, b0, u(round(r.uniform(-.005, .005), 5))], [1, 0, coef(r)]]
    k1 = sum(c[1] for c in fs if c[0] == 1) * q
    if set_ != "thin" and k1 and abs(k1 / U + h * h) < .02 or set_ == "trans" and abs(5 * k1 / U * ratio + h * h) < .1: return bend(r, q, set_, faces)
    e = dict(k="bend", L=L, h=u(h), b0=b0, f=fs, tilt=list(r.choice(ANG)), faces="none", steps=steps(r, L))
    def face(): return [list(r.choice([(U, 0), (995037, 99504), (980581, 196116), (995037, -99504), (995037, 99504), (980581, -196116)])), r.choice([0, u(.5), u(.7), u(.4)]), r.choice([0, u(.02), u(.05)])]
    e["in"] = []; e["out"] = []
    if r.random() < .5:
        e["faces"] = r.choice(["same", "both", "both"]); e["in"] = face()
        if e["faces"] == "both":
            if r.random() < .2: e["in"] = []
            e["out"] = face() if r.random() < .8 else []
    return e
PH = [(U, 0), (800000, 600000), (600000, -800000), (-U, 0), (-600000, 800000), (960000, 280000), (960000, -280000)]
def cav(r, s, kind=None):
    """cavities: amplitude g per reference momentum at the start, wave number wk; full: 1 with the reference, 0 without, 2 as it comes"""
    k = kind or r.choice({"trans": ["tw", "tw", "sw", "trf"], "thin": ["tw", "tw", "trf"], "symp": ["tw", "sw"], "smp": ["tw"]}[s])
    wk = u(r.choice([1, 2.5, 6, 10])); L = u(r.choice([.3, .5, 1])); phi = list(r.choice(PH + [(0, U)]))
    g = lambda L: u(round(r.choice([.02, .1, .2, .3, -.1, -.25]) * U / L, 3))
    if k == "sw":
        wk = u(r.choice([5, 8, 12])); n = r.randint(1, 7); L = int(round(n * 3.14159265358979 / wk * U * U))
        return dict(k="sw", n=n, wk=wk, L=L, g=g(L), phi=list(r.choice(PH)), steps=[])
    e = dict(k=k, wk=wk, L=L, g=g(L) if r.random() < .9 else 0, phi=phi, steps=steps(r, L))
    if k == "trf": e["th"] = list(r.choice(ANG))
    else: e["full"] = r.choice([1, 1, 2]) if s == "smp" or r.random() < .7 else 0
    return e
def cavs(r, th=False, set_=None):
    """cavities, and magnets that follow the grown momentum"""
    out = []
    for _ in range(r.randint(1, 3)):
        s = set_ or r.choice(["trans", "thin"]); q = r.choice([1, -1]); els = []; v = direction(r, True); buzz = s == "symp"
        if r.random() < .7: v[4] = r.choice([U // 2, U // 5, -U // 2])
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice(["cav", "cav", "drift", "mult"]) if els else "cav"
            if k == "cav": els.append(cav(r, s)); buzz |= els[-1].get("full") == 0
            elif k == "drift" or buzz or any(e["k"] == "trf" for e in els): els.append(dict(k="drift", L=u(r.choice([.3, 1])), steps=[]))
            else: els.append(mult(r, r.choice(["quad", "rotq", "q+d"])))
        if buzz: els = [e for e in els if e["k"] != "mult"]
        seen = False
        for e in els: # a kick moves the axis: then no further cavity
            if e["k"] == "trf" or e["k"] == "mult": seen = True
        if seen: # at most one of these, at the end
            j = next(i for i, e in enumerate(els) if e["k"] in ("trf", "mult")); els = els[:j + 1]
        out.append(dict(op="map", set=s, els=els, P0=r.choice([1, 5, 7000]), q=q, z=[0] * 6, v=v))
    return out
def maps(r, th=False, set_=None, only=None):
    out = []
    for _ in range(r.randint(1, 3)):
        s = set_ or r.choice(["trans", "trans", "thin", "symp"]); q = r.choice([1, 1, -1]); els = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = only or r.choice(["drift", "mult", "mult", "bend", "bend", "sol" if s != "symp" else "mult", "marker"])
            if k == "drift": L = u(r.choice([.3, 1, 2])); els.append(dict(k="drift", L=L, steps=steps(r, L)))
            elif k == "marker": els.append(dict(k="marker", L=0, steps=[]))
            elif k == "sol": L = u(r.choice([.5, 1, 2])); els.append(dict(k="sol", L=L, ks=coef(r, 1.5), steps=steps(r, L)))
            elif k == "mult":
                m = mult(r)
                if s == "thin" and m["L"] == 0: continue
                els.append(m)
            else: els.append(bend(r, q, s))
        if s == "symp" and any(e["k"] == "bend" or any(t[0] == 0 for t in e.get("f", [])) for e in els): z = [0] * 6
        else: z = [0, 0, 0, 0, 0, r.choice([20000, -50000, 100000, 300]) if s == "symp" and r.random() < .4 else 0]
        if els: out.append(dict(op="map", set=s, els=els, P0=r.choice([1, 5, 7000]), q=q, z=z, v=direction(r, not z[5])))
    return out or maps(r, th, set_, only)

def macro(r):
    """macroparticles: small offsets, an energy each, moments of a few hundredths"""
    m = [u(round(r.uniform(-.05, .05), 3)) for _ in range(4)] + [u(round(r.uniform(-.02, .02), 3)), r.choice([0, 0, 20000, -50000, 100000, 5000])]
    b = [[r.uniform(-.3, .3) for _ in range(4)] for _ in range(4)]
    s = [[u(round(sum(b[i][k] * b[j][k] for k in range(4)), 4)) for j in range(i + 1)] for i in range(4)]
    return dict(m=m, s=s)
def smp(r, th=False, only=None):
    out = []
    for _ in range(r.randint(1, 2)):
        q = r.choice([1, 1, -1]); els = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = only or r.choice(["drift", "mult", "mult", "bend", "bend", "sol", "marker", "cav"])
            if k == "drift": L = u(r.choice([.3, 1, 2])); els.append(dict(k="drift", L=L, steps=steps(r, L)))
            elif k == "marker": els.append(dict(k="marker", L=0, steps=[]))
            elif k == "cav": els.append(cav(r, "smp"))
            elif k == "sol": L = u(r.choice([.5, 1, 2])); els.append(dict(k="sol", L=L, ks=coef(r, 1.5), steps=steps(r, L)))
            elif k == "mult": els.append(mult(r, r.choice(["quad", "quad", "skew", "rotq", "dip", "q+d", "rq+d", "thinq"])))
            else:
                e = bend(r, q, "smp"); e["f"] = [t for t in e["f"] if t[0] == 1 and not t[2]]; els.append(e)
        if any(e["k"] == "cav" or e["k"] == "tw" for e in els): els = [e for e in els if e["k"] != "bend"]
        out.append(dict(op="smp", set="smp", els=els, P0=r.choice([1, 5, 7000]), q=q, p=[macro(r) for _ in range(r.randint(1, 2))]))
    return out
