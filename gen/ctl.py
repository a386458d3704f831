"""Scenarios for fields, windings and channels (K01, K05)."""
MAGS = ["Quadrupole", "Sextupole", "Octupole", "Decapole", "SkewQuadrupole", "SkewSextupole", "XCor", "YCor", "SectorBend"]
RECT = MAGS[:-1]
RFS = ["TWRFStructure", "SWRFStructure", "TransverseRFStructure"]
TYPES = MAGS + RFS + ["Solenoid", "MagnetMover", "CorrectorWinding", "BPM", "Drift"]
NAMES = ["a", "b", "q1", "q10", "q2", "b1"]
KEYS = ["*", "*", "B0", "B1", "B2", "B3", "Bz", "X", "Y", "Roll", "ROLL", "E", "Phi", "Lambda", "K", "B*", "*1", "X|Y", "B0|B1", "E|Phi", "R*", "Z", "*a*", "B", "b1"]
def fr(n, d=1): 
    from math import gcd
    g = gcd(n, d) or 1; return [n // g, d // g]
def val(r, pos=False, big=8):
    n = r.choice([1, 1, 2, 3, 5, r.randint(1, big)]); d = r.choice([1, 1, 2, 4, 8])
    if not pos and r.random() < .08: n = 0
    return fr(-n if not pos and r.random() < .4 else n, d)
def desc(r, ty, nm):
    return dict(ty=ty, nm=nm, len=r.choice([[1, 1], [1, 2], [2, 1], [1, 4], [3, 1]]), how=r.choice(["grad", "field"]), v=val(r, r.random() < .5), r=r.choice([[1, 1], [1, 2], [2, 1]]),
                mod=1, bl=-1, m=0, k=fr(r.choice([1, 2, 3, 4, 10]), r.choice([1, 2])), phi=val(r), roll=val(r))
def machine(r, n, types=TYPES, w=None):
    els, used, bl, held = [], set(), 0, False
    for _ in range(n):
        ty = r.choice(types)
        if held and ty in ("MagnetMover", "CorrectorWinding"): ty = "Drift"
        nm = r.choice(NAMES)
        if ty == "CorrectorWinding":
            c = [i for i, e in enumerate(els) if e["ty"] in RECT and ("CorrectorWinding", e["nm"]) not in used]
            if not c: continue
            i = r.choice(c); nm = els[i]["nm"]; d = desc(r, ty, nm); d["m"] = i + 1
        else: d = desc(r, ty, nm)
        if (ty, nm) in used: continue
        used.add((ty, nm))
        if ty == "MagnetMover": held = True
        elif ty != "CorrectorWinding": d["bl"] = bl; bl += 1; held = False
        els.append(d)
    if held: d = desc(r, "Drift", "last"); d["bl"] = bl; els.append(d); bl += 1
    return els, bl
def pattern(r, els):
    e = r.choice(els) if els else dict(ty="Drift", nm="a")
    tp = r.choice([e["ty"], e["ty"], "*", "*", "Skew*", "*pole", "*or", "S*", r.choice(TYPES), "*RF*", "*W*"])
    nm = r.choice([e["nm"], e["nm"], "*", "*", "q*", "b*", "*1", "q1", "none"])
    return tp, nm, r.choice(KEYS)
def look(r, els):
    i = r.choice([k for k, e in enumerate(els) if e["ty"] in MAGS]) + 1; w = r.choice(["comp", "coef", "kn", "field", "field", "b", "force"])
    z = [fr(r.randint(-3, 3), 2), fr(r.randint(-3, 3), 2)]
    return dict(op="look", e=i, what=w, n=r.randint(0, 7) if w != "field" else r.randint(-1, 7), r=r.choice([[1, 1], [2, 1], [1, 2]]) if w in ("comp", "coef") else r.choice([[1, 1], [2, 1], [-1, 1], [1, 2], [4, 1], [3, 1]]), z=z, v=[val(r), val(r), val(r)])
def direct(r, els):
    i = r.randrange(len(els)); t = els[i]["ty"]; e = i + 1
    if t in MAGS:
        k = r.random(); n = r.choice([0, 0, 1, 2, 3, 4, 5]); rad = r.choice([[1, 1], [1, 1], [2, 1], [1, 2]])
        if k < .25: return dict(op="scale", e=e, v=val(r, r.random() < .7), how=r.choice(["scale", "strength"]))
        if k < .6: return dict(op="comp", e=e, n=n, v=[val(r), val(r) if r.random() < .5 else [0, 1]], r=rad, how=r.choice(["short", "long"]))
        if k < .8: return dict(op="coef", e=e, n=n, v=[val(r), val(r)], r=rad)
        if t in RECT and k < .88: return dict(op="newwind", e=e)
        return dict(op="copy", e=e)
    if t == "CorrectorWinding": return dict(op="wind", e=e, pl=r.choice("XY"), v=val(r))
    if t == "Solenoid": return dict(op="set", e=e, key="Bz", v=val(r))
    if t == "MagnetMover": return dict(op="set", e=e, key=r.choice(["X", "Y", "Roll"]), v=val(r, False, 3))
    if t in RFS:
        if r.random() < .15: return dict(op="copy", e=e)
        k = r.choice(["E", "Phi", "Lambda", "K"] + (["ROLL"] if t[1] == "r" else [])); return dict(op="set", e=e, key=k, v=val(r, k in ("Lambda", "K")))
    if t == "BPM": return dict(op="measure", e=e, x=val(r), y=val(r))
    return None
def mirror(els, o):
    if o["op"] in ("newwind", "copy"):
        d = dict(els[o["e"] - 1]); d["mod"], d["bl"] = 0, -1
        if o["op"] == "newwind": d["ty"] = "CorrectorWinding"; d["m"] = o["e"]
        els.append(d)
def fields(r, th=False):
    """settings of a few magnets by every view"""
    els, n = machine(r, r.randint(1, 5), MAGS + ["CorrectorWinding"] * 5)
    if not any(e["ty"] in MAGS for e in els): return fields(r, th)
    ops = [dict(op="build", el=[dict(e) for e in els])]
    for _ in range(r.randint(3, 40 if th else 24)):
        o = look(r, els) if r.random() < .4 else direct(r, els)
        if o and len(els) < 9 or o and o["op"] not in ("newwind", "copy"): ops.append(o); mirror(els, o)
    return ops
def chan(c, e): return c
import fnmatch
def chans(els, tp, nm, key, rw, line, a, b):
    K = dict(Solenoid=["Bz"], Quadrupole=["B1"], SkewQuadrupole=["B1"], Sextupole=["B2"], SkewSextupole=["B2"], Octupole=["B3"], XCor=["B0"], YCor=["B0"], SectorBend=["B0", "B1"], MagnetMover=["X", "Y", "Roll"],
             TWRFStructure=["E", "Phi", "Lambda", "K"], SWRFStructure=["E", "Phi", "Lambda", "K"], TransverseRFStructure=["E", "Phi", "Lambda", "K", "ROLL"], CorrectorWinding=["X", "Y"], BPM=["X", "Y"])
    g = lambda p, s: any(fnmatch.fnmatchcase(s, q) for q in p.split("|"))
    return [(i, k) for i, e in enumerate(els) if e["mod"] and g(tp + "." + nm, e["ty"] + "." + e["nm"]) and (not line or b < 0 and e["bl"] >= 0 or 0 <= a <= e["bl"] <= b) for k in K.get(e["ty"], []) if g(key, k) and not (rw and e["ty"] == "BPM")]
def channels(r, th=False):
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        els, n = machine(r, r.randint(1, 12))
        if not els: continue
        ops.append(dict(op="build", el=[dict(e) for e in els])); arr, ns = [], 0; arrs = []
        for _ in range(r.randint(3, 40 if th else 22)):
            k = r.random()
            if k < .22 or not arrs:
                tp, nm, key = pattern(r, els); line = n > 0 and r.random() < .45; a = b = -1
                if line and r.random() < .4: a = r.randrange(n); b = r.randint(a, n - 1)
                rw = r.random() < .6; cs = chans(els, tp, nm, key, rw, line, a, b)
                o = dict(op="get", tp=tp, id=nm, key=key, rw=rw, line=line, a=a, b=b, late=r.random() < .2)
                if rw and r.random() < .25: o["op"] = "state"; ns += 1; ops.append(o); continue
                arrs.append((rw, cs)); ops.append(o); continue
            j = r.randrange(len(arrs)); rw, cs = arrs[j]
            if k < .42: ops.append(dict(op="read", k=j + 1, how=r.choice(["all", "conv", "n", "op"])))
            elif k < .46: ops.append(dict(op="move", k=j + 1))
            elif k < .52 and ns: ops.append(dict(op=r.choice(["cache", "restore"]), k=r.randint(1, ns)))
            elif k < .80:
                if rw and cs:
                    pos = any(c[1] in ("Lambda", "K") for c in cs); inc = r.random() < .45; how = r.choice(["vec", "assign", "scalar", "n", "op"])
                    if how == "scalar" and any(c[1] == "K" for c in cs): how = "n"
                    ops.append(dict(op="write", k=j + 1, inc=inc, how=how, v=[val(r, pos, 4) for _ in cs])) if r.random() < .6 else \
                    ops.append(dict(op="write1", k=j + 1, i=r.randint(1, len(cs)), inc=inc, how=r.choice(["n", "op"]), v=val(r, pos, 4)))
                elif not rw and cs:
                    bp = [c for c in cs if els[c[0]]["ty"] == "BPM"]
                    if len(bp) == len(cs): ops.append(dict(op="offset", k=j + 1, i=r.randint(1, len(cs)), v=val(r)))
            else:
                o = look(r, els) if any(e["ty"] in MAGS for e in els) and r.random() < .15 else direct(r, els)
                if o and (o["op"] not in ("newwind", "copy") or len(els) < 16): ops.append(o); mirror(els, o)
    return ops or channels(r, th)
