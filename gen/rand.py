"""random scripts for random streams and ground motion"""
SEEDS = [["1"], ["2"], ["4294967295"], ["0"], ["7", "8"], ["7", "8", "9"], ["8", "7"], []]
NAMES = ["", "a", "b", "SynchRad", "PhotonSpectrumGen"]
KINDS = ["normal", "cut", "uniform", "poisson", "landau", "HB", "AW"]
def req(r, th=False):
    k = r.choice(KINDS); e = {"kind": k, "a": [0, 1], "b": [1, 1], "c": [0, 1]}
    if k in ("normal", "cut", "uniform"):
        e["a"] = r.choice([[0, 1], [0, 1], [3, 1], [-5, 2]]); e["b"] = r.choice([[1, 1], [2, 1], [1, 4], [8, 1], [1, 1024]] + ([[0, 1]] if r.random() < .2 else []))
    if k == "cut": e["c"] = r.choice([[1, 2], [1, 1], [2, 1], [3, 1], [-1, 1], [-2, 1], [0, 1]])
    if k == "poisson": e["a"] = r.choice([[1, 2], [1, 1], [4, 1], [16, 1], [40, 1]])
    if k in ("HB", "AW"): e["b"] = r.choice([[1, 1], [2, 1], [1, 8], [64, 1]])
    return e
def streams(r, th=False):
    out = []; held = {}; on = False
    if r.random() < .9: out.append({"op": "init", "how": "init", "seed": r.choice(SEEDS[:7]), "one": False}); on = True
    pool = r.sample(NAMES, 3); reqs = [req(r) for _ in range(2)]; sd = r.sample(SEEDS, 2)
    for _ in range(r.randint(6, 24 if th else 14)):
        x = r.random()
        if x < .18:
            s = r.choice(sd); out.append({"op": "init", "how": r.choice(["init", "reset"]), "seed": s, "one": len(s) == 1 and r.random() < .5}); on = True
        elif x < .21: out.append({"op": "auto"}); on = True
        elif x < .3 and on: out.append({"op": "again"})
        elif x < .5: out.append(dict({"op": "draw", "n": r.randint(1, 3)}, **r.choice(reqs))); on = True
        elif x < .55: out.append(dict({"op": "stats"}, **req(r))); on = True
        elif x < .75:
            n = r.choice(pool)
            if n or on: out.append({"op": "raw", "name": n, "n": r.randint(1, 3)}); on = True
        elif x < .83:
            n = r.choice(NAMES[1:]); i = r.randint(1, 3); out.append({"op": "hold", "slot": i, "name": n}); held[i] = n; on = True
        elif x < .93 and held: out.append({"op": "rawheld", "slot": r.choice(list(held)), "n": r.randint(1, 2)})
        elif on: out.append({"op": "relocal", "name": r.choice(NAMES[1:])})
    for e in out:   # nothing is said of a stats with zero width
        if e["op"] == "stats" and e["b"] == [0, 1]: e["b"] = [1, 1]
    return out
LINE = [[1, 1], [4, 1], [9, 1], [1, 4], [16, 1]]
def line_supports(r, n):
    s = [0, 1]; out = []; from fractions import Fraction as F
    pos = F(0)
    for k in range(n):
        pos += r.choice([F(1), F(4), F(9), F(1, 4), F(16)] + ([F(0)] if r.random() < .3 else []))
        out.append([[pos.numerator, pos.denominator], [r.randint(-3, 3), 1], [r.randint(-3, 3), 1]])
    r.shuffle(out); return out
FLAT = [(0, 0), (3, 4), (6, 8), (-3, 4), (4, -3), (9, 12), (0, 5), (5, 0), (8, 6), (12, 0), (0, 0), (-12, 5)]
def ground(r, th=False):
    from fractions import Fraction as F
    flat = r.random() < .5; n = r.randint(1, 5)
    out = [{"op": "init", "how": "init", "seed": r.choice(SEEDS[:3]), "one": False}]
    if flat:
        ps = r.sample(FLAT, n) if r.random() < .8 else r.sample(FLAT[1:10], n)
        out.append({"op": "supports", "at": [[[k, 1], [x, 1], [z, 1]] for k, (x, z) in enumerate(ps)]})
    else:
        out.append({"op": "supports", "at": line_supports(r, n)})
    at = out[-1]["at"]; ms = []; last = None
    def motion():
        on = list(range(1, n + 1)); r.shuffle(on)
        if r.random() < .3: on = on[:r.randint(1, n)]
        ref = r.choice([[[0, 1], [0, 1]], [[0, 1], [0, 1]], [[3, 1], [4, 1]]])
        if ms and r.random() < .7: on, ref = list(ms[0]["on"]), ms[0]["ref"]
        A = r.choice([[1, 1], [4, 1], [1, 4], [4, 1], [0, 1]]); vib = r.choice([[0, 1], [0, 1], [0, 1], [1, 2], [2, 1], [-1, 1]])
        out.append({"op": "motion", "flat": flat, "A": A, "on": on, "vib": vib, "ref": ref})
        ms.append({"on": on, "A": A, "vib": [0, 1] if flat else vib, "inc": False, "ref": ref, "seed": None})
        seed(len(ms))
    def seed(i):
        s = r.choice(["1", "2", "77"]); out.append({"op": "mseed", "i": i, "seed": s}); ms[i - 1]["seed"] = s
        for m in ms: m["fresh"] = False
        ms[i - 1]["fresh"] = True; return s
    motion()
    dts = r.sample([[1, 1], [4, 1], [1, 4], [9, 1], [16, 1]], 2)
    for _ in range(r.randint(5, 20 if th else 12)):
        i = r.randint(1, len(ms)); m = ms[i - 1]; x = r.random()
        if x < .5:
            if last is not None and last != i and ms[last - 1]["seed"] == m["seed"] and not m.get("fresh"): out.append({"op": "mreset", "i": i})
            m["fresh"] = False; last = i
            out.append({"op": "step", "i": i, "dt": r.choice(dts)})
        elif x < .58: out.append({"op": "still", "i": i})
        elif x < .68: seed(i)
        elif x < .74: out.append({"op": "mreset", "i": i})
        elif x < .80 and len(ms) < 3: motion()
        elif x < .83: out.append({"op": r.choice(["again", "again", "draw"]), "n": 1, "kind": "normal", "a": [0, 1], "b": [1, 1], "c": [0, 1]})
        elif x < .87: out.append({"op": "record", "i": i})
        elif x < .94 and flat:
            if r.random() < .6:
                if m["vib"][0]: continue
                inc = r.random() < .5; out.append({"op": "mode", "i": i, "inc": inc}); m["inc"] = inc
            else:
                v = r.choice([[0, 1], [1, 2], [2, 1]]); out.append({"op": "shake", "i": i, "vib": v})
                if not m["inc"]: m["vib"] = v
        elif x < .97 and flat and len(ms) < 3:
            out.append({"op": "copy", "i": i, "on": m["on"], "A": m["A"]}); ms.append(dict(m, inc=False, vib=[0, 1], seed="0")); seed(len(ms))
        elif r.random() < .6:
            p = lambda k: (F(*at[k - 1][0]), F(*at[k - 1][1]), F(*at[k - 1][2]))
            def ok(a, b):
                if not flat: return True
                q = p(b)[1:] if b else tuple(F(*z) for z in m["ref"])
                d2 = (p(a)[1] - q[0]) ** 2 + (p(a)[2] - q[1]) ** 2
                return int(float(d2) ** .5 + .5) ** 2 == d2
            prs = [(a, b) for a in m["on"] for b in [0] + m["on"] if a != b and ok(a, b)]
            if prs:
                a, b = r.choice(prs)
                m["fresh"] = False; last = i
                out.append({"op": "spread", "i": i, "a": a, "b": b, "dt": r.choice([[1, 1], [4, 1]]), "two": not m["inc"]})
    return out
