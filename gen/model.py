"""Scenarios for the accelerator model (M01-M05)."""
TYPES = ["Drift", "Quadrupole", "Sextupole", "Marker", "BPM", "SectorBend"]
R = {"op": "reset"}

def comp(r, names):
    t = r.choice(TYPES + ["Patch"]) if r.random() < .6 else r.choice(TYPES)
    return dict(type=t, name=r.choice(names), len=0 if t in ("Marker", "Patch") else r.choice([0, 1, 2, 2, 3, 5]))

def tree(r, names, depth, cnt):
    cnt[0] += 1
    kids = []
    for _ in range(r.randint(1, 3)):
        if depth > 0 and r.random() < .4: kids.append(tree(r, names, depth - 1, cnt))
        else: kids.append(comp(r, names))
    return dict(name="t%d" % cnt[0], org=r.randint(0, 2), kids=kids)

def flat_tree(t):
    for k in t["kids"]:
        if "kids" in k: yield from flat_tree(k)
        else: yield k

def build(r, n, frames=True):
    """random construction calls; returns (ops, components [(type,name,len)])"""
    names = r.choice([["a", "b", "ab", "aab", "ba"], ["q1", "q10", "q11", "qf.1", "x"], ["m", "mm", "mmm"]])
    ops, comps, stack, cnt = [], [], [], [0]
    def add(c): comps.append((c["type"], c["name"], c["len"]))
    for _ in range(n):
        k = r.random()
        if frames and k < .15 and len(stack) < 4:
            cnt[0] += 1
            ops.append(dict(op="newframe", name=r.choice(["f%d" % cnt[0], "f"]), org=r.randint(0, 2))); stack.append(len(comps))
        elif frames and k < .3 and stack and stack[-1] < len(comps):
            ops.append(dict(op="endframe")); stack.pop()
        elif frames and k < .38:
            t = tree(r, names, 2, cnt)
            ops.append(dict(op="appendframe", tree=t)); [add(c) for c in flat_tree(t)]
        elif k < .5:
            l = r.choice([0, 1, 2, 4]); ops.append(dict(op="drift", len=l)); comps.append(("Drift", "UNNAMED", l))
        else:
            c = comp(r, names); g = r.choice([0, 0, 0, 1, 3])
            if g: comps.append(("Drift", "UNNAMED", g))
            add(c); ops.append(dict(op="comp", gap=g, **c))
    while stack:
        if stack[-1] == len(comps):
            c = comp(r, names); add(c); ops.append(dict(op="comp", gap=0, **c))
        ops.append(dict(op="endframe")); stack.pop()
    if not comps:
        c = comp(r, names); add(c); ops.append(dict(op="comp", gap=0, **c))
    return ops + [{"op": "build"}], comps

def script_comps(ops):
    comps = []
    for o in ops:
        if o["op"] == "comp":
            if o["gap"]: comps.append(("Drift", "UNNAMED", o["gap"]))
            comps.append((o["type"], o["name"], o["len"]))
        elif o["op"] == "drift": comps.append(("Drift", "UNNAMED", o["len"]))
        elif o["op"] == "appendframe": comps += [(c["type"], c["name"], c["len"]) for c in flat_tree(o["tree"])]
    return comps

def glob(r, s):
    """a pattern derived from s"""
    k = r.random()
    if k < .2: return s
    if k < .3: return "*"
    p = s
    for _ in range(r.randint(1, 3)):
        i = r.randint(0, len(p)); j = min(len(p), i + r.choice([0, 1, 2, 4]))
        p = p[:i] + "*" + p[j:]
    if r.random() < .2:
        i = r.randrange(len(p)); p = p[:i] + r.choice("abqmQ.1") + p[i + 1:]
    return p

def pattern(r, comps, bare=False, prefix=True):
    def one():
        t, n, _ = r.choice(comps)
        if t == "Patch": t = "PatchFrame"
        s = n if bare else t + "." + n
        if prefix and r.random() < .15: s = "ComponentFrame." + s
        return glob(r, s)
    if r.random() < .2: return "|".join(one() for _ in range(r.randint(2, 3)))
    return one()

def queries(r, comps, n):
    q, N = [], len(comps)
    for _ in range(n):
        k = r.randrange(5); reuse = r.random() < .6
        if k == 0: q.append(dict(op="ext", pat=pattern(r, comps), reuse=reuse))
        elif k == 1: q.append(dict(op="idx", pat=pattern(r, comps), reuse=reuse))
        elif k == 2:
            a = r.randrange(N); b = r.randrange(a, N)
            q.append(dict(op="idxsub", a=a, b=b, pat=pattern(r, comps), reuse=reuse))
        elif k == 3: q.append(dict(op="elems", pat=pattern(r, comps), reuse=reuse))
        else:
            t = r.choice(["Drift", "Quadrupole", "Sextupole", "Marker", "BPM"])
            if r.random() < .5: q.append(dict(op="exttyped", type=t, pat=pattern(r, comps)))
            else: q.append(dict(op="eltyped", type=r.choice([t, "RectMultipole", "Monitor", "AcceleratorComponent"]),
                                pat=pattern(r, comps, bare=True, prefix=False)))
    return q

def all_ranges(comps, r=None, cap=None):
    N = len(comps)
    ab = [(a, b) for a in range(N + 2) for b in range(N + 2)]
    if cap and len(ab) > cap: ab = r.sample(ab, cap)
    return [{"op": "beamline"}, {"op": "reversed"}] + [dict(op="range", a=a, b=b) for a, b in ab]

def rings(comps, r=None, cap=None):
    N = len(comps); ns = list(range(N))
    if cap and N > cap: ns = r.sample(ns, cap)
    return [dict(op="ring", n=n, k=k) for n in ns for k in {1, N, 2 * N + 1}]

def patranges(r, comps, n):
    return [dict(op="rangepat", p1=pattern(r, comps, prefix=False), p2=pattern(r, comps, prefix=False), n1=r.randint(1, 3), n2=r.randint(1, 3)) for _ in range(n)]

def installs(r, comps, n):
    """positions inside drifts, strictly between their ends; tracks the splits"""
    lat = [[t, l] for t, _, l in comps]; ops = []
    for i in range(n):
        cand, s = [], 0
        for k, (t, l) in enumerate(lat):
            if t == "Drift": cand += [(k, s, x) for x in range(s + 1, s + l)]
            s += l
        if not cand: break
        k, s, x = r.choice(cand); l = lat[k][1]
        ops.append(dict(op="install", type=r.choice(["Marker", "BPM", "Quadrupole"]), name="ins%d" % i, at=x))
        lat[k:k + 1] = [["Drift", x - s], ["X", 0], ["Drift", l - (x - s)]]
    return ops

def match_random(r, n):
    out = []
    for _ in range(n):
        al = r.choice(["ab", "abc.", "aq1."])
        strs = ["".join(r.choice(al) for _ in range(r.randint(0, 10))) for _ in range(12)]
        s = r.choice(strs) or "a"
        p = glob(r, s)
        if r.random() < .3: p = "|".join([glob(r, r.choice(strs) or "b") for _ in range(r.randint(2, 3))])
        strs += [s + s, s * 3, s + "a", "a" + s]
        out.append(dict(op="match", pat=p, strs=strs))
    return out
