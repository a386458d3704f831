"""Scenarios for reference geometry and misalignment (G01-G04)."""
CONT = ("seq", "mover", "simple", "girder")
class Tree:
    def __init__(self):
        self.nodes = []
    def add(self, parent, **k):
        k["parent"] = parent; self.nodes.append(k); return len(self.nodes)
    def __getitem__(self, n): return self.nodes[n - 1]
    def cont(self, n): return self[n]["k"] in CONT
    def ids(self): return range(1, len(self.nodes) + 1)
    def atoms(self, n):
        if not self.cont(n): return [n]
        return [a for c in self[n]["kids"] for a in self.atoms(c)]
    def leaves(self): return [n for n in self.ids() if not self.cont(n)]
    def comps(self): return [n for n in self.leaves() if self[n]["k"] != "patch"]
    def alen(self, n):
        x = self[n]
        return (x["len"], 0) if x["k"] == "rect" else (0, 2 * abs(x["rho"])) if x["k"] == "arc" else (0, 0)
    def length(self, n):
        l = [self.alen(a) for a in self.atoms(n)]
        return (sum(x[0] for x in l), sum(x[1] for x in l))
    def org(self, n):
        m = self[n]["org"] if self[n]["k"] == "seq" else 1; L = self.length(n)
        return (0, 0) if m == 0 else (L[0] // 2, L[1] // 2) if m == 1 else L
    def points(self, n):
        """distances from the entrance that fall on exactly representable points"""
        res, p, bad = set(), (0, 0), set()
        for a in self.atoms(n):
            x = self[a]
            if x["k"] == "patch": bad.add(p)
            elif x["k"] == "rect": res |= {(p[0] + i, p[1]) for i in range(x["len"] + 1)}
            else: res |= {(p[0], p[1] + i * abs(x["rho"])) for i in range(3)}
            l = self.alen(a); p = (p[0] + l[0], p[1] + l[1])
        return sorted(res - bad)
    def valid(self):
        for n in self.ids():
            if self.cont(n):
                if not self[n]["kids"]: return False
                L = self.length(n)
                m = self[n]["org"] if self[n]["k"] == "seq" else 1
                if m == 1 and (L[0] % 2 or L[1] % 2): return False
                P = self.points(n)
                if self.org(n) not in P or (0, 0) not in P or L not in P: return False
                if self[n]["k"] == "girder" and (L[0] < 2 or any(self[a]["k"] != "rect" for a in self.atoms(n))): return False
            elif self[n]["k"] == "rect" and self[n]["len"] % 2: return False
        g = self.points(1)
        for n in self.ids(): # origins of all frames in all enclosing frames
            m, off = n, self.org(n)
            while m != 1:
                p = self[m]["parent"]; o = off
                for c in self[p]["kids"]:
                    if c == m: break
                    l = self.length(c); o = (o[0] + l[0], o[1] + l[1])
                if o not in self.points(p): return False
                m, off = p, o
        return True
    def ancestors(self, n):
        r = [n]
        while r[-1] != 1: r.append(self[r[-1]]["parent"])
        return r

def leaf(r, t, parent, patches, arcs=True):
    k = r.random()
    if patches and k < .15:
        ops = [dict(t="shift", v=[r.randint(-2, 2) for _ in range(3)])] if r.random() < .6 else []
        ops += [dict(t=r.choice("xyz"), k=r.choice([1, 2, -1]))] if r.random() < .6 or not ops else []
        return t.add(parent, k="patch", ops=ops)
    if arcs and k < .5: return t.add(parent, k="arc", rho=r.choice([1, 2, 3, -1, -2]))
    return t.add(parent, k="rect", len=r.choice([0, 2, 2, 4, 6]))

def fill(r, t, n, depth, patches, kinds, arcs=True):
    ks = []
    for _ in range(r.randint(1, 4)):
        if depth and r.random() < (.8 if n == 1 else .4):
            k = r.choice(kinds); x = dict(k=k)
            if k == "seq": x["org"] = r.randint(0, 2)
            c = t.add(n, **x); t[c]["kids"] = []; ks.append(c)
            fill(r, t, c, depth - 1, patches, kinds, arcs and k != "girder")
        else: ks.append(leaf(r, t, n, patches, arcs))
    t[n]["kids"] = ks

def tree(r, depth=3, patches=True, kinds=("seq", "seq", "mover", "simple", "girder"), maxn=25, need=lambda t: True):
    while True:
        t = Tree(); t.add(0, k="seq", org=0); t[1]["kids"] = []
        fill(r, t, 1, r.randint(1, depth), patches, kinds)
        if len(t.nodes) <= maxn and t.valid() and need(t): return t

def from_nodes(nodes):
    t = Tree(); t.nodes = nodes; return t

def mk(t): return dict(op="tree", nodes=t.nodes)
def sub(p, q): return [p[0] - q[0], p[1] - q[1]]

def geo_queries(r, t, k):
    ops = []
    for n in t.ids():
        if t[n]["k"] == "patch": continue
        ops.append(dict(op="planes", n=n, copy=False))
        P, o = t.points(n), t.org(n)
        if not P: continue
        for _ in range(k):
            a, b = r.choice(P), r.choice(P)
            ops.append(dict(op="geo", n=n, a=sub(a, o), b=sub(b, o), copy=False))
            if r.random() < .4: ops.append(dict(op="geo", n=n, a=sub(b, o), b=sub(a, o), copy=False))
        if o in P: ops.append(dict(op="to", n=n, b=sub(r.choice(P), o)))
        for a in t.ancestors(n): ops.append(dict(op="pos", n=n, anc=a))
    r.shuffle(ops); return ops

def copies(r, t, k):
    ops = []
    def mover(n): return t[n]["k"] == "mover" or t.cont(n) and any(mover(c) for c in t[n]["kids"]) # movers cannot be copied
    cs = [n for n in t.ids() if t[n]["k"] != "patch" and n != 1 and not mover(n)]
    for _ in range(k if cs else 0):
        n = r.choice(cs)
        P, o = t.points(n), t.org(n)
        ops += [dict(op="copy", n=n), dict(op="planes", n=n, copy=True)]
        for _ in range(4):
            if P: ops.append(dict(op="geo", n=n, a=sub(r.choice(P), o), b=sub(r.choice(P), o), copy=True))
    return ops

def xf(r, k=3, k2=None):
    res = []
    for _ in range(r.randint(1, k)):
        if r.random() < .5: res.append(dict(t="shift", v=[r.randint(-3, 3) for _ in range(3)]))
        else: res.append(dict(t=r.choice("xyz"), k=r.choice([1, 2, 3, -1])))
    return res

def queries(r, t, k):
    ops = []
    for _ in range(k):
        n = r.choice([n for n in t.ids() if t[n]["k"] != "patch"])
        ops.append(dict(op=r.choice(["phys", "frame"]), n=n, anc=r.choice(t.ancestors(n))))
        if r.random() < .2: ops.append(dict(op="local", n=n))
    return ops

def edges(r, t, k):
    c = [n for n in t.ids() if t[n]["k"] != "patch"]
    return [dict(op="edges", n=n) for n in r.sample(c, min(k, len(c)))]

def misalign(r, t, errors=True):
    """one random alignment operation"""
    c = [n for n in t.ids() if n != 1 and t[n]["k"] != "patch"]
    movers = [n for n in c if t[n]["k"] == "mover"]
    k = r.random()
    if movers and k < .3:
        w = r.choice(["x", "y", "roll", "roll", "reset"])
        return dict(op="move", n=r.choice(movers), w=w, v=r.choice([-1, 0, 1, 2]) if w == "roll" else r.randint(-3, 3))
    n = r.choice(c)
    if k < .6: return dict(op=r.choice(["apply", "apply", "applyT"]), n=n, ops=xf(r))
    if k < .7: return dict(op="setT", n=n, ops=xf(r))
    if k < .8: return dict(op="clear", n=n)
    if not errors: return dict(op="apply", n=n, ops=xf(r, 1))
    at = t.atoms(1); a = r.randint(0, len(at) - 1); b = r.randint(a, len(at) - 1)
    return dict(op="errors", rot=r.random() < .5, clear=r.random() < .5, v=[r.choice([-1, 0, 1, 2]) for _ in range(3)],
                pat=r.choice(["Drift*", "SectorBend*", "*", "Drift.n*", "SectorBend.n1*", "*.n%d" % r.choice(c), "Drift.n%d|SectorBend.n2*" % r.choice(c)]), first=a, last=b)

def no_patch_errors(t, o):
    return not any(t[a]["k"] == "patch" for a in t.atoms(1)[o["first"]:o["last"] + 1])

def misaligned(r, t, n, q, errors=True):
    ops = []
    for _ in range(n):
        o = misalign(r, t, errors)
        if o["op"] == "errors" and not no_patch_errors(t, o): continue
        ops.append(o); ops.append(dict(op="all") if o["op"] == "errors" else dict(op="local", n=o["n"])); ops += q()
    return ops

def undo(t):
    ops = [dict(op="clear", n=n) for n in t.ids() if n != 1 and t[n]["k"] != "patch"]
    ops += [dict(op="move", n=n, w="reset", v=0) for n in t.ids() if t[n]["k"] == "mover"]
    return ops

def mounts(t): return [n for n in t.ids() if t[n]["k"] in ("simple", "girder")]
def support(r, t):
    n = r.choice(mounts(t)); v = [r.randint(-3, 3) for _ in range(3)]; inc = r.random() < .4
    ops = []
    if t[n]["k"] == "girder":
        o = [dict(op="offset", n=n, i=i, v=v, inc=inc) for i in (1, 2)]; r.shuffle(o); ops += o
    else: ops.append(dict(op="offset", n=n, i=1, v=v, inc=inc))
    if r.random() < .15: ops.append(dict(op="offreset", n=n))
    return ops + [dict(op="local", n=n)]

def ground(r, t):
    return [dict(op="supports"), dict(op="atl", seed=r.randint(1, 999), vib=r.choice([0, 0, 1]), dts=[r.randint(1, 9) for _ in range(r.randint(1, 4))])]

def tilts(r, t):
    ops = []
    for n in mounts(t):
        if t[n]["k"] == "girder":
            ops.append(dict(op="tilt", n=n, moves=[dict(i=r.randint(1, 2), v=[r.randint(-400, 400) for _ in range(3)]) for _ in range(r.randint(2, 6))]))
            ops.append(dict(op="local", n=n))
    return ops

def rots(r, k): return dict(op="rots", seq=[dict(t=r.choice("xyz"), k=r.choice([-1, 1, 2, 3])) for _ in range(k)])

def script_ops(t, s):
    """operations of a model-checker script on the tree"""
    res = []
    for o in s["ops"]:
        n = o["n"]
        if o["op"] == "mover": res += [dict(op="move", n=n, w=w, v=v) for w, v in (("x", 1), ("y", -1), ("roll", 1))]
        elif o["op"] == "support":
            if t[n]["k"] == "simple": res.append(dict(op="offset", n=n, i=1, v=[1, 2, 0], inc=True))
            else: res += [dict(op="offset", n=n, i=i, v=[1, 0, -1], inc=True) for i in (1, 2)]
        else: res.append(o)
    return res
