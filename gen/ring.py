"""Rings: rows of magnets whose motion is bounded, and what is asked of them. Numbers are integers in units of 1e-6"""
import numpy as np
from scipy.linalg import expm
import maps as gm2
U = 10**6
u = gm2.u
def system(e):
    A = np.zeros((6, 6)); A[0, 1] = A[2, 3] = 1; k = e["k"]
    if k == "mult":
        a, b = next(([t[1] / U, t[2] / U] for t in e["f"] if t[0] == 1), (0, 0))
        A[1, 0] = -a; A[1, 2] = b; A[3, 0] = b; A[3, 2] = a
    if k == "bend":
        h = e["h"] / U; a = next((t[1] / U for t in e["f"] if t[0] == 1), 0)
        A[1, 0] = -h * h - a; A[1, 5] = h; A[3, 2] = a; A[4, 0] = -h
    if k == "sol":
        f = e["ks"] / U / 2
        A[0, 2] = A[1, 3] = f; A[2, 0] = A[3, 1] = -f; A[1, 0] = A[3, 2] = -f * f
    return A
def lin(es):
    R = np.eye(6)
    for e in es: R = expm(system(e) * e["L"] / U) @ R
    return R
def bounded(es, lo=.06):
    """clearly stable in both modes, the modes apart, no large shapes or dispersion"""
    R = lin(es); w, V = np.linalg.eig(R[:4, :4])
    if np.any(abs(abs(w) - 1) > 1e-9): return False
    q = sorted(abs(np.angle(w)) / 2 / np.pi)
    if min(q) < lo or max(q) > .5 - lo or abs(q[0] - q[2]) < .05: return False
    S = np.kron(np.eye(2), [[0, 1], [-1, 0]]); big = 0
    for m in range(len(es)):
        r = lin(es[m:] + es[:m]); w, V = np.linalg.eig(r[:4, :4])
        for i in range(4):
            v = V[:, i]; n = abs((v.conj() @ S @ v).imag)
            if n < 1e-6: return False
            big = max(big, max(abs(v) ** 2 / n * 2))
        big = max(big, 5 * max(abs(np.linalg.solve(np.eye(4) - r[:4, :4], r[:4, 5]))), 3 * abs(lin(es[:m])).max(), 3 * abs(r).max())
    return big < 45
def orbit(es):
    """the largest value on the closed orbit, to first order"""
    def turn(es):
        z = np.zeros(4)
        for e in es:
            z = lin([e])[:4, :4] @ z
            if e["k"] == "mult" and e["f"] and e["f"][0][0] == 0:
                a, b = -e["f"][0][1] * e["L"] / U**2, e["f"][0][2] * e["L"] / U**2; z += [a * e["L"] / U / 2, a, b * e["L"] / U / 2, b]
        return z
    return max(max(abs(np.linalg.solve(np.eye(4) - lin(r)[:4, :4], turn(r)))) for r in (es[m:] + es[:m] for m in range(len(es))))
def mag(r, kind):
    L = u(r.choice([.2, .4, .5, .8])); m = dict(k="mult", L=L, f=[], steps=[])
    c = lambda lo, hi: u(round(r.uniform(lo, hi), 2))
    if kind == "drift": return dict(k="drift", L=u(r.choice([.3, .5, 1, 1.5])), steps=[])
    if kind == "marker": return dict(k="marker", L=0, steps=[])
    if kind == "qf": m["f"] = [[1, c(.4, 3), 0]]
    if kind == "qd": m["f"] = [[1, c(-3, -.4), 0]]
    if kind == "skew": m["L"] = u(.2); m["f"] = [[1, 0, c(-.8, .8)]]
    if kind == "rot": m["f"] = [[1, c(-2, 2), c(-.4, .4)]]
    if kind == "sext": m["L"] = u(.2); m["f"] = [[2, c(-6, 6), r.choice([0, 0, c(-3, 3)])]]
    if kind == "oct": m["L"] = u(.2); m["f"] = [[3, c(-9, 9), 0]]
    if kind == "cor": m["L"] = u(.2); m["f"] = [[0, u(round(r.uniform(-.02, .02), 4)), r.choice([0, u(round(r.uniform(-.02, .02), 4))])]]
    if kind in ("bend", "cf"):
        h = r.choice([.1, .2, .3, .5, -.2]); f = [[1, c(-1, 1), 0]] if kind == "cf" else []
        if f and abs(f[0][1] / U + h * h) < .02 or f and abs(5 * f[0][1] / U + h * h) < .1: return mag(r, "bend")
        return dict(k="bend", L=u(r.choice([.5, 1])), h=u(h), b0=u(h), f=f, tilt=[U, 0], faces="none", steps=[], **{"in": [], "out": []})
    if kind == "sol": return dict(k="sol", L=L, ks=c(-.8, .8), steps=[])
    return m
def row(r, what):
    """what: flat, coupled, kicked (an orbit of its own, and fields of higher order)"""
    for _ in range(5000):
        base = ["qf", "drift", "bend", "drift", "qd", "drift", "bend"] if r.random() < .7 else [r.choice(["qf", "qd", "drift", "bend", "cf"]) for _ in range(r.randint(3, 7))]
        if r.random() < .3: base = [k if k != "bend" else "cf" for k in base]
        if r.random() < .2: base = [k for k in base if k != "bend"]
        extra = dict(flat=[], coupled=[r.choice(["skew", "rot", "sol"])], kicked=["cor"] + (["sext"] if r.random() < .6 else []) + (["oct"] if r.random() < .2 else []))[what]
        if r.random() < .25: extra = extra + ["marker"]
        for k in extra: base.insert(r.randint(0, len(base)), k)
        es = [mag(r, k) for k in base]
        if bounded(es):
            if what == "kicked":
                w = .003 / max(.003, orbit(es)) # keep the orbit within three millimetres
                for e in es:
                    if e["k"] == "mult" and e["f"][0][0] == 0: e["f"] = [[0, int(e["f"][0][1] * w), int(e["f"][0][2] * w)]]
            return es
    raise RuntimeError("no ring")
def scenario(r, th=False, what=None, only=None):
    what = what or r.choice(["flat", "flat", "coupled", "kicked", "kicked"]); es = row(r, what); n = len(es)
    bends = any(e["k"] == "bend" for e in es); longit = what != "kicked" or (bends and bool(slip(es)))
    z = [u(round(r.uniform(-.004, .004), 4)) for _ in range(4)] + [0, r.choice([0, 0, 3000])]
    at = lambda: r.randrange(n)
    out = [dict(op="ring", els=es, P0=r.choice([1, 5, 7000]))]
    def pair(): a, b = sorted([at(), at()]); return a, b
    def q():
        k = only or r.choice(["orbit", "orbit", "tm", "part", "between", "disp", "disp", "rms", "rmsorbit", "orbits"])
        if k == "orbit":
            six = r.random() < .4 and longit
            return dict(op=k, n=at(), six=six, dp=0 if six else r.choice([0, 1000, -2000, 5000]))
        if k == "tm": return dict(op=k, n=at(), only=r.random() < .3) if longit else q1()
        if k == "between":
            a, b = pair(); return dict(op=k, n1=a, n2=b) if longit else q1()
        if k == "part": a, b = pair(); return dict(op=k, n1=a, n2=b, z=z)
        if k == "disp": return dict(op=k, n=at())
        if k == "rmsorbit": return dict(op=k, z=z)
        if k == "orbits": return dict(op=k) if longit else q1()
        return dict(op=k)
    def q1(): return dict(op="disp", n=at())
    def tables():
        third = bends and r.random() < .5; sym = what != "kicked" and not third and r.random() < .4
        out.append(dict(op="twiss", third=third, sym=sym))
        for _ in range(r.randint(1, 3)): out.append(dict(op="stats", f=r.choice([[1, 1, 1], [3, 3, 2], [2, 1, 1], [1, 0, 0], [4, 3, 2]]), n1=r.choice([-2, 0, 0, 1, at()]), n2=r.choice([-1, n, n + 3, at()])))
        total = sum(e["L"] for e in es)
        for _ in range(2): out.append(dict(op="at", s=r.choice([-1000, 500, total + 500, r.randrange(total) // 1000 * 1000 + 313])))
        if what != "coupled":
            for _ in range(r.randint(1, 3)):
                by = r.choice(["index", "index", "start", "get", "name"]); b = at() if by == "name" else r.randint(0, n)
                out.append(dict(op="phase", n1=0 if by == "start" else at(), n2=b, h=r.random() < .5, by=by))
    w = r.random()
    if only == "twiss" or (not only and w < .5): tables()
    if only != "twiss":
        for _ in range(r.randint(1, 3)): out.append(q() if only != "tunes" else tune(r, es))
    if what == "flat" and not only and r.random() < .3: out.append(tune(r, es))
    return out
def slip(es):
    """the ring changes its length with the energy"""
    R = lin(es); D = np.linalg.solve(np.eye(4) - R[:4, :4], R[:4, 5]); return abs(R[4, :4] @ D + R[4, 5]) > .05
def tune(r, es): return dict(op="tunes", N=r.choice([128, 256, 512]), diff=r.random() < .3, z=[10, r.choice([0, 3]), -10, 0, 0, 0])
