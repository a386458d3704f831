"""Scenarios for klystrons, feedback and monitors (K02, K03, K04)."""
from fractions import Fraction as F
def q(x): x = F(x); return [x.numerator, x.denominator]
def qc(z): return [q(z[0]), q(z[1])]
UNITS = [(F(a, c), F(b, c)) for a, b, c in [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, -3, 5), (-3, 4, 5), (-4, -3, 5), (5, 12, 13), (-12, 5, 13)]]
def cm(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def cd(a, b):
    n = b[0] ** 2 + b[1] ** 2; return ((a[0] * b[0] + a[1] * b[1]) / n, (a[1] * b[0] - a[0] * b[1]) / n)
def sc(v, u): return (v * u[0], v * u[1])
def big(z): return any(x.denominator > 130 or abs(x.numerator) > 600 for x in z)
def fr(r, vals=(1, 1, 2, 3, 5, 10), dens=(1, 1, 1, 2, 4)): return F(r.choice(vals), r.choice(dens))
def klystrons(r, th=False):
    nc = r.choice([1, 2, 2, 3, 3, 4, 6]); cav = [sc(fr(r), r.choice(UNITS)) for _ in range(nc)]
    if r.random() < .15: cav[r.randrange(nc)] = (F(0), F(0))
    ks = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        cs = r.sample(range(nc), r.choice([nc, nc, r.randint(1, nc)]))
        ks.append([cs, r.choice(["sum", "sum", "balanced"]), None, None])
    # the first cavity of each gets what makes the sum a vector of known length
    ops = []
    def tot(cs, c=None):
        c = c or cav; return (sum(c[i][0] for i in cs), sum(c[i][1] for i in cs))
    def okay(c):
        for k in ks:
            if k[2] is None: continue
            s = tot(k[0], c)
            # a sum which vanishes by cancellation only, or nearly, is left out
            if any(c[i] != (0, 0) for i in k[0]) and (s == (0, 0) or abs(s[0]) + abs(s[1]) < sum(abs(c[i][0]) + abs(c[i][1]) for i in k[0]) / 200): return False
        return not any(big(z) for z in c)
    def drive(k, c):
        c = list(c); z = sc(k[2], k[3]); n = len(k[0]); s = tot(k[0], c)
        if k[1] == "balanced" or s == (0, 0):
            for i in k[0]: c[i] = (z[0] / n, z[1] / n)
        else:
            w = cd(z, s)
            for i in k[0]: c[i] = cm(w, c[i])
        return c
    k = ks[0]; v, u = fr(r), r.choice(UNITS); s = tot(k[0]); i = r.choice(k[0]); z = sc(v, u)
    cav[i] = (cav[i][0] + z[0] - s[0], cav[i][1] + z[1] - s[1])
    k[2], k[3] = v, u
    if not okay(cav): return klystrons(r, th)
    ops.append(dict(op="cavities", z=[qc(z) for z in cav], ty=[r.choice(["TW", "TW", "SW", "TR"]) for _ in cav], len=[q(fr(r)) for _ in cav]))
    def born(k):
        ops.append(dict(op="klystron", cs=[i + 1 for i in k[0]], mode=k[1], v=q(k[2]), u=qc(k[3]), dflt=r.random() < .3))
        return drive(k, cav) if k[1] == "balanced" else cav
    cav = born(k)
    if not okay(cav): return klystrons(r, th)
    live = [k]
    pend = ks[1:]
    for _ in range(r.randint(2, 14 if th else 9)):
        w = r.random(); save = list(cav)
        if pend and w < .35:
            k = pend.pop(); k[2], k[3] = fr(r), r.choice(UNITS); i = r.choice(k[0]); s = tot(k[0]); z = sc(k[2], k[3]); new = (cav[i][0] + z[0] - s[0], cav[i][1] + z[1] - s[1])
            # set one cavity so that the sum is known: only if that is a Pythagorean vector itself
            m = new[0] ** 2 + new[1] ** 2
            from math import isqrt
            a, b = isqrt(m.numerator), isqrt(m.denominator)
            if a * a != m.numerator or b * b != m.denominator or a == 0: ks.remove(k); continue
            c = list(cav); c[i] = new; mv = F(a, b)
            if not okay(c): ks.remove(k); continue
            c2 = drive(k, c) if k[1] == "balanced" else c
            if not okay(c2): ks.remove(k); continue
            ops.append(dict(op="cav", c=i + 1, v=q(mv), u=qc((new[0] / mv, new[1] / mv)), how=r.choice(["phasor", "both", "amp"])))
            cav = c; cav = born(k); live.append(k); continue
        if .35 <= w < .42 and len(live) < 4:
            j = r.randrange(len(live)); ops.append(dict(op="kcopy", k=j + 1)); live.append(list(live[j])); ks.append(live[-1]); continue
        j = r.randrange(len(live)); k = live[j]; old = (k[2], k[3])
        if .42 <= w < .55:
            i = r.randrange(nc); v, u = fr(r), r.choice(UNITS); c = list(cav); c[i] = sc(v, u)
            if okay(c): cav = c; ops.append(dict(op="cav", c=i + 1, v=q(v), u=qc(u), how=r.choice(["phasor", "both", "amp"])))
            continue
        w = r.random() * .45 + .55
        if w < .75: v = F(0) if r.random() < .2 else fr(r) * r.choice([1, 1, -1]); k[2] = v; op = dict(op="volt", k=j + 1, v=q(v))
        elif w < .92: u = r.choice(UNITS); k[3] = u; op = dict(op="phase", k=j + 1, u=qc(u), turn=r.choice([0, 0, 0, 1, -1]))
        else: v, u = fr(r), r.choice(UNITS); k[2], k[3] = v, u; op = dict(op="phasor", k=j + 1, v=q(v), u=qc(u))
        c = drive(k, cav)
        if okay(c): cav = c; ops.append(op)
        else: k[2], k[3] = old
    return ops

# ---- feedback
def pinv(M):
    """Moore-Penrose inverse of a matrix of fractions, by full-rank factorisation"""
    m, n = len(M), len(M[0]); A = [row[:] for row in M]; piv = []; row = 0
    for c in range(n):
        p = next((i for i in range(row, m) if A[i][c] != 0), None)
        if p is None: continue
        A[row], A[p] = A[p], A[row]; d = A[row][c]; A[row] = [x / d for x in A[row]]
        for i in range(m):
            if i != row and A[i][c] != 0: f = A[i][c]; A[i] = [x - f * y for x, y in zip(A[i], A[row])]
        piv.append(c); row += 1
        if row == m: break
    if not piv: return None
    C = A[:len(piv)]; B = [[M[i][c] for c in piv] for i in range(m)]
    T = lambda X: [list(x) for x in zip(*X)]
    mul = lambda X, Y: [[sum(a * b for a, b in zip(x, y)) for y in zip(*Y)] for x in X]
    return mul(mul(T(C), inv(mul(C, T(C)))), mul(inv(mul(T(B), B)), T(B)))
def inv(M):
    n = len(M); A = [list(M[i]) + [F(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next(i for i in range(c, n) if A[i][c] != 0); A[c], A[p] = A[p], A[c]; d = A[c][c]; A[c] = [x / d for x in A[c]]
        for i in range(n):
            if i != c: f = A[i][c]; A[i] = [x - f * y for x, y in zip(A[i], A[c])]
    return [row[n:] for row in A]
def matrix(r, ns, na):
    for _ in range(200):
        M = [[F(r.choice([0, 1, 1, 2, -1, -2, 3, 4]), r.choice([1, 1, 1, 2])) for _ in range(na)] for _ in range(ns)]
        w = r.random()
        if w < .12 and ns > 1: M[-1] = M[0][:]
        elif w < .2 and na > 1:
            for row in M: row[-1] = row[0] * 2
        elif w < .45: M = [[x if i == j else F(0) for j, x in enumerate(row)] for i, row in enumerate(M)]
        P = pinv(M)
        if P and all(x.denominator <= 12 for row in P for x in row): return M, P
    k = min(ns, na); M = [[F(int(i == j)) for j in range(na)] for i in range(ns)]
    return M, [[F(int(i == j)) for j in range(ns)] for i in range(na)]
def qm(M): return [[q(x) for x in row] for row in M]
def feedback(r, th=False):
    ns, na = r.choice([1, 2, 2, 3, 3, 4]), r.choice([1, 2, 2, 3, 3])
    if r.random() < .3: na = ns
    v = lambda n: [q(r.choice([0, 1, 2, -1, F(1, 2), F(-3, 4), 5, -2, 3])) for _ in range(n)]
    M, P = matrix(r, ns, na); sysM = M
    ops = [dict(op="system", sig=v(ns), act=v(na), M=qm(M), P=qm(P), arrays=r.random() < .4)]
    stored = False; closed = False
    for _ in range(r.randint(3, 22 if th else 14)):
        w = r.random()
        if w < .45: ops.append(dict(op="apply"))
        elif w < .53: ops.append(dict(op="signals", v=v(ns)))
        elif w < .60:
            D = sysM if r.random() < .8 else matrix(r, ns, na)[0]
            ops.append(dict(op="plant", M=qm(D), d=v(ns)))
        elif w < .66: ops.append(dict(op="actuators", v=v(na)))
        elif w < .73: ops.append(dict(op="gain", g=q(r.choice([F(1, 2), 1, -1, 2, F(1, 4), 0, F(3, 2)]))))
        elif w < .79: ops.append(dict(op="setpoints", v=v(ns)))
        elif w < .84: ops.append(dict(op="nominal"))
        elif w < .90: ops.append(dict(op="delay", n=r.choice([1, 1, 2, 2, 3, 4, 6])))
        elif w < .93: ops.append(dict(op="store")); stored = True
        elif w < .96:
            if stored: ops.append(dict(op="restore"))
        else:
            if r.random() < .3: ops.append(dict(op="response", M=[[[0, 1]] * na] * ns, P=[]))
            else: sysM, P = matrix(r, ns, na); ops.append(dict(op="response", M=qm(sysM), P=qm(P)))
    return ops

# ---- monitors
RESP = {0: (F(1), F(0)), 1: (F(2), F(1)), 2: (F(-1), F(1, 2))}
def monitors(r, th=False, spread=False):
    nm = r.choice([1, 1, 2, 2, 3]); ms = []
    for _ in range(nm):
        u = r.choice(UNITS); ln = r.choice([F(0), F(1), F(1, 2), F(2)]); ms.append(dict(ty=r.choice(["BPM", "RMS"]), len=q(ln), mp=q(ln * r.choice([0, 0, F(1, 4), F(-1, 4), F(1, 2), F(-1, 2)])),
                  ang=r.choice(["0", "90", "u", "u", "dflt"]), u=qc(u)))
        if ms[-1]["ang"] == "dflt" and ms[-1]["ty"] == "RMS": ms[-1]["len"] = ms[-1]["mp"] = [0, 1]
    noise = r.random() < (.8 if spread else .2)
    ops = [dict(op="monitors", m=ms, noise=noise)]
    st = [dict(ty=m["ty"], bufs=set(), sx=F(1), sy=F(1), rx=F(0), ry=F(0), ru=F(0), resp=0, ang=m["ang"], u=m["u"], len=m["len"], srv=False) for m in ms]; dflt = {"BPM": 0, "RMS": 0}
    c = lambda: q(r.choice([0, 1, 2, 3, -1, -2, -4, F(1, 2), F(-3, 2)]))
    parts = []
    def bunch():
        n = r.choice([1, 2, 2, 4, 4, 8, 3, 5]); nonlocal parts
        parts = [[c() for _ in range(4)] for _ in range(n)]; ops.append(dict(op="bunch", p=parts, ct=c()))
    bunch()
    def base(s):
        xs = [(F(*p[0]), F(*p[2])) for p in parts]; n = len(xs); mx, my = sum(x for x, _ in xs) / n, sum(y for _, y in xs) / n
        if s["ty"] == "BPM":
            a, b = RESP[s["resp"]]; return [q(a * s["sx"] * mx + b), q(a * s["sy"] * my - b)], [q(abs(a * s["rx"] * s["sx"])), q(abs(a * s["ry"] * s["sy"]))]
        vx, vy, cv = sum((x - mx) ** 2 for x, _ in xs) / n, sum((y - my) ** 2 for _, y in xs) / n, sum((x - mx) * (y - my) for x, y in xs) / n
        if s["ang"] == "dflt": return None
        cs, sn = {"0": (F(1), F(0)), "90": (F(0), F(1))}.get(s["ang"], (F(*s["u"][0]), F(*s["u"][1])))
        return [q(z) for z in (mx, my, my if (cs, sn) == (0, 1) else cs * mx - sn * my, vx, vy, cs * cs * vx + sn * sn * vy - 2 * cs * sn * cv)], [q(s[k]) for k in ("rx", "ry", "ru", "rx", "ry", "ru")]
    res = lambda: r.choice([F(0), F(0), F(1, 2), F(1, 10), F(3)])
    for _ in range(r.randint(3, 24 if th else 15)):
        i = r.randrange(len(st)); s = st[i]; w = r.random(); b = r.randint(1, 4)
        if w < .16:
            if dflt[s["ty"]] == b: continue
            s["bufs"].add(b); ops.append(dict(op="attach", m=i + 1, b=b))
        elif w < .22: s["bufs"].discard(b); ops.append(dict(op="detach", m=i + 1, b=b))
        elif w < .25: s["bufs"].clear(); s["srv"] = False; ops.append(dict(op="clearbuf", m=i + 1))
        elif w < .32:
            ty = r.choice(["BPM", "RMS"]); b = r.choice([0, 0, b, b])
            if b and any(b in x["bufs"] for x in st if x["ty"] == ty): continue
            dflt[ty] = b; ops.append(dict(op="default", ty=ty, b=b))
        elif w < .37: ops.append(dict(op="active", m=i + 1, on=r.random() < .6))
        elif w < .40: ops.append(dict(op="alloff", on=r.random() < .4))
        elif w < .42: ops.append(dict(op="turn", m=i + 1, how=r.choice(["Y180", "on", "off"])))
        elif w < .47:
            if s["ty"] == "BPM": s["sx"], s["sy"] = r.choice([F(2), F(-1), F(1, 2), F(0)]), r.choice([F(1), F(3), F(-1, 2)]); ops.append(dict(op="scale", m=i + 1, x=q(s["sx"]), y=q(s["sy"])))
        elif w < .52:
            one = s["ty"] == "BPM" and r.random() < .3; s["rx"], s["ry"], s["ru"] = res(), res(), res()
            if one: s["ry"] = s["rx"]
            if s["ty"] == "BPM": s["ru"] = F(0)
            ops.append(dict(op="res", m=i + 1, x=q(s["rx"]), y=q(s["ry"]), u=q(s["ru"]), one=one))
        elif w < .56:
            if s["ty"] == "BPM": s["resp"] = r.choice([0, 1, 2]); ops.append(dict(op="resp", m=i + 1, r=s["resp"]))
        elif w < .60:
            if s["ty"] == "BPM": ops.append(dict(op="server", m=i + 1, create=r.random() < .7)); s["srv"] = s["srv"] or ops[-1]["create"]
        elif w < .63: bunch()
        elif w < .66 and len(st) < 5: st.append(dict(s, bufs=set(s["bufs"]))); ops.append(dict(op="mcopy", m=i + 1))
        elif w < .68: ops.append(dict(op="noise", on=r.random() < .5))
        elif w < .80: 
            k = [j + 1 for j in range(len(st)) if not (st[j]["ty"] == "RMS" and st[j]["ang"] == "dflt" and False)]
            ops.append(dict(op="pass", ms=r.sample(k, r.randint(1, len(k))), before=q(r.choice([0, 1, F(1, 2)]))))
        elif spread and w < .86:
            z = base(s)
            if z and len(s["bufs"]) + (dflt[s["ty"]] != 0) == 1 and not s["srv"]: ops.append(dict(op="spread", m=i + 1, n=400, seed=r.randint(1, 1 << 30), at=z[0], unit=z[1], sq=s["ty"] == "RMS"))
        else: ops.append(dict(op="measure", m=i + 1))
    return ops
def noises(r, th=False): return monitors(r, th, True)
