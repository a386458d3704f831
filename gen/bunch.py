"""Bunches: histories of operations, slices, files, beams, macroparticles"""
from fractions import Fraction as F
import random
def q(x): x = F(x); return [x.numerator, x.denominator]
HALF = [0, 0, 1, 2, -1, -2, F(1, 2), F(-3, 2), 3]
def particle(r, i, far=False):
    v = [r.choice(HALF) for _ in range(4)] + [F(r.randint(-8, 8), 4), r.choice([0, 0, F(1, 2), F(1, 4), F(-1, 4), F(-1, 2), 1])]
    return dict(v=[q(x) for x in v], id=i)
def ops(r, th=False, slices=False):
    out, nb, n = [], 0, []   # n: particles per bunch
    ids, dirty = [0], set()
    def part(): ids[0] += 1; return particle(r, r.choice([ids[0], ids[0], r.randint(0, 5)]))
    def make(size=None):
        if size is None: size = r.choice([0, 1, 2, 2, 3, 4, 4, 5, 8])
        how = "array" if size else r.choice(["empty", "empty", "default"])
        out.append(dict(op="make", how=how, P0=q(r.choice([1, 2, 5, F(3, 2)])), Q=q(r.choice([1, -1, 4, -2, F(1, 2), 0])), p=[part() for _ in range(size)])); n.append(size)
    make(r.choice([2, 3, 4, 6, 8]))
    for _ in range(r.randint(3, 14 if th else 10)):
        b = r.randrange(len(n)); B = b + 1; w = r.random()
        if any(n[i] == 0 for i in dirty): dirty = {i for i in dirty if n[i]}
        if slices: w = .7 + .3 * w if r.random() < .6 else w
        if w >= .72 and b in dirty: w = .6 # thirds and the like are on bounds only up to rounding
        if w < .07 and len(n) < 3: make()
        elif w < .10 and len(n) < 3: out.append(dict(op="copy", b=B)); n.append(n[b]); dirty |= {len(n) - 1} if b in dirty else set()
        elif w < .12: t = r.randrange(len(n)); out.append(dict(op="assign", b=B, to=t + 1)); n[t] = n[b]; dirty = (dirty | {t}) if b in dirty else dirty - {t}
        elif w < .24: out.append(dict(op="add", b=B, p=part(), how=r.choice(["add", "push"]))); n[b] += 1
        elif w < .29:
            if n[b]: out.append(dict(op="erase", b=B, i=r.randint(1, n[b]))); n[b] -= 1
        elif w < .31: out.append(dict(op="clear", b=B)); n[b] = 0
        elif w < .35: t = r.randrange(len(n)); out.append(dict(op="swap", b=B, to=t + 1)); n[b], n[t] = n[t], n[b]; dirty |= {b, t} if {b, t} & dirty else set()
        elif w < .40: out.append(dict(op="sort", b=B))
        elif w < .43: out.append(dict(op="charge", b=B, q=q(r.choice([1, -1, 0, F(-1, 2), 3]))))
        elif w < .47: k = r.choice(["P0", "T", "dP0", "dT"]); out.append(dict(op="ref", b=B, what=k, x=q(r.choice([1, 2, F(1, 2), 3]) if "P0" in k else r.choice([0, 1, -2, F(5, 2)]))))
        elif w < .55:
            k = r.choice(["d", "mean", "time", "time"]); dirty.add(b)
            if k == "mean" and (n[b] not in (1, 2, 4)): k = "d"
            if k == "time" and n[b] > 6: k = "d"
            out.append(dict(op="adjust", b=B, what=k, d=q(r.choice([1, F(-1, 2), 0, F(1, 4), F(-1, 4)]))))
        elif w < .59:
            if n[b]: dirty.add(b); g = r.random() < .5; out.append(dict(op="centre", b=B, given=g, p=particle(r, 77)))
        elif w < .72: out.append(dict(op="moments", b=B, u=r.randint(0, 5), v=r.randint(0, 5)))
        elif w < .87:
            k = r.choice([1, 2, 4, 4, 8, 3, 5, 6, 7, 10]); z0 = F(r.randint(-10, 4), 4); z1 = z0 + k * r.choice([F(1, 4), F(1, 2), F(1, 8), 1])
            if r.random() < .3: z0, z1, k = F(0), F(1), r.choice([3, 7, 9, 11]) # no particle lies on the inner bounds, which are only approximate
            c = [] if r.random() < .4 else [q(r.choice([0, 1, -1, 2, F(1, 2)])) for _ in range(r.choice([1, 3, 5, 7]))]
            e = r.random() < .3
            out.append(dict(op="slices", b=B, n=k, c=c, edge=e, **{"from": q(z0), "to": q(z1)})); n[b] = 0 if n[b] == 0 and not e else max(n[b], 1)
            # how many are left is not known here: what follows must do for any number
            out.append(dict(op="clear", b=B)); n[b] = 0
            for _ in range(r.randint(0, 4)): out.append(dict(op="add", b=B, p=part(), how="add")); n[b] += 1
        else:
            u = r.randint(0, 5)
            if r.random() < .6: du, k, z0 = r.choice([F(1, 4), F(1, 2), 1, 2]), r.choice([1, 2, 3, 4, 6]), F(r.randint(-4, 2), 2)
            else: (du, k), z0 = r.choice([(F(1, 3), 3), (F(1, 7), 7), (F(1, 9), 9), (F(1, 10), 3), (F(1, 10), 4), (F(1, 5), 3)]), r.choice([F(0), F(-1)])
            cut = r.random() < .5
            out.append(dict(op="histogram", b=B, u=u, du=q(du), norm=r.random() < .5, cut=cut, **{"from": q(z0), "to": q(z0 + k * du)}))
            if cut:
                out.append(dict(op="clear", b=B)); n[b] = 0
                for _ in range(r.randint(0, 4)): out.append(dict(op="add", b=B, p=part(), how="add")); n[b] += 1
    return out
def slice_(r):
    k = lambda: F(r.randint(-6, 6), 4)
    sd = [r.choice([0, F(1, 4), F(1, 2), 1, F(3, 2), 2]) for _ in range(4)]
    c = [[q(sd[i] ** 2) if i == j else q(sd[i] * sd[j] * r.choice([0, 0, F(1, 2), F(-1, 2), F(1, 4)])) for j in range(i + 1)] for i in range(4)]
    return dict(q=q(r.choice([1, 1, 2, F(1, 2), 3, -1, -2])), m=[q(k()) for _ in range(4)] + [q(k()), q(r.choice([0, F(1, 4), F(-1, 4), F(1, 2), F(-1, 2), 1]))], c=c)
TURN = [(F(3, 5), F(4, 5)), (F(4, 5), F(-3, 5)), (0, 1), (0, -1), (-1, 0), (F(5, 13), F(12, 13))]
def macros(r, th=False):
    sgn = r.choice([1, 1, -1])
    out = [dict(op="smake", ref=q(r.choice([1, 2, 5, F(3, 2)])), charge=q(r.choice([1, -1, 0])))]
    tot, short = F(0), True
    def add():
        nonlocal tot
        s = slice_(r); s["q"][0] = abs(s["q"][0]) * sgn; out.append(dict(op="sadd", given=s, sort=r.random() < .4)); tot += F(*s["q"])
    for _ in range(r.randint(1, 5)): add()
    for _ in range(r.randint(2, 10 if th else 7)):
        w = r.random()
        if w < .15: add()
        elif w < .25: out.append(dict(op="ssort"))
        elif w < .32: out.append(dict(op="sshift", p=dict(v=[q(F(r.randint(-4, 4), 4)) for _ in range(5)] + [q(r.choice([0, F(1, 4), F(1, 2)]))], id=0)))
        elif w < .38: k = r.choice(["P0", "T"]); out.append(dict(op="sref", what=k, x=q(r.choice([1, 2, F(5, 2)]))))
        elif w < .55: out.append(dict(op="sadjust", what=r.choice(["mean", "time"]))); short = False
        elif w < .65: x = r.random() < .2; c, s = (1, 0) if x else r.choice(TURN); out.append(dict(op="sturn", x=q(r.choice([0, 1, F(-1, 2)])), y=q(r.choice([0, 1, F(1, 2)])), u=[q(c), q(s)])); short = short and x
        elif w < .85: out.append(dict(op="smoments", u=r.randint(0, 5), v=r.randint(0, 5)))
        elif short: out.append(dict(op="sfile"))
    return out
ROT = [(F(3, 5), F(4, 5)), (F(4, 5), F(3, 5)), (F(4, 5), F(-3, 5)), (F(12, 13), F(5, 13)), (0, 1)]
HYP = [(F(5, 4), F(3, 4)), (F(5, 3), F(-4, 3)), (F(13, 12), F(5, 12))]
def beam(r, zero=False):
    R = [1, 1, 2, F(1, 2), 4]
    C, cs = [0, 0, 0, 0], (1, 0, "cos")
    if r.random() < .55:
        while True:
            C = [r.choice([0, 1, -1, 2, F(1, 2)]) for _ in range(4)]; d = C[1] * C[2] - C[0] * C[3]
            if d == 1: cs = r.choice(ROT[:4]) + ("cos",); break
            if d == -1: cs = r.choice(HYP) + ("cosh",); break
    disp = [r.choice([0, 0, 1, F(-1, 2)]) for _ in range(4)] if r.random() < .6 else [0] * 4
    e = r.choice([(1, 2), (2, 1), (1, F(1, 2)), (3, 1), (1, 1)]) if cs[1] == 0 else r.choice([(1, 2), (2, 1), (1, F(1, 2)), (3, 1)])
    return dict(bx=q(r.choice(R)), by=q(r.choice(R)), ax=q(r.choice([0, 1, F(-1, 2), 2])), ay=q(r.choice([0, -1, F(1, 2)])), ex=q(e[0]), ey=q(e[1]),
                sdp=q(r.choice([F(1, 2), 1, 2] + ([0] if zero else []))), sz=q(r.choice([0, 1, F(1, 2)])), c=[q(r.choice([0, 0, 1, F(-1, 2)])) for _ in range(5)],
                P0=q(r.choice([1, 5, 7])), Q=q(r.choice([1, -1, 2, 3])), D=[q(x) for x in disp], C=[q(x) for x in C], cs=[q(cs[0]), q(cs[1]), cs[2]])
def beams(r, th=False):
    out = []
    for _ in range(r.randint(1, 3)):
        if r.random() < .55: out.append(dict(op="sigma", beam=beam(r, True)))
        else:
            b = beam(r, True); f = r.choice(["", "", "odd", "x", "y"]); n = r.choice([1, 2, 3, 5, 6])
            V = [0, 1, -1, F(1, 2), F(-1, 2), 2, -2]
            ps = [dict(v=[q(r.choice(V)) for _ in range(6)], id=r.randint(0, 9)) for _ in range(r.randint(2, 6))]
            # one on each side certainly gets through
            if f in ("odd", "x", "y"):
                b["C"], b["cs"] = [q(0)] * 4, [q(1), q(0), "cos"]
                b["D"] = [q(0)] * 4; b["c"] = [q(x) for x in (r.choice([0, F(1, 3)]), F(1, 7), r.choice([0, F(1, 3)]), 0, 0)]
                b["ax"] = q(0)
                ps += [dict(v=[q(s * 60)] + [q(s * F(1, 2))] + [q(s * 60)] + [q(1)] * 3, id=1) for s in (1, -1)]
            # limits are met exactly or not at all
            orb, lim = r.choice([(0, 0), (0, 1), (0, F(1, 2)), (0, 4), (1, 1), (1, 2), (-1, 1)])
            if f and (b["c"][0] != [0, 1] or b["c"][2] != [0, 1]) or r.random() < .3: orb, lim = r.choice([0, F(1, 3)]), r.choice([F(2, 5), F(7, 5), F(21, 5), F(12, 5)])
            out.append(dict(op="generate", beam=b, p=ps, n=n, filter=f, lim=q(lim), orb=q(orb)))
    return out
import struct
def ctok(x):
    x = float(x); s = "-" if struct.pack(">d", x)[0] & 128 else ""; x = abs(x)
    if x == 0: return s + "0x0p+0"
    m, e = x.hex().split("p"); m = m.rstrip("0").rstrip("."); return s + m + "p" + e
def fnum(r, short):
    if short: return r.choice([0.0, 0.5, -1.25, 3.0, 0.0625, -7.75, 1.0, -0.0, 1024.0])
    w = r.random()
    if w < .15: return r.choice([0.0, -0.0, 1.0, 0.1, -0.1, 1 / 3, 2.0 ** 52 + 1, 1e-300, -1e300, 5e-5, 123456789.123456789])
    return r.uniform(-1, 1) * 10.0 ** r.randint(-12, 6)
def files(r, th=False):
    out, n, vecs = [], 0, False
    def mk(size=None):
        nonlocal n
        short = vecs; n = r.choice([0, 1, 2, 3, 5]) if size is None else size
        # a bunch is read as all of its charge, unlike what an empty one has
        out.append(dict(op="fmake", P0=ctok(r.choice([7.0, 450.0, 6500.1234567890123, 1 / 3, r.uniform(1, 7000)]) if not short else 7.0), T=ctok(0.0 if short else r.choice([0.0, 1.5, -1e-9, r.uniform(-1e4, 1e4)])),
                        Q=q(r.choice([1, -1, 4, F(1, 2)])), p=[[ctok(fnum(r, short)) for _ in range(6)] + [r.choice([0, 1, k, 77, 123456789, -3])] for k in range(n)]))
    def row():
        nonlocal_row = [r.choice([0.0, 1.5, -2.0, 1e-9]), r.choice([7.0, 450.0, 0.1])] + [fnum(r, False) for _ in range(6)]
        sep = r.choice([" ", "  ", "\t", "      "]); fmt = r.choice(["%r", "%.17g", "%.16e", "%+.17g"])
        return [ctok(x) for x in nonlocal_row], r.choice(["", " ", "\t"]) + sep.join((repr(x) if fmt == "%r" else fmt % x) for x in nonlocal_row) + r.choice(["", "", " ", "  "])
    for _ in range(r.randint(1, 3)):
        vecs = r.random() < .25
        out.append(dict(op="fnew")); mk(r.choice([1, 2, 4]) if vecs else None)
        pend = 0
        for _ in range(r.randint(1, 4)):
            w = r.random()
            if vecs: out.append(dict(op="fwrite", how="vectors", fmt=r.random() < .3, i=0, pre=[])); pend += n
            elif w < .5: out.append(dict(op="fwrite", how=r.choice(["plain", "header", "bare"]), fmt=r.random() < .4, i=0, pre=[])); pend += n
            elif w < .6 and n: # a line of which one particle is the rest
                a, b = r.choice([0.0, 1.5]), r.choice([7.0, 0.25])
                out.append(dict(op="ftext", s="%r %r " % (a, b), rows=[])); out.append(dict(op="fwrite", how="index", fmt=r.random() < .4, i=r.randint(1, n), pre=[ctok(a), ctok(b)])); pend += 1
            elif w < .75: mk()
            else:
                rows, s = [], ""
                for _ in range(r.randint(1, 4)):
                    k = r.random()
                    if k < .25: rows.append([]); s += "\n"
                    elif k < .5: rows.append([]); s += r.choice(["# 1 2 3 4 5 6 7 8", "#", "#T P0"]) + "\n"
                    else: t, x = row(); rows.append(t); s += x + "\n"; pend += 1
                if r.random() < .2 and rows[-1]: # the end of the file ends the line, too
                    out.append(dict(op="ftext", s=s[:-1], rows=rows)); break
                out.append(dict(op="ftext", s=s, rows=rows))
        Q = q(r.choice([1, -2, F(1, 2), 3]))
        if vecs: out.append(dict(op="fread", how="vectors", append=False, Q=Q, P0=ctok(r.choice([7.0, 0.1]))))
        else:
            out.append(dict(op="fread", how="input", append=r.random() < .4, Q=Q, P0=""))
            if r.random() < .3: out.append(dict(op="fread", how="input", append=True, Q=q(r.choice([1, 4])), P0=""))
        n = 0
        if r.random() < .4 and pend: # what was read is written again
            n = 1; out.append(dict(op="fnew")); out.append(dict(op="fwrite", how="bare", fmt=False, i=0, pre=[])); out.append(dict(op="fread", how="input", append=False, Q=Q, P0=""))
    return out
